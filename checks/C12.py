"""C12: ill-dimensioned or wrong-kind programs do not compile, well-formed ones do."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, CLANG, INC, run, write, tmp, pmap, err_site, _err1
from vlib import geom as G

PRE = G.PRE + """
#include <string>
#include <boost/units/systems/si/time.hpp>
#include <boost/units/systems/si/mass.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
typedef bu::quantity<bud::plane_angle> Deg; typedef bu::quantity<bu::si::plane_angle> Rad; typedef bu::quantity<bu::si::length> Len;
typedef bu::quantity<bu::si::time> Tim; typedef bu::quantity<bu::si::mass> Mas; typedef bu::quantity<bu::si::velocity> Vel; typedef bu::quantity<bu::si::dimensionless> One;
typedef bu::quantity<bud::plane_angle, int> DegI; typedef bu::quantity<bu::si::length, int> LenI;
typedef bac::cartesian_representation<double, Len, Len, Len> CR; typedef bac::spherical_representation<double, Deg, Deg, Len> SR;
typedef bac::spherical_equatorial_representation<double, Deg, Deg, Len> ER;
typedef bac::cartesian_differential<double, Vel, Vel, Vel> CD; typedef bac::spherical_differential<double, Deg, Deg, Vel> SD;
typedef bac::spherical_equatorial_differential<double, Deg, Deg, Vel> ED; typedef bac::spherical_coslat_differential<double, Deg, Deg, Vel> LD;
"""
COORDS = {"horizon_coord": ("altitude", "azimuth"), "ecliptic_coord": ("lat", "lon"), "galactic_coord": ("lat", "lon"),
          "equatorial_ha_coord": ("ha", "dec"), "equatorial_ra_coord": ("ra", "dec")}
FRAMES = {"icrs": ("dec", "ra"), "cirs": ("dec", "ra"), "geocentric": ("lat", "lon"), "heliocentric": ("lat", "lon"), "galactic": ("b", "l"),
          "supergalactic": ("sgb", "sgl"), "alt_az": ("alt", "az")}
EX = {"Deg": "1.0*bud::degree", "Rad": "1.0*bu::si::radian", "Len": "1.0*bu::si::meter", "Tim": "1.0*bu::si::second", "Mas": "1.0*bu::si::kilogram",
      "Vel": "1.0*bu::si::meter/bu::si::second"}


def cases():
    """(name, rejected program, accepted twin)"""
    out = []

    def rej(n, bad, good):
        out.append((n, bad, good))
    inst = lambda t: "%s x; (void)x;" % t
    for c, (g0, g1) in COORDS.items():
        ok = "bac::%s<double, Deg, Rad>" % c
        T = lambda a, b, s="double": "bac::%s<%s, %s, %s>" % (c, s, a, b)
        for q in ("Len", "Tim", "One"):
            rej("%s_first_%s" % (c, q), inst(T(q, "Deg")), inst(ok))
            rej("%s_second_%s" % (c, q), inst(T("Deg", q)), inst(ok))
        rej("%s_int" % c, inst(T("DegI", "DegI", "int")), inst(ok))
        rej("%s_ctor_len0" % c, "%s x(%s, %s);" % (ok, EX["Len"], EX["Rad"]), "%s x(%s, %s);" % (ok, EX["Deg"], EX["Rad"]))
        rej("%s_ctor_len1" % c, "%s x(%s, %s);" % (ok, EX["Deg"], EX["Len"]), "%s x(%s, %s);" % (ok, EX["Deg"], EX["Rad"]))
        rej("%s_ctor_raw" % c, "%s x(1.0, 2.0);" % ok, "%s x(%s, %s);" % (ok, EX["Deg"], EX["Rad"]))
        rej("%s_ctor_swapped_units" % c, "%s x(%s, %s);" % (ok, EX["Rad"], EX["Deg"]), "%s x(%s, %s);" % (ok, EX["Deg"], EX["Rad"]))
        for k, (g, u, w) in enumerate(((g0, "Deg", "Rad"), (g1, "Rad", "Deg"))):
            rej("%s_set_%s_len" % (c, g), "%s x; x.set_%s(%s);" % (ok, g, EX["Len"]), "%s x; x.set_%s(%s);" % (ok, g, EX[u]))
            rej("%s_set_%s_raw" % (c, g), "%s x; x.set_%s(1.0);" % (ok, g), "%s x; x.set_%s(%s);" % (ok, g, EX[u]))
            rej("%s_get_%s_len" % (c, g), "%s x; Len l = x.get_%s();" % (ok, g), "%s x; %s l = x.get_%s();" % (ok, u, g))
    # three-component classes
    for c, (gs, comb, kind) in G.CLS.items():
        isrep = c.endswith("representation")
        third = "Len" if isrep else "Vel"
        T = lambda a, b, d, s="double": "bac::%s<%s, %s, %s, %s>" % (c, s, a, b, d)
        if kind == "lll":
            ok = T("Len", "Len", "Len")
            for k in range(3):
                for q in ("Tim", "Deg"):
                    l = ["Len"] * 3
                    l[k] = q
                    rej("%s_mixed%d_%s" % (c, k, q), inst(T(*l)), inst(ok))
            u = ["Len"] * 3
        else:
            ok = T("Deg", "Rad", third)
            for q in ("Len", "Tim", "One"):
                rej("%s_first_%s" % (c, q), inst(T(q, "Deg", third)), inst(ok))
                rej("%s_second_%s" % (c, q), inst(T("Deg", q, third)), inst(ok))
            rej("%s_int" % c, inst(T("DegI", "DegI", "LenI", "int")), inst(ok))
            u = ["Deg", "Rad", third]
        args = ", ".join(EX[x] for x in u)
        for k in range(3):
            l = [EX[x] for x in u]
            l[k] = EX["Mas"]
            rej("%s_ctor_mass%d" % (c, k), "%s x(%s);" % (ok, ", ".join(l)), "%s x(%s);" % (ok, args))
            rej("%s_set_%s_mass" % (c, gs[k]), "%s x; x.set_%s(%s);" % (ok, gs[k], EX["Mas"]), "%s x; x.set_%s(%s);" % (ok, gs[k], EX[u[k]]))
            rej("%s_set_%s_raw" % (c, gs[k]), "%s x; x.set_%s(1.0);" % (ok, gs[k]), "%s x; x.set_%s(%s);" % (ok, gs[k], EX[u[k]]))
            rej("%s_get_%s_mass" % (c, gs[k]), "%s x; Mas l = x.get_%s();" % (ok, gs[k]), "%s x; %s l = x.get_%s();" % (ok, u[k], gs[k]))
        rej("%s_ctor_raw" % c, "%s x(1.0, 1.0, 1.0);" % ok, "%s x(%s);" % (ok, args))
        # conversion between kinds and dimensions
        same = {True: ["CR", "SR", "ER"], False: ["CD", "SD", "ED", "LD"]}
        tgt = ok if isrep else (T("Vel", "Vel", "Vel") if kind == "lll" else T("Deg", "Rad", "Vel"))
        for o in same[isrep]:
            for q in ("Tim", "Mas"):
                bad = T(q, q, q) if kind == "lll" else T("Deg", "Rad", q)
                rej("%s_%s_from_%s" % (c, q, o), "%s s; %s x(s);" % (o, bad), "%s s; %s x(s);" % (o, tgt))
        for o in same[not isrep]:
            other = ("bac::%s<double, Len, Len, Len>" % c if kind == "lll" else "bac::%s<double, Deg, Rad, %s>" % (c, third))
            mate = {"CD": "bac::cartesian_differential<double, Len, Len, Len>", "SD": "bac::spherical_differential<double, Deg, Deg, Len>",
                    "ED": "bac::spherical_equatorial_differential<double, Deg, Deg, Len>", "LD": "bac::spherical_coslat_differential<double, Deg, Deg, Len>"}.get(o, o)
            lt = "bac::%s<double, Len, Len, Len>" % c if kind == "lll" else "bac::%s<double, Deg, Rad, Len>" % c
            rej("%s_from_%s" % (c, o), "%s s; %s x(s);" % (mate, lt), "%s s; %s x(s);" % (same[isrep][0], tgt))
        rej("%s_from_string" % c, "std::string s; %s x(s);" % tgt, "%s s; %s x(s);" % (same[isrep][0], tgt))
        rej("%s_from_double" % c, "double s = 1; %s x(s);" % tgt, "%s s; %s x(s);" % (same[isrep][0], tgt))
    rej("to_representation_diff", "SR s; auto x = s.to_representation<SD>();", "SR s; auto x = s.to_representation<CR>();")
    rej("to_representation_double", "SR s; auto x = s.to_representation<double>();", "SR s; auto x = s.to_representation<ER>();")
    rej("to_differential_rep", "SD s; auto x = s.to_differential<SR>();", "SD s; auto x = s.to_differential<CD>();")
    rej("to_differential_double", "SD s; auto x = s.to_differential<double>();", "SD s; auto x = s.to_differential<CD>();")
    rej("diff_unit_vector_rep", "SD s; auto x = s.unit_vector<CR>();", "SD s; auto x = s.unit_vector<CD>();")
    for n, d in (("representation", "bac::base_representation"), ("differential", "bac::base_differential")):
        for k in (1, 4):
            rej("base_%s_dim%d" % (n, k), inst("%s<%d, bg::cs::cartesian, double>" % (d, k)), inst("%s<3, bg::cs::cartesian, double>" % d))
    rej("base_representation_string", inst("bac::base_representation<3, bg::cs::cartesian, std::string>"), inst("bac::base_representation<2, bg::cs::cartesian, float>"))
    # addition of different dimensions
    for c in ("cartesian_representation", "cartesian_differential"):
        rej("%s_plus_dim" % c, "bac::%s<double, Len, Len, Len> a; bac::%s<double, Tim, Tim, Tim> b; auto x = a + b;" % (c, c),
            "bac::%s<double, Len, Len, Len> a; bac::%s<double, Len, Len, Len> b; auto x = a + b;" % (c, c))
    for c in ("spherical_representation", "spherical_equatorial_representation", "spherical_differential", "spherical_equatorial_differential", "spherical_coslat_differential"):
        rej("%s_plus_dim" % c, "bac::%s<double, Deg, Deg, Len> a; bac::%s<double, Deg, Deg, Tim> b; auto x = a + b;" % (c, c),
            "bac::%s<double, Deg, Deg, Len> a; bac::%s<double, Deg, Deg, Len> b; auto x = a + b;" % (c, c))
    for fn in ("sum", "mean"):
        rej("%s_dim" % fn, "SR a; bac::spherical_representation<double, Deg, Deg, Tim> b; auto x = bac::%s(a, b);" % fn, "SR a; ER b; auto x = bac::%s(a, b);" % fn)
    rej("rep_plus_diff", "CR a; bac::cartesian_differential<double, Len, Len, Len> b; CR x = a + b;", "CR a; CR b; CR x = a + b;")
    rej("dot_dimension", "SR a, b; Len x = bac::dot(a, b);", "SR a, b; bu::quantity<bu::si::area> x = bac::dot(a, b);")
    rej("magnitude_dimension", "SR a; Tim x = bac::magnitude(a);", "SR a; Len x = bac::magnitude(a);")
    rej("times_dt_dimension", "CD a; CD x = a * (1.0 * bu::si::second);", "CD a; bac::cartesian_differential<double, Len, Len, Len> x = a * (1.0 * bu::si::second);")
    # frames
    for f, (la, lo) in FRAMES.items():
        F = lambda r, d: "bac::%s<%s, %s>" % (f, r, d)
        ok = F("SR", "LD")
        for r in ("CR", "ER", "SD", "double"):
            rej("%s_rep_%s" % (f, r), inst(F(r, "LD")), inst(ok))
        for d in ("CD", "SD", "ED", "SR"):
            rej("%s_diff_%s" % (f, d), inst(F("SR", d)), inst(ok))
        rej("%s_ctor_diff" % f, "LD d; %s x(d);" % ok, "SR d; %s x(d);" % ok)
        rej("%s_ctor_reprep" % f, "SR r; %s x(r, r);" % ok, "SR r; LD d; %s x(r, d);" % ok)
        rej("%s_ctor_diffdiff" % f, "LD d; %s x(d, d);" % ok, "SR r; LD d; %s x(r, d);" % ok)
        rej("%s_set_%s_len" % (f, la), "%s x; x.set_%s(%s);" % (ok, la, EX["Len"]), "%s x; x.set_%s(%s);" % (ok, la, EX["Deg"]))
        rej("%s_set_%s_len" % (f, lo), "%s x; x.set_%s(%s);" % (ok, lo, EX["Len"]), "%s x; x.set_%s(%s);" % (ok, lo, EX["Deg"]))
        rej("%s_set_distance_deg" % f, "%s x; x.set_distance(%s);" % (ok, EX["Deg"]), "%s x; x.set_distance(%s);" % (ok, EX["Len"]))
        S = "bac::sky_point<%s >" % ok
        rej("%s_sky_reprep" % f, "SR r; %s x(r, r);" % S, "SR r; LD d; %s x(r, d);" % S)
        rej("%s_sky_diffdiff" % f, "LD d; %s x(d, d);" % S, "SR r; LD d; %s x(r, d);" % S)
        rej("%s_sky_len" % f, "%s x(%s, %s, %s);" % (S, EX["Len"], EX["Deg"], EX["Len"]), "%s x(%s, %s, %s);" % (S, EX["Deg"], EX["Deg"], EX["Len"]))
    for t in ("SR", "LD", "double", "std::string"):
        rej("sky_point_%s" % t.replace("::", "_"), inst("bac::sky_point<%s>" % t), inst("bac::sky_point<bac::icrs<SR, LD> >"))
    return out


def main():
    ck = Check("C12")
    hdr = write("c12.hpp", PRE)
    pch = os.path.join(tmp(), "c12.pch")
    base = [CLANG, "-std=c++14", "-I" + INC, "-w", "-include", "cstdint"]
    r = run(base + ["-x", "c++-header", hdr, "-o", pch])
    if r.returncode:
        print(_err1(r.stderr))
        ck.errors.append("prelude does not compile: " + _err1(r.stderr))
        ck.finish("", min_obl=1)
    cs = cases()
    progs = {}
    for n, b, g in cs:
        progs.setdefault(b, []).append((n, "reject"))
        progs.setdefault(g, []).append((n, "accept"))
    keys = list(progs)

    def one(k):
        src = write("p%d.cpp" % k, "void f() { %s }\n" % keys[k])
        r = run(base[:-2] + ["-include-pch", pch, "-fsyntax-only", "-ferror-limit=4", src])
        return r.returncode == 0, r.stderr
    res = dict(zip(keys, pmap(one, range(len(keys)))))
    if not any(res[g][0] for n, b, g in cs):
        ck.errors.append("no accepted twin compiles")
    for n, b, g in cs:
        ck.count("programs", 2)
        if not res[g][0]:
            ck.bad(n + ".accept", err_site(res[g][1]), "well-formed program is rejected: %s -- %s" % (g, _err1(res[g][1])), code=g)
        else:
            ck.ok(n + ".accept", g)
        if res[b][0]:
            ck.bad(n + ".reject", "include/boost/astronomy", "ill-formed program compiles: " + b, code=b)
        else:
            ck.ok(n + ".reject", "%s -- %s" % (b, _err1(res[b][1])[:160]))
    ck.finish(rule="Compile-fail witnesses: each rejected program (wrong dimension, wrong kind of argument, non-floating scalar, raw number for a quantity) must fail semantic analysis by clang against "
              "the current headers, and its well-formed twin differing only in the offending type must pass.",
              assumptions=["the rejection shown by clang 18 in C++14 mode is representative of conforming compilers"], min_obl=300)


if __name__ == "__main__":
    main()
