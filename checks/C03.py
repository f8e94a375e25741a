"""C03: reference frames and sky_point keep position, motion and frame attributes; separation and position angle."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip, TIER
from vlib import geom as G
from vlib.terms import var, mk, sqrt, acos, atan2, sin, cos

PRE = G.PRE + """
#include <cstring>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
namespace pt = boost::posix_time;
inline pt::ptime mkt(long long n) { static_assert(sizeof(pt::ptime) == sizeof n, ""); pt::ptime p; std::memcpy((void*)&p, &n, sizeof n); return p; }
inline double rdt(pt::ptime const& p) { long long n; std::memcpy(&n, &p, sizeof n); return (double)n; }
"""
# frame -> (lat name, lon name, motion names)
FR = {
    "icrs": ("dec", "ra", "pm_dec", "pm_ra_cosdec"), "cirs": ("dec", "ra", "pm_dec", "pm_ra_cosdec"),
    "geocentric": ("lat", "lon", "pm_lat", "pm_lon_coslat"), "heliocentric": ("lat", "lon", "pm_lat", "pm_lon_coslat"),
    "galactic": ("b", "l", "pm_b", "pm_l_cosb"), "supergalactic": ("sgb", "sgl", "pm_sgb", "pm_sgl_cossgb"),
    "alt_az": ("alt", "az", "pm_alt", "pm_az_cosalt"),
}
CFG = [(("deg", "deg", "m"), ("deg", "deg", "kps")), (("rad", "deg", "pc"), ("deg", "rad", "mps")), (("deg", "rad", "km"), ("rad", "rad", "kps")),
       (("rad", "rad", "m"), ("rad", "deg", "m"))]
V = {n: var(n) for n in "abcdefghijkl"}
PA, PB = "abc", "ghi"      # two positions
MA, MB = "def", "jkl"      # two motions
LOC = "bac::spherical_equatorial_representation<double, bu::quantity<bud::plane_angle>, bu::quantity<bud::plane_angle> >"


def same(dm):
    """two equal or opposite positions: the cosine is +-1 up to rounding"""
    def pick(r):
        e = {x: dm[x](r) for x in PA}
        e.update({y: e[x] for x, y in zip(PA, PB)})
        return e
    return pick


def snips():
    out = []
    for fr, (la, lo, pl, po) in FR.items():
        tp = "%s_%s_dist" % (la, lo)
        tm = "pm_%s_%s_radial" % (la, lo)
        for ci, (ru, du) in enumerate(CFG):
            R, D = G.ty("spherical_representation", ru), G.ty("spherical_coslat_differential", du)
            T = "bac::%s<%s, %s>" % (fr, R, D)
            n0 = "%s_%s" % (fr, "_".join(ru + du))
            qs = lambda us, ns: ", ".join(G.val(u, x) for u, x in zip(us, ns))

            def P(ns):
                return [("double", x) for x in ns]

            def add(nm, ns, body, spec, what, **k):
                out.append(Snip(n0 + "_" + nm, P(ns) if isinstance(ns, str) else ns, body, spec, "%s %s %s: %s" % (fr, ru, du, what), **k))

            def rd(o, base=0):
                s = "".join("o[%d]=V(%s.get_%s()); " % (base + k, o, g) for k, g in enumerate((la, lo, "distance", pl, po, "radial_velocity")))
                return s

            def rdt(o, base=6):
                return ("{ auto t=%s.get_%s(); auto u=%s.get_%s(); " % (o, tp, o, tm) +
                        "".join("o[%d]=V(std::get<%d>(t)); o[%d]=V(std::get<%d>(u)); " % (base + k, k, base + 3 + k, k) for k in range(3)) + "} ")
            want = [V[x] for x in PA + MA]
            C6 = "%s p(%s, %s); " % (T, qs(ru, PA), qs(du, MA))
            add("ctor6", PA + MA, C6 + rd("p") + rdt("p"), dict(enumerate(want * 2)), "six-component constructor, getters and tuple getters")
            add("ctor3", PA, "%s p(%s); " % (T, qs(ru, PA)) + "o[0]=V(p.get_%s()); o[1]=V(p.get_%s()); o[2]=V(p.get_distance());" % (la, lo),
                dict(enumerate(want[:3])), "three-component constructor")
            add("ctorRD", PA + MA, "%s r(%s); %s m(%s); %s p(r, m); " % (R, qs(ru, PA), D, qs(du, MA), T) + rd("p") + rdt("p"),
                dict(enumerate(want * 2)), "constructor from representation and differential")
            add("ctorR", PA, "%s r(%s); %s p(r); " % (R, qs(ru, PA), T) + "o[0]=V(p.get_%s()); o[1]=V(p.get_%s()); o[2]=V(p.get_distance());" % (la, lo),
                dict(enumerate(want[:3])), "constructor from a representation")
            # other units of the same dimension
            ou = tuple({"deg": "rad", "rad": "deg"}.get(u, "km" if u != "km" else "m") for u in ru)
            om = tuple({"deg": "rad", "rad": "deg", "kps": "mps", "mps": "kps", "m": "km"}[u] for u in du)
            cv = [V[x] * (G.fac(s) / G.fac(t)) for x, s, t in zip(PA + MA, ou + om, ru + du)]
            add("ctorconv", PA + MA, "%s r(%s); %s m(%s); %s p(r, m); " % (
                G.ty("spherical_representation", ou), qs(ou, PA), G.ty("spherical_coslat_differential", om), qs(om, MA), T) + rd("p"),
                dict(enumerate(cv)), "constructor from a representation and differential in other units")
            add("ctorconvR", PA, "%s r(%s); %s p(r); o[0]=V(p.get_%s()); o[1]=V(p.get_%s()); o[2]=V(p.get_distance());" % (
                G.ty("spherical_representation", ou), qs(ou, PA), T, la, lo),
                dict(enumerate(cv[:3])), "constructor from a representation in other units")
            for k, (g, u, x) in enumerate(zip((la, lo, "distance", pl, po, "radial_velocity"), ru + du, PB + MB)):
                w = list(want)
                w[k] = V[x]
                add("set%d" % k, PA + MA + x, C6 + "p.set_%s(%s); " % (g, G.val(u, x)) + rd("p") + rdt("p"), dict(enumerate(w * 2)),
                    "set_%s changes exactly that component" % g)
            add("setp", PA + MA + PB, C6 + "p.set_%s(%s); " % (tp, qs(ru, PB)) + rd("p"), dict(enumerate([V[x] for x in PB + MA])), "set_" + tp)
            add("setm", PA + MA + MB, C6 + "p.set_%s(%s); " % (tm, qs(du, MB)) + rd("p"), dict(enumerate([V[x] for x in PA + MB])), "set_" + tm)
            add("setd", PA + MA + MB, C6 + "p.set_differential(%s(%s)); " % (D, qs(du, MB)) + rd("p"), dict(enumerate([V[x] for x in PA + MB])), "set_differential")
            add("base", PA + MA, C6 + "typedef bac::base_frame<%s, %s> B; B const& b_=p; auto r=b_.get_data(); auto m=b_.get_differential(); auto t=b_.get_proper_motion(); "
                "o[0]=V(r.get_lat()); o[1]=V(r.get_lon()); o[2]=V(r.get_dist()); o[3]=V(m.get_dlat()); o[4]=V(m.get_dlon_coslat()); o[5]=V(m.get_ddist()); "
                "o[6]=V(std::get<0>(t)); o[7]=V(std::get<1>(t)); o[8]=V(b_.get_radial_velocity());" % (R, D),
                dict(enumerate(want + want[3:])), "get_data, get_differential, get_proper_motion, get_radial_velocity of the base")
            add("copy", PA + MA + PB + MB, C6 + "%s q(p); p.set_%s(%s); p.set_%s(%s); %s z; z=q; " % (T, tp, qs(ru, PB), tm, qs(du, MB), T) + rd("q") + rd("z", 6),
                dict(enumerate(want * 2)), "copies are complete and independent")
            # sky_point
            S = "bac::sky_point<%s>" % T
            add("sky6", PA + MA, "%s s(%s, %s); %s p=s.get_point(); " % (S, qs(ru, PA), qs(du, MA), T) + rd("p"), dict(enumerate(want)), "sky_point from six components")
            add("sky3", PA, "%s s(%s); %s p=s.get_point(); o[0]=V(p.get_%s()); o[1]=V(p.get_%s()); o[2]=V(p.get_distance());" % (S, qs(ru, PA), T, la, lo),
                dict(enumerate(want[:3])), "sky_point from three components")
            add("skyRD", PA + MA, "%s r(%s); %s m(%s); %s s(r, m); %s p=s.get_point(); " % (R, qs(ru, PA), D, qs(du, MA), S, T) + rd("p"), dict(enumerate(want)),
                "sky_point from representation and differential")
            add("skyobj", PA + MA + PB + MB, C6 + "%s s(p); %s q(%s, %s); %s s2(p); s2.set_point(q); %s x=s.get_point(); %s y=s2.get_point(); " % (
                S, T, qs(ru, PB), qs(du, MB), S, T, T) + rd("x") + rd("y", 6), dict(enumerate(want + [V[x] for x in PB + MB])), "sky_point from a frame, set_point, get_point")
            # separation: angle between the two position vectors (library convention of spherical_representation)
            A = G.cart_of("spherical_representation", [V[x] for x in PA], ru)
            B = G.cart_of("spherical_representation", [V[x] for x in PB], ru)
            dot = A[0] * B[0] + A[1] * B[1] + A[2] * B[2]
            sep = acos(dot / (sqrt(A[0] * A[0] + A[1] * A[1] + A[2] * A[2]) * sqrt(B[0] * B[0] + B[1] * B[1] + B[2] * B[2])))
            dm = dict(G.wide("spherical_representation", ru, PA))
            dm.update(G.wide("spherical_representation", ru, PB))
            two = "%s p(%s); %s q(%s); " % (T, qs(ru, PA), T, qs(ru, PB))
            pos = [V["c"], V["i"]]
            add("sep", PA + PB, two + "o[0]=V(p.get_angular_separation(q)); %s s(p), t(q); o[1]=V(s.separation(t));" % S, {0: sep, 1: sep},
                "angular separation", domain=dm, pos=pos, tol=1e-8, rounding=same(dm))
            l1, l2 = V["a"] * G.fac(ru[0]), V["g"] * G.fac(ru[0])
            dl = V["h"] * G.fac(ru[1]) - V["b"] * G.fac(ru[1])
            pa = atan2(sin(dl) * cos(l2), sin(l2) * cos(l1) - cos(l2) * sin(l1) * cos(dl))
            add("pa", PA + PB, two + "%s s(p), t(q); o[0]=V(s.positional_angle(t));" % S, {0: pa}, "positional angle", domain=dm, tol=1e-8)
            if ci == 0:
                tn = mk("sitofp", var("n", "i64"))
                ltn = mk("sitofp", var("m", "i64"))
                NP = [("long long", "n"), ("long long", "m")] + P(PA + MA)
                for at in {"cirs": ["obs_time"], "alt_az": ["obs_time"], "geocentric": ["equinox"], "heliocentric": ["equinox"]}.get(fr, []):
                    out.append(Snip(n0 + "_t_" + at, NP, C6 + "p.set_%s(mkt(n)); %s q(p); p.set_%s(mkt(m)); %s z; z=q; o[0]=rdt(p.get_%s()); o[1]=rdt(q.get_%s()); o[2]=rdt(z.get_%s()); " % (
                        at, T, at, T, at, at, at) + rd("p", 3), dict(enumerate([ltn, tn, tn] + want)), "%s: set/get/copy %s leaves the coordinates" % (fr, at)))
                if fr == "alt_az":
                    E = ("%s loc(%s); bu::quantity<bu::si::pressure> pr=bu::quantity<bu::si::pressure>::from_value(d); "
                         "auto te=bu::quantity<bu::celsius::temperature>::from_value(e); bu::quantity<bu::si::dimensionless> hu(f); " % (LOC, "a*bud::degree, b*bud::degree, bu::quantity<bu::si::dimensionless>(c)"))
                    E2 = ("%s loc2(%s); bu::quantity<bu::si::pressure> pr2=bu::quantity<bu::si::pressure>::from_value(j); "
                          "auto te2=bu::quantity<bu::celsius::temperature>::from_value(k); bu::quantity<bu::si::dimensionless> hu2(l); " % (LOC, "g*bud::degree, h*bud::degree, bu::quantity<bu::si::dimensionless>(i)"))

                    def rdp(o, base=0):
                        return ("o[%d]=V(%s.get_location().get_lat()); o[%d]=V(%s.get_location().get_lon()); o[%d]=V(%s.get_location().get_dist()); "
                                "o[%d]=V(%s.get_pressure()); o[%d]=V(%s.get_temprature()); o[%d]=V(%s.get_relative_humidity()); o[%d]=rdt(%s.get_obs_time()); " % (
                                    base, o, base + 1, o, base + 2, o, base + 3, o, base + 4, o, base + 5, o, base + 6, o))
                    TN = [("long long", "n"), ("long long", "m")] + P(PA + MA + PB + MB)
                    ws = [V[x] for x in PA + MA] + [tn]
                    ws2 = [V[x] for x in PB + MB] + [ltn]
                    tup = ("{ auto u=p.get_frame_parameters(); o[7]=V(std::get<0>(u).get_lat()); o[8]=V(std::get<0>(u).get_lon()); o[9]=V(std::get<0>(u).get_dist()); "
                           "o[10]=V(std::get<1>(u)); o[11]=V(std::get<2>(u)); o[12]=V(std::get<4>(u)); o[13]=rdt(std::get<3>(u)); } ")
                    out.append(Snip(n0 + "_fp_set", TN[:1] + TN[2:8], E + "%s p; p.set_frame_parameters(loc, pr, te, mkt(n), hu); " % T + rdp("p") + tup,
                                    dict(enumerate(ws * 2)), "alt_az: set_frame_parameters / getters / get_frame_parameters"))
                    out.append(Snip(n0 + "_fp_copy", TN, E + E2 + "%s p; p.set_frame_parameters(loc, pr, te, mkt(n), hu); %s q(p); p.set_frame_parameters(loc2, pr2, te2, mkt(m), hu2); "
                                    "%s z; z=q; " % (T, T, T) + rdp("q") + rdp("z", 7) + rdp("p", 14), dict(enumerate(ws * 2 + ws2)), "alt_az: copies keep all frame parameters"))
                    for k, (g, a2, ix) in enumerate((("location", "loc2", (0, 1, 2)), ("pressure", "pr2", (3,)), ("temprature", "te2", (4,)),
                                                     ("relative_humidity", "hu2", (5,)), ("obs_time", "mkt(m)", (6,)))):
                        w = list(ws)
                        for x in ix:
                            w[x] = ws2[x]
                        out.append(Snip(n0 + "_fp_set_" + g, TN, E + E2 + "%s p; p.set_frame_parameters(loc, pr, te, mkt(n), hu); p.set_%s(%s); " % (T, g, a2) + rdp("p"),
                                        dict(enumerate(w)), "alt_az: set_%s changes exactly that parameter" % g))
                    out.append(Snip(n0 + "_fp_def", P(PA), "%s p(%s); o[0]=V(p.get_pressure()); o[1]=V(p.get_temprature()); o[2]=V(p.get_relative_humidity());" % (T, qs(ru, PA)),
                                    {0: 0.0, 1: 0.0, 2: 0.0}, "alt_az: default pressure, temperature, humidity are zero"))
    S = lambda f: "bac::sky_point<bac::%s<%s, %s> >" % (f, G.ty("spherical_representation", CFG[0][0]), G.ty("spherical_coslat_differential", CFG[0][1]))
    fs = list(FR)
    body = ""
    sp = {}
    k = 0
    for f in fs:
        for g in fs:
            body += "{ %s x; %s y; o[%d]=x.is_equivalent_system(y) ? 1.0 : 0.0; }\n" % (S(f), S(g), k)
            sp[k] = 1.0 if f == g else 0.0
            k += 1
    out.append(Snip("equiv", [], body, sp, "is_equivalent_system"))
    return out


def main():
    ck = Check("C03")
    sn = snips()
    ck.numeric(PRE, sn, chunk=26)
    ck.finish(rule="For each of the 7 frames x 4 unit configurations: witnesses for every constructor, setter, getter, tuple getter, copy, attribute and the sky_point wrapper are "
              "reduced to value graphs; each component read back must have the canonical form of the component supplied; separation must have the form "
              "acos(a.b/|a||b|) of the two position vectors, with the argument of acos kept within [-1,1] whatever the rounding, and positional_angle the textbook atan2 form.",
              assumptions=["position vectors follow the library's spherical_representation convention (first angle = azimuth, second = polar angle)", "real arithmetic up to relative 1e-7"], min_obl=2000)


if __name__ == "__main__":
    main()
