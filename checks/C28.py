"""C28: equality compares the whole value and nothing else."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat

ck = C.Check("C28")
i = lambda k, v: ("i", k, v)
# ---- representations and differentials
PRE = """#include <ostream>
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/cgs/length.hpp>
#include <boost/units/systems/si/plane_angle.hpp>
#include <boost/units/systems/si/dimensionless.hpp>
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
namespace bu = boost::units; namespace bac = boost::astronomy::coordinate; namespace bgm = boost::geometry;
typedef bu::quantity<bu::si::length> M; typedef bu::quantity<bu::cgs::length> CM; typedef bu::quantity<bu::si::plane_angle> R;
typedef bu::quantity<bu::si::length, float> Mf; typedef bu::quantity<bu::si::plane_angle, float> Rf; typedef bu::quantity<bu::cgs::length, float> CMf;
template <class P> static P raw(P const& p) { return p; }
template <class T, class A, class B> static bool same(A const& a, B const& b) {
    bgm::model::point<T, 3, bgm::cs::cartesian> p, q; bgm::transform(a, p); bgm::transform(b, q);
    int x = bgm::get<0>(p) == bgm::get<0>(q), y = bgm::get<1>(p) == bgm::get<1>(q), z = bgm::get<2>(p) == bgm::get<2>(q);
    return x & y & z; }
"""
V = lambda: {"d%d" % k: F.dvar("v%d" % k) for k in range(6)}


def gen(rng, q):
    one = lambda: rng.choice((0.0, 1.0, -1.0, 0.5, 2.5, rng.uniform(-3, 3)))
    v = [one() for _ in range(6)]
    for k in range(3):
        if rng.random() < .7:
            v[3 + k] = v[k]
    return {"v%d" % k: v[k] for k in range(6)}


REP = {"cartesian_representation": ("M", "M", "M"), "spherical_representation": ("R", "R", "M"), "spherical_equatorial_representation": ("R", "R", "M")}
DIF = {"cartesian_differential": ("M", "M", "M"), "spherical_differential": ("R", "R", "M"), "spherical_equatorial_differential": ("R", "R", "M"), "spherical_coslat_differential": ("R", "R", "M")}
ws = []
for group, get, base in ((REP, "get_point", "rep/base_representation"), (DIF, "get_differential", "diff/base_differential")):
    WH = "include/boost/astronomy/coordinate/%s.hpp: operator==" % base
    obj = lambda cls, name, at, t="double": "const bac::%s<%s%s> %s(%s);" % (cls, t, "".join(", " + u + ("f" if t == "float" else "") for u in group[cls]), name, ", ".join("%s%s::from_value(in_d(%d))" % (u, "f" if t == "float" else "", at + k) for k, u in enumerate(group[cls])))
    for A_ in group:
        for B_ in group:
            for ta, tb in (("double", "double"), ("float", "double"), ("double", "float"), ("float", "float")):
                T = "float" if (ta, tb) == ("float", "float") else "double"
                if ta != tb and A_ != B_ and C.TIER == "quick":
                    continue
                n = "eq_%s_%s_%s%s" % (A_, B_, ta[0], tb[0])
                body = obj(A_, "a", 0, ta) + obj(B_, "b", 3, tb) + " out_b(0, (a == b) == same<%s>(a.%s(), b.%s()));" % (T, get, get)
                ws.append(IO.W(n, body, lambda P, I: ([i(0, 1)], "ret"), V, WH, "%s<%s> == %s<%s> is true exactly when all three cartesian components agree" % (A_, ta, B_, tb), gen=gen))
                if (ta, tb) == ("double", "double"):
                    ws.append(IO.W(n + "_sym", obj(A_, "a", 0, ta) + obj(B_, "b", 3, tb) + " out_b(0, (a == b) == (b == a));", lambda P, I: ([i(0, 1)], "ret"), V, WH, "%s == %s gives the same answer both ways" % (A_, B_), gen=gen))
    # different units: the same length must be equal, different lengths must not
    for cls in group:
        us = group[cls]
        other = [u.replace("M", "CM") for u in us]
        mkobj = lambda name, us, v: "const bac::%s<double%s> %s(%s);" % (cls, "".join(", " + u for u in us), name, ", ".join("%s::from_value(%s)" % (u, v if u == "CM" else "1.0") for u in us))
        ws.append(IO.W("units_" + cls, mkobj("a", us, 0) + mkobj("b", other, "1.0") + mkobj("c", other, "100.0") + " out_b(0, a == b); out_b(1, a == c);", lambda P, I: ([i(0, 0), i(1, 1)], "ret"), dict, WH, "%s: 1 m is equal to 100 cm and not to 1 cm" % cls))
# ---- cards
wc = []
WC, WD = F.IO + "card.hpp: card::operator==", F.IO + "header.hpp: header::operator=="
kv = F.kv
both = lambda n=80: {"s0": S.strvar("x", alpha=F.PRINT, fixed=n), "s1": S.strvar("y", alpha=F.PRINT, fixed=n)}


def twogen(n):
    def g(rng, q):
        x = bytearray(rng.choice(b"abc ABC='/ 01") for _ in range(n))
        y = bytearray(x)
        for _ in range(q % 3):
            y[rng.choice((0, n - 1, rng.randrange(n), 7 % n, 8 % n, 9 % n, 10 % n))] = rng.choice(b" xX/")
        if q % 7 == 6:
            y = y.swapcase()
        return {"x": bytes(x), "y": bytes(y)}
    return g


def put(l, name, body, spec, inputs, where, what, **k):
    l.append(IO.W(name, body, spec, inputs, where, what, **k))


yes = lambda P, I: ([i(0, 1)], "ret")
no = lambda P, I: ([i(0, 0)], "ret")
# records KEY = text, same keyword, any text
rec = lambda v, key="KEYWORD": cat(F.lj(F.b(key), 8), F.b("= "), v)
for name, key in (("value", "KEYWORD"), ("comment", "COMMENT"), ("history", "HISTORY"), ("end", "END")):
    put(wc, "card_" + name, "const Card a(S(2)), b(S(3)); out_b(0, (a == b) == (S(0) == S(1)));", yes, lambda key=key: dict(both(70), s2=rec(both(70)["s0"], key), s3=rec(both(70)["s1"], key)), WC, "two %s cards are equal exactly when their records are the same text" % key, gen=twogen(70))
put(wc, "card_key", "const Card a(S(2)), b(S(3)); out_b(0, (a == b) == (S(0) == S(1)));", yes, lambda: {"s0": S.strvar("x", alpha=F.WORD, fixed=8), "s1": S.strvar("y", alpha=F.WORD, fixed=8), "s2": F.lj(cat(S.strvar("x", alpha=F.WORD, fixed=8), F.b("= T")), 80), "s3": F.lj(cat(S.strvar("y", alpha=F.WORD, fixed=8), F.b("= T")), 80)}, WC, "cards with different keywords are different", gen=lambda rng, q: (lambda x: {"x": x, "y": x if q % 2 else x[:7] + b"Z"})(bytes(rng.choice(b"ABC19") for _ in range(8))))
put(wc, "card_asked", "Card a(S(0)), b(S(0)); a.value<int>(); a.keyword(); b.value<double>(); out_b(0, a == b); Card c(a); out_b(1, c == b); out_b(2, b == c); b.set_value(std::string(\"17\")); out_b(3, a == b); b = a; out_b(4, a == b);",
    lambda P, I: ([i(0, 1), i(1, 1), i(2, 1), i(3, 0), i(4, 1)], "ret"), lambda: {"s0": F.card("KEYWORD", F.rj(S.fmt_i(F.ivar("n", 100, 99999)), 20), "note")}, WC, "what was asked of a card before does not matter; a changed value does")
put(wc, "card_made", "Card a; a.create_card(S(0), in_i(0), S(1)); Card b(a.raw_card()); out_b(0, a == b); out_b(1, b == a);", lambda P, I: ([i(0, 1), i(1, 1)], "ret"),
    lambda: {"s0": F.b("KEYWORD"), "s1": F.b("note"), "i0": F.ivar("n", -9999, 99999)}, WC, "a card made from parts equals the card made from its record")
# ---- headers
TWO = "fits_stream fa, fb; fa.set_file(\"f\"); fb.set_file(\"g\"); Header p, q; p.read_header(fa); q.read_header(fb); const Header& a = p; const Header& b = q; "
BASE = [kv("BITPIX", 16), kv("NAXIS", 2), kv("NAXIS1", 3), kv("NAXIS2", 5)]
PRIM, EXT = [kv("SIMPLE", True)] + BASE, [kv("XTENSION", "IMAGE")] + BASE
IX = dict


def hd(name, f, g, body, spec, what, inputs=dict, gen=None):
    put(wc, "header_" + name, TWO + body, spec, inputs, WD, what, files=lambda I: {"f": F.header(f(I)), "g": F.header(g(I))}, gen=gen, tmax=120)


EQ = "out_b(0, a == b); out_b(1, b == a); out_b(2, p == q);"
all1, all0 = (lambda P, I: ([i(0, 1), i(1, 1), i(2, 1)], "ret")), (lambda P, I: ([i(0, 0), i(1, 0), i(2, 0)], "ret"))
TX = lambda: {"s0": S.strvar("x", alpha=F.PRINT, fixed=70), "s1": S.strvar("y", alpha=F.PRINT, fixed=70)}
for nm, front in (("primary", PRIM), ("extension", EXT)):
    for key in ("KEYWORD", "COMMENT"):
        for at in (len(front), 1):
            ins = lambda t, front=front, at=at, key=key: front[:at] + [rec(t, key)] + front[at:]
            hd("%s_%s_%d" % (nm, key.lower(), at), lambda I, ins=ins: ins(I["s0"]), lambda I, ins=ins: ins(I["s1"]), "out_b(0, (a == b) == (S(0) == S(1))); out_b(1, (b == a) == (S(0) == S(1))); out_b(2, (p == q) == (S(0) == S(1)));", all1, "headers are equal exactly when the %s card %d is the same" % (key, at + 1), TX, twogen(70))
    A1, B1 = kv("AKEY", 1), kv("BKEY", 2)
    hd(nm + "_same", lambda I, front=front: front + [A1, B1], lambda I, front=front: front + [A1, B1], EQ, all1, "the same cards make equal headers")
    hd(nm + "_order", lambda I, front=front: front + [A1, B1], lambda I, front=front: front + [B1, A1], EQ, all0, "cards in another order make another header")
    hd(nm + "_longer", lambda I, front=front: front + [A1, B1], lambda I, front=front: front + [A1], EQ, all0, "a header with one more card is another header")
    hd(nm + "_dup", lambda I, front=front: front + [A1, kv("AKEY", 3), B1], lambda I, front=front: front + [A1, kv("AKEY", 4), B1], EQ, all0, "a repeated keyword with another value makes another header")
    hd(nm + "_dup0", lambda I, front=front: front + [kv("AKEY", 3), A1], lambda I, front=front: front + [kv("AKEY", 4), A1], EQ, all0, "the first of two cards of one keyword counts")
    hd(nm + "_asked", lambda I, front=front: front + [A1, B1], lambda I, front=front: front + [A1, B1], "p.get_hdu_name(); p.value_of<int>(\"AKEY\"); q.value_of<std::string>(\"BKEY\"); q.contains_keyword(\"AKEY\"); p.card_count(); p.data_size(); " + EQ, all1, "what was asked of a header before does not matter")
    hd(nm + "_copy", lambda I, front=front: front + [A1, B1], lambda I, front=front: front + [A1], "p.get_hdu_name(); q = p; " + EQ + " Header r(p); out_b(3, r == p); r.get_hdu_name(); out_b(4, q == r);", lambda P, I: ([i(k, 1) for k in range(5)], "ret"), "a copy is equal to its original")
hd("kind", lambda I: PRIM, lambda I: EXT, EQ, all0, "a primary header is not an extension header")
hd("name", lambda I: EXT + [kv("EXTNAME", "ONE")], lambda I: EXT + [kv("EXTNAME", "TWO")], EQ, all0, "headers with different names are different")
hd("axis", lambda I: [kv("SIMPLE", True), kv("BITPIX", 16), kv("NAXIS", 1), kv("NAXIS1", 3)], lambda I: [kv("SIMPLE", True), kv("BITPIX", 16), kv("NAXIS", 1), kv("NAXIS1", 4)], EQ, all0, "headers with different axes are different")
if __name__ == "__main__":
    IO.run(ck, PRE, ws, chunk=8, flags=[f for f in IO.PRINT if f != "-fno-inline"], real="print")
    IO.run(ck, F.HEAD, wc, chunk=6)
    ck.finish("Abstract interpretation of the equality operators: on every partition of the comparisons they make, the answer must be the conjunction of the comparisons of the three cartesian coordinates (of the records, of the card sequences), and the same with the operands exchanged.",
              ["bg::transform of Boost.Geometry defines the cartesian coordinates (C06 judges the conversions of the library)", "headers of up to eight cards"], min_obl=150)
