"""C18: reading a header yields exactly the cards of the file and the facts derived from them."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat, slen, sub, add, mulc

ck = C.Check("C18")
ws = []
WH = F.IO + "header.hpp: header::"
OPEN = "fits_stream fs; fs.set_file(\"f\"); Header h; h.read_header(fs); "
kv, card = F.kv, F.card
DIM = lambda n: F.ivar(n, 0, 40000)
num = lambda key, x, com=None: card(key, F.rj(S.fmt_i(x), 20), com)
i = lambda k, v: ("i", k, v)


def com(name, n):
    return S.strvar(name, alpha=F.PRINT, fixed=n)


def put(name, body, spec, inputs, cards, what, where="read_header", tail=lambda I: F.b(""), **k):
    ws.append(IO.W(name, OPEN + body, spec, inputs, WH + where, what, files=lambda I: {"f": cat(F.header(cards(I)), tail(I))}, **k))


# ---- BITPIX
ENUM = [(8, "B8"), (16, "B16"), (32, "B32"), (-32, "_B32"), (-64, "_B64")]
for v, nm in ENUM:
    put("bitpix_" + nm, "O(0, h.bitpix() == bitpix::%s);" % nm, lambda P, I: ([i(0, 1)], "ret"), dict, lambda I, v=v: [kv("SIMPLE", True), kv("BITPIX", v, "bits"), kv("NAXIS", 0)], "BITPIX %d" % v)


def bad(P, I):
    for v, _ in ENUM:
        if P.eqi(I["i0"], v):
            return [i(0, 1)], "ret"
    return [], "throw:fits_exception"


put("bitpix_any", "O(0, 1);", bad, lambda: {"i0": F.ivar("bp", -100, 100)}, lambda I: [kv("SIMPLE", True), num("BITPIX", I["i0"]), kv("NAXIS", 0)], "a BITPIX outside the standard's values is rejected")

# ---- axes
for n in (0, 1, 2, 3, 4):
    def inp(n=n):
        return {"i%d" % k: DIM("n%d" % (k + 1)) for k in range(n)}

    def cards(I, n=n):
        return [kv("SIMPLE", True), kv("BITPIX", 16), kv("NAXIS", n)] + [num("NAXIS%d" % (k + 1), I["i%d" % k], "axis") for k in range(n)] + [kv("EXTEND", True)]

    def prod(I, n=n):
        if not n:
            return 0
        r = I["i0"]
        for k in range(1, n):
            r = mk("mul", 64, *sorted((r, I["i%d" % k]), key=lambda t: t.id))
        return r

    def gen(rng, q, n=n):
        return {"n%d" % (k + 1): rng.choice((0, 1, 2, 3, 7, 100, rng.randrange(40000))) if q % 3 else rng.randrange(1, 50) for k in range(n)}
    body = "O(0, h.total_dimensions()); auto a = h.all_naxis(); O(1, a.size()); for (std::size_t k = 0; k < a.size(); ++k) O(2 + k, a[k]); " + "".join("O(%d, h.naxis(%d)); " % (10 + k, k + 1) for k in range(n)) + "O(20, h.data_size()); O(21, h.card_count()); O(22, fs.get_current_pos());"
    put("axes_%d" % n, body, lambda P, I, n=n, prod=prod: ([i(0, n), i(1, n)] + [i(2 + k, I["i%d" % k]) for k in range(n)] + [i(10 + k, I["i%d" % k]) for k in range(n)] + [i(20, prod(I)), i(21, 4 + n), i(22, 80 * (5 + n))], "ret"), inp, cards, "%d axes: dimensions, element count, card count" % n, gen=gen)
# ---- values by keyword
VI = lambda: {"i0": F.ivar("x", -2 ** 31, 2 ** 31 - 1), "i1": F.ivar("y", 0, 10 ** 6), "t": F.text("t", hi=20)}


def vcards(I, bool_="T"):
    return [kv("SIMPLE", True, "standard"), kv("BITPIX", 8), kv("NAXIS", 1), kv("NAXIS1", 7), F.lj(cat(F.b("COMMENT "), com("cm", 72)), 80), card("KI", F.rj(S.fmt_i(I["i0"]), 20), com("c1", 40)), F.lj(cat(F.b("HISTORY "), com("hi", 72)), 80),
            card("KS", cat(F.b("'"), F.lj(I["t"], 24), F.b("'")), com("c2", 30)), card("KU", F.rj(S.fmt_i(I["i1"]), 20)), kv("KB", False), F.rep(80, 32) if hasattr(F, "rep") else S.rep(80, 32), kv("ENDING", 5), kv("LAST", 3)]


put("values", "O(0, h.value_of<int>(\"KI\")); O(1, h.value_of<std::string>(\"KS\")); O(2, h.value_of<std::size_t>(\"KU\")); O(3, h.value_of<bool>(\"KB\")); O(4, h.value_of<int>(\"NAXIS1\")); O(5, h.value_of<int>(\"LAST\")); O(6, h.value_of<bool>(\"SIMPLE\")); O(7, h.card_count()); O(8, h.value_of<int>(\"ENDING\")); O(9, h.value_of<int>(\"KI\"));",
    lambda P, I: ([i(0, I["i0"]), ("s", 1, I["t"]), i(2, I["i1"]), i(3, 0), i(4, 7), i(5, 3), i(6, 1), i(7, 13), i(8, 5), i(9, I["i0"])], "ret"), VI, vcards, "each keyword gives the value of its own card", where="value_of")
put("contains", "O(0, h.contains_keyword(\"KI\")); O(1, h.contains_keyword(\"LAST\")); O(2, h.contains_keyword(\"ABSENT\")); O(3, h.contains_keyword(\"SIMPLE\")); O(4, h.contains_keyword(\"KB\")); O(5, h.contains_keyword(\"K\"));",
    lambda P, I: ([i(0, 1), i(1, 1), i(2, 0), i(3, 1), i(4, 1), i(5, 0)], "ret"), VI, vcards, "contains_keyword is exact", where="contains_keyword")
put("missing", "O(0, h.value_of<int>(\"ABSENT\"));", lambda P, I: ([], "throw:out_of_range|key_not_defined_exception|fits_exception"), VI, vcards, "a keyword that is not there is reported", where="value_of")
put("name_primary", "O(0, h.get_hdu_name());", lambda P, I: ([("s", 0, F.b("primary_hdu"))], "ret"), VI, vcards, "HDU name of a primary header", where="get_hdu_name")
for x in ("TABLE", "BINTABLE", "IMAGE"):
    put("name_" + x, "O(0, h.get_hdu_name()); O(1, h.get_hdu_name());", lambda P, I, x=x: ([("s", 0, F.b(x)), ("s", 1, F.b(x))], "ret"), dict, lambda I, x=x: [kv("XTENSION", x, "ext"), kv("BITPIX", 8), kv("NAXIS", 0)], "HDU name of a %s extension" % x, where="get_hdu_name")
# ---- cards are kept verbatim, in order
put("verbatim", "fits_stream o; o.create_file(\"g\"); h.write_header(o); O(0, FILE_(\"g\"));", lambda P, I: ([("s", 0, F.header(vcards(I)))], "ret"), VI, vcards, "the cards are kept verbatim and in order", where="write_header")
put("copy", "Header g = h; O(0, g == h); O(1, g.value_of<int>(\"KI\")); O(2, g.card_count()); O(3, g.naxis(1));", lambda P, I: ([i(0, 1), i(1, I["i0"]), i(2, 13), i(3, 7)], "ret"), VI, vcards, "a copied header equals its source", where="operator==")
# ---- END is found wherever it is, nothing after it is consumed
for n in (1, 31, 32, 33, 36, 40, 68) if C.TIER == "quick" else (1, 2, 5, 31, 32, 33, 34, 35, 36, 40, 67, 68, 69, 105):
    put("end_%d" % n, "O(0, h.card_count()); O(1, fs.get_current_pos()); O(2, h.value_of<int>(\"K%d\"));" % (n - 1), lambda P, I, n=n: ([i(0, n + 3), i(1, 80 * (n + 4)), i(2, n - 1 + 100)], "ret"),
        dict, lambda I, n=n: [kv("SIMPLE", True), kv("BITPIX", 8), kv("NAXIS", 0)] + [kv("K%d" % k, 100 + k, "c") for k in range(n)], "header of %d cards ends at its END card" % (n + 4), tail=lambda I: S.strvar("data", lo=0, hi=6000), tmax=120)
IO.run(ck, F.ALL, ws, chunk=6)
ck.finish("Abstract interpretation of header, card, card_policy and fits_stream over string terms, reading a file whose cards have symbolic values, comments, commentary text and following data: the derived facts (BITPIX, axes, element count, card count, values by keyword, HDU name) must be the terms the cards hold, and writing must give the cards back.",
          ["headers of the shapes listed in the check; keywords are literal, values and texts symbolic"], min_obl=25)
