"""C22: column views read the cells of their column and write through to the table, whatever happened before."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F, tables as TB
from vlib.sterm import mk, cat, slen, add, sub, mulc

ck = C.Check("C22")
ws = []
WV, WB, WA = F.IO + "column_data.hpp: column_view::", F.IO + "binary_table.hpp: ", F.IO + "ascii_table.hpp: "
i = lambda k, v: ("i", k, v)
s = lambda k, v: ("s", k, F.b(v) if isinstance(v, (str, bytes)) else v)
OPEN = "fits_stream fs; fs.set_file(\"f\"); Header h; h.read_header(fs); "
CELLS = "{ const auto& D = static_cast<const decltype(t)&>(t).get_data(); int n = 200; for (auto& r : D) for (auto& x : r) O(n++, x); }"


def cells(fs, base=200):
    return [s(base + k, x) for k, x in enumerate([x for r in fs for x in r])]


# (C++ type, TFORM, bytes per item, [(expression on x, byte offset, bytes, kind)], value to store, its encoding from inputs)
def u8(I_s, o):
    return S.byteat(None, I_s, o)


TY = {
    "i16": ("boost::int16_t", "1I", [("x", 0, 2, "i")], "(boost::int16_t)in_i(0)", lambda I: F.bestr(I["i0"], 2, "i"), lambda I: [i(0, I["i0"])], (-2 ** 15, 2 ** 15 - 1)),
    "i32": ("boost::int32_t", "1J", [("x", 0, 4, "i")], "(boost::int32_t)in_i(0)", lambda I: F.bestr(I["i0"], 4, "i"), lambda I: [i(0, I["i0"])], (-2 ** 31, 2 ** 31 - 1)),
    "f32": ("boost::float32_t", "1E", [("x", 0, 4, "f")], "in_f(0)", lambda I: F.bestr(I["f0"], 4, "f"), lambda I: [("d", 0, I["f0"])], None),
    "f64": ("boost::float64_t", "1D", [("x", 0, 8, "d")], "in_d(0)", lambda I: F.bestr(I["d0"], 8, "d"), lambda I: [("d", 0, I["d0"])], None),
    "desc": ("std::pair<boost::int32_t, boost::int32_t>", "1P", [("x.first", 0, 4, "i"), ("x.second", 4, 4, "i")], "std::make_pair((boost::int32_t)in_i(0), (boost::int32_t)in_i(1))", lambda I: cat(F.bestr(I["i0"], 4, "i"), F.bestr(I["i1"], 4, "i")), lambda I: [i(0, I["i0"]), i(1, I["i1"])], (-2 ** 31, 2 ** 31 - 1)),
    "c32": ("std::complex<boost::float32_t>", "1C", [("x.real()", 0, 4, "f"), ("x.imag()", 4, 4, "f")], "std::complex<float>(in_f(0), in_f(1))", lambda I: cat(F.bestr(I["f0"], 4, "f"), F.bestr(I["f1"], 4, "f")), lambda I: [("d", 0, I["f0"]), ("d", 1, I["f1"])], None),
    "c64": ("std::complex<boost::float64_t>", "1M", [("x.real()", 0, 8, "d"), ("x.imag()", 8, 8, "d")], "std::complex<double>(in_d(0), in_d(1))", lambda I: cat(F.bestr(I["d0"], 8, "d"), F.bestr(I["d1"], 8, "d")), lambda I: [("d", 0, I["d0"]), ("d", 1, I["d1"])], None),
    "vi32": ("std::vector<boost::int32_t>", "3J", [("x[0]", 0, 4, "i"), ("x[1]", 4, 4, "i"), ("x[2]", 8, 4, "i")], "std::vector<boost::int32_t>{(boost::int32_t)in_i(0), (boost::int32_t)in_i(1), 5}", lambda I: cat(F.bestr(I["i0"], 4, "i"), F.bestr(I["i1"], 4, "i"), F.b(b"\0\0\0\5")), lambda I: [i(0, I["i0"]), i(1, I["i1"]), i(2, 5)], (-2 ** 31, 2 ** 31 - 1)),
    "vi16": ("std::vector<boost::int16_t>", "2I", [("x[0]", 0, 2, "i"), ("x[1]", 2, 2, "i")], "std::vector<boost::int16_t>{(boost::int16_t)in_i(0), (boost::int16_t)in_i(1)}", lambda I: cat(F.bestr(I["i0"], 2, "i"), F.bestr(I["i1"], 2, "i")), lambda I: [i(0, I["i0"]), i(1, I["i1"])], (-2 ** 15, 2 ** 15 - 1)),
    "vf32": ("std::vector<boost::float32_t>", "2E", [("x[0]", 0, 4, "f"), ("x[1]", 4, 4, "f")], "std::vector<float>{in_f(0), in_f(1)}", lambda I: cat(F.bestr(I["f0"], 4, "f"), F.bestr(I["f1"], 4, "f")), lambda I: [("d", 0, I["f0"]), ("d", 1, I["f1"])], None),
    "vf64": ("std::vector<boost::float64_t>", "2D", [("x[0]", 0, 8, "d"), ("x[1]", 8, 8, "d")], "std::vector<double>{in_d(0), in_d(1)}", lambda I: cat(F.bestr(I["d0"], 8, "d"), F.bestr(I["d1"], 8, "d")), lambda I: [("d", 0, I["d0"]), ("d", 1, I["d1"])], None),
    "vc64": ("std::vector<std::complex<boost::float64_t>>", "1M", [("x[0].real()", 0, 8, "d"), ("x[0].imag()", 8, 8, "d")], "std::vector<std::complex<double>>{std::complex<double>(in_d(0), in_d(1))}", lambda I: cat(F.bestr(I["d0"], 8, "d"), F.bestr(I["d1"], 8, "d")), lambda I: [("d", 0, I["d0"]), ("d", 1, I["d1"])], None),
}


def base(lim):
    r = {}
    for k in (0, 1):
        lo, hi = lim or (-5, 5)
        r["i%d" % k] = F.ivar("n%d" % k, lo, hi)
        r["d%d" % k] = F.dvar("x%d" % k, 64)
        r["f%d" % k] = F.dvar("y%d" % k, 32)
    return r


def dec(parts, cell, slot=0):
    return [F.ev(k, slot + j, F.be(cell, o, n, k)) for j, (_, o, n, k) in enumerate(parts)]


def sh(ev, slot):
    return [(a, b + slot, c) for a, b, c in ev]


def putb(name, forms, rows, body, spec, extra, where, what, pre="", **k):
    def inp():
        fs, data = TB.bdata(forms, rows)
        return dict(extra(), s0=data)
    ws.append(IO.W(name, OPEN + "binary_table t(h, S(0)); " + body, lambda P, I: spec(P, I, TB.bdata(forms, rows)[0]), inp, where, what, files=lambda I: {"f": F.header(TB.bhead(forms, rows))}, **k))


for nm, (ct, form, parts, val, enc, back, lim) in TY.items():
    nv = len(parts)
    out = lambda slot: "".join("O(%d, %s); " % (slot + j, p[0]) for j, p in enumerate(parts))
    get = lambda v, r, slot: "{ %s x = %s[%s]; %s}" % (ct, v, r, out(slot))
    forms = ["4A", form, "1J"]
    E = lambda lim=lim: base(lim)
    putb("read_" + nm, forms, 3, "auto& v = t.get_column<%s>(\"COL2\"); O(100, v.get_row_count()); O(101, v.get_column_number()); " % ct + get("v", 2, 0) + get("v", 0, 10) + get("v", 1, 20) + get("v", 2, 30) + CELLS,
         lambda P, I, fs, parts=parts: ([i(100, 3), i(101, 2)] + dec(parts, fs[2][1], 0) + dec(parts, fs[0][1], 10) + dec(parts, fs[1][1], 20) + dec(parts, fs[2][1], 30) + cells(fs), "ret"), E, WV + "operator[]<%s>" % ct, "a view of %s reads the cells of its column, in any order and again" % form)
    putb("iter_" + nm, [form, "2A"], 3, "auto& v = t.get_column<%s>(\"COL1\"); int k = 0; for (auto it = v.begin(); it != v.end(); ++it) { %s x = *it; %s k += 10; } O(100, k);" % (ct, ct, "".join("O(k + %d, %s); " % (j, p[0]) for j, p in enumerate(parts))),
         lambda P, I, fs, parts=parts: (dec(parts, fs[0][0], 0) + dec(parts, fs[1][0], 10) + dec(parts, fs[2][0], 20) + [i(100, 30)], "ret"), E, WV + "iterator<%s>" % ct, "iterating over a view visits every row once, in order")

    def wspec(P, I, fs, parts=parts, enc=enc, back=back):
        g = [list(r) for r in fs]
        g[1][1] = enc(I)
        return dec(parts, fs[1][1], 0) + sh(back(I), 10) + dec(parts, fs[0][1], 20) + sh(back(I), 30) + cells(g), "ret"
    putb("write_" + nm, forms, 3, "auto& v = t.get_column<%s>(\"COL2\"); " % ct + get("v", 1, 0) + "v[1] = %s; " % val + get("v", 1, 10) + get("v", 0, 20) + "auto& w = t.get_column<%s>(\"COL2\"); " % ct + get("w", 1, 30) + CELLS,
         wspec, E, WV + "update_value<%s>" % ct, "a value stored through a view of %s is read back and is the only cell of the table that changes" % form)

    def wspec2(P, I, fs, enc=enc, back=back):
        g = [list(r) for r in fs]
        g[2][1] = enc(I)
        return sh(back(I), 0) + cells(g), "ret"
    putb("write_unread_" + nm, forms, 3, "auto& v = t.get_column<%s>(\"COL2\"); v[2] = %s; " % (ct, val) + get("v", 2, 0) + CELLS, wspec2, E, WV + "update_value<%s>" % ct, "a value stored in a cell not read before (%s)" % form)

# ---- histories on one column type
X = "{ boost::int32_t x = %s[%d]; O(%d, x); }"
J = lambda cell, k: i(k, F.be(cell, 0, 4, "i"))
EI = lambda: {"i0": F.ivar("a", -2 ** 31, 2 ** 31 - 1), "i1": F.ivar("b", -2 ** 31, 2 ** 31 - 1)}
G = "t.get_column<boost::int32_t>(\"COL1\")"


def upd(fs, *ch):
    g = [list(r) for r in fs]
    for r, c, v in ch:
        g[r][c] = v
    return g


enc4 = lambda v: F.bestr(v, 4, "i")
putb("hist_twice", ["1J", "1J"], 2, "auto& v = %s; v[0] = (int)in_i(0); v[0] = (int)in_i(1); " % G + X % ("v", 0, 0) + X % ("v", 1, 1) + CELLS, lambda P, I, fs: ([i(0, I["i1"]), J(fs[1][0], 1)] + cells(upd(fs, (0, 0, enc4(I["i1"])))), "ret"), EI, WV + "update_value", "the last stored value counts")
putb("hist_two_columns", ["1J", "1J"], 2, "auto& v = %s; auto& w = t.get_column<boost::int32_t>(\"COL2\"); " % G + X % ("v", 0, 0) + X % ("w", 0, 1) + "v[0] = (int)in_i(0); w[1] = (int)in_i(1); " + X % ("w", 0, 2) + X % ("v", 1, 3) + X % ("v", 0, 4) + X % ("w", 1, 5) + CELLS,
     lambda P, I, fs: ([J(fs[0][0], 0), J(fs[0][1], 1), J(fs[0][1], 2), J(fs[1][0], 3), i(4, I["i0"]), i(5, I["i1"])] + cells(upd(fs, (0, 0, enc4(I["i0"])), (1, 1, enc4(I["i1"])))), "ret"), EI, WV + "operator[]", "views of two columns do not disturb each other")
putb("hist_iter_write", ["1J", "2A"], 3, "auto& v = %s; int k = 0; for (auto it = v.begin(); it != v.end(); ++it) { if (k == 1) *it = (int)in_i(0); ++k; } " % G + X % ("v", 0, 0) + X % ("v", 1, 1) + X % ("v", 2, 2) + CELLS,
     lambda P, I, fs: ([J(fs[0][0], 0), i(1, I["i0"]), J(fs[2][0], 2)] + cells(upd(fs, (1, 0, enc4(I["i0"])))), "ret"), EI, WV + "iterator", "storing through an iterator changes that row")
putb("hist_range_for", ["1J", "2A"], 3, "auto& v = %s; for (auto p : v) { boost::int32_t x = p; p = x == (int)in_i(0) ? 1 : 2; } " % G + X % ("v", 0, 0) + X % ("v", 2, 1),
     lambda P, I, fs: ([i(0, 1 if P.eqi(F.be(fs[0][0], 0, 4, "i"), I["i0"]) else 2), i(1, 1 if P.eqi(F.be(fs[2][0], 0, 4, "i"), I["i0"]) else 2)], "ret"), EI, WV + "begin/end", "a range-based loop reads and stores each row", gen=None)
two = lambda: (TB.bdata(["1J", "2A"], 2, "f"), TB.bdata(["1J", "2A"], 2, "g"))
FL = lambda I: {"f": F.header(TB.bhead(["1J", "2A"], 2))}
ws.append(IO.W("hist_set_data", OPEN + "binary_table t(h, S(0)); { auto& v = %s; " % G + X % ("v", 0, 0) + "v[1] = (int)in_i(0); } t.set_data(S(1)); { auto& v = %s; " % G + X % ("v", 0, 1) + X % ("v", 1, 2) + "v[0] = (int)in_i(1); " + X % ("v", 0, 3) + "} " + CELLS,
               lambda P, I: (lambda f, g: ([J(f[0][0], 0), J(g[0][0], 1), J(g[1][0], 2), i(3, I["i1"])] + cells(upd(g, (0, 0, enc4(I["i1"])))), "ret"))(two()[0][0], two()[1][0]), lambda: dict(EI(), s0=two()[0][1], s1=two()[1][1]), WB + "set_data", "after set_data a view reads the new data", files=FL))
ws.append(IO.W("hist_copy", OPEN + "binary_table t(h, S(0)); { auto& v = %s; " % G + X % ("v", 0, 0) + "} binary_table u(t); { auto& w = u.get_column<boost::int32_t>(\"COL1\"); w[0] = (int)in_i(0); " + X % ("w", 0, 1) + "} { auto& v = %s; " % G + X % ("v", 0, 2) + "v[1] = (int)in_i(1); } { auto& w = u.get_column<boost::int32_t>(\"COL1\"); " + X % ("w", 1, 3) + X % ("w", 0, 4) + "} " + CELLS,
               lambda P, I: (lambda f: ([J(f[0][0], 0), i(1, I["i0"]), J(f[0][0], 2), J(f[1][0], 3), i(4, I["i0"])] + cells(upd(f, (1, 0, enc4(I["i1"])))), "ret"))(two()[0][0]), lambda: dict(EI(), s0=two()[0][1]), WB + "copy constructor", "a copied table and its views are independent of the original", files=FL))
ws.append(IO.W("hist_assign", OPEN + "binary_table t(h, S(0)); binary_table u(h, S(1)); { auto& w = u.get_column<boost::int32_t>(\"COL1\"); " + X % ("w", 0, 0) + "} u = t; { auto& w = u.get_column<boost::int32_t>(\"COL1\"); " + X % ("w", 0, 1) + "w[0] = (int)in_i(0); " + X % ("w", 0, 2) + "} " + CELLS,
               lambda P, I: (lambda f, g: ([J(g[0][0], 0), J(f[0][0], 1), i(2, I["i0"])] + cells(f), "ret"))(two()[0][0], two()[1][0]), lambda: dict(EI(), s0=two()[0][1], s1=two()[1][1]), WB + "operator=", "an assigned table reads the assigned data", files=FL))
ws.append(IO.W("hist_written", OPEN + "binary_table t(h, S(0)); { auto& v = %s; v[1] = (int)in_i(0); } fits_stream o; o.create_file(\"g\"); t.write_to(o); O(0, FILE_(\"g\").substr(2880, 12));" % G,
               lambda P, I: (lambda f: ([s(0, cat(*[x for r in upd(f, (1, 0, enc4(I["i0"]))) for x in r]))], "ret"))(two()[0][0]), lambda: dict(EI(), s0=two()[0][1]), WB + "write_to", "a value stored through a view is what write_to writes", files=FL))
ws.append(IO.W("view_nocol", OPEN + "binary_table t(h, S(0)); t.get_column<boost::int32_t>(\"NOPE\"); O(0, 1);", lambda P, I: ([], "throw:column_not_found_exception"), lambda: {"s0": two()[0][1]}, WB + "get_column", "a view of a column that is not there is reported", files=FL))

# ---- ASCII tables
ACOLS, AW = [(1, "I12"), (14, "A8"), (23, "E20.10")], 44
num = lambda r, lo=-2 ** 31, hi=2 ** 31 - 1: F.ivar("v%d" % r, lo, hi)


def acontent(r, c, w):
    if c == 0:
        return S.fmt_i(num(r))
    if c == 1:
        return F.text("t%d" % r, hi=w - 2, inner=F.PRINT, edge=F.NBLANK)
    return S.fmt_f(F.dvar("w%d" % r), 0, False)


def adata():
    return TB.adata(ACOLS, AW, 2, content=acontent)


AF = lambda I: {"f": F.header(TB.ahead(ACOLS, AW, 2))}


def puta(name, body, spec, extra, where, what, **k):
    ws.append(IO.W(name, OPEN + "ascii_table t(h, S(0)); " + body, spec, lambda: dict(extra(), s0=adata()[1]), where, what, files=AF, **k))


XL, XS, XD = "{ long long x = %s[%d]; O(%d, x); }", "{ std::string x = %s[%d]; O(%d, x); }", "{ double x = %s[%d]; O(%d, x); }"
fs_ = lambda: adata()[0]
puta("asc_read", "auto& a = t.get_column<long long>(\"COL1\"); auto& b = t.get_column<std::string>(\"COL2\"); auto& c = t.get_column<double>(\"COL3\"); " + XL % ("a", 1, 0) + XL % ("a", 0, 1) + XS % ("b", 0, 2) + XS % ("b", 1, 3) + XD % ("c", 0, 4) + XD % ("c", 1, 5) + XL % ("a", 1, 6) + CELLS,
     lambda P, I: ([i(0, num(1)), i(1, num(0)), s(2, fs_()[0][1]), s(3, fs_()[1][1]), ("d", 4, S.parse_f(P, fs_()[0][2], False)), ("d", 5, S.parse_f(P, fs_()[1][2], False)), i(6, num(1))] + cells(fs_()), "ret"), dict, WA + "get_column", "views of an ASCII table read integers, texts and reals of their column", maxpaths=900, tmax=200)
puta("asc_write_int", "auto& a = t.get_column<long long>(\"COL1\"); " + XL % ("a", 0, 0) + "a[0] = in_i(0); " + XL % ("a", 0, 1) + XL % ("a", 1, 2) + CELLS,
     lambda P, I: ([i(0, num(0)), i(1, I["i0"]), i(2, num(1))] + cells(upd(fs_(), (0, 0, S.fmt_i(I["i0"])))), "ret"), lambda: {"i0": F.ivar("z", -2 ** 31, 2 ** 31 - 1)}, WV + "update_value<long long>", "an integer stored through an ASCII view", maxpaths=900, tmax=200)
puta("asc_write_str", "auto& a = t.get_column<std::string>(\"COL2\"); " + XS % ("a", 1, 0) + "a[1] = S(1); " + XS % ("a", 1, 1) + XS % ("a", 0, 2) + CELLS,
     lambda P, I: ([s(0, fs_()[1][1]), s(1, I["s1"]), s(2, fs_()[0][1])] + cells(upd(fs_(), (1, 1, I["s1"]))), "ret"), lambda: {"s1": F.text("z", hi=4)}, WV + "update_value<std::string>", "a text stored through an ASCII view", maxpaths=900, tmax=200)
puta("asc_write_dbl", "auto& a = t.get_column<double>(\"COL3\"); a[0] = in_d(0); " + XD % ("a", 0, 1) + XD % ("a", 1, 2) + CELLS,
     lambda P, I: ([("d", 1, I["d0"]), ("d", 2, S.parse_f(P, fs_()[1][2], False))] + cells(upd(fs_(), (0, 2, S.fmt_f(I["d0"], 0, False)))), "ret"), lambda: {"d0": F.dvar("z")}, WV + "update_value<double>", "a real stored through an ASCII view", maxpaths=900, tmax=200)
puta("asc_iter", "auto& a = t.get_column<long long>(\"COL1\"); int k = 0; for (auto it = a.begin(); it != a.end(); ++it) { long long x = *it; O(k++, x); } O(50, k); O(51, a.get_row_count());", lambda P, I: ([i(0, num(0)), i(1, num(1)), i(50, 2), i(51, 2)], "ret"), dict, WV + "iterator", "iterating over an ASCII view", maxpaths=900, tmax=200)
ad = lambda nm: TB.adata([(1, "I6"), (8, "A2")], 9, 2, content=lambda r, c, w: S.fmt_i(F.ivar("%s%d" % (nm, r), -99999, 99999)) if c == 0 else F.b("%s%d" % (nm, r)))
AFL = lambda I: {"f": F.header(TB.ahead([(1, "I6"), (8, "A2")], 9, 2))}
GA = "%s.get_column<long long>(\"COL1\")"
va = lambda nm, r: F.ivar("%s%d" % (nm, r), -99999, 99999)
EZ = lambda: {"i0": F.ivar("z", -99999, 99999), "i1": F.ivar("y", -99999, 99999)}
AI2 = lambda: dict(EZ(), s0=ad("a")[1], s1=ad("b")[1])
ws.append(IO.W("asc_assign", OPEN + "ascii_table t(h, S(0)); ascii_table u(h, S(1)); { auto& w = " + GA % "u" + "; " + XL % ("w", 0, 0) + "} u = t; { auto& w = " + GA % "u" + "; " + XL % ("w", 0, 1) + "w[0] = in_i(0); " + XL % ("w", 0, 2) + XL % ("w", 1, 3) + "} " + CELLS,
               lambda P, I: ([i(0, va("b", 0)), i(1, va("a", 0)), i(2, I["i0"]), i(3, va("a", 1))] + cells(ad("a")[0]), "ret"), AI2, WA + "operator=", "an assigned ASCII table reads the assigned data", files=AFL, maxpaths=900, tmax=200))
ws.append(IO.W("asc_set_data", OPEN + "ascii_table t(h, S(0)); { auto& w = " + GA % "t" + "; " + XL % ("w", 0, 0) + "w[1] = in_i(0); } t.set_data(S(1)); { auto& w = " + GA % "t" + "; " + XL % ("w", 0, 1) + XL % ("w", 1, 2) + "w[1] = in_i(1); " + XL % ("w", 1, 3) + "} " + CELLS,
               lambda P, I: ([i(0, va("a", 0)), i(1, va("b", 0)), i(2, va("b", 1)), i(3, I["i1"])] + cells(upd(ad("b")[0], (1, 0, S.fmt_i(I["i1"])))), "ret"), AI2, WA + "set_data", "after set_data a view of an ASCII table reads the new data", files=AFL, maxpaths=900, tmax=200))
ws.append(IO.W("asc_copy", OPEN + "ascii_table t(h, S(0)); { auto& v = " + GA % "t" + "; " + XL % ("v", 0, 0) + "} ascii_table u(t); { auto& w = " + GA % "u" + "; w[0] = in_i(0); " + XL % ("w", 0, 1) + "} { auto& v = " + GA % "t" + "; " + XL % ("v", 0, 2) + "v[1] = in_i(1); } { auto& w = " + GA % "u" + "; " + XL % ("w", 1, 3) + XL % ("w", 0, 4) + "} " + CELLS,
               lambda P, I: ([i(0, va("a", 0)), i(1, I["i0"]), i(2, va("a", 0)), i(3, va("a", 1)), i(4, I["i0"])] + cells(upd(ad("a")[0], (1, 0, S.fmt_i(I["i1"])))), "ret"), AI2, WA + "copy constructor", "a copied ASCII table and its views are independent of the original", files=AFL, maxpaths=900, tmax=200))
puta("asc_written", "{ auto& a = t.get_column<long long>(\"COL1\"); a[1] = in_i(0); } fits_stream o; o.create_file(\"g\"); t.write_to(o); O(0, FILE_(\"g\").substr(2880, %d));" % (2 * AW),
     lambda P, I: ([s(0, TB.adata(ACOLS, AW, 2, content=lambda r, c, w: S.fmt_i(I["i0"]) if (r, c) == (1, 0) else acontent(r, c, w))[1])], "ret"), lambda: {"i0": F.ivar("z", -2 ** 31, 2 ** 31 - 1)}, WA + "write_to", "a value stored through an ASCII view is what write_to writes, right-justified in its field", maxpaths=900, tmax=200)
IO.run(ck, F.ALL, ws, chunk=3)
ck.finish("Abstract interpretation of column_view, Proxy and the table classes: each read through a view must be the decoded term of the cell in that row and column (or the value last stored there), and after each store the table's cells must be the old terms except the one cell, which is the encoding of the stored value.",
          ["tables of the listed shapes, every cell content and stored value; histories listed in the check", "a cell changed behind the view through the mutable get_data() is not judged (the view caches what it read)"], min_obl=50)
