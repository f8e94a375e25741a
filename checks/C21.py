"""C21: table cells are exactly the bytes of their field and column metadata is that of the header."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F, tables as TB
from vlib.sterm import mk, cat, slen, add, sub, mulc

ck = C.Check("C21")
ws = []
WB, WA, WC = F.IO + "binary_table.hpp: ", F.IO + "ascii_table.hpp: ", F.IO + "column.hpp: column::"
kv, i = F.kv, lambda k, v: ("i", k, v)
s = lambda k, v: ("s", k, F.b(v) if isinstance(v, (str, bytes)) else v)
d = lambda k, v: ("d", k, v)
OPEN = "fits_stream fs; fs.set_file(\"f\"); Header h; h.read_header(fs); "
DUMP = "const auto& D = static_cast<const decltype(t)&>(t).get_data(); O(0, D.size()); int n = 1; for (auto& r : D) { O(n++, r.size()); for (auto& x : r) O(n++, x); }"


def dump(fs):
    ev, n = [i(0, len(fs))], 1
    for r in fs:
        ev.append(i(n, len(r)))
        n += 1
        for x in r:
            ev.append(s(n, x))
            n += 1
    return ev


# ---- binary tables: consecutive fields
BT = [(["1J"], 1), (["1J"], 3), (["I", "J", "E", "D"], 2), (["8A", "1D", "3E"], 3), (["L", "B", "X", "A", "C", "M", "P"], 2), (["2L", "5I", "0A", "3J"], 2), (["10A", "2M", "2C", "2P", "3B"], 2), (["1D", "1D", "1D"], 4)]
if C.TIER != "quick":
    BT += [(["%dA" % k], 2) for k in (1, 7, 80, 999)] + [(["12J", "7E", "100A", "2D"], 5), (["1I"], 12), (["1J"] * 9, 2)]
for n, (forms, rows) in enumerate(BT):
    def inp(forms=forms, rows=rows):
        fs, data = TB.bdata(forms, rows)
        return {"fs": fs, "s0": data}
    flat = lambda I: {k: v for k, v in I.items() if k != "fs"}
    what = "cells of a binary table with columns %s and %d rows are the field bytes" % (" ".join(forms), rows)
    fl = lambda I, forms=forms, rows=rows: {"f": F.header(TB.bhead(forms, rows))}
    fsx = lambda forms=forms, rows=rows: TB.bdata(forms, rows)
    ws.append(IO.W("bin_%d" % n, OPEN + "binary_table t(h, S(0)); " + DUMP, lambda P, I, fsx=fsx: (dump(fsx()[0]), "ret"), lambda fsx=fsx: {"s0": fsx()[1]}, WB + "set_table_data", what, files=fl))
    ws.append(IO.W("bin_set_%d" % n, OPEN + "binary_table t(h, \"\"); O(100, static_cast<const binary_table&>(t).get_data().size()); t.set_data(S(0)); " + DUMP, lambda P, I, fsx=fsx: ([i(100, 0)] + dump(fsx()[0]), "ret"), lambda fsx=fsx: {"s0": fsx()[1]}, WB + "set_data", what + " (set_data)", files=fl))
    # metadata
    body = OPEN + "binary_table t(h, \"\"); " + "".join("{ column c = t.get_column_metadata(\"COL%d\"); O(%d, c.index()); O(%d, c.TFORM()); O(%d, c.TBCOL()); O(%d, c.TTYPE()); O(%d, c.total_elements()); O(%d, c.TSCAL()); O(%d, c.TZERO()); O(%d, c.TUNIT()); O(%d, c.TDISP()); O(%d, c.TDIM()); }" % tuple([k + 1] + [10 * k + j for j in range(10)]) for k in range(len(forms)))

    def meta(P, I, forms=forms):
        ev, at = [], 0
        for k, f in enumerate(forms):
            ev += [i(10 * k, k + 1), s(10 * k + 1, f), i(10 * k + 2, at), s(10 * k + 3, "COL%d" % (k + 1)), i(10 * k + 4, TB.bform(f)[0]), d(10 * k + 5, 1.0), d(10 * k + 6, 0.0), s(10 * k + 7, ""), s(10 * k + 8, ""), s(10 * k + 9, "")]
            at += TB.bwidth(f)
        return ev, "ret"
    ws.append(IO.W("bin_meta_%d" % n, body, meta, dict, WB + "populate_column_data", "metadata of the columns %s, defaults for what the header does not give" % " ".join(forms), files=fl))


# ---- optional keywords, symbolic values
def oinp(full=True):
    r = {"i0": F.ivar("sc", -99999, 99999), "i1": F.ivar("ze", -99999, 99999)}
    for k, n in enumerate(("un", "di", "dm")):
        r[n] = F.text(n, hi=10)
    return r


def ocards(I, which):
    def f(k):
        if k != which:
            return []
        q = lambda t: cat(F.b("'"), F.lj(t, 16), F.b("'"))
        return [F.card("TSCAL%d" % k, F.rj(S.fmt_i(I["i0"]), 20)), F.card("TZERO%d" % k, F.rj(S.fmt_i(I["i1"]), 20)), F.card("TUNIT%d" % k, q(I["un"])), F.card("TDISP%d" % k, q(I["di"])), F.card("TDIM%d" % k, q(I["dm"]))]
    return f


for which in (1, 2, 3):
    body = OPEN + "binary_table t(h, \"\"); " + "".join("{ column c = t.get_column_metadata(\"COL%d\"); O(%d, c.TSCAL()); O(%d, c.TZERO()); O(%d, c.TUNIT()); O(%d, c.TDISP()); O(%d, c.TDIM()); O(%d, c.TFORM()); }" % tuple([k + 1] + [10 * k + j for j in range(6)]) for k in range(3))

    def ospec(P, I, which=which):
        ev = []
        for k in range(3):
            if k + 1 == which:
                ev += [d(10 * k, S.parse_f(P, S.fmt_i(I["i0"]), False)), d(10 * k + 1, S.parse_f(P, S.fmt_i(I["i1"]), False)), s(10 * k + 2, I["un"]), s(10 * k + 3, I["di"]), s(10 * k + 4, I["dm"])]
            else:
                ev += [d(10 * k, 1.0), d(10 * k + 1, 0.0), s(10 * k + 2, ""), s(10 * k + 3, ""), s(10 * k + 4, "")]
            ev.append(s(10 * k + 5, ["1J", "3E", "8A"][k]))
        return ev, "ret"
    ws.append(IO.W("bin_opt_%d" % which, body, ospec, oinp, WB + "populate_column_data", "TSCAL/TZERO/TUNIT/TDISP/TDIM of column %d belong to that column only" % which, files=lambda I, which=which: {"f": F.header(TB.bhead(["1J", "3E", "8A"], 1, extra=ocards(I, which)))}))
    abody = body.replace("binary_table", "ascii_table").replace("O(3, c.TDISP()); O(4, c.TDIM()); ", "")
    abody = OPEN + "ascii_table t(h, \"\"); " + "".join("{ column c = t.get_column_metadata(\"COL%d\"); O(%d, c.TSCAL()); O(%d, c.TZERO()); O(%d, c.TUNIT()); O(%d, c.TBCOL()); O(%d, c.index()); O(%d, c.TFORM()); }" % tuple([k + 1] + [10 * k + j for j in range(6)]) for k in range(3))
    ACOLS = [(1, "I6"), (8, "F10.4"), (20, "A8")]

    def aspec(P, I, which=which):
        ev = []
        for k in range(3):
            ev += ([d(10 * k, S.parse_f(P, S.fmt_i(I["i0"]), False)), d(10 * k + 1, S.parse_f(P, S.fmt_i(I["i1"]), False)), s(10 * k + 2, I["un"])] if k + 1 == which else [d(10 * k, 1.0), d(10 * k + 1, 0.0), s(10 * k + 2, "")]) + [i(10 * k + 3, ACOLS[k][0]), i(10 * k + 4, k + 1), s(10 * k + 5, ACOLS[k][1])]
        return ev, "ret"
    ws.append(IO.W("asc_opt_%d" % which, abody, aspec, oinp, WA + "populate_column_data", "TSCAL/TZERO/TUNIT of ASCII column %d belong to that column only" % which, files=lambda I, which=which: {"f": F.header(TB.ahead(ACOLS, 30, 1, extra=lambda k, which=which: ocards(I, which)(k)[:3]))}))

# ---- ASCII tables: fields at TBCOL of the width in TFORM
AT = [([(1, "I6")], 6, 1), ([(1, "I6")], 10, 3), ([(1, "A8"), (10, "F10.4"), (21, "I5")], 30, 3), ([(5, "E15.7"), (25, "D20.10")], 50, 2), ([(10, "A3"), (1, "A8")], 14, 2), ([(1, "A1"), (2, "A1"), (3, "A12")], 14, 2)]
if C.TIER != "quick":
    AT += [([(1, "A80")], 80, 2), ([(3, "I2"), (6, "I2"), (9, "I2"), (12, "F8.3"), (21, "E12.5"), (40, "A20")], 70, 3), ([(1, "I10")], 10, 8)]
for n, (cols, width, rows) in enumerate(AT):
    fsx = lambda cols=cols, width=width, rows=rows: TB.adata(cols, width, rows)
    what = "cells of an ASCII table with columns %s and %d rows are the field texts without outer blanks" % (cols, rows)
    fl = lambda I, cols=cols, width=width, rows=rows: {"f": F.header(TB.ahead(cols, width, rows))}
    ws.append(IO.W("asc_%d" % n, OPEN + "ascii_table t(h, S(0)); " + DUMP, lambda P, I, fsx=fsx: (dump(fsx()[0]), "ret"), lambda fsx=fsx: {"s0": fsx()[1]}, WA + "set_table_data", what, files=fl, maxpaths=600))
    ws.append(IO.W("asc_set_%d" % n, OPEN + "ascii_table t(h, \"\"); O(100, static_cast<const ascii_table&>(t).get_data().size()); t.set_data(S(0)); " + DUMP, lambda P, I, fsx=fsx: ([i(100, 0)] + dump(fsx()[0]), "ret"), lambda fsx=fsx: {"s0": fsx()[1]}, WA + "set_data", what + " (set_data)", files=fl, maxpaths=600))

    if n < 4 or C.TIER != "quick":
        for jn in ("lj", "mid"):
            fsj = lambda cols=cols, width=width, rows=rows, jn=jn: TB.adata(cols, width, rows, just=jn)
            ws.append(IO.W("asc_%s_%d" % (jn, n), OPEN + "ascii_table t(h, S(0)); " + DUMP, lambda P, I, fsj=fsj: (dump(fsj()[0]), "ret"), lambda fsj=fsj: {"s0": fsj()[1]}, WA + "set_table_data", what + (" (left-justified)" if jn == "lj" else " (blanks on both sides)"), files=fl, maxpaths=600))

# ---- column numbers of two digits
NW = 12
body = OPEN + "%s t(h, \"\"); " + "".join("{ column c = t.get_column_metadata(\"COL%d\"); O(%d, c.TUNIT()); O(%d, c.TSCAL()); O(%d, c.TZERO()); O(%d, c.TFORM()); O(%d, c.index()); O(%d, c.TBCOL()); }" % tuple([k + 1] + [10 * k + j for j in range(6)]) for k in range(NW))
wf = ["%dA" % (k + 1) for k in range(NW)]
wc = [(1 + 20 * k, "A%d" % (k + 1)) for k in range(NW)]
wx = lambda k: [kv("TUNIT%d" % k, "u%d" % k), kv("TSCAL%d" % k, 100 + k), kv("TZERO%d" % k, 200 + k)]


def wide(pos, form):
    return lambda P, I: (sum([[s(10 * k, "u%d" % (k + 1)), d(10 * k + 1, 101.0 + k), d(10 * k + 2, 201.0 + k), s(10 * k + 3, form(k)), i(10 * k + 4, k + 1), i(10 * k + 5, pos(k))] for k in range(NW)], []), "ret")


ws.append(IO.W("wide_bin", body % "binary_table", wide(lambda k: k * (k + 1) // 2, lambda k: wf[k]), dict, WB + "populate_column_data", "metadata of %d binary columns" % NW, files=lambda I: {"f": F.header(TB.bhead(wf, 1, extra=wx))}, tmax=120))
ws.append(IO.W("wide_asc", body % "ascii_table", wide(lambda k: wc[k][0], lambda k: wc[k][1]), dict, WA + "populate_column_data", "metadata of %d ASCII columns" % NW, files=lambda I: {"f": F.header(TB.ahead(wc, 240, 1, extra=wx))}, tmax=120))

# ---- format strings
for t, sz in TB.TS.items():
    ws.append(IO.W("size_" + t, "std::string f = S(0); O(0, binary_table::column_size(f)); O(1, binary_table::element_count(f)); O(2, binary_table::get_type(f)); O(3, binary_table::type_size('%s')); O(4, binary_table::column_size(\"%s\")); O(5, binary_table::element_count(\"%s\")); O(6, binary_table::get_type(\"%s\"));" % (t, t, t, t),
                   lambda P, I, t=t, sz=sz: ([i(0, mulc(I["n"], sz)), i(1, I["n"]), i(2, ord(t)), i(3, sz), i(4, sz), i(5, 1), i(6, ord(t))], "ret"), lambda t=t: (lambda x: {"n": x, "s0": cat(S.fmt_i(x), F.b(t))})(F.ivar("n", 0, 10 ** 6)), WB + "column_size / element_count / type_size", "size and type of the format n%s" % t))
    ws.append(IO.W("size_q_" + t, "std::string f = S(0); O(0, binary_table::column_size(f)); O(1, binary_table::element_count(f)); O(2, binary_table::get_type(f));",
                   lambda P, I, t=t, sz=sz: ([i(0, mulc(I["n"], sz)), i(1, I["n"]), i(2, ord(t))], "ret"), lambda t=t: (lambda x: {"n": x, "s0": cat(F.b("'"), S.fmt_i(x), F.b(t + "   '"))})(F.ivar("n", 0, 10 ** 6)), WB + "column_size / element_count", "quotes and blanks around the format n%s do not matter" % t))
for t in "AIFED":
    for dec in (0, 1):
        def ainp(t=t, dec=dec, q=0):
            x, y = F.ivar("w", 1, 999), F.ivar("dd", 0, 99)
            return {"w": x, "s0": cat(F.b(t), S.fmt_i(x), *([F.b("."), S.fmt_i(y)] if dec else []))}
        ws.append(IO.W("asize_%s%d" % (t, dec), "std::string f = S(0); O(0, ascii_table::column_size(f)); O(1, ascii_table::get_type(f)); O(2, ascii_table::column_size(\"'\" + f + \"  '\"));", lambda P, I, t=t: ([i(0, I["w"]), i(1, ord(t)), i(2, I["w"])], "ret"), ainp, WA + "column_size / get_type", "width and type of the ASCII format %sw%s" % (t, ".d" if dec else "")))

# ---- column accessors
ACC = [("index", "i"), ("TBCOL", "i"), ("TTYPE", "s"), ("TFORM", "s"), ("TUNIT", "s"), ("TSCAL", "d"), ("TZERO", "d"), ("TDISP", "s"), ("TDIM", "s"), ("comment", "s"), ("total_elements", "i")]
ki, ks, kd = 0, 0, 0
setb, getb, specv = "", "", []
for k, (nm, t) in enumerate(ACC):
    if t == "i":
        a, key = "(std::size_t)in_i(%d)" % ki, "i%d" % ki
        ki += 1
    elif t == "s":
        a, key = "S(%d)" % ks, "s%d" % ks
        ks += 1
    else:
        a, key = "in_d(%d)" % kd, "d%d" % kd
        kd += 1
    setb += "c.%s(%s); " % (nm, a)
    getb += "O(%d, c.%s()); " % (k, nm)
    specv.append((t, k, key))
allin = lambda: dict([("i%d" % k, F.ivar("i%d" % k, 0, 2 ** 40)) for k in range(ki)] + [("s%d" % k, S.strvar("s%d" % k, lo=0, hi=70)) for k in range(ks)] + [("d%d" % k, F.dvar("d%d" % k)) for k in range(kd)])
ws.append(IO.W("accessors", "column c; " + setb + getb, lambda P, I: ([(t, k, I[key]) for t, k, key in specv], "ret"), allin, WC + "accessors", "every attribute of a column reads back what was set"))
ws.append(IO.W("accessors_rev", "column c; " + "; ".join(reversed(setb.strip(" ;").split("; "))) + "; column e(c); c = e; " + getb, lambda P, I: ([(t, k, I[key]) for t, k, key in specv], "ret"), allin, WC + "accessors", "attributes are independent of the order they are set in and are copied"))
ws.append(IO.W("ctor", "column c(in_i(0), S(0)); O(0, c.TBCOL()); O(1, c.TFORM()); column e(S(1)); O(2, e.TFORM()); O(3, c.TTYPE()); O(4, c.TUNIT());", lambda P, I: ([i(0, I["i0"]), s(1, I["s0"]), s(2, I["s1"]), s(3, ""), s(4, "")], "ret"), allin, WC + "column", "constructors keep position and format"))
# names: found by exact TTYPE, first match; a column without TTYPE does not disturb the others
ws.append(IO.W("by_name", OPEN + "binary_table t(h, \"\"); O(0, t.get_column_metadata(\"AB\").index()); O(1, t.get_column_metadata(\"A\").index()); O(2, t.get_column_metadata(\"ABC\").index()); O(3, t.get_column_metadata(\"A\").TFORM()); O(4, t.get_header().card_count());",
               lambda P, I: ([i(0, 4), i(1, 2), i(2, 1), s(3, "2E"), i(4, 8 + 4 + 3)], "ret"), dict, F.IO + "table_extension.hpp: get_column_metadata", "columns are found by their exact name", files=lambda I: {"f": F.header(TB.bhead(["1J", "2E", "3D", "4A"], 1, names=["ABC", "A", None, "AB"]))}))
# set_data a second time replaces rows
for nm, cls in (("bin", "binary_table"), ("asc", "ascii_table")):
    if nm == "bin":
        g = lambda name: TB.bdata(["1J", "4A"], 2, name)
        fl = lambda I: {"f": F.header(TB.bhead(["1J", "4A"], 2))}
    else:
        g = lambda name: TB.adata([(1, "A2"), (4, "A5")], 9, 2, name)
        fl = lambda I: {"f": F.header(TB.ahead([(1, "A2"), (4, "A5")], 9, 2))}
    ws.append(IO.W(nm + "_replace", OPEN + "%s t(h, S(0)); t.set_data(S(1)); " % cls + DUMP, lambda P, I, g=g: (dump(g("b")[0]), "ret"), lambda g=g: {"s0": g("a")[1], "s1": g("b")[1]}, F.IO + cls + ".hpp: set_data", "set_data replaces the cells", files=fl, maxpaths=800, tmax=120))
IO.run(ck, F.ALL, ws, chunk=5)
ck.finish("Abstract interpretation of the table classes on headers and data of symbolic content: cell (r,c) must be the term made of exactly the bytes of its field (TBCOL and TFORM width for ASCII tables, consecutive TFORM sizes for binary ones), and every metadata getter must return the value of that column's keyword or its default.",
          ["table shapes listed in the check; every cell content, every format repeat count up to 10^6"], min_obl=60)
