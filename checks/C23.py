"""C23: a file is read HDU by HDU as its headers say, and writing it back gives the file again."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F, tables as TB
from vlib.sterm import mk, cat, slen, add, sub, mulc

ck = C.Check("C23")
ws = []
WR = F.IO + "fits_reader.hpp: fits_io::"
kv, i = F.kv, lambda k, v: ("i", k, v)
s = lambda k, v: ("s", k, F.b(v) if isinstance(v, (str, bytes)) else v)

# what is seen of an HDU: kind, header facts, contents
PRE = F.ALL + r'''
typedef default_hdu_manager<card_policy, ascii_converter, binary_data_converter>::Extension Ext;
template<bitpix B> void img(primary_hdu& p, int k) { auto im = p.get_data<B>(); O(k + 2, im.size()); O(k + 3, im.write_image()); }
inline void cells(const std::vector<std::vector<std::string>>& D, int k) { O(k + 2, D.size()); int n = k + 3; for (auto& r : D) for (auto& x : r) O(n++, x); }
__attribute__((always_inline)) inline void look(Ext& e, int k)
{
    if (primary_hdu* p = boost::get<primary_hdu>(&e)) {
        O(k, 1); O(k + 1, p->get_header().bitpix() == bitpix::B16 ? 16 : p->get_header().bitpix() == bitpix::_B32 ? -32 : 8);
        if (p->get_header().bitpix() == bitpix::B16) img<bitpix::B16>(*p, k);
        else if (p->get_header().bitpix() == bitpix::_B32) img<bitpix::_B32>(*p, k);
        else img<bitpix::B8>(*p, k);
        O(k + 90, p->is_simple()); O(k + 91, p->is_extended());
    } else if (binary_table* t = boost::get<binary_table>(&e)) {
        O(k, 2); O(k + 1, t->get_header().value_of<int>("TFIELDS")); cells(static_cast<const binary_table&>(*t).get_data(), k);
    } else if (ascii_table* t = boost::get<ascii_table>(&e)) {
        O(k, 3); O(k + 1, t->get_header().value_of<int>("TFIELDS")); cells(static_cast<const ascii_table&>(*t).get_data(), k);
    } else O(k, 0);
}
template<class R> void cb(R& r, const char* name, int k) { auto b = r.get_control_block_info(); auto x = b.hdus_info.at(name); O(k, x.header_location); O(k + 1, x.data_location); O(k + 2, x.hdu_index); }
'''
NAMES = {"P": "primary_hdu", "B": "BINTABLE", "T": "TABLE", "X": "FOREIGN"}


class Hdu:
    """one HDU: header cards, data, what look() shows of it"""


def primary(n=0, bp=8, extend=True, tag="p", long=0):
    h = Hdu()
    h.kind = "P"
    cards = [kv("SIMPLE", True, "standard"), kv("BITPIX", bp)] + ([kv("NAXIS", 0)] if not n else [kv("NAXIS", 2), kv("NAXIS1", n), kv("NAXIS2", 2)]) + ([] if extend is None else [kv("EXTEND", extend)])
    cards += [F.lj(cat(F.b("COMMENT  "), S.strvar("%sc%d" % (tag, k), alpha=F.PRINT, fixed=30)), 80) for k in range(long)]
    h.cards = cards
    h.data = S.rep(2 * n * abs(bp) // 8, 97) if n > 100 else S.strvar(tag + "d", fixed=2 * n * abs(bp) // 8) if n else F.b("")
    h.see = lambda k, data=True: [i(k, 1), i(k + 1, bp), i(k + 2, 2 * n if data else 0), s(k + 3, h.data if data else ""), i(k + 90, 1), i(k + 91, int(bool(extend)))]
    return h


def btable(forms, rows, tag="b", name=True, long=0):
    h = Hdu()
    h.kind = "B"
    extra = [kv("EXTNAME", "TAB_" + tag.upper())] if name else []
    extra += [F.card("K%d" % k, F.rj(S.fmt_i(F.ivar("%sk%d" % (tag, k), -999, 999)), 20)) for k in range(long)]
    h.cards = TB.bhead(forms, rows, more=extra)
    h.fields, h.data = TB.bdata(forms, rows, name=tag)
    h.see = lambda k, data=True: [i(k, 2), i(k + 1, len(forms))] + ([i(k + 2, rows)] + [s(k + 3 + j, x) for j, x in enumerate([x for r in h.fields for x in r])] if data else [])
    return h


def atable(cols, width, rows, tag="t", name=True):
    h = Hdu()
    h.kind = "T"
    h.cards = TB.ahead(cols, width, rows, more=[kv("EXTNAME", "ASC_" + tag.upper())] if name else [])
    h.fields, h.data = TB.adata(cols, width, rows, name=tag)
    h.see = lambda k, data=True: [i(k, 3), i(k + 1, len(cols))] + ([i(k + 2, rows)] + [s(k + 3 + j, x) for j, x in enumerate([x for r in h.fields for x in r])] if data else [])
    return h


def odd(h, *cards):
    """the same HDU with further cards before its END"""
    h.cards = h.cards + list(cards)
    return h


COMM = lambda k, n: F.lj(cat(F.b("%-9s" % k), S.strvar(n, alpha=F.PRINT, fixed=40)), 80)


def foreign(n, tag="x"):
    h = Hdu()
    h.kind = "X"
    h.cards = [kv("XTENSION", "FOREIGN"), kv("BITPIX", 8), kv("NAXIS", 1), kv("NAXIS1", n), kv("PCOUNT", 0), kv("GCOUNT", 1)]
    h.data = S.strvar(tag + "d", fixed=n)
    h.see = lambda k, data=True: [i(k, 0)]
    return h


def size(n):
    return n + (-n) % 2880


def bytes_(hs):
    return cat(*[cat(F.header(h.cards), F.block(h.data, 0)) for h in hs])


def places(hs):
    out, at = [], 0
    for h in hs:
        a = at
        at += size(80 * (len(h.cards) + 1))
        out.append((a, at))
        at += size(slen(h.data))
    return out, at


A2 = lambda tag, name=True: atable([(1, "A5"), (8, "I4")], 12, 2, tag, name)
B2 = lambda tag, name=True, rows=2: btable(["1J", "3A"], rows, tag, name)
FILES = {
    "empty": lambda: [primary()],
    "noextend": lambda: [primary(extend=None)],
    "notextended": lambda: [primary(extend=False)],
    "img8": lambda: [primary(3, 8)],
    "img16": lambda: [primary(2, 16)],
    "imgf": lambda: [primary(2, -32)],
    "bin": lambda: [primary(), B2("b")],
    "asc": lambda: [primary(), A2("t")],
    "bin_noname": lambda: [primary(), B2("b", False)],
    "asc_noname": lambda: [primary(), A2("t", False)],
    "both": lambda: [primary(), B2("b"), A2("t")],
    "both_rev": lambda: [primary(2, 16), A2("t"), B2("b")],
    "long_headers": lambda: [primary(long=40), btable(["1J", "3A"], 2, "b", True, 40), A2("t")],
    "edge_headers": lambda: [primary(long=31), btable(["1J", "3A"], 2, "b", True, 22), A2("t")],
    "edge_data": lambda: [primary(), btable(["2880A"], 1, "b"), A2("t")],
    "two_records": lambda: [primary(), btable(["2881A"], 1, "b"), A2("t")],
    "two_bin": lambda: [primary(), B2("b"), B2("c", rows=3)],
    "foreign": lambda: [primary(), foreign(5), B2("b")],
    "one_byte": lambda: [primary(), btable(["1A"], 1, "b"), A2("t")],
    "one_short": lambda: [primary(1, 8), atable([(1, "A1")], 1, 1, "t"), B2("b")],
    "big64": lambda: [primary(200, -64), B2("b")],
    "big16": lambda: [primary(1400, 16), B2("b")],
    "odd_bin": lambda: [odd(primary(), kv("ORIGIN", "XTENSION"), COMM("HISTORY", "oh")), odd(B2("b"), kv("EXTEND", False), kv("EXTVER", 1), kv("INHERIT", True), COMM("COMMENT", "oc"), F.lj(F.b(""), 80))],
    "odd_asc": lambda: [primary(), odd(A2("t"), kv("EXTEND", True), kv("EXTLEVEL", 1), COMM("HISTORY", "oh"), kv("SIMPLES", 3))],
    "norows": lambda: [primary(), B2("b", rows=0), A2("t")],
}
if C.TIER != "quick":
    FILES.update({
        "five": lambda: [primary(2, 16), B2("b"), A2("t"), B2("c", rows=3), A2("u")],
        "wide": lambda: [primary(), btable(["1J", "2E", "1D", "10A", "1L", "2I"], 4, "b"), A2("t")],
        "long2": lambda: [primary(long=70), btable(["5000A"], 2, "b", True, 80), A2("t")],
        "foreign_edge": lambda: [primary(), foreign(2880), B2("b"), foreign(5761, "y"), A2("t")],
    })
for nm, mkf in FILES.items():
    hs = mkf()
    pl, tot = places(hs)
    uniq = [k for k, h in enumerate(hs) if sum(g.kind == h.kind for g in hs) == 1]
    fl = lambda I, mkf=mkf: {"f": bytes_(mkf())}
    seen = lambda hs=hs, data=True: [e for k, h in enumerate(hs) for e in h.see(100 * (k + 1), data)]
    LOOK = " ".join("look(r[%d], %d);" % (k, 100 * (k + 1)) for k in range(len(hs)))
    big = nm.startswith("big")
    if not big:
        ws.append(IO.W("read_" + nm, "auto r = fits::open(\"f\"); O(0, r.get_hdu_list().size()); " + LOOK, lambda P, I, hs=hs, seen=seen: ([i(0, len(hs))] + seen(), "ret"), dict, WR + "read_entire_hdus", "file %s: every HDU has the kind, header and contents of the file" % nm, files=fl, tmax=120))
    CB = " ".join("cb(r, \"%s\", %d);" % (NAMES[hs[k].kind], 10 * (k + 1)) for k in uniq) + " " + " ".join("O(%d, &r[%d] == &r[std::string(\"%s\")]);" % (10 * (k + 1) + 5, k, NAMES[hs[k].kind]) for k in uniq)
    info = lambda pl=pl, uniq=uniq: [e for k in uniq for e in (i(10 * (k + 1), pl[k][0]), i(10 * (k + 1) + 1, pl[k][1]), i(10 * (k + 1) + 2, k))] + [i(10 * (k + 1) + 5, 1) for k in uniq]
    for md, opt in (("all", ""), ("headers", ", reading_options::read_only_headers")):
        if big and md == "all" and C.TIER == "quick":
            continue
        ws.append(IO.W("info_%s_%s" % (md, nm), "auto r = fits::open(\"f\"%s); O(0, r.get_hdu_list().size()); O(1, r.get_control_block_info().filepath); " % opt + CB, lambda P, I, hs=hs, info=info: ([i(0, len(hs)), s(1, "f")] + info(), "ret"), dict, WR + "get_control_block_info / operator[]",
                       "file %s (%s): locations and index of the HDUs, access by index and by name is the same HDU" % (nm, md), files=fl, tmax=120))
    if not big and not any(h.kind == "X" for h in hs):
        HD = " ".join("O(%d, boost::get<%s>(&r[%d]) != nullptr);" % (10 + k, {"P": "primary_hdu", "B": "binary_table", "T": "ascii_table"}[h.kind], k) + " O(%d, boost::get<%s>(r[%d]).get_header().value_of<int>(\"NAXIS\"));" % (20 + k, {"P": "primary_hdu", "B": "binary_table", "T": "ascii_table"}[h.kind], k) for k, h in enumerate(hs))
        nax = lambda h: 2 if slen(h.data) or h.kind != "P" else 0
        ws.append(IO.W("headers_" + nm, "auto r = fits::open(\"f\", reading_options::read_only_headers); O(0, r.get_hdu_list().size()); " + HD, lambda P, I, hs=hs, nax=nax: ([i(0, len(hs))] + [e for k, h in enumerate(hs) for e in (i(10 + k, 1), i(20 + k, nax(h)))], "ret"), dict, WR + "read_only_headers", "file %s: reading only the headers finds the same HDUs" % nm, files=fl, tmax=120))
        # write back: everything but the fill of the data units
        parts, want = [], []
        at = 0
        for k, h in enumerate(hs):
            n = slen(h.data)
            a, dloc = pl[k]
            parts.append("O(%d, g.substr(%d, %d));" % (2 + k, a, dloc - a + n))
            want.append((2 + k, h, n))
        ws.append(IO.W("write_" + nm, "auto r = fits::open(\"f\"); r.write_to(\"g\"); std::string g = FILE_(\"g\"); O(0, g.size()); " + " ".join(parts), lambda P, I, tot=tot, want=want: ([i(0, tot)] + [s(k, cat(F.header(h.cards), h.data)) for k, h, n in want], "ret"), dict, WR + "write_to",
                       "file %s: writing what was read gives the headers and data of the file at the same places" % nm, files=fl, tmax=120))
        if nm in ("empty", "img16", "bin", "asc", "both") or C.TIER != "quick":
            ws.append(IO.W("again_" + nm, "{ auto q = fits::open(\"f\"); q.write_to(\"g\"); } auto r = fits::open(\"g\"); O(0, r.get_hdu_list().size()); " + LOOK, lambda P, I, hs=hs, seen=seen: ([i(0, len(hs))] + seen(), "ret"), dict, WR + "write_to", "file %s: what was written reads back as what was read" % nm, files=fl, tmax=240))
# ---- one reader, several files
two = lambda I: {"f": bytes_(FILES["both"]()), "h": bytes_(FILES["asc"]()), "e": bytes_(FILES["img16"]())}
RD = "fits_io<fits_stream, default_hdu_manager<card_policy, ascii_converter, binary_data_converter>> r"
see = lambda nm, b=0: [e for k, h in enumerate(FILES[nm]()) for e in h.see(100 * (k + 1 + b))]
LK = lambda n, b=0: " ".join("look(r[%d], %d);" % (k, 100 * (k + 1 + b)) for k in range(n))
ws.append(IO.W("reinit", RD + "(\"f\"); r.read_entire_hdus(); r.initialize(\"h\"); O(0, r.get_hdu_list().size()); O(1, r.get_control_block_info().hdus_info.size()); O(2, r.get_control_block_info().filepath); r.read_entire_hdus(); O(3, r.get_hdu_list().size()); " + LK(2), lambda P, I: ([i(0, 0), i(1, 0), s(2, "h"), i(3, 2)] + see("asc"), "ret"), dict, WR + "initialize", "a reader initialized for another file holds only that file's HDUs", files=two, tmax=120))
ws.append(IO.W("reinit_same", RD + "; r.initialize(\"e\"); r.read_only_headers(); O(0, r.get_hdu_list().size()); r.initialize(\"e\"); r.read_entire_hdus(); O(3, r.get_hdu_list().size()); " + LK(1), lambda P, I: ([i(0, 1), i(3, 1)] + see("img16"), "ret"), dict, WR + "initialize", "a file read again from the start", files=two, tmax=120))
ws.append(IO.W("two_readers", RD + "(\"f\"), q(\"h\"); q.read_entire_hdus(); r.read_entire_hdus(); O(0, q.get_hdu_list().size()); O(1, r.get_hdu_list().size()); " + LK(3), lambda P, I: ([i(0, 2), i(1, 3)] + see("both"), "ret"), dict, WR + "read_entire_hdus", "two readers do not disturb each other", files=two, tmax=120))
# ---- changing one cell and writing
def onecell():
    return [primary(), btable(["1J", "3A"], 2, "b"), A2("t")]


def changed(I):
    hs = onecell()
    f = hs[1].fields
    return [cat(F.header(hs[0].cards)), cat(F.header(hs[1].cards), f[0][0], f[0][1], F.bestr(I["i0"], 4, "i"), f[1][1]), cat(F.header(hs[2].cards), hs[2].data)]


PL, TOT = places(onecell())
PARTS = " ".join("O(%d, g.substr(%d, %d));" % (2 + k, PL[k][0], PL[k][1] - PL[k][0] + slen(h.data)) for k, h in enumerate(onecell()))
ws.append(IO.W("cell", "auto r = fits::open(\"f\"); { auto& t = fits::convert_to<binary_table>(r[1]); auto& v = t.get_column<boost::int32_t>(\"COL1\"); v[1] = (boost::int32_t)in_i(0); } r.write_to(\"g\"); std::string g = FILE_(\"g\"); O(0, g.size()); " + PARTS,
               lambda P, I: ([i(0, TOT)] + [s(2 + k, x) for k, x in enumerate(changed(I))], "ret"), lambda: {"i0": F.ivar("x", -2 ** 31, 2 ** 31 - 1)}, WR + "write_to", "a cell changed through a column view is the only difference in the file written", files=lambda I: {"f": bytes_(onecell())}, tmax=120))
ws.append(IO.W("copy", "auto r = fits::open(\"f\"); auto l = r.get_hdu_list(); { auto& t = fits::convert_to<binary_table>(l[1]); auto& v = t.get_column<boost::int32_t>(\"COL1\"); v[1] = (boost::int32_t)in_i(0); } O(0, l.size()); " + LK(3), lambda P, I: ([i(0, 3)] + [e for k, h in enumerate(onecell()) for e in h.see(100 * (k + 1))], "ret"),
               lambda: {"i0": F.ivar("x", -2 ** 31, 2 ** 31 - 1)}, WR + "get_hdu_list", "the list of HDUs is a copy", files=lambda I: {"f": bytes_(onecell())}, tmax=120))
IO.run(ck, PRE, ws, chunk=4)
ck.finish("Abstract interpretation of fits::open, fits_io and the HDU classes on whole files of symbolic contents: every HDU must be of the kind its header names and hold the terms of its part of the file, the recorded locations must be the byte offsets of the headers and data units, and write_to must produce the terms of the file read (fill bytes of data units aside).",
          ["files of the listed shapes (%d), every data content, comment text and integer keyword value" % len(FILES), "fill bytes of data units are not judged", "HDU names are judged where they are unique in the file"], min_obl=60)
