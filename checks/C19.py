"""C19: missing, truncated and malformed files are reported, never read as if complete."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat, slen, add, sub, mulc

ck = C.Check("C19")
ws = []
WS, WH, WR = F.IO + "fits_stream.hpp: fits_stream::", F.IO + "header.hpp: header::", F.IO + "fits_reader.hpp: fits_io::"
kv, i = F.kv, lambda k, v: ("i", k, v)
FRE = "throw:file_reading_exception"
put = lambda name, body, spec, inputs, where, what, files=None, **k: ws.append(IO.W(name, body, spec, inputs, where, what, files=files, **k))
other = lambda I: {"other": S.strvar("o", lo=0, hi=9000)}
thr = lambda P, I: ([], FRE)

# ---- a file that is not there
put("missing_stream", "fits_stream fs; fs.set_file(\"f\"); O(0, 1);", thr, dict, WS + "set_file", "opening a file that is not there is reported", other)
put("missing_open", "auto r = fits::open(\"f\"); O(0, 1);", thr, dict, F.IO + "fits.hpp: basic_fits::open", "opening a file that is not there is reported", other)
put("missing_open_headers", "auto r = fits::open(\"f\", reading_options::read_only_headers); O(0, 1);", thr, dict, F.IO + "fits.hpp: basic_fits::open", "opening a file that is not there is reported", other)
put("missing_reopen", "fits_stream fs; fs.set_file(\"other\"); O(0, fs.is_open()); try { fs.set_file(\"f\"); O(1, 1); } catch (boost::astronomy::fits_exception&) { O(1, 0); } fs.set_file(\"other\"); O(2, fs.is_open()); O(3, fs.get_current_pos());",
    lambda P, I: ([i(0, 1), i(1, 0), i(2, 1), i(3, 0)], "ret"), dict, WS + "set_file", "a failed open does not prevent opening another file", other)
# ---- reading n bytes
BODY = lambda: {"c": S.strvar("c", lo=0, hi=20000), "i0": F.ivar("n", 0, 10000), "i1": F.ivar("p", 0, 10000)}


def rd(P, I):
    n = I["i0"]
    if not P.le(n, slen(I["c"])):
        return [], FRE
    return [("s", 0, S.substr(P, I["c"], 0, n)), i(1, n)], "ret"


def rgen(rng, q):
    L = rng.choice((0, 1, 80, 2880, rng.randrange(3000)))
    n = max(0, L + rng.choice((-1, 0, 1, 7, -40)))
    return {"c": bytes(rng.choice(b"abc xyz") for _ in range(L)), "n": n, "p": rng.randrange(0, max(1, L))}


put("read", "fits_stream fs; fs.set_file(\"f\"); O(0, fs.read(in_i(0))); O(1, fs.get_current_pos());", rd, BODY, WS + "read", "read(n) returns exactly the next n bytes or reports the end of the file", lambda I: {"f": I["c"]}, gen=rgen)
for p in (1, 80, 2880):
    def rdp(P, I, p=p):
        if not P.le(p, slen(I["c"])):
            return None
        if not P.le(add(I["i0"], p), slen(I["c"])):
            return [], FRE
        return [("s", 0, S.substr(P, I["c"], p, I["i0"])), i(1, add(I["i0"], p))], "ret"
    put("read_at_%d" % p, "fits_stream fs; fs.set_file(\"f\"); fs.set_reading_pos(%d); O(0, fs.read(in_i(0))); O(1, fs.get_current_pos());" % p, rdp, BODY, WS + "read", "read(n) at position %d" % p, lambda I: {"f": I["c"]}, gen=lambda rng, q, p=p: (lambda E: dict(E, n=max(0, len(E["c"]) - p + rng.choice((-3, -1, 0, 1, 9)))))(dict(rgen(rng, q), c=bytes(rng.choice(b"abc") for _ in range(p + rng.randrange(0, 60))))))
put("seek_past", "fits_stream fs; fs.set_file(\"f\"); fs.set_reading_pos(in_i(1)); O(0, fs.at_end());", lambda P, I: ([i(0, 0 if P.le(add(I["i1"], 1), slen(I["c"])) else 1)], "ret"), BODY, WS + "at_end", "at_end is true exactly when no byte is left", lambda I: {"f": I["c"]}, gen=rgen)
put("get", "fits_stream fs; fs.set_file(\"f\"); unsigned char a = fs.get(); unsigned char b = fs.get(); O(0, a); O(1, b); O(2, fs.get());", lambda P, I: ([i(0, S.byteat(None, I["c"], 0)), i(1, S.byteat(None, I["c"], 1)), i(2, 0)], "ret"), lambda: {"c": S.strvar("c", fixed=2)}, WS + "get", "get() returns the bytes in order and 0 at the end", lambda I: {"f": I["c"]})
# after reporting the end the stream can be used for another file
put("reuse", "fits_stream fs; fs.set_file(\"f\"); try { fs.read(in_i(0)); O(0, 1); } catch (boost::astronomy::fits_exception&) { O(0, 0); } fs.set_file(\"g\"); O(1, fs.get_current_pos()); O(2, fs.at_end()); O(3, fs.read(5));",
    lambda P, I: ([i(0, 0), i(1, 0), i(2, 0), ("s", 3, S.substr(P, I["g"], 0, 5))], "ret") if not P.le(I["i0"], slen(I["c"])) else None, lambda: dict(BODY(), g=S.strvar("g", fixed=9)), WS + "set_file", "a stream that hit the end of a file works on the next file", lambda I: {"f": I["c"], "g": I["g"]},
    gen=lambda rng, q: dict(rgen(rng, q), g=b"123456789", n=9000))

# ---- a header without END, cut anywhere
OPEN = "fits_stream fs; fs.set_file(\"f\"); Header h; h.read_header(fs); O(0, 1);"
CUT = lambda name="cut", hi=79: S.strvar(name, alpha=F.PRINT - {ord("E"), ord("=")}, lo=0, hi=hi)
FULL = [kv("SIMPLE", True), kv("BITPIX", 8), kv("NAXIS", 0), kv("EXTEND", True)]
for n in range(0, 5):
    put("cut_header_%d" % n, OPEN, thr, dict, WH + "read_header", "a file that ends inside card %d of a header is reported" % (n + 1), lambda I, n=n: {"f": cat(*FULL[:n], CUT())}, gen=lambda rng, q: {"cut": bytes(rng.choice(b"abc ") for _ in range(q % 80))})
for n in (35, 36, 37) + ((72,) if C.TIER != "quick" else ()):
    put("noend_%d" % n, OPEN, thr, dict, WH + "read_header", "a header of %d cards without END is reported" % n, lambda I, n=n: {"f": cat(*(FULL[:3] + [kv("K%d" % k, k) for k in range(n - 3)]))})
for md, opt in (("all", ""), ("headers", ", reading_options::read_only_headers")):
    put("open_empty_header_" + md, "auto r = fits::open(\"f\"%s); O(0, 1);" % opt, thr, dict, WR + "read", "a file cut inside its primary header is reported (%s)" % md, lambda I: {"f": cat(*FULL[:3], CUT())}, gen=lambda rng, q: {"cut": bytes(rng.choice(b"abc ") for _ in range(q % 80))})
    TB = [kv("XTENSION", "BINTABLE"), kv("BITPIX", 8), kv("NAXIS", 2), kv("NAXIS1", 4)]
    put("open_cut_ext_header_" + md, "auto r = fits::open(\"f\"%s); O(0, 1);" % opt, thr, dict, WR + "read", "a file cut inside an extension header is reported (%s)" % md, lambda I: {"f": cat(F.header(FULL), *TB, CUT("cut"))}, gen=lambda rng, q: {"cut": bytes(rng.choice(b"abc ") for _ in range(q % 80))})
# ---- a data unit that is cut short
T1 = lambda kind, w, rows: F.header([kv("XTENSION", kind), kv("BITPIX", 8), kv("NAXIS", 2), kv("NAXIS1", w), kv("NAXIS2", rows), kv("PCOUNT", 0), kv("GCOUNT", 1), kv("TFIELDS", 1), kv("TTYPE1", "A")] + ([kv("TFORM1", "%dA" % w)] if kind == "BINTABLE" else [kv("TBCOL1", 1), kv("TFORM1", "A%d" % w)]))
for kind in ("BINTABLE", "TABLE"):
    for w, rows in ((4, 1), (10, 3), (2880, 1)) + (((100, 29),) if C.TIER != "quick" else ()):
        put("cut_%s_%d_%d" % (kind, w, rows), "auto r = fits::open(\"f\"); O(0, 1);", lambda P, I, n=w * rows: ([], FRE), dict, WR + "extract_data_buffer", "a %s whose data unit is cut short is reported" % kind,
            lambda I, kind=kind, w=w, rows=rows: {"f": cat(F.header(FULL), T1(kind, w, rows), S.strvar("part", alpha=F.PRINT, lo=0, hi=w * rows - 1))})
for bp, n in ((8, 3), (16, 2), (-64, 1)):
    put("cut_primary_%s" % (str(bp).replace("-", "m")), "auto r = fits::open(\"f\"); O(0, 1);", thr, dict, WR + "extract_data_buffer", "an image whose data unit is cut short is reported (BITPIX %d)" % bp,
        lambda I, bp=bp, n=n: {"f": cat(F.header([kv("SIMPLE", True), kv("BITPIX", bp), kv("NAXIS", 1), kv("NAXIS1", n), kv("EXTEND", False)]), S.strvar("part", lo=0, hi=abs(bp) // 8 * n - 1))})
# a complete file is not reported
for kind in ("BINTABLE", "TABLE"):
    put("complete_" + kind, "auto r = fits::open(\"f\"); O(0, r.get_hdu_list().size());", lambda P, I: ([i(0, 2)], "ret"), dict, WR + "read_entire_hdus", "a complete file is read",
        lambda I, kind=kind: {"f": cat(F.header(FULL), T1(kind, 10, 3), F.block(cat(*[F.text("r%d" % k, inner=F.NBLANK, edge=F.NBLANK, hi=0) for k in range(0)], S.strvar("dd", alpha=F.NBLANK, fixed=30))))})
# wrong kinds of files and accesses
put("bad_index", "auto r = fits::open(\"f\"); r[(int)in_i(0)]; O(0, 1);", lambda P, I: ([i(0, 1)], "ret") if P.eqi(I["i0"], 0) else ([], "throw:out_of_range"), lambda: {"i0": F.ivar("k", -5, 5)}, WR + "operator[](int)", "an HDU index outside the file is reported", lambda I: {"f": F.header(FULL)})
put("bad_name", "auto r = fits::open(\"f\"); r[std::string(\"nosuch\")]; O(0, 1);", lambda P, I: ([], "throw:out_of_range"), dict, WR + "operator[](std::string)", "an HDU name that is not in the file is reported", lambda I: {"f": F.header(FULL)})
put("bad_column", "fits_stream fs; fs.set_file(\"f\"); Header h; h.read_header(fs); binary_table t(h, S(0)); t.get_column_metadata(S(1)); O(0, 1);", lambda P, I: ([], "throw:column_not_found_exception"), lambda: {"s0": S.strvar("d", fixed=4), "s1": S.strvar("nm", alpha=F.WORD, lo=2, hi=8)}, F.IO + "table_extension.hpp: get_column_metadata", "a column name that is not in the table is reported", lambda I: {"f": T1("BINTABLE", 4, 1)})
for ty in "LXBIJAEDCMP":
    pass
put("bad_format", "O(0, binary_table::type_size((char)in_i(0)));", lambda P, I: None if any(P.eqi(I["i0"], ord(c)) for c in "LXBIJAEDCMP") else ([], "throw:invalid_table_colum_format"), lambda: {"i0": F.ivar("c", 32, 126)}, F.IO + "binary_table.hpp: type_size", "a column format the standard does not define is reported")
put("bad_simple", "auto r = fits::open(\"f\"); O(0, 1);", lambda P, I: ([], "throw:fits_exception|out_of_range|invalid_cast"), dict, WH + "read_header", "a file that is not FITS is reported", lambda I: {"f": cat(S.strvar("junk", alpha=frozenset(b"abcdefghijklmnopqrstuvwxyz"), fixed=2880))})
IO.run(ck, F.ALL, ws, chunk=4)
ck.finish("Abstract interpretation of fits_stream, header, fits_io and the tables on files of symbolic content and length: read(n) must return exactly the next n bytes or throw file_reading_exception, and every file cut inside a header or a data unit must end in that exception (the analysis itself follows the reading loop to its end on every partition).",
          ["cut positions: every length inside the cut card or data unit; headers of the listed shapes"], min_obl=30)
