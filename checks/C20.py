"""C20: positions and writers keep to 2880-byte logical records."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat, slen, add, sub, mulc

ck = C.Check("C20")
ws = []
WS = F.IO + "fits_stream.hpp: fits_stream::"
kv, i = F.kv, lambda k, v: ("i", k, v)
HUGE = 1 << 40
any_ = lambda name, **k: S.strvar(name, **k)


# ---- the end of the record a position lies in
def pos():
    q, r = F.ivar("q", 0, 10 ** 6), F.ivar("r", 0, 2879)
    return {"q": q, "r": r, "i0": add(mulc(q, 2880), r)}


def end(P, I):
    return mulc(I["q"], 2880) if P.eqi(I["r"], 0) else add(mulc(I["q"], 2880), 2880)


def pgen(rng, q):
    return {"q": rng.choice((0, 1, 2, 5, rng.randrange(10 ** 6))), "r": rng.choice((0, 0, 1, 79, 80, 2800, 2878, 2879, rng.randrange(2880))), "body": b""}


F0 = lambda I: {"f": S.strvar("body", lo=0, hi=HUGE)}
ws.append(IO.W("find", "fits_stream fs; fs.set_file(\"f\"); fs.set_reading_pos(in_i(0)); O(0, fs.find_unit_end()); O(1, fs.get_current_pos());", lambda P, I: ([i(0, end(P, I)), i(1, I["i0"])], "ret"), pos, WS + "find_unit_end",
               "find_unit_end is the next multiple of 2880 at or after the position and moves nothing", files=F0, gen=pgen))
ws.append(IO.W("set", "fits_stream fs; fs.set_file(\"f\"); fs.set_reading_pos(in_i(0)); fs.set_unit_end(); O(0, fs.get_current_pos()); fs.set_unit_end(); O(1, fs.get_current_pos());", lambda P, I: ([i(0, end(P, I)), i(1, end(P, I))], "ret"), pos, WS + "set_unit_end",
               "set_unit_end goes to the end of the record and stays there", files=F0, gen=pgen))
for n in (0, 1, 80, 2800, 2879, 2880, 2881, 5759, 5760):
    ws.append(IO.W("written_%d" % n, "fits_stream fs; fs.create_file(\"g\"); fs.write(S(0)); O(0, fs.get_current_pos()); O(1, fs.find_unit_end()); O(2, FILE_(\"g\"));", lambda P, I, n=n: ([i(0, n), i(1, -(-n // 2880) * 2880), ("s", 2, I["s0"])], "ret"),
                   lambda n=n: {"s0": any_("data", fixed=n) if n else F.b("")}, WS + "find_unit_end", "after writing %d bytes" % n))
# writing at a position
ws.append(IO.W("write_at", "fits_stream fs; fs.create_file(\"g\"); fs.write(S(0)); O(0, fs.write(S(1), 100)); O(1, fs.get_current_pos()); O(2, FILE_(\"g\"));",
               lambda P, I: ([i(0, 1), i(1, 150), ("s", 2, cat(S.strvar("d0", fixed=100), I["s1"], S.strvar("d2", fixed=50)))], "ret"), lambda: {"s0": cat(S.strvar("d0", fixed=100), S.strvar("d1", fixed=50), S.strvar("d2", fixed=50)), "s1": any_("new", fixed=50)}, WS + "write(data, position)", "writing at a position overwrites exactly those bytes"))


# ---- headers are written to a record boundary
def cards(n):
    return [kv("SIMPLE", True), kv("BITPIX", 8), kv("NAXIS", 0)] + [F.card("K%d" % k, F.rj(S.fmt_i(F.ivar("x%d" % (k % 5), -9999, 9999)), 20), "c") for k in range(n - 4)]


NC = (4, 5, 34, 35, 36, 37, 38, 71, 72, 73) if C.TIER == "quick" else (4, 5, 6, 20, 34, 35, 36, 37, 38, 70, 71, 72, 73, 74, 107, 108, 109, 144)
for n in NC:
    ws.append(IO.W("header_%d" % n, "fits_stream fs; fs.set_file(\"f\"); Header h; h.read_header(fs); O(0, fs.get_current_pos()); fs.set_unit_end(); O(1, fs.get_current_pos()); fits_stream o; o.create_file(\"g\"); h.write_header(o); O(2, o.get_current_pos()); O(3, FILE_(\"g\"));",
                   lambda P, I, n=n: ([i(0, 80 * n), i(1, -(-n // 36) * 2880), i(2, -(-n // 36) * 2880), ("s", 3, F.header(cards(n)))], "ret"), dict, F.IO + "header.hpp: header::write_header", "a header of %d cards fills whole records" % n,
                   files=lambda I, n=n: {"f": cat(F.header(cards(n)), S.strvar("after", lo=0, hi=9000))}, tmax=200))


# ---- data units are written to a record boundary
def prim(n, ext=True):
    return F.header([kv("SIMPLE", True), kv("BITPIX", 8), kv("NAXIS", 1), kv("NAXIS1", n), kv("EXTEND", ext)])


def table(width, rows, kind):
    first = [kv("XTENSION", kind), kv("BITPIX", 8), kv("NAXIS", 2), kv("NAXIS1", width), kv("NAXIS2", rows), kv("PCOUNT", 0), kv("GCOUNT", 1), kv("TFIELDS", 1), kv("TTYPE1", "A")]
    return F.header(first + ([kv("TFORM1", "%dA" % width)] if kind == "BINTABLE" else [kv("TBCOL1", 1), kv("TFORM1", "A%d" % width)]))


def padlen(P, t, n):
    """t followed by something of the length that fills the record (the fill bytes are not judged)"""
    return n + (-n) % 2880


SZ = (1, 2, 100, 2879, 2880, 2881) if C.TIER == "quick" else (1, 2, 79, 80, 81, 100, 1440, 2800, 2878, 2879, 2880, 2881, 2882, 5759, 5760, 5761)
for kind, cls in (("BINTABLE", "binary_table"), ("TABLE", "ascii_table")):
    for w in SZ:
        for rows in (1, 2):
            if rows == 2 and w > 2881:
                continue
            n = w * rows
            head = lambda w=w, rows=rows, kind=kind: table(w, rows, kind)
            ws.append(IO.W("%s_%d_%d" % (cls, w, rows), "fits_stream fs; fs.set_file(\"f\"); Header h; h.read_header(fs); %s t(h, S(0)); fits_stream o; o.create_file(\"g\"); t.write_to(o); O(0, o.get_current_pos()); std::string g = FILE_(\"g\"); O(1, g.size()); O(2, g.substr(0, 2880 + %d)); O(3, o.write(\"X\"));" % (cls, n),
                           lambda P, I, n=n, head=head: ([i(0, 2880 + padlen(P, None, n)), i(1, 2880 + padlen(P, None, n)), ("s", 2, cat(head(), I["s0"])), i(3, 1)], "ret"),
                           lambda n=n, w=w, rows=rows, kind=kind: {"s0": any_("data", fixed=n) if kind == "BINTABLE" else cat(*[x for r in range(rows) for x in ([S.strvar("e%d" % r, alpha=F.NBLANK, fixed=1)] + ([S.strvar("d%d" % r, alpha=F.PRINT, fixed=w - 2), S.strvar("z%d" % r, alpha=F.NBLANK, fixed=1)] if w > 2 else [S.strvar("z%d" % r, alpha=F.NBLANK, fixed=1)] if w == 2 else []))])},
                           F.IO + cls + ".hpp: write_to", "a %s of %d bytes is written to whole records, data unchanged" % (kind, n), files=lambda I, head=head: {"f": head()}, tmax=120))
for n in (0, 1, 100) if C.TIER == "quick" else (0, 1, 100, 2879, 2880, 2881):
    ws.append(IO.W("primary_%d" % n, "fits_stream fs; fs.set_file(\"f\"); Header h; h.read_header(fs); primary_hdu p(h, S(0)); fits_stream o; o.create_file(\"g\"); p.write_to(o); O(0, o.get_current_pos()); std::string g = FILE_(\"g\"); O(1, g.size()); O(2, g.substr(0, 2880 + %d));" % n,
                   lambda P, I, n=n: ([i(0, 2880 + padlen(P, None, n)), i(1, 2880 + padlen(P, None, n)), ("s", 2, cat(prim(n), I["s0"]))], "ret"), lambda n=n: {"s0": any_("pix", fixed=n) if n else F.b("")}, F.IO + "primary_hdu.hpp: write_to", "a primary HDU of %d bytes is written to whole records" % n,
                   files=lambda I, n=n: {"f": prim(n)}, tmax=300))
IO.run(ck, F.ALL, ws, chunk=6)
ck.finish("Abstract interpretation of fits_stream and the write_to functions: for every position 2880*q + r the end of the record must be the next multiple of 2880 at or after it, and every written header or data unit must be followed by exactly the fill that ends its last record, with the bytes before it unchanged.",
          ["positions up to 2880*10^6; header lengths %s; data lengths %s" % (NC, SZ), "fill bytes themselves are not judged"], min_obl=40)
