"""C29: a fits_stream reads and writes exactly the bytes asked for, at the position it reports."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat, slen, add, sub, mulc

ck = C.Check("C29")
ws = []
WS = F.IO + "fits_stream.hpp: fits_stream::"
i = lambda k, v: ("i", k, v)
s = lambda k, v: ("s", k, v)
sv = lambda name, n: S.strvar(name, fixed=n)
P0 = S.Path()
at = lambda t, k: S.byteat(None, t, k)


def put(name, body, ev, inputs, where, what, files=None, **k):
    spec = ev if callable(ev) else (lambda P, I: (ev, "ret"))
    ws.append(IO.W(name, "fits_stream fs; " + body, spec, inputs, WS + where, what, files=files, **k))


OPEN = 'fs.set_file("f"); '
# ---- reading byte by byte, for every content of every length up to N
N = 6 if C.TIER == "quick" else 12
for n in range(0, N + 1):
    c = sv("c", n) if n else F.b("")
    body = OPEN + "".join("O(%d, fs.at_end()); O(%d, fs.get_current_pos()); O(%d, fs.get()); " % (3 * k, 3 * k + 1, 3 * k + 2) for k in range(n)) + "O(%d, fs.at_end()); O(%d, fs.at_end()); O(%d, fs.get());" % (3 * n, 3 * n + 1, 3 * n + 2)
    put("get_%d" % n, body, lambda P, I, n=n, c=c: (sum(([i(3 * k, 0), i(3 * k + 1, k), i(3 * k + 2, at(c, k))] for k in range(n)), []) + [i(3 * n, 1), i(3 * n + 1, 1), i(3 * n + 2, 0)], "ret"), dict, "get", "get returns the %d bytes of the file in order, whatever they are, then 0; at_end holds at the end only and moves nothing" % n, files=lambda I, c=c: {"f": c})
# ---- reading pieces in any order
c = sv("c", 200)
sub_ = lambda a, n: S.substr(P0, c, a, n)
FC = lambda I: {"f": c}
SEQ = [[(0, 0), (0, 1), (1, 1)], [(0, 80), (80, 80), (160, 40)], [(100, 100), (0, 100)], [(50, 10), (50, 10), (55, 10)], [(199, 1), (0, 1), (199, 1)], [(0, 200), (0, 200)], [(120, 0), (120, 5), (10, 5), (150, 50), (3, 4)]]
if C.TIER != "quick":
    import random
    g = random.Random(29)
    for _ in range(30):
        q = []
        for _ in range(6):
            p = g.randrange(0, 200)
            q.append((p, g.randrange(0, 200 - p + 1)))
        SEQ.append(q)
for n, seq in enumerate(SEQ):
    body, ev, k = OPEN, [], 0
    for p, m in seq:
        body += "fs.set_reading_pos(%d); O(%d, fs.get_current_pos()); O(%d, fs.read(%d)); O(%d, fs.at_end()); O(%d, fs.get_current_pos()); " % (p, k, k + 1, m, k + 2, k + 3)
        ev += [i(k, p), s(k + 1, sub_(p, m)), i(k + 2, int(p + m == 200))] + [i(k + 3, p + m)]
        k += 4
    put("pieces_%d" % n, body, ev, dict, "set_reading_pos", "reading %s gives those bytes, at the end of the file too" % " ".join("%d+%d" % x for x in seq), files=FC)
# sequential reads without seeking
for n, lens in enumerate([(1,) * 8, (80, 80, 40), (3, 0, 5, 0, 7), (199, 1), (200,)]):
    body, ev, p = OPEN, [], 0
    for k, m in enumerate(lens):
        body += "O(%d, fs.read(%d)); " % (2 * k, m)
        ev.append(s(2 * k, sub_(p, m)))
        p += m
        body += "O(%d, fs.get_current_pos()); " % (2 * k + 1)
        ev.append(i(2 * k + 1, p))
    put("seq_%d" % n, body, ev, dict, "read", "reads follow each other", files=FC)
put("mixed", OPEN + "O(0, fs.get()); O(1, fs.read(3)); O(2, fs.get()); O(3, fs.at_end()); O(4, fs.read(2)); O(5, fs.get_current_pos());", [i(0, at(c, 0)), s(1, sub_(1, 3)), i(2, at(c, 4)), i(3, 0), s(4, sub_(5, 2)), i(5, 7)], dict, "get", "get and read share one position", files=FC)
put("after_end", OPEN + "fs.read(200); O(0, fs.at_end()); fs.set_reading_pos(7); O(1, fs.at_end()); O(2, fs.get_current_pos()); O(3, fs.get()); O(4, fs.read(4)); O(5, fs.get_current_pos());", [i(0, 1), i(1, 0), i(2, 7), i(3, at(c, 7)), s(4, sub_(8, 4)), i(5, 12)], dict, "at_end", "after looking at the end of the file it can be read again from any position", files=FC)
put("end_pos", OPEN + "fs.read(200); O(0, fs.at_end()); O(1, fs.get_current_pos()); O(2, fs.find_unit_end()); O(3, fs.at_end()); O(4, fs.get_current_pos()); fs.set_reading_pos(7); O(5, fs.read(4)); O(6, fs.get_current_pos());", [i(0, 1), i(1, 200), i(2, 2880), i(3, 1), i(4, 200), s(5, sub_(7, 4)), i(6, 11)], dict, "at_end", "at the end of the file the position is still known, whatever was asked before", files=FC)
# ---- opening
FG = lambda I: {"f": sv("c", 9), "g": sv("e", 7)}
put("fresh", "O(0, fs.is_open()); fs.set_file(\"f\"); O(1, fs.is_open()); O(2, fs.get_current_pos()); fs.close(); O(3, fs.is_open());", [i(0, 0), i(1, 1), i(2, 0), i(3, 0)], dict, "is_open", "a stream is open from set_file to close", files=FG)
put("switch", "fs.set_file(\"f\"); O(0, fs.read(4)); fs.set_file(\"g\"); O(1, fs.get_current_pos()); O(2, fs.read(7)); fs.set_file(\"f\"); O(3, fs.read(9)); O(4, fs.is_open());", lambda P, I: ([s(0, S.substr(P0, sv("c", 9), 0, 4)), i(1, 0), s(2, sv("e", 7)), s(3, sv("c", 9)), i(4, 1)], "ret"), dict, "set_file", "set_file turns to the start of the given file", files=FG)
put("switch_end", "fs.set_file(\"f\"); fs.read(9); fs.at_end(); fs.get(); fs.set_file(\"f\"); O(0, fs.at_end()); O(1, fs.read(9)); fs.close(); fs.set_file(\"g\"); O(2, fs.get());", lambda P, I: ([i(0, 0), s(1, sv("c", 9)), i(2, at(sv("e", 7), 0))], "ret"), dict, "set_file", "a stream that reached the end of one file reads the next from the start", files=FG)
put("two", "fits_stream gs; fs.set_file(\"f\"); gs.set_file(\"g\"); O(0, fs.read(2)); O(1, gs.read(3)); O(2, fs.read(2)); O(3, gs.get_current_pos()); gs.close(); O(4, fs.is_open()); O(5, fs.read(5));", lambda P, I: ([s(0, S.substr(P0, sv("c", 9), 0, 2)), s(1, S.substr(P0, sv("e", 7), 0, 3)), s(2, S.substr(P0, sv("c", 9), 2, 2)), i(3, 3), i(4, 1), s(5, S.substr(P0, sv("c", 9), 4, 5))], "ret"), dict, "read", "two streams do not share anything", files=FG)
put("same_twice", "fits_stream gs; fs.set_file(\"f\"); gs.set_file(\"f\"); fs.read(5); O(0, gs.get_current_pos()); O(1, gs.read(9)); O(2, fs.get_current_pos());", lambda P, I: ([i(0, 0), s(1, sv("c", 9)), i(2, 5)], "ret"), dict, "set_file", "two streams on one file have their own positions", files=FG)
put("readonly", "fs.set_file(\"f\"); O(0, fs.write(S(0))); O(1, FILE_(\"f\"));", lambda P, I: ([i(0, 0), s(1, sv("c", 9))], "ret"), lambda: {"s0": sv("n", 3)}, "set_file", "a file opened for reading is not changed, and write says so", files=FG)
put("readonly_at", "fs.set_file(\"f\"); O(0, fs.write(S(0), 2)); O(1, FILE_(\"f\"));", lambda P, I: ([i(0, 0), s(1, sv("c", 9))], "ret"), lambda: {"s0": sv("n", 3)}, "set_file", "a file opened for reading is not changed, and write says so", files=FG)
# ---- writing
MK = 'O(0, fs.create_file("g")); '
D3 = lambda: {"s0": sv("a", 5), "s1": sv("b", 4), "s2": sv("d", 3)}
a_, b_, d_ = sv("a", 5), sv("b", 4), sv("d", 3)
BIG = lambda: {"s0": sv("a", 3000), "s1": sv("b", 2880), "s2": sv("d", 1)}
for nm, D in (("small", D3), ("big", BIG)):
    t = D()
    x, y, z = t["s0"], t["s1"], t["s2"]
    l = [slen(v) for v in (x, y, z)]
    put("append_" + nm, MK + "O(1, fs.is_open()); O(2, fs.get_current_pos()); O(3, fs.write(S(0))); O(4, fs.get_current_pos()); O(5, fs.write(S(1))); O(6, fs.write(S(2))); O(7, fs.get_current_pos()); O(8, FILE_(\"g\"));", [i(0, 1), i(1, 1), i(2, 0), i(3, 1), i(4, l[0]), i(5, 1), i(6, 1), i(7, sum(l)), s(8, cat(x, y, z))], D, "write", "writes follow each other", files=FG)
    put("back_" + nm, MK + "fs.write(S(0)); fs.write(S(1)); fs.set_reading_pos(0); O(1, fs.read(%d)); O(2, fs.at_end()); fs.set_reading_pos(%d); O(3, fs.read(%d)); O(4, fs.get());" % (l[0], l[0], l[1]), [i(0, 1), s(1, x), i(2, 0), s(3, y), i(4, 0)], D, "write", "what was written can be read back", files=FG)
    put("close_" + nm, MK + "fs.write(S(0)); fs.close(); O(1, fs.is_open()); O(2, FILE_(\"g\")); fs.set_file(\"g\"); O(3, fs.read(%d)); O(4, fs.at_end());" % l[0], [i(0, 1), i(1, 0), s(2, x), s(3, x), i(4, 1)], D, "close", "a closed file holds what was written", files=FG)
put("trunc", MK + "O(1, FILE_(\"g\")); O(2, fs.at_end());", [i(0, 1), s(1, F.b("")), i(2, 1)], dict, "create_file", "create_file starts with an empty file", files=FG)
put("trunc_open", "fs.set_file(\"g\"); fs.read(7); fs.at_end(); fs.get(); " + MK + "O(1, fs.write(S(0))); O(2, FILE_(\"g\")); O(3, FILE_(\"f\"));", lambda P, I: ([i(0, 1), i(1, 1), s(2, a_), s(3, sv("c", 9))], "ret"), D3, "create_file", "create_file works on a stream that reached the end of another file", files=FG)
put("recreate", MK + "fs.write(S(0)); O(1, fs.create_file(\"h\")); fs.write(S(1)); O(2, FILE_(\"g\")); O(3, FILE_(\"h\")); O(4, fs.get_current_pos());", [i(0, 1), i(1, 1), s(2, a_), s(3, b_), i(4, 4)], D3, "create_file", "creating another file leaves the first as written", files=FG)
put("empty", MK + "O(1, fs.write(S(0))); O(2, fs.get_current_pos()); O(3, FILE_(\"g\")); O(4, fs.write(S(1))); O(5, FILE_(\"g\"));", lambda P, I: ([i(0, 1), i(1, 1), i(2, 0), s(3, F.b("")), i(4, 1), s(5, a_)], "ret"), lambda: {"s0": F.b(""), "s1": a_}, "write", "writing nothing changes nothing", files=FG)
# in place
W = sv("w", 20)
wsub = lambda p, n: S.substr(P0, W, p, n)
for p in (0, 1, 7, 15, 16, 18, 20):
    for n in (1, 4):
        new = sv("n", n)
        out = cat(wsub(0, p), new, wsub(p + n, 20 - p - n) if p + n < 20 else F.b(""))
        put("at_%d_%d" % (p, n), MK + "fs.write(S(0)); O(1, fs.write(S(1), %d)); O(2, fs.get_current_pos()); O(3, FILE_(\"g\")); O(4, fs.write(S(2))); O(5, FILE_(\"g\")); fs.set_reading_pos(0); O(6, fs.read(20));" % p,
            lambda P, I, p=p, n=n, new=new, out=out: ([i(0, 1), i(1, 1), i(2, p + n), s(3, out), i(4, 1), s(5, (lambda t: cat(t, S.substr(P0, out, p + n + 2, slen(out) - p - n - 2)) if p + n + 2 < slen(out) else t)(cat(S.substr(P0, out, 0, p + n), I["s2"]))),
                                                      s(6, S.substr(P0, (lambda t: cat(t, S.substr(P0, out, p + n + 2, slen(out) - p - n - 2)) if p + n + 2 < slen(out) else t)(cat(S.substr(P0, out, 0, p + n), I["s2"])), 0, 20))], "ret"),
            lambda new=new: {"s0": W, "s1": new, "s2": sv("m", 2)}, "write", "writing %d bytes at %d changes those and no others" % (n, p), files=FG)
BW = sv("w", 9000)
for p in (2879, 2880, 2881, 5000, 8990):
    put("far_%d" % p, MK + "fs.write(S(0)); O(1, fs.write(S(1), %d)); O(2, fs.get_current_pos()); O(3, FILE_(\"g\")); fs.set_reading_pos(%d); O(4, fs.read(12)); fs.set_reading_pos(%d); O(5, fs.read(10));" % (p, p - 4, p),
        [i(0, 1), i(1, 1), i(2, p + 8), s(3, cat(S.substr(P0, BW, 0, p), sv("n", 8), S.substr(P0, BW, p + 8, 9000 - p - 8))), s(4, cat(S.substr(P0, BW, p - 4, 4), sv("n", 8))), s(5, cat(sv("n", 8), S.substr(P0, BW, p + 8, 2)))], lambda: {"s0": BW, "s1": sv("n", 8)}, "write", "writing 8 bytes at %d changes those and no others" % p, files=FG)
    put("far_read_%d" % p, "fs.set_file(\"h\"); fs.set_reading_pos(%d); O(0, fs.get_current_pos()); O(1, fs.get()); O(2, fs.read(8)); O(3, fs.at_end()); O(4, fs.get_current_pos());" % p, [i(0, p), i(1, at(BW, p)), s(2, S.substr(P0, BW, p + 1, 8)), i(3, 0), i(4, p + 9)], dict, "read", "reading at %d" % p, files=lambda I: {"h": BW})
IO.run(ck, F.HEAD, ws, chunk=6)
ck.finish("Abstract interpretation of fits_stream over files of symbolic bytes: every value returned, every position reported and the contents of every file after a sequence of operations must be the terms of the file as a byte array with one position.",
          ["std::fstream behaves as a byte array with one shared position and the standard's error flags (stand-in)", "files of up to 6000 bytes; sequences of up to 20 operations"], min_obl=40)
