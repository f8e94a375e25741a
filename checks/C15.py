"""C15: the binary codec is the big-endian FITS encoding, element by element, in both directions."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk

PRE = "#include <boost/astronomy/io/binary_data_converter.hpp>\nusing boost::astronomy::io::binary_data_converter;\n"
WH = "include/boost/astronomy/io/binary_data_converter.hpp: binary_data_converter::"
ck = C.Check("C15")
ws = []
be, ev = F.be, F.ev
NUM = {"std::int16_t": (2, "i"), "std::int32_t": (4, "i"), "float": (4, "f"), "double": (8, "d")}
CNT = (0, 1, 2, 3, 7) if C.TIER == "quick" else (0, 1, 2, 3, 4, 5, 7, 8, 11, 16, 33)
D, Z = "binary_data_converter::deserialize_to", "binary_data_converter::serialize"


def put(name, body, spec, n, where, what):
    ws.append(IO.W(name, body, spec, lambda: {"s0": S.strvar("raw", fixed=n) if n else F.b("")}, WH + where, what))


def rt(P, I):
    return [("s", 0, I["s0"])], "ret"


for t, (n, k) in NUM.items():
    b = t.split("::")[-1]
    put("decode_" + b, "O(0, %s<%s>(S(0), 1));" % (D, t), lambda P, I, n=n, k=k: ([ev(k, 0, be(I["s0"], 0, n, k))], "ret"), n, "deserialize_to<%s>" % t, "decoding one %s" % t)
    put("roundtrip_" + b, "O(0, %s(%s<%s>(S(0), 1)));" % (Z, D, t), rt, n, "serialize(%s)" % t, "re-encoding one decoded %s gives the original bytes" % t)
    for c in CNT:
        put("decode_v_%s_%d" % (b, c), "auto v = %s<std::vector<%s>>(S(0), %d); O(0, v.size()); for (std::size_t i = 0; i < v.size(); ++i) O(1 + i, v[i]);" % (D, t, c),
            lambda P, I, c=c, n=n, k=k: ([("i", 0, c)] + [ev(k, 1 + i, be(I["s0"], n * i, n, k)) for i in range(c)], "ret"), n * c, "deserialize_to<vector<%s>>" % t, "decoding %d consecutive %s elements" % (c, t))
        put("roundtrip_v_%s_%d" % (b, c), "auto v = %s<std::vector<%s>>(S(0), %d); O(0, %s(v));" % (D, t, c, Z), rt, n * c, "serialize(vector<%s>)" % t, "re-encoding %d decoded %s elements gives the original bytes" % (c, t))
# complex and array descriptors: two fields in order
for nm, t, a, b2, n, k in (("cfloat", "std::complex<float>", "real()", "imag()", 4, "f"), ("cdouble", "std::complex<double>", "real()", "imag()", 8, "d"), ("desc", "std::pair<std::int32_t, std::int32_t>", "first", "second", 4, "i")):
    put("decode_" + nm, "auto z = %s<%s>(S(0), 1); O(0, z.%s); O(1, z.%s);" % (D, t, a, b2), lambda P, I, n=n, k=k: ([ev(k, i, be(I["s0"], n * i, n, k)) for i in (0, 1)], "ret"), 2 * n, "deserialize_to<%s>" % t, "decoding one %s" % t)
    put("roundtrip_" + nm, "auto z = %s<%s>(S(0), 1); O(0, %s(z));" % (D, t, Z), rt, 2 * n, "serialize(%s)" % t, "re-encoding one decoded %s gives the original bytes" % t)
    for c in CNT:
        put("decode_v_%s_%d" % (nm, c), "auto v = %s<std::vector<%s>>(S(0), %d); O(0, v.size()); for (std::size_t i = 0; i < v.size(); ++i) { O(1 + 2 * i, v[i].%s); O(2 + 2 * i, v[i].%s); }" % (D, t, c, a, b2),
            lambda P, I, c=c, n=n, k=k: ([("i", 0, c)] + [ev(k, 1 + i, be(I["s0"], n * i, n, k)) for i in range(2 * c)], "ret"), 2 * n * c, "deserialize_to<vector<%s>>" % t, "decoding %d consecutive %s elements" % (c, t))
        put("roundtrip_v_%s_%d" % (nm, c), "auto v = %s<std::vector<%s>>(S(0), %d); O(0, %s(v));" % (D, t, c, Z), rt, 2 * n * c, "serialize(vector<%s>)" % t, "re-encoding %d decoded %s elements gives the original bytes" % (c, t))
# bytes and characters
for nm, t, sg in (("uint8", "std::uint8_t", False), ("char", "char", True)):
    val = lambda I, i, sg=sg: (lambda x: mk("sext", 8, x) if sg else x)(S.byteat(None, I["s0"], i))
    put("decode_" + nm, "O(0, %s<%s>(S(0), 1));" % (D, t), lambda P, I, val=val: ([("i", 0, val(I, 0))], "ret"), 1, "deserialize_to<%s>" % t, "decoding one %s" % t)
    put("roundtrip_" + nm, "O(0, %s(%s<%s>(S(0), 1)));" % (Z, D, t), rt, 1, "serialize(%s)" % t, "re-encoding one decoded %s gives the original byte" % t)
    for c in CNT:
        put("decode_v_%s_%d" % (nm, c), "auto v = %s<std::vector<%s>>(S(0), %d); O(0, v.size()); for (std::size_t i = 0; i < v.size(); ++i) O(1 + i, v[i]);" % (D, t, c),
            lambda P, I, c=c, val=val: ([("i", 0, c)] + [("i", 1 + i, val(I, i)) for i in range(c)], "ret"), c, "deserialize_to<vector<%s>>" % t, "decoding %d consecutive %s elements" % (c, t))
        put("roundtrip_v_%s_%d" % (nm, c), "auto v = %s<std::vector<%s>>(S(0), %d); O(0, %s(v));" % (D, t, c, Z), rt, c, "serialize(vector<%s>)" % t, "re-encoding %d decoded %s elements gives the original bytes" % (c, t))
# logicals
for c in (1, 2, 3, 5):
    for m in range(1 << c) if c < 4 else (0, 5, 21, 31, 10):
        raw = "".join("FT"[(m >> i) & 1] for i in range(c))
        if c == 1:
            ws.append(IO.W("bool_" + raw, "bool b = %s<bool>(S(0), 1); O(0, b); O(1, %s(b));" % (D, Z), lambda P, I, raw=raw: ([("i", 0, int(raw == "T")), ("s", 1, F.b(raw))], "ret"), lambda raw=raw: {"s0": F.b(raw)}, WH + "deserialize_to<bool>", "logical %s" % raw))
        ws.append(IO.W("vbool_" + raw, "auto v = %s<std::vector<bool>>(S(0), %d); O(0, v.size()); for (std::size_t i = 0; i < v.size(); ++i) O(1 + i, (bool)v[i]); O(9, %s(v));" % (D, c, Z),
                       lambda P, I, raw=raw: ([("i", 0, len(raw))] + [("i", 1 + i, int(x == "T")) for i, x in enumerate(raw)] + [("s", 9, F.b(raw))], "ret"), lambda raw=raw: {"s0": F.b(raw)}, WH + "deserialize_to<vector<bool>>", "logical array %s" % raw))
# a logical is true exactly when its byte is 'T', whatever the other bytes are (0 is the standard's undefined value)
for c in (1, 2, 4):
    ws.append(IO.W("vbool_any_%d" % c, "auto v = %s<std::vector<bool>>(S(0), %d); O(0, v.size()); for (std::size_t i = 0; i < v.size(); ++i) O(1 + i, (bool)v[i]);" % (D, c),
                   lambda P, I, c=c: ([("i", 0, c)] + [("i", 1 + i, 1 if P.eqi(S.byteat(P, I["s0"], i), 84) else 0) for i in range(c)], "ret"), lambda c=c: {"s0": S.strvar("raw", fixed=c)}, WH + "deserialize_to<vector<bool>>", "%d logicals of any bytes" % c))
ws.append(IO.W("bool_any", "O(0, (bool)%s<bool>(S(0), 1));" % D, lambda P, I: ([("i", 0, mk("eq", 8, S.byteat(P, I["s0"], 0), 84))], "ret"), lambda: {"s0": S.strvar("raw", fixed=1)}, WH + "deserialize_to<bool>", "a logical of any byte"))
# encoding values that did not come from bytes
for t, g, n, k in (("std::int16_t", "(std::int16_t)in_i(0)", 2, "i"), ("std::int32_t", "(std::int32_t)in_i(0)", 4, "i"), ("double", "in_d(0)", 8, "d"), ("float", "in_f(0)", 4, "f")):
    def inp(n=n, k=k):
        return {"i0": F.ivar("x", -2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1)} if k == "i" else {k + "0": F.dvar("x", 8 * n)}

    def spec(P, I, n=n, k=k):
        v = I["i0"] if k == "i" else I[k + "0"]
        return [("s", 0, F.bestr(v, n, k))], "ret"
    ws.append(IO.W("encode_" + t.split("::")[-1], "O(0, %s(%s));" % (Z, g), spec, inp, WH + "serialize(%s)" % t, "encoding one %s is big-endian" % t))
IO.run(ck, PRE, ws, chunk=10)
ck.finish("Abstract interpretation of binary_data_converter over byte terms: each decoded element must be the term built from its own big-endian bytes, and encoding the decoded value must give back the identical byte string, for every content of the field.",
          ["element counts %s; every byte content" % (CNT,)], min_obl=100)
