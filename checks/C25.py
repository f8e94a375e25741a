"""C25: text fields of ASCII tables convert to the values they denote and back."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat

ck = C.Check("C25")
ws = []
W_ = F.IO + "string_conversion_utility.hpp: ascii_converter::"
PRE = "#include <boost/astronomy/io/string_conversion_utility.hpp>\nusing namespace boost::astronomy::io;\n"
i = lambda k, v: ("i", k, v)
IT = {"short": ("short", -2 ** 15, 2 ** 15 - 1), "ushort": ("unsigned short", 0, 2 ** 16 - 1), "int": ("int", -2 ** 31, 2 ** 31 - 1), "uint": ("unsigned", 0, 2 ** 32 - 1), "long": ("long", -2 ** 63, 2 ** 63 - 1), "llong": ("long long", -2 ** 62, 2 ** 62)}
for n, (t, lo, hi) in IT.items():
    v = lambda lo=lo, hi=hi: {"i0": F.ivar("x", lo, hi)}
    ws.append(IO.W("ser_" + n, "O(0, ascii_converter::serialize((%s)in_i(0)));" % t, lambda P, I: ([("s", 0, S.fmt_i(I["i0"]))], "ret"), v, W_ + "serialize<%s>" % t, "an integer is written in decimal"))
    ws.append(IO.W("de_" + n, "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([i(0, I["x"])], "ret"), lambda lo=lo, hi=hi: (lambda x: {"x": x, "s0": S.fmt_i(x)})(F.ivar("x", lo, hi)), W_ + "deserialize_to<%s>" % t, "decimal text is read as the number it denotes"))
    ws.append(IO.W("rt_" + n, "O(0, ascii_converter::deserialize_to<%s>(ascii_converter::serialize((%s)in_i(0)), 1));" % (t, t), lambda P, I: ([i(0, I["i0"])], "ret"), v, W_ + "serialize / deserialize_to<%s>" % t, "what is written is read back"))
    ws.append(IO.W("bad_" + n, "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([], "throw:invalid_cast"), lambda: {"s0": S.strvar("w", alpha=frozenset(b"abcdefghjkmpqrsuvwz_/:"), lo=1, hi=12)}, W_ + "deserialize_to<%s>" % t, "text that is no number is reported"))
    ws.append(IO.W("empty_" + n, "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([], "throw:invalid_cast"), lambda: {"s0": F.b("")}, W_ + "deserialize_to<%s>" % t, "an empty field is no number"))
    ws.append(IO.W("tail_" + n, "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([], "throw:invalid_cast"), lambda: {"s0": cat(S.fmt_i(F.ivar("x", 0, 30000)), S.strvar("w", alpha=frozenset(b"abcdefghjkmpqrsuvwz_/:"), lo=1, hi=5))}, W_ + "deserialize_to<%s>" % t, "a number followed by other text is reported, not cut"))
dg = lambda nm, lo=1, hi=4: S.strvar(nm, alpha=frozenset(b"123456789"), lo=lo, hi=hi)
FORMS = {"fraction": lambda: cat(dg("a"), F.b("."), dg("b")), "point": lambda: cat(dg("a"), F.b(".")), "exp": lambda: cat(dg("a"), F.b("E"), dg("b", 1, 2)), "hex": lambda: cat(F.b("0x"), dg("a")), "comma": lambda: cat(dg("a"), F.b(","), dg("b")), "gap": lambda: cat(dg("a"), F.b(" "), dg("b")),
         "lead": lambda: cat(F.b(" "), dg("a")), "trail": lambda: cat(dg("a"), F.b(" ")), "minus": lambda: F.b("-"), "plus": lambda: F.b("+"), "two": lambda: cat(F.b("--"), dg("a")), "after": lambda: cat(dg("a"), F.b("-")), "quote": lambda: cat(F.b("'"), dg("a"), F.b("'")), "blanks": lambda: S.rep(F.ivar("nb", 1, 9), 32), "nul": lambda: cat(dg("a"), F.b("\0"))}
for n, (t, lo, hi) in IT.items():
    for fn, f in FORMS.items():
        ws.append(IO.W("form_%s_%s" % (fn, n), "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([], "throw:invalid_cast"), lambda f=f: {"s0": f()}, W_ + "deserialize_to<%s>" % t, "text of the form '%s' is no integer" % fn))
for n, t in (("double", "double"), ("float", "float")):
    for fn in ("hex", "comma", "gap", "lead", "trail", "minus", "plus", "two", "after", "quote", "blanks", "nul"):
        if fn in ("hex",):
            continue
        ws.append(IO.W("form_%s_%s" % (fn, n), "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([], "throw:invalid_cast"), lambda f=FORMS[fn]: {"s0": f()}, W_ + "deserialize_to<%s>" % t, "text of the form '%s' is no number" % fn))
for n, lit in (("short", "40000"), ("short", "-32769"), ("int", "2147483648"), ("int", "-2147483649"), ("ushort", "65536"), ("uint", "4294967296"), ("long", "9223372036854775808")):
    ws.append(IO.W("over_%s_%s" % (n, lit.replace("-", "m")), "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % IT[n][0], lambda P, I: ([], "throw:invalid_cast"), lambda lit=lit: {"s0": F.b(lit)}, W_ + "deserialize_to<%s>" % IT[n][0], "a number the type cannot hold is reported"))
for n, t, f in (("short", "short", (2 ** 15, 10 ** 9)), ("short", "short", (-10 ** 9, -2 ** 15 - 1)), ("int", "int", (2 ** 31, 10 ** 15)), ("int", "int", (-10 ** 15, -2 ** 31 - 1)), ("ushort", "unsigned short", (2 ** 16, 10 ** 9)), ("uint", "unsigned", (2 ** 32, 10 ** 15))):
    ws.append(IO.W("range_%s_%s" % (n, "p" if f[0] > 0 else "m"), "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([], "throw:invalid_cast"), lambda f=f: {"s0": S.fmt_i(F.ivar("x", *f))}, W_ + "deserialize_to<%s>" % t, "a number outside the type's range is reported"))
for n, t, inn, kind in (("double", "double", "in_d", "d0"), ("float", "float", "in_f", "f0")):
    sg = n == "float"
    v = lambda kind=kind, sg=sg: {kind: F.dvar("x", 32 if sg else 64)}
    ws.append(IO.W("ser_" + n, "O(0, ascii_converter::serialize(%s(0)));" % inn, lambda P, I, kind=kind, sg=sg: ([("s", 0, S.fmt_f(I[kind], 0, sg))], "ret"), v, W_ + "serialize<%s>" % t, "a floating value is written with six significant digits"))
    ws.append(IO.W("de_" + n, "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I, kind=kind, sg=sg: ([("d", 0, mk("parsef", int(sg), S.fmt_f(I[kind], 0, sg)))], "ret"), lambda kind=kind, sg=sg: (lambda x: {kind: x, "s0": S.fmt_f(x, 0, sg)})(F.dvar("x", 32 if sg else 64)), W_ + "deserialize_to<%s>" % t, "floating text is read as the number it denotes"))
    ws.append(IO.W("deint_" + n, "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I, sg=sg: ([("d", 0, mk("parsef", int(sg), S.fmt_i(I["x"])))], "ret"), lambda: (lambda x: {"x": x, "s0": S.fmt_i(x)})(F.ivar("x", -2 ** 20, 2 ** 20)), W_ + "deserialize_to<%s>" % t, "an integer in a floating column is that number"))
    ws.append(IO.W("bad_" + n, "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([], "throw:invalid_cast"), lambda: {"s0": S.strvar("w", alpha=frozenset(b"bcghjkmpqrsuvwz_/:"), lo=1, hi=12)}, W_ + "deserialize_to<%s>" % t, "text that is no number is reported"))
    ws.append(IO.W("empty_" + n, "O(0, ascii_converter::deserialize_to<%s>(S(0), 1));" % t, lambda P, I: ([], "throw:invalid_cast"), lambda: {"s0": F.b("")}, W_ + "deserialize_to<%s>" % t, "an empty field is no number"))
for n, mkv in (("any", lambda: S.strvar("t", lo=0, hi=200)), ("print", lambda: S.strvar("t", alpha=F.PRINT, lo=0, hi=200)), ("blanks", lambda: cat(F.b("  "), S.strvar("t", alpha=F.PRINT, lo=0, hi=60), F.b("  "))), ("digits", lambda: S.strvar("t", alpha=frozenset(b"0123456789"), lo=1, hi=30))):
    v = lambda mkv=mkv: {"s0": mkv()}
    ws.append(IO.W("str_ser_" + n, "O(0, ascii_converter::serialize(S(0)));", lambda P, I: ([("s", 0, I["s0"])], "ret"), v, W_ + "serialize<std::string>", "text is written as it is"))
    ws.append(IO.W("str_de_" + n, "O(0, ascii_converter::deserialize_to<std::string>(S(0), 1));", lambda P, I: ([("s", 0, I["s0"])], "ret"), v, W_ + "deserialize_to<std::string>", "text is read as it is"))
    ws.append(IO.W("str_rt_" + n, "O(0, ascii_converter::deserialize_to<std::string>(ascii_converter::serialize(S(0)), 7));", lambda P, I: ([("s", 0, I["s0"])], "ret"), v, W_ + "serialize / deserialize_to<std::string>", "text written is read back"))
IO.run(ck, PRE, ws, chunk=10)
ck.finish("Abstract interpretation of ascii_converter over number and text terms: integers must be written as their decimal text and read back as the same term, text must pass unchanged, and text that is not a number of the requested type (letters, empty, trailing characters, out of range) must end in invalid_cast.",
          ["lexical_cast, std::to_string and stream formatting are trusted stand-ins", "floating values to the six digits the format writes"], min_obl=60)
