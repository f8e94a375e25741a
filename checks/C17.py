"""C17: a card gives back the value it holds, in any supported type, whatever was read from or stored in it before."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, slen, cat, sub, add

ck = C.Check("C17")
ws = []
WC, WP = F.IO + "card.hpp: card::", F.IO + "default_card_policy.hpp: card_policy::"
INTS = {"int": ("int", -2 ** 31, 2 ** 31 - 1), "unsigned": ("unsigned int", 0, 2 ** 32 - 1), "longlong": ("long long", -2 ** 63 + 1, 2 ** 63 - 1), "size": ("std::size_t", 0, 2 ** 63 - 1)}
KEY = lambda: S.strvar("key", alpha=F.WORD, lo=1, hi=8)
com = lambda n: S.strvar("com", alpha=F.PRINT, lo=1, hi=n)


def rec(value, ncom):
    """80-character record with a value field and a comment of ncom characters (any printable, slashes and quotes included)"""
    return F.lj(cat(S.strvar("key8", alpha=F.WORD, fixed=8), F.b("= "), value, F.b(" / "), S.strvar("comment", alpha=F.PRINT, fixed=ncom)), 80)


def i(v, slot=0):
    return ("i", slot, v)


# ---- written by create_card, read back
for n, (ct, lo, hi) in INTS.items():
    for cm in (0, 1):
        ws.append(IO.W("rt_%s_%d" % (n, cm), "Card c; c.create_card(S(0), (%s)in_i(0)%s); O(0, c.value<%s>());" % (ct, ", S(1)" if cm else "", ct), lambda P, I: ([i(I["i0"])], "ret"),
                       lambda lo=lo, hi=hi: {"s0": KEY(), "s1": com(48), "i0": F.ivar("x", lo, hi)}, WC + "value<%s>" % ct, "a stored %s reads back as itself" % ct))
    ws.append(IO.W("rt_%s_str" % n, "Card c; c.create_card(S(0), (%s)in_i(0), S(1)); O(0, c.value<std::string>());" % ct, lambda P, I: ([("s", 0, S.fmt_i(I["i0"]))], "ret"),
                   lambda lo=lo, hi=hi: {"s0": KEY(), "s1": com(48), "i0": F.ivar("x", lo, hi)}, WC + "value<std::string>", "a stored %s reads as its text" % ct))
    # fixed-format record from a file
    ws.append(IO.W("raw_%s" % n, "Card c(S(0)); O(0, c.value<%s>());" % ct, lambda P, I: ([i(I["i0"])], "ret"),
                   lambda lo=lo, hi=hi: (lambda x: {"i0": x, "s0": rec(F.rj(S.fmt_i(x), 20), 47)})(F.ivar("x", lo, hi)), WC + "value<%s>" % ct, "the %s of a record with comment" % ct))
    ws.append(IO.W("rawfree_%s" % n, "Card c(S(0)); O(0, c.value<%s>());" % ct, lambda P, I: ([i(I["i0"])], "ret"),
                   lambda lo=lo, hi=hi: (lambda x: {"i0": x, "s0": F.lj(cat(S.strvar("key8", alpha=F.WORD, fixed=8), F.b("= "), S.fmt_i(x)), 80)})(F.ivar("x", lo, hi)), WP + "extract_value", "the %s of a free-format record without comment" % ct))
    ws.append(IO.W("rawtight_%s" % n, "Card c(S(0)); O(0, c.value<%s>());" % ct, lambda P, I: ([i(I["i0"])], "ret"),
                   lambda lo=lo, hi=hi: (lambda x: {"i0": x, "s0": F.lj(cat(S.strvar("key8", alpha=F.WORD, fixed=8), F.b("= "), F.rj(S.fmt_i(x), 20), F.b("/"), S.strvar("comment", alpha=F.PRINT, fixed=40)), 80)})(F.ivar("x", lo, hi)), WP + "extract_value", "the %s of a record whose comment follows the value directly" % ct))
for n, ct, g, sg in (("double", "double", "d", False), ("float", "float", "f", True)):
    inp = lambda g=g, sg=sg: {"s0": KEY(), "s1": com(48), g + "0": F.dvar("x", 32 if sg else 64)}
    for cm in (0, 1):
        ws.append(IO.W("rt_%s_%d" % (n, cm), "Card c; c.create_card(S(0), in_%s(0)%s); O(0, c.value<%s>());" % (g, ", S(1)" if cm else "", ct),
                       lambda P, I, g=g, sg=sg: ([("d", 0, S.parse_f(P, S.fmt_f(I[g + "0"], 0, sg), sg))], "ret"), inp, WC + "value<%s>" % ct, "a stored %s reads back to the six digits written" % ct))
for v in (0, 1):
    for cm in (0, 1):
        ws.append(IO.W("rt_bool_%d%d" % (v, cm), "Card c; c.create_card(S(0), %s%s); O(0, c.value<bool>());" % ("true" if v else "false", ", S(1)" if cm else ""), lambda P, I, v=v: ([i(v)], "ret"),
                       lambda: {"s0": KEY(), "s1": com(48)}, WC + "value<bool>", "a stored logical reads back as itself"))
    ws.append(IO.W("raw_bool_%d" % v, "Card c(S(0)); O(0, c.value<bool>());", lambda P, I, v=v: ([i(v)], "ret"), lambda v=v: {"s0": rec(F.rj(F.b("FT"[v]), 20), 47)}, WC + "value<bool>", "the logical of a record with comment"))
ws.append(IO.W("bool_bad", "Card c(S(0)); O(0, c.value<bool>());", lambda P, I: ([], "throw:invalid_cast"), lambda: {"s0": rec(F.rj(S.strvar("w", alpha=frozenset(b"ABCDEGHIJKtf01"), lo=1, hi=6), 20), 40)}, WP + "parse_to<bool>", "text that is not T or F is not a logical"))
ws.append(IO.W("int_bad", "Card c(S(0)); O(0, c.value<int>());", lambda P, I: ([], "throw:invalid_cast"), lambda: {"s0": rec(F.rj(S.strvar("w", alpha=frozenset(b"ABCDEFGHIJK"), lo=1, hi=6), 20), 40)}, F.IO + "string_conversion_utility.hpp: ascii_converter::deserialize_to", "text that is not a number is not an int"))
TXT = lambda: F.text("t", hi=40)
for cm in (0, 1):
    ws.append(IO.W("rt_string_%d" % cm, "Card c; c.create_card(S(0), S(1)%s); O(0, c.value<std::string>());" % (", S(2)" if cm else ""), lambda P, I: ([("s", 0, I["s1"])], "ret"),
                   lambda: {"s0": KEY(), "s1": TXT(), "s2": com(20)}, WC + "value<std::string>", "a stored string reads back as itself, slashes included"))
ws.append(IO.W("raw_string", "Card c(S(0)); O(0, c.value<std::string>());", lambda P, I: ([("s", 0, I["t"])], "ret"),
               lambda: (lambda t: {"t": t, "s0": rec(cat(F.b("'"), F.lj(t, 16), F.b("'")), 40)})(F.text("t", hi=10)), WC + "value<std::string>", "the string of a record with comment, without its padding"))
ws.append(IO.W("raw_string_nocomment", "Card c(S(0)); O(0, c.value<std::string>());", lambda P, I: ([("s", 0, I["t"])], "ret"),
               lambda: (lambda t: {"t": t, "s0": F.lj(cat(S.strvar("key8", alpha=F.WORD, fixed=8), F.b("= '"), t, F.b("'")), 80)})(F.text("t", hi=60)), WC + "value<std::string>", "the string of a record without comment"))
for n, ct, g, sg in (("cdouble", "double", "d", False), ("cfloat", "float", "f", True), ("cint", "int", "i", None)):
    def inp(g=g, sg=sg):
        r = {"s0": KEY(), "s1": com(20)}
        for k in (0, 1):
            r[g + str(k)] = F.ivar("x%d" % k, -2 ** 31, 2 ** 31 - 1) if g == "i" else F.dvar("x%d" % k, 32 if sg else 64)
        return r

    def spec(P, I, g=g, sg=sg):
        return [("i" if g == "i" else "d", k, I["i%d" % k] if g == "i" else S.parse_f(P, S.fmt_f(I[g + str(k)], 0, sg), sg)) for k in (0, 1)], "ret"
    get = "(int)in_i" if g == "i" else "in_" + g
    ws.append(IO.W("rt_" + n, "Card c; c.create_card(S(0), std::complex<%s>(%s(0), %s(1)), S(1)); auto z = c.value<std::complex<%s>>(); O(0, z.real()); O(1, z.imag());" % (ct, get, get, ct), spec, inp, WP + "parse_to<std::complex>", "a stored complex %s reads back with both parts" % ct))

# ---- history: what was read or stored before does not matter
hist = lambda: {"s0": KEY(), "s1": TXT(), "i0": F.ivar("x", -2 ** 31, 2 ** 31 - 1), "i1": F.ivar("y", -2 ** 31, 2 ** 31 - 1), "d0": F.dvar("z")}
H = [("int_then_string", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); O(1, c.value<std::string>()); O(2, c.value<long long>()); O(3, c.value<int>());",
      lambda P, I: ([i(I["i0"]), ("s", 1, S.fmt_i(I["i0"])), i(I["i0"], 2), i(I["i0"], 3)], "ret")),
     ("recreate", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); c.create_card(S(0), (int)in_i(1)); O(1, c.value<int>());", lambda P, I: ([i(I["i0"]), i(I["i1"], 1)], "ret")),
     ("recreate_type", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); c.create_card(S(0), S(1)); O(1, c.value<std::string>()); c.create_card(S(0), (int)in_i(1)); O(2, c.value<std::string>());", lambda P, I: ([i(I["i0"]), ("s", 1, I["s1"]), ("s", 2, S.fmt_i(I["i1"]))], "ret")),
     ("set_int", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); c.set_value((int)in_i(1)); O(1, c.value<int>()); O(2, c.value<std::string>()); O(3, c.keyword());", lambda P, I: ([i(I["i0"]), i(I["i1"], 1), ("s", 2, S.fmt_i(I["i1"])), ("s", 3, I["s0"])], "ret")),
     ("set_unread", "Card c; c.create_card(S(0), (int)in_i(0)); c.set_value((int)in_i(1)); O(0, c.value<int>()); O(1, c.value<long long>());", lambda P, I: ([i(I["i1"]), i(I["i1"], 1)], "ret")),
     ("set_string", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); c.set_value(S(1)); O(1, c.value<std::string>());", lambda P, I: ([i(I["i0"]), ("s", 1, I["s1"])], "ret")),
     ("set_twice", "Card c; c.create_card(S(0), S(1)); c.set_value((int)in_i(0)); c.set_value((int)in_i(1)); O(0, c.value<int>()); Card d(c.raw_card()); O(1, d.value<int>());", lambda P, I: ([i(I["i1"]), i(I["i1"], 1)], "ret")),
     ("set_bool", "Card c; c.create_card(S(0), false); O(0, c.value<bool>()); c.set_value(true); O(1, c.value<bool>()); Card d(c.raw_card()); O(2, d.value<bool>());", lambda P, I: ([i(0), i(1, 1), i(1, 2)], "ret")),
     ("copy", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); Card d(c); d.set_value((int)in_i(1)); O(1, c.value<int>()); O(2, d.value<int>()); c = d; O(3, c.value<int>());", lambda P, I: ([i(I["i0"]), i(I["i0"], 1), i(I["i1"], 2), i(I["i1"], 3)], "ret")),
     ("failed_read", "Card c; c.create_card(S(0), true); try { c.value<int>(); O(0, 0); } catch (boost::astronomy::invalid_cast&) { O(0, 1); } O(1, c.value<bool>());", lambda P, I: ([i(1), i(1, 1)], "ret")),
     ("failed_create", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); try { c.create_card(S(0), std::string(100, 'x')); O(1, 0); } catch (boost::astronomy::invalid_card&) { O(1, 1); } O(2, c.value<int>());", lambda P, I: ([i(I["i0"]), i(1, 1), i(I["i0"], 2)], "ret")),
     ("unfit_set", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); c.set_value(std::string(90, 'x')); O(1, c.value<int>()); O(2, c.value<std::string>()); O(3, c.raw_card() == Card(c.raw_card()).raw_card());", lambda P, I: ([i(I["i0"]), i(I["i0"], 1), ("s", 2, S.fmt_i(I["i0"])), i(1, 3)], "ret")),
     ("unfit_set_string", "Card c; c.create_card(S(0), S(1)); c.set_value(std::string(69, 'x')); O(0, c.value<std::string>()); c.set_value(std::string(200, 'x')); O(1, c.value<std::string>()); c.set_value((int)in_i(0)); O(2, c.value<int>());", lambda P, I: ([("s", 0, I["s1"]), ("s", 1, I["s1"]), i(I["i0"], 2)], "ret")),
     ("commentary_after", "Card c; c.create_card(S(0), (int)in_i(0)); O(0, c.value<int>()); c.create_commentary_card(\"COMMENT\", S(1)); O(1, c.value<std::string>() == c.value_with_comment());", None)]
for n, body, spec in H:
    if spec:
        ws.append(IO.W("hist_" + n, body, spec, hist, WC + "value / set_value / create_card", "reads follow the last value stored (%s)" % n))
# value_with_comment
ws.append(IO.W("value_with_comment", "Card c(S(0)); O(0, c.value_with_comment());", lambda P, I: ([("s", 0, I["t"])], "ret"),
               lambda: (lambda t: {"t": t, "s0": F.lj(cat(S.strvar("key8", alpha=F.WORD, fixed=8), F.b("= "), t), 80)})(F.text("t", inner=F.PRINT, edge=F.NBLANK, hi=60)), WC + "value_with_comment", "the text after the value indicator"))
IO.run(ck, F.CARD, ws)
ck.finish("Abstract interpretation of card and card_policy over string and number terms: for every stored value and every record of the covered shapes the term returned by value<T>() must be the stored value, also after earlier reads, sets, recreations and failed operations on the same card.",
          ["doubles are compared with the six significant digits that the format writes", "strings without quotes and without outer blanks"], min_obl=50)
