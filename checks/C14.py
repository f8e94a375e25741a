"""C14: a card is always one 80-character FITS record; what does not fit is rejected."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, slen, cat, sub, add

ck = C.Check("C14")
ws = []
WC, WP = F.IO + "card.hpp: card::", F.IO + "default_card_policy.hpp: card_policy::"
strs = lambda k=12, v=90, c=90: {"s0": S.strvar("key", alpha=F.PRINT, lo=0, hi=k), "s1": S.strvar("val", alpha=F.PRINT, lo=0, hi=v), "s2": S.strvar("com", alpha=F.PRINT, lo=0, hi=c)}


def layout(P, key, body, com):
    if not P.le(slen(key), 8):
        return [], "throw:invalid_card"
    if com is None or P.eqi(slen(com), 0):
        if not P.le(slen(body), 70):
            return [], "throw:invalid_card"
        t = cat(F.lj(key, 8), F.b("= "), body)
    else:
        if not P.le(add(slen(body), slen(com)), 68):
            return [], "throw:invalid_card"
        t = cat(F.lj(key, 8), F.b("= "), body, F.b(" /"), com)
    t = F.lj(t, 80)
    return [("s", 0, t), ("i", 1, slen(t))], "ret"


OUT = "O(0, c.raw_card()); O(1, c.raw_card().size());"
quoted = lambda t: cat(F.b("'"), t, F.b("'"))
ws.append(IO.W("create_string", "Card c; c.create_card(S(0), S(1), S(2)); " + OUT, lambda P, I: layout(P, I["s0"], quoted(I["s1"]), I["s2"]), strs, WC + "create_card<std::string>", "record made from keyword, string and comment"))
ws.append(IO.W("create_string_nocomment", "Card c; c.create_card(S(0), S(1)); " + OUT, lambda P, I: layout(P, I["s0"], quoted(I["s1"]), None), strs, WC + "create_card<std::string>", "record made from keyword and string"))
ws.append(IO.W("ctor_string", "Card c(S(0), S(1), S(2)); " + OUT, lambda P, I: layout(P, I["s0"], quoted(I["s1"]), I["s2"]), strs, WC + "card(key, value, comment)", "card constructed from keyword, string and comment"))
ws.append(IO.W("ctor_string_nocomment", "Card c(S(0), S(1)); " + OUT, lambda P, I: layout(P, I["s0"], quoted(I["s1"]), None), strs, WC + "card(key, value)", "card constructed from keyword and string"))
NUMS = {"int": ("int", -2 ** 31, 2 ** 31 - 1), "unsigned": ("unsigned", 0, 2 ** 32 - 1), "longlong": ("long long", -2 ** 63 + 1, 2 ** 63 - 1), "size": ("std::size_t", 0, 2 ** 63 - 1), "short": ("short", -2 ** 15, 2 ** 15 - 1)}
for n, (ct, lo, hi) in NUMS.items():
    inp = lambda lo=lo, hi=hi: dict(strs(), i0=F.ivar("x", lo, hi))
    for cm in (0, 1):
        ws.append(IO.W("create_%s_%d" % (n, cm), "Card c; c.create_card(S(0), (%s)in_i(0)%s); " % (ct, ", S(2)" if cm else "") + OUT,
                       lambda P, I, cm=cm: layout(P, I["s0"], F.rj(S.fmt_i(I["i0"]), 20), I["s2"] if cm else None), inp, WP + "serialize_to_fits_format(%s)" % ct, "record made from keyword and %s" % ct))
for n, ct, get in (("double", "double", "in_d(0)"), ("float", "float", "in_f(0)")):
    inp = lambda n=n: dict(strs(), **({"d0": F.dvar("x", 64)} if n == "double" else {"f0": F.dvar("x", 32)}))
    for cm in (0, 1):
        ws.append(IO.W("create_%s_%d" % (n, cm), "Card c; c.create_card(S(0), %s%s); " % (get, ", S(2)" if cm else "") + OUT,
                       lambda P, I, cm=cm, n=n: layout(P, I["s0"], F.rj(S.fmt_f(I["d0" if n == "double" else "f0"], 0, n == "float"), 20), I["s2"] if cm else None), inp, WP + "serialize_to_fits_format(%s)" % ct, "record made from keyword and %s" % ct))
for v in (0, 1):
    for cm in (0, 1):
        ws.append(IO.W("create_bool_%d%d" % (v, cm), "Card c; c.create_card(S(0), %s%s); " % ("true" if v else "false", ", S(2)" if cm else "") + OUT,
                       lambda P, I, cm=cm, v=v: layout(P, I["s0"], F.rj(F.b("FT"[v]), 20), I["s2"] if cm else None), strs, WP + "serialize_to_fits_format(bool)", "record made from keyword and logical"))
for n, ct, get, single in (("cdouble", "double", "in_d", False), ("cfloat", "float", "in_f", True), ("cint", "int", "(int)in_i", None)):
    def inp(n=n, get=get):
        r = strs()
        for k in (0, 1):
            if n == "cint":
                r["i%d" % k] = F.ivar("x%d" % k, -2 ** 31, 2 ** 31 - 1)
            else:
                r["%s%d" % (get[3], k)] = F.dvar("x%d" % k, 32 if n == "cfloat" else 64)
        return r

    def body(I, n=n, single=single):
        f = (lambda k: S.fmt_i(I["i%d" % k])) if n == "cint" else (lambda k: S.fmt_f(I["%s%d" % ("f" if single else "d", k)], 0, single))
        return cat(F.rj(f(0), 20), F.rj(f(1), 20))
    ws.append(IO.W("create_" + n, "Card c; c.create_card(S(0), std::complex<%s>(%s(0), %s(1)), S(2)); " % (ct, get, get) + OUT, lambda P, I, body=body: layout(P, I["s0"], body(I), I["s2"]), inp, WP + "serialize_to_fits_format(std::complex)", "record made from keyword and complex %s" % ct))


# ---- commentary
def comm(P, I):
    if not (P.le(slen(I["s0"]), 8) and P.le(slen(I["s1"]), 70)):
        return [], "throw:invalid_card"
    t = F.lj(cat(F.lj(I["s0"], 8), F.b(" "), I["s1"]), 80)
    return [("s", 0, t), ("i", 1, slen(t))], "ret"


ws.append(IO.W("commentary", "Card c; c.create_commentary_card(S(0), S(1)); " + OUT, comm, strs, WC + "create_commentary_card", "commentary record"))


# ---- a record given as text
REST = lambda n, name="rest": S.strvar(name, alpha=F.PRINT, fixed=n)
RAW = "Card c(S(0)); O(0, c.raw_card()); O(1, c.raw_card().size());"
keep = lambda P, I: ([("s", 0, I["s0"]), ("i", 1, slen(I["s0"]))], "ret")
KEY8 = lambda: S.strvar("key", alpha=F.WORD, fixed=8)
for nm, mkrec in (("valued", lambda: cat(KEY8(), F.b("= "), REST(70))), ("comment", lambda: cat(F.b("COMMENT "), REST(72))), ("history", lambda: cat(F.b("HISTORY "), REST(72))), ("end", lambda: cat(F.b("END     "), REST(72))), ("blank", lambda: cat(F.b(" " * 8), REST(72)))):
    ws.append(IO.W("raw_" + nm, RAW, keep, lambda m=mkrec: {"s0": m()}, WC + "card(std::string)", "a valid 80-character record is kept verbatim (%s)" % nm))
ws.append(IO.W("raw_noindicator", RAW, lambda P, I: ([], "throw:invalid_card"), lambda: {"s0": cat(F.b("SIMPLE  "), S.strvar("c9", alpha=F.PRINT - {ord("=")}, fixed=1), REST(71))}, WC + "card(std::string)", "a record whose keyword needs a value but has no value indicator is rejected"))
ws.append(IO.W("raw_noindicator2", RAW, lambda P, I: ([], "throw:invalid_card"), lambda: {"s0": cat(F.b("NAXIS1  ="), S.strvar("c10", alpha=F.PRINT - {ord(" ")}, fixed=1), REST(70))}, WC + "card(std::string)", "a record whose value indicator lacks its blank is rejected"))
ws.append(IO.W("raw_toolong", RAW, lambda P, I: ([], "throw:invalid_card") if not P.le(slen(I["s0"]), 80) else None, lambda: {"s0": cat(KEY8(), F.b("= "), S.strvar("rest", alpha=F.PRINT, lo=60, hi=200))}, WC + "card(std::string)", "text of more than 80 characters is rejected"))
ws.append(IO.W("raw_toolong_comment", RAW, lambda P, I: ([], "throw:invalid_card") if not P.le(slen(I["s0"]), 80) else None, lambda: {"s0": cat(F.b("COMMENT "), S.strvar("rest", alpha=F.PRINT, lo=60, hi=200))}, WC + "card(std::string)", "text of more than 80 characters is rejected"))

# ---- set_value keeps the record whole
SET = "Card c(S(0)); "


def setv(body, fits70=False):
    def f(P, I):
        t = body(I)
        if fits70 and not P.le(slen(t), 70):
            return None
        return [("s", 0, F.lj(cat(I["k"], F.b("= "), t), 80)), ("i", 1, 80)], "ret"
    return f


def sinp(extra):
    def f():
        k = KEY8()
        return dict({"k": k, "s0": cat(k, F.b("= "), REST(70))}, **extra())
    return f


ws.append(IO.W("set_int", SET + "c.set_value((int)in_i(0)); " + OUT, setv(lambda I: F.rj(S.fmt_i(I["i0"]), 20)), sinp(lambda: {"i0": F.ivar("x", -2 ** 31, 2 ** 31 - 1)}), WC + "set_value", "set_value leaves a whole record with the keyword in place"))
ws.append(IO.W("set_double", SET + "c.set_value(in_d(0)); " + OUT, setv(lambda I: F.rj(S.fmt_f(I["d0"], 0), 20)), sinp(lambda: {"d0": F.dvar("x")}), WC + "set_value", "set_value leaves a whole record with the keyword in place"))
ws.append(IO.W("set_string", SET + "c.set_value(S(1)); " + OUT, setv(lambda I: quoted(I["s1"]), True), sinp(lambda: {"s1": S.strvar("val", alpha=F.PRINT, lo=0, hi=80)}), WC + "set_value", "set_value leaves a whole record with the keyword in place"))
ws.append(IO.W("set_bool", SET + "c.set_value(true); " + OUT, setv(lambda I: F.rj(F.b("T"), 20)), sinp(dict), WC + "set_value", "set_value leaves a whole record with the keyword in place"))

# ---- keyword
ws.append(IO.W("keyword", "Card c(S(0)); O(0, c.keyword(true)); O(1, c.keyword());", lambda P, I: ([("s", 0, I["k"]), ("s", 1, I["kk"])], "ret"),
               lambda: (lambda kk: {"kk": kk, "k": F.lj(kk, 8), "s0": cat(F.lj(kk, 8), F.b("= "), REST(70))})(S.strvar("kw", alpha=F.WORD, lo=1, hi=8)), WC + "keyword", "keyword with and without padding"))
def eqgen(rng, q):
    a = bytes(rng.choice(b"ab ") for _ in range(72))
    k = rng.randrange(72)
    return {"r1": a, "r2": a if q % 2 else a[:k] + b"~" + a[k + 1:]}


ws.append(IO.W("equality", "Card a(S(0)), b(S(1)); O(0, a == b); O(1, a == a);", lambda P, I: ([("i", 0, mk("streq", I["r1"], I["r2"])), ("i", 1, 1)], "ret"),
               lambda: (lambda r1, r2: {"r1": r1, "r2": r2, "s0": cat(F.b("COMMENT "), r1), "s1": cat(F.b("COMMENT "), r2)})(REST(72, "r1"), REST(72, "r2")), WC + "operator==", "equality of cards is equality of records", gen=eqgen))
IO.run(ck, F.CARD, ws)
ck.finish("Abstract interpretation of card and card_policy over string terms, partitioned on keyword, value and comment lengths; on every partition the record must be the same term as the FITS layout (keyword in columns 1-8, '= ', value right-justified in 20 columns or quoted, ' /' comment, blanks to column 80), and outside the length limits the outcome must be invalid_card.",
          ["keywords, values and comments over printable characters; stand-in std::string/lexical_cast/stream semantics as described in DESIGN.md"], min_obl=60)
