"""FITS-side vocabulary of the IO specifications: records, cards, headers and tables as string terms."""
from . import sterm as S
from .sterm import mk, slen, cat, lit, rep, sub, add

PRINT = frozenset(range(32, 127))
NOQ = PRINT - {0x27}
NOQS = NOQ - {0x20}
WORD = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")
NBLANK = PRINT - {0x20}
IO = "include/boost/astronomy/io/"

CARD = "#include <boost/astronomy/io/card.hpp>\n#include <boost/astronomy/io/default_card_policy.hpp>\n#include <complex>\nusing namespace boost::astronomy::io;\ntypedef card<card_policy> Card;\n"
HEAD = CARD + "#include <boost/astronomy/io/header.hpp>\n#include <boost/astronomy/io/fits_stream.hpp>\ntypedef header<card_policy> Header;\n"
ALL = "#include <boost/astronomy/io/fits.hpp>\nusing namespace boost::astronomy::io;\ntypedef card<card_policy> Card;\ntypedef header<card_policy> Header;\n"

_n = [0]


def b(x):
    return lit(x.encode() if isinstance(x, str) else x)


def ivar(name, lo, hi):
    return mk("var", name, lo, hi)


def dvar(name, bits=64):
    return mk("fvar", name, bits)


def text(name, inner=NOQ, edge=NOQS, hi=40):
    """a non-empty string without outer blanks"""
    return cat(S.strvar(name + "_a", alpha=edge, fixed=1), S.strvar(name + "_m", alpha=inner, lo=0, hi=hi), S.strvar(name + "_z", alpha=edge, fixed=1))


def rj(t, n):
    return cat(rep(sub(n, slen(t)), 32), t)


def lj(t, n):
    return cat(t, rep(sub(n, slen(t)), 32))


def card(key, value, comment=None):
    """the 80-character record of a keyword with a value field"""
    key = b(key) if isinstance(key, (str, bytes)) else key
    value = b(value) if isinstance(value, (str, bytes)) else value
    t = cat(lj(key, 8), b("= "), value)
    if comment is not None:
        t = cat(t, b(" / "), b(comment) if isinstance(comment, (str, bytes)) else comment)
    return lj(t, 80)


def kv(key, v, comment=None):
    """card with a fixed-format value: bool, int, str or a term"""
    if v is True or v is False:
        return card(key, rj(b("T" if v else "F"), 20), comment)
    if isinstance(v, int):
        return card(key, rj(b(str(v)), 20), comment)
    if isinstance(v, str):
        return card(key, lj(b("'" + v.ljust(8) + "'"), 20), comment)
    return card(key, v, comment)


END = lj(b("END"), 80)


def block(t, fill=32, size=2880):
    """t padded to a whole number of records; the length of t is known"""
    n = slen(t)
    return cat(t, rep((-n) % size, fill))


def header(cards):
    return block(cat(*cards, END))


# ---------------------------------------------------------------- big-endian numbers
from . import absint as A


def be(s, off, n, k):
    """the value whose big-endian bytes are s[off:off+n]; k: i d f"""
    v = A.frombytes([S.byteat(None, s, off + n - 1 - i) for i in range(n)])
    if k == "d":
        return A.i2d(v)
    if k == "f":
        return A.i2f(v)
    return mk("sext", 8 * n, v) if n < 8 and isinstance(v, S.T) else v


def ev(k, slot, v):
    return ("d" if k in "df" else "i", slot, v)


def bestr(v, n, k):
    """big-endian bytes of a value as a string"""
    return S.mkstr([("B", x) for x in reversed(A.tobytes(v, n, k))])
