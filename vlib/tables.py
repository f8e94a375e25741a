"""Shapes of FITS tables used by the table checks: column formats, headers, field layouts."""
from . import sterm as S, fits as F
from .sterm import cat
kv = F.kv
TS = {"L": 1, "X": 1, "B": 1, "I": 2, "J": 4, "A": 1, "E": 4, "D": 8, "C": 8, "M": 16, "P": 8}


def bform(f):
    f = f.strip()
    return (int(f[:-1]) if len(f) > 1 else 1), f[-1]


def bwidth(f):
    n, t = bform(f)
    return n * TS[t]


def awidth(f):
    return int(f[1:].split(".")[0])


def bhead(forms, rows, names=None, extra=lambda k: [], pre=(), more=()):
    names = names or ["COL%d" % (k + 1) for k in range(len(forms))]
    w = sum(bwidth(f) for f in forms)
    c = [kv("XTENSION", "BINTABLE", "binary table"), kv("BITPIX", 8), kv("NAXIS", 2), kv("NAXIS1", w), kv("NAXIS2", rows), kv("PCOUNT", 0), kv("GCOUNT", 1), kv("TFIELDS", len(forms))] + list(pre)
    for k, f in enumerate(forms):
        if names[k] is not None:
            c.append(kv("TTYPE%d" % (k + 1), names[k], "label"))
        c.append(kv("TFORM%d" % (k + 1), f, "format"))
        c += extra(k + 1)
    return c + list(more)


def ahead(cols, width, rows, names=None, extra=lambda k: [], more=()):
    """cols: [(tbcol, form)]"""
    names = names or ["COL%d" % (k + 1) for k in range(len(cols))]
    c = [kv("XTENSION", "TABLE", "ASCII table"), kv("BITPIX", 8), kv("NAXIS", 2), kv("NAXIS1", width), kv("NAXIS2", rows), kv("PCOUNT", 0), kv("GCOUNT", 1), kv("TFIELDS", len(cols))]
    for k, (b, f) in enumerate(cols):
        if names[k] is not None:
            c.append(kv("TTYPE%d" % (k + 1), names[k], "label"))
        c += [kv("TBCOL%d" % (k + 1), b), kv("TFORM%d" % (k + 1), f)]
        c += extra(k + 1)
    return c + list(more)


def bdata(forms, rows, name="f"):
    """(fields[row][col], row-major data string) of arbitrary bytes"""
    fs = [[S.strvar("%s%d_%d" % (name, r, c), fixed=bwidth(f)) if bwidth(f) else F.b("") for c, f in enumerate(forms)] for r in range(rows)]
    return fs, cat(*[x for r in fs for x in r])


def adata(cols, width, rows, name="f", content=None, just="rj"):
    """(field texts[row][col], data string): each field right-justified text without outer blanks, the rest of the row blank"""
    fs, out = [], []
    for r in range(rows):
        row, at = [None] * len(cols), 0
        segs = []
        for c, (b, f) in sorted(enumerate(cols), key=lambda x: x[1][0]):
            w = awidth(f)
            if content:
                t = content(r, c, w)
            elif w == 1:
                t = S.strvar("%s%d_%d" % (name, r, c), alpha=F.NBLANK, fixed=1)
            else:
                t = cat(S.strvar("%s%d_%da" % (name, r, c), alpha=F.NBLANK, fixed=1), S.strvar("%s%d_%dm" % (name, r, c), alpha=F.PRINT, lo=0, hi=w - 2 - (just == "mid" and w > 2)), S.strvar("%s%d_%dz" % (name, r, c), alpha=F.NBLANK, fixed=1))
            row[c] = t
            segs += [F.b(" " * (b - 1 - at)), F.rj(t, w) if just == "rj" or w < 3 else F.lj(t, w) if just == "lj" else F.lj(cat(F.b(" "), t), w)]
            at = b - 1 + w
        segs.append(F.b(" " * (width - at)))
        out.append(cat(*segs))
        fs.append(row)
    return fs, cat(*out)
