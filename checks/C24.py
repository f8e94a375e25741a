"""C24: image statistics and pixel access are those of the pixels of the image."""
import sys, os, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat, slen, add, sub, mulc

ck = C.Check("C24")
ws = []
i = lambda k, v: ("i", k, v)
PRE = F.ALL + """#include <boost/astronomy/io/image.hpp>
template<bitpix B> struct Img : image<B, binary_data_converter> {
    typedef typename bitpix_type<B>::underlying_type T;
    void init(std::size_t w, std::size_t h) { this->width_ = w; this->height_ = h; this->data_.resize(w * h); }
    T& at(std::size_t i) { return this->data_[i]; }
};
template<class T> struct Buf : image_buffer<T> { Buf(std::size_t w, std::size_t h) : image_buffer<T>(w, h) {} Buf() {} T& at(std::size_t i) { return this->data_[i]; } std::size_t w() { return this->width_; } std::size_t h() { return this->height_; } };
"""
WI = F.IO + "image.hpp: image_buffer::"
BP = {"B8": (1, "u", 8), "B16": (2, "i", 16), "B32": (4, "i", 32), "_B32": (4, "f", 32), "_B64": (8, "d", 64)}
N = (1, 2, 3, 4) if C.TIER == "quick" else (1, 2, 3, 4, 5)
NS = (1, 2, 3, 5) if C.TIER == "quick" else (1, 2, 3, 4, 5, 7, 9)


def val(s, j, b):
    n, k, w = BP[b]
    return S.byteat(None, s, j) if k == "u" else F.be(s, n * j, n, k)


def evk(k, slot, v):
    return ("d" if k in "df" else "i", slot, v)


def lt(P, b, x, y):
    n, k, w = BP[b]
    if k in "df":
        return P.need(("atom", mk("fcmp", "olt", x, y)))
    return not P.le(y, x)


def order(P, b, xs):
    """insertion by partitioning on comparisons: xs in ascending order"""
    out = []
    for x in xs:
        for j, y in enumerate(out):
            if lt(P, b, x, y):
                out.insert(j, x)
                break
        else:
            out.append(x)
    return out


def todouble(x, b):
    n, k, w = BP[b]
    return x if k == "d" else mk("fpext", x) if k == "f" else mk("sitofp", 64, 64, x)


ITP = A.Interp.__new__(A.Interp)
fop = lambda op, x, y: A.Interp.fop(ITP, op, 64, x, y)


def mean(xs):
    t = 0.0
    for x in xs:
        t = fop("fadd", t, x)
    return fop("fdiv", t, float(len(xs)))


def sdev(xs):
    m = mean(xs)
    d = [fop("fsub", x, m) for x in xs]
    d = [fop("fmul", x, x) for x in d]
    t = d[0]
    for x in d[1:]:
        t = fop("fadd", t, x)
    return mk("fsqrt", fop("fdiv", t, float(len(xs) - 1)))


for b, (n, k, w) in BP.items():
    rd = "Img<bitpix::%s> im; im.read_image(S(0)); " % b
    for c in N:
        inp = lambda n=n, c=c: {"s0": S.strvar("raw", fixed=n * c)}
        px = lambda I, c=c, b=b: [val(I["s0"], j, b) for j in range(c)]
        if k in "iu":
            ws.append(IO.W("minmax_%s_%d" % (b, c), rd + "O(0, im.max()); O(1, im.min());", lambda P, I, px=px, b=b: (lambda o: ([i(0, o[-1]), i(1, o[0])], "ret"))(order(P, b, px(I))), inp, WI + "max / min", "largest and smallest of %d pixels (%s)" % (c, b)))
            ws.append(IO.W("median_%s_%d" % (b, c), rd + "O(0, im.median());", lambda P, I, px=px, b=b, c=c: ([i(0, order(P, b, px(I))[c // 2])], "ret"), inp, WI + "median", "the pixel of rank n/2 of %d pixels (%s)" % (c, b)))
        else:
            if c <= 2:
                L = lambda P, x, y: P.need(("atom", mk("fcmp", "olt", x, y)))
                ws.append(IO.W("minmax_%s_%d" % (b, c), rd + "O(0, im.max()); O(1, im.min());", lambda P, I, px=px, c=c, L=L: (lambda x: ([("d", 0, x[1] if c == 2 and L(P, x[0], x[1]) else x[0]), ("d", 1, x[1] if c == 2 and L(P, x[1], x[0]) else x[0])], "ret"))(px(I)), inp, WI + "max / min", "largest and smallest of %d pixels (%s)" % (c, b)))
                ws.append(IO.W("median_%s_%d" % (b, c), rd + "O(0, im.median());", lambda P, I, px=px, c=c, L=L: (lambda x: ([("d", 0, x[0] if c == 2 and L(P, x[1], x[0]) else x[-1])], "ret"))(px(I)), inp, WI + "median", "the pixel of rank n/2 of %d pixels (%s)" % (c, b)))
    for c in NS:
        inp = lambda n=n, c=c: {"s0": S.strvar("raw", fixed=n * c)}
        dbl = lambda I, c=c, b=b: [todouble(val(I["s0"], j, b), b) for j in range(c)]
        gen = None
        if k in "df":
            gen = lambda rng, q, c=c, k=k: {"raw": b"".join(struct.pack(">" + k, rng.choice((rng.uniform(-100, 100), rng.uniform(-1e6, 1e6), float(rng.randrange(-5, 6))))) for _ in range(c))}
        ws.append(IO.W("mean_%s_%d" % (b, c), rd + "O(0, im.mean());", lambda P, I, dbl=dbl: ([("d", 0, mean(dbl(I)))], "ret"), inp, WI + "mean", "mean of %d pixels (%s)" % (c, b), gen=gen))
        if c > 1:
            ws.append(IO.W("sdev_%s_%d" % (b, c), rd + "O(0, im.std_dev());", lambda P, I, dbl=dbl: ([("d", 0, sdev(dbl(I)))], "ret"), inp, WI + "std_dev", "sample standard deviation of %d pixels (%s)" % (c, b), gen=gen))
    ws.append(IO.W("empty_" + b, "Img<bitpix::%s> im; O(0, im.size()); O(1, im.mean()); O(2, im.std_dev()); im.read_image(S(0)); O(3, im.mean()); O(4, im.std_dev());" % b, lambda P, I: ([i(0, 0), ("d", 1, 0.0), ("d", 2, 0.0), ("d", 3, 0.0), ("d", 4, 0.0)], "ret"), lambda: {"s0": F.b("")}, WI + "mean / std_dev", "an image without pixels has mean and deviation 0 (%s)" % b))
    ws.append(IO.W("const_" + b, rd + "const auto& ci = im; O(0, ci.max()); O(1, ci.min()); O(2, ci.median()); O(3, im.write_image());", lambda P, I, b=b: (lambda o, k=BP[b][1]: ([evk(k, 0, o[-1]), evk(k, 1, o[0]), evk(k, 2, o[1]), ("s", 3, I["s0"])], "ret"))(order(P, b, [val(I["s0"], j, b) for j in range(2)])), lambda n=n: {"s0": S.strvar("raw", fixed=2 * n)}, WI + "median", "the statistics do not change the image (%s)" % b)) if k in "iu" else None
    ws.append(IO.W("copy_" + b, rd + "auto c = im; im.read_image(S(1)); O(0, c.size()); O(1, im.size()); O(2, c.write_image()); O(3, im.write_image());", lambda P, I: ([i(0, 2), i(1, 3), ("s", 2, I["s0"]), ("s", 3, I["s1"])], "ret"), lambda n=n: {"s0": S.strvar("raw", fixed=2 * n), "s1": S.strvar("raw2", fixed=3 * n)}, WI + "image_buffer", "copies of an image are independent (%s)" % b))
# ---- pixel access and buffers of a given size
for w, h in ((1, 1), (3, 2), (2, 5), (7, 3)):
    ws.append(IO.W("at_%d_%d" % (w, h), "Buf<double> u(%d, %d); O(0, u.size()); O(1, u.w()); O(2, u.h()); for (std::size_t k = 0; k < u.size(); ++k) u.at(k) = in_d(k); int n = 3; for (std::size_t x = 0; x < %d; ++x) for (std::size_t y = 0; y < %d; ++y) O(n++, u(x, y));" % (w, h, h, w),
                   lambda P, I, w=w, h=h: ([i(0, w * h), i(1, w), i(2, h)] + [("d", 3 + k, I["d%d" % k]) for k in range(w * h)], "ret"), lambda w=w, h=h: {"d%d" % k: F.dvar("p%d" % k) for k in range(w * h)}, WI + "operator()", "pixel (x, y) of a buffer of width %d is element x * width + y" % w))
ws.append(IO.W("new", "Buf<double> u; O(0, u.size()); O(1, u.w()); O(2, u.h());", lambda P, I: ([i(0, 0), i(1, 0), i(2, 0)], "ret"), dict, WI + "image_buffer", "a buffer without size is empty"))
ws = [w for w in ws if w]
IO.run(ck, PRE, ws, chunk=8)
ck.finish("Abstract interpretation of image_buffer over byte terms: max, min and median must be, on every partition of the orderings of the pixels, the pixel of the last, first and n/2-th rank; mean and standard deviation must be the textbook terms over the decoded pixels; pixel (x, y) must be element x*width+y.",
          ["orderings of up to %d pixels, sums over up to %d" % (N[-1], NS[-1]), "floating results up to 1e-9 relative; std_dev of a single pixel is not judged"], min_obl=300)
