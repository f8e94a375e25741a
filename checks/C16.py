"""C16: pixels are decoded and encoded with the type and size BITPIX names, in file order."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat, slen

ck = C.Check("C16")
ws = []
be, ev = F.be, F.ev
PRE = F.ALL + """#include <boost/astronomy/io/image.hpp>
template<bitpix B> struct Img : image<B, binary_data_converter> { typename bitpix_type<B>::underlying_type at(std::size_t i) { return this->data_[i]; } };
template<class V, class I> auto pix(I& im, std::size_t i) -> decltype(im.at(i)) { return im.at(i); }
"""
BP = {"B8": (8, 1, "u"), "B16": (16, 2, "i"), "B32": (32, 4, "i"), "_B32": (-32, 4, "f"), "_B64": (-64, 8, "d")}
WI, WB = F.IO + "image.hpp: image::", F.IO + "bitpix.hpp: "
CNT = (1, 2, 3, 6) if C.TIER == "quick" else (1, 2, 3, 4, 5, 6, 9, 17)


def val(s, i, n, k):
    return S.byteat(None, s, i) if k == "u" else be(s, n * i, n, k)


def evk(k, slot, v):
    return ("d" if k in "df" else "i", slot, v)


for b, (num, n, k) in BP.items():
    ws.append(IO.W("size_" + b, "O(0, get_element_size_from_bitpix(bitpix::%s)); O(1, sizeof(bitpix_type<bitpix::%s>::underlying_type)); O(2, std::is_signed<bitpix_type<bitpix::%s>::underlying_type>::value); O(3, std::is_floating_point<bitpix_type<bitpix::%s>::underlying_type>::value);" % (b, b, b, b),
                   lambda P, I, n=n, k=k: ([("i", 0, n), ("i", 1, n), ("i", 2, int(k != "u")), ("i", 3, int(k in "df"))], "ret"), dict, WB + "get_element_size_from_bitpix / bitpix_type", "element size and pixel type of BITPIX %d" % num))
    for c in CNT:
        inp = lambda n=n, c=c: {"s0": S.strvar("raw", fixed=n * c)}
        ws.append(IO.W("read_%s_%d" % (b, c), "Img<bitpix::%s> im; im.read_image(S(0)); O(0, im.size()); for (std::size_t i = 0; i < im.size(); ++i) O(1 + i, im.at(i));" % b,
                       lambda P, I, n=n, c=c, k=k: ([("i", 0, c)] + [evk(k, 1 + i, val(I["s0"], i, n, k)) for i in range(c)], "ret"), inp, WI + "read_image<%s>" % b, "%d pixels of BITPIX %d" % (c, num)))
        ws.append(IO.W("rt_%s_%d" % (b, c), "Img<bitpix::%s> im; im.read_image(S(0)); O(0, im.write_image());" % b, lambda P, I: ([("s", 0, I["s0"])], "ret"), inp, WI + "write_image<%s>" % b, "writing %d pixels of BITPIX %d gives the bytes read" % (c, num)))
    ws.append(IO.W("empty_%s" % b, "Img<bitpix::%s> im; im.read_image(std::string()); O(0, im.size()); O(1, im.write_image());" % b, lambda P, I: ([("i", 0, 0), ("s", 1, F.b(""))], "ret"), dict, WI + "read_image<%s>" % b, "no data, no pixels"))
    ws.append(IO.W("reread_%s" % b, "Img<bitpix::%s> im; im.read_image(S(0)); im.read_image(S(1)); O(0, im.size()); O(1, im.write_image());" % b, lambda P, I, n=n: ([("i", 0, 2), ("s", 1, I["s1"])], "ret"),
                   lambda n=n: {"s0": S.strvar("raw", fixed=3 * n), "s1": S.strvar("raw2", fixed=2 * n)}, WI + "read_image<%s>" % b, "a second read replaces the pixels"))

    # primary HDU and image extension choose the image type from BITPIX
    def hdr(num, c, ext):
        first = [F.kv("XTENSION", "IMAGE")] if ext else [F.kv("SIMPLE", True)]
        tail = [F.kv("PCOUNT", 0), F.kv("GCOUNT", 1)] if ext else [F.kv("EXTEND", True)]
        return F.header(first + [F.kv("BITPIX", num), F.kv("NAXIS", 1), F.kv("NAXIS1", c)] + tail)
    for ext in (0, 1):
        cls = "image_extension" if ext else "primary_hdu"
        body = """fits_stream fs; fs.set_file("f"); Header h; h.read_header(fs); %s p(h, S(0)); auto im = p.get_data<bitpix::%s>(); O(0, im.size()); O(1, im.write_image()); O(2, im.max()); O(3, p.get_header().bitpix() == bitpix::%s);""" % (cls, b, b)
        ws.append(IO.W("%s_%s" % ("ext" if ext else "primary", b), body, lambda P, I, n=n, k=k: ([("i", 0, 1), ("s", 1, I["s0"]), evk(k, 2, val(I["s0"], 0, n, k)), ("i", 3, 1)], "ret"),
                       lambda n=n: {"s0": S.strvar("raw", fixed=n)}, F.IO + ("image_extension.hpp" if ext else "primary_hdu.hpp") + ": %s" % cls, "%s with BITPIX %d holds that image type" % (cls, num), files=lambda inp, num=num, ext=ext: {"f": hdr(num, 1, ext)}))
IO.run(ck, PRE, ws, chunk=8)
ck.finish("Abstract interpretation of image, bitpix and the HDUs that hold images over byte terms: pixel i must be the term built from bytes [i*size, (i+1)*size) in big-endian order with the signedness of BITPIX, writing must return the bytes read, and each BITPIX value must select its image type.",
          ["pixel counts %s, every byte content" % (CNT,)], min_obl=40)
