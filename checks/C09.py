"""C09: Greenwich and local sidereal time."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip
from vlib import timepre as TP
from vlib.terms import Dom

DOM = {"n": TP.ticks, "l": Dom((-180, 180), (-400, 400), (-5000, 5000), (-1e6, 1e6), extra=(0.0, 180.0, 360.0, -180.0, -360.0, 15.0))}

A = " o[7] = bt::julian_date(mkt(n)); o[8] = mkt(n).time_of_day().total_microseconds();"      # common subterms


def snips():
    out = [Snip("jd", [("long long", "n")], "o[0] = bt::julian_date(mkt(n)); o[1] = ref_jd(mkt(n));", {0: ("slot", 1)}, "julian_date(t), from which GST starts", tol=1e-12, domain=DOM),
           Snip("gst", [("long long", "n")], "o[0] = bt::GST(mkt(n)).get(); o[1] = ref_gst(mkt(n));" + A, {0: ("slot", 1)}, "GST(t)", tol=1e-9, domain=DOM, abstract=(7, 8))]
    for nm, sg in (("EAST", 1), ("WEST", -1)):
        out.append(Snip("lst_" + nm, [("long long", "n"), ("double", "l")], "o[0] = bt::LST(l, bt::DIRECTION::%s, mkt(n)).get(); o[1] = ref_lst(l, %d, mkt(n));" % (nm, sg) + A,
                        {0: ("slot", 1)}, "LST(longitude, %s, t)" % nm, tol=1e-9, domain=DOM, abstract=(7, 8)))
        out.append(Snip("lst0_" + nm, [("long long", "n")], "o[0] = bt::LST(0, bt::DIRECTION::%s, mkt(n)).get(); o[1] = ref_gst(mkt(n));" % nm + A,
                        {0: ("slot", 1)}, "LST(0, %s, t) is GST(t)" % nm, tol=1e-9, domain=DOM, abstract=(7, 8)))
    # both parts of the returned decimal hour
    out.append(Snip("gst_parts", [("long long", "n")], "decimal_hour h = bt::GST(mkt(n)); o[0] = h.get_hours() + h.get_minutes() / 60.0 + h.get_seconds() / 3600.0; o[1] = ref_gst(mkt(n));" + A,
                    {0: ("slot", 1)}, "parts of GST(t)", tol=1e-7, domain=DOM, abstract=(7, 8)))
    return out


def main():
    ck = Check("C09")
    ck.numeric(TP.PRE, snips(), chunk=1, inline=TP.inline)
    ck.finish(rule="GST(t) and LST(longitude, direction, t) with Boost.Date_Time inlined are reduced to gated value graphs over the 64-bit tick count of t and the longitude; they must equal, branch by "
              "branch, the reference formula over julian_date(t), and julian_date(t) the calendar formula (reduction x - 24 floor(x/24), which lies in [0,24) for every x; LST = GST +- longitude/15 reduced).",
              assumptions=["t is not a special value (not_a_date_time, infinities)", "microsecond posix_time resolution", "real arithmetic up to relative 1e-9"], min_obl=5)


if __name__ == "__main__":
    main()
