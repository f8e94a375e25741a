"""C11: julian date and obliquity of the ecliptic."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip
from vlib import timepre as TP

PRE = TP.PRE + "#include <boost/astronomy/coordinate/utility/utility.hpp>\nnamespace bac = boost::astronomy::coordinate;\n"
DOM = {"n": TP.ticks, "k": TP.days}


def snips():
    return [
        Snip("jd", [("long long", "n")], "o[0] = bt::julian_date(mkt(n)); o[1] = ref_jd(mkt(n));", {0: ("slot", 1)}, "julian_date(t)", tol=1e-12, domain=DOM),
        Snip("obl", [("unsigned", "k")], "bac::obliquity_of_ecliptic e(mkd(k)); o[0] = e.get().value(); bac::obliquity_of_ecliptic f(e); o[1] = f.get().value(); "
             "double T = ((double)mkd(k).julian_day() - 2451545.0) / 36525.0; o[2] = (23.439292 - (46.815 * T + (0.0006 - 0.00181 * T) * T * T) / 3600.0) * 3.141592653589793 / 180.0; o[7] = mkd(k).julian_day();",
             {0: ("slot", 2), 1: ("slot", 2)},
             "obliquity_of_ecliptic(date).get()", tol=1e-9, domain=DOM, abstract=(7,)),
    ]


def main():
    ck = Check("C11")
    sn = snips()
    ck.numeric(PRE, sn[:1], chunk=1, inline=TP.inline)
    # a light pipeline keeps the two inlined copies of Boost.Date_Time's calendar code identical
    ck.numeric(PRE, sn[1:], chunk=1, inline=TP.inline, passes="always-inline,sroa,early-cse,simplifycfg")
    ck.finish(rule="julian_date(t) must equal, branch by branch, the calendar formula (Gregorian correction from 1582-10-15) over the calendar fields Boost.Date_Time derives from the tick count; "
              "obliquity_of_ecliptic must have the polynomial form of the IAU expression in julian centuries from the day number.",
              assumptions=["t is not a special value", "real arithmetic up to relative 1e-9"], min_obl=3)


if __name__ == "__main__":
    main()
