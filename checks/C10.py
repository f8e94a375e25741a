"""C10: decimal hours decompose into hours, minutes and seconds and back."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip
from vlib.terms import var, Dom

PRE = "#include <cmath>\n#include <boost/astronomy/time/parser.hpp>\n"
a, b, c = var("a"), var("b"), var("c")
DOM = {"a": Dom((0, 24), (-48, 48), (-1e5, 1e5), (-1e11, 1e11), extra=[float(k) for k in range(-25, 25)] + [k / 64.0 for k in range(-200, 200)]),
       "b": Dom((-60, 60), (-1e4, 1e4), extra=[float(k) for k in range(60)]), "c": Dom((-60, 60), (-1e4, 1e4), (58, 60))}
SUM = "x.get_hours() + x.get_minutes() / 60.0 + x.get_seconds() / 3600.0"
REF = "long H = (long)d; double mr = (d - H) * 60; long M = (long)mr; double S = (mr - M) * 60; o[10] = d; o[11] = H; o[12] = M; o[13] = S; "
RD = "o[0] = x.get(); o[1] = x.get_hours(); o[2] = x.get_minutes(); o[3] = x.get_seconds(); "
SP = {0: ("slot", 10), 1: ("slot", 11), 2: ("slot", 12), 3: ("slot", 13)}


def snips():
    return [
        Snip("one", [("double", "a")], "decimal_hour x(a); double d = a; " + REF + RD, SP, "decimal_hour(d)", domain=DOM),
        Snip("one_sum", [("double", "a")], "decimal_hour x(a); o[0] = %s;" % SUM, {0: a}, "decimal_hour(d): parts add up to d", domain=DOM),
        Snip("three_get", [("double", x) for x in "abc"], "decimal_hour x(a, b, c); o[0] = x.get();", {0: a + b / 60.0 + c / 3600.0}, "decimal_hour(h,m,s).get()", domain=DOM),
        Snip("three", [("double", x) for x in "abc"], "decimal_hour x(a, b, c); double d = a + b/60 + c/(60*60); " + REF + RD, SP, "decimal_hour(h,m,s)", domain=DOM),
        Snip("three_sum", [("double", x) for x in "abc"], "decimal_hour x(a, b, c); o[0] = %s;" % SUM, {0: a + b / 60.0 + c / 3600.0}, "decimal_hour(h,m,s): parts add up", domain=DOM),
        Snip("copy", [("double", x) for x in "ab"], "decimal_hour y(a); decimal_hour x(y); y = decimal_hour(b); double d = a; " + REF + RD, SP, "copy of a decimal_hour", domain=DOM),
        Snip("assign", [("double", x) for x in "ab"], "decimal_hour x(b); x = decimal_hour(a); double d = a; " + REF + RD, SP, "assigned decimal_hour", domain=DOM),
    ]


def main():
    ck = Check("C10")
    ck.numeric(PRE, snips(), chunk=7)
    ck.finish(rule="Value graphs of both constructors: hours = trunc(d), minutes = trunc(60 frac), seconds the rest (same gated form as the reference), and hours + minutes/60 + seconds/3600 "
              "canonicalises to the decimal value.", assumptions=["|d| below the range of long", "real arithmetic up to relative 1e-7"], min_obl=15)


if __name__ == "__main__":
    main()
