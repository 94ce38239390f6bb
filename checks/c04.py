"""C04: the ordering of argument types and the algebra of timetags."""
import nf
from specs import *

RANK = "NTFcCuUiIhHfds"


def run(c):
    s = nf.Spec(PRE + '#include "osc_array.h"\n#include "osc_array.r"\n#include "osc_atom_array_u.h"\n')
    # type order: every ordered pair
    for i, a in enumerate(RANK):
        for j, b in enumerate(RANK):
            s.pair("osc_typetag_compare", "osc_typetag_compare '%s' '%s'" % (a, b), "rank order N T F c C u U i I h H f d s", "int", "int x",
                   "return osc_typetag_compare('%s','%s');" % (a, b), "return %d;" % ((i > j) - (i < j)))
    # the widest type among the arguments
    init = ("struct _osc_atom_u m[2]; memset(m, 0, sizeof m); m[0].typetag = '%s'; m[1].typetag = '%s'; m[0].w.H = m[1].w.H = junk; "
            "struct _osc_array a0, a1; t_osc_atom_ar_u *v[2] = {&a0, &a1}; ")

    def widest(ts):
        k = max(1 if t == "F" else RANK.index(t) for t in ts)
        return RANK[k]
    for a in RANK:
        for b in RANK:
            d = init % (a, b)
            s.pair("osc_typetag_getLargestType", "osc_typetag_getLargestType one list %s%s" % (a, b), "the highest-ranked type of any element", "int", "uint64_t junk",
                   d + "osc_atom_array_u_set(v[0], m, 2); return osc_typetag_getLargestType(1, v);", "return '%s';" % widest(a + b))
            s.pair("osc_typetag_getLargestType", "osc_typetag_getLargestType lists %s|%s" % (a, b), "the highest-ranked type of any list", "int", "uint64_t junk",
                   d + "osc_atom_array_u_set(v[0], m, 1); osc_atom_array_u_set(v[1], m + 1, 1); return osc_typetag_getLargestType(2, v);", "return '%s';" % widest(a + b))
    # which payloads are byte-swapped on the wire
    for t in "cuihCUIHfd":
        s.pair("osc_mem_shouldByteswap", "osc_mem_shouldByteswap '%s'" % t, "multi-byte numbers are big-endian on the wire", "int", "int x", "return osc_mem_shouldByteswap('%s') != 0;" % t, "return 1;")
    for t in "TFNsbt.":
        s.pair("osc_mem_shouldByteswap", "osc_mem_shouldByteswap '%s'" % t, "other payloads are not swapped as a unit", "int", "int x", "return osc_mem_shouldByteswap('%s') != 0;" % (t), "return 0;")
    # timetags
    T = "uint32_t x1, uint32_t y1, uint32_t x2, uint32_t y2"
    tt = "t_osc_timetag a, b; a.sec = x1; a.frac_sec = y1; b.sec = x2; b.frac_sec = y2; "
    s.pair("osc_timetag_compare", "osc_timetag_compare", "lexicographic order of (seconds, fraction): -1, 0 or 1", "int", T, tt + "return osc_timetag_compare(a, b);",
           "if(x1 < x2) return -1; if(x1 > x2) return 1; if(y1 < y2) return -1; if(y1 > y2) return 1; return 0;")
    s.pair("osc_timetag_isImmediate", "osc_timetag_isImmediate", "exactly the tag 0.1", "int", T, tt + "return osc_timetag_isImmediate(a) != 0;", "return x1 == 0 && y1 == 1;")
    s.pair("osc_timetag_ntp_getSeconds", "osc_timetag_ntp_getSeconds", "the seconds", "uint32_t", T, tt + "return osc_timetag_ntp_getSeconds(a);", "return x1;")
    s.pair("osc_timetag_ntp_getFraction", "osc_timetag_ntp_getFraction", "the fraction", "uint32_t", T, tt + "return osc_timetag_ntp_getFraction(a);", "return y1;")
    s.pair("osc_timetag_add", "osc_timetag_add fraction", "fractions add modulo 2^32", "uint32_t", T, tt + "return osc_timetag_add(a, b).frac_sec;", "return y1 + y2;")
    s.pair("osc_timetag_add", "osc_timetag_add seconds", "the carry goes into the seconds", "uint32_t", T, tt + "return osc_timetag_add(a, b).sec;",
           "uint32_t f = y1 + y2; return x1 + x2 + (f < y1);")
    ge = "if(x1 < x2 || (x1 == x2 && y1 < y2)) M_open(); "
    s.pair("osc_timetag_subtract", "osc_timetag_subtract fraction (a >= b)", "exact difference", "uint32_t", T, tt + "return osc_timetag_subtract(a, b).frac_sec;", ge + "return y1 - y2;")
    s.pair("osc_timetag_subtract", "osc_timetag_subtract seconds (a >= b)", "the borrow comes out of the seconds", "uint32_t", T, tt + "return osc_timetag_subtract(a, b).sec;",
           ge + "if(y1 < y2) return x1 - x2 - 1; return x1 - x2;")
    s.pair("osc_timetag_timetagToFloat", "osc_timetag_timetagToFloat", "seconds plus fraction over 2^32-1", "double", T, tt + "return osc_timetag_timetagToFloat(a);",
           "return (double)x1 + (double)y1 / 4294967295.0;")
    for f, w in (("sec", "(uint32_t)(d - fmod(d, 1.0))"), ("frac_sec", "(uint32_t)(fmod(d, 1.0) * 4294967295.0)")):
        s.pair("osc_timetag_floatToTimetag", "osc_timetag_floatToTimetag %s" % f, "whole and fractional part", "uint32_t", "double d", "return osc_timetag_floatToTimetag(d).%s;" % f, "return %s;" % w)
    nf.decide(c, s, 600)
