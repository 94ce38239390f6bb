"""C02: an unserialized atom returns, converted, exactly the value last stored in it."""
import nf
from specs import *

# what a getter of that name does with the stored value (direct conversion to the result type)
def gconv(getter, val):
    return "(%s)(%s)" % (RET[getter], val)


def run(c):
    s = nf.Spec(PRE + LIBC_MODELS)
    # any earlier state that owns no memory: arbitrary word, arbitrary numeric typetag
    pre = "struct _osc_atom_u a; memset(&a, 0, sizeof a); a.w.H = junk; a.typetag = 'h'; "
    for t, (nm, ct) in API.items():
        setfn = "osc_atom_u_set" + nm
        for g, rt in RET.items():
            fn = "osc_atom_u_get" + g
            s.pair(fn, "%s after %s" % (fn, setfn), "returns the stored %s converted to %s" % (ct, rt), rt, "uint64_t junk, %s v" % ct,
                   pre + "%s(&a, v); return %s(&a);" % (setfn, fn), "return %s;" % gconv(g, "v"))
        s.pair("osc_atom_u_getBool", "osc_atom_u_getBool after %s" % setfn, "true exactly when the stored value is not zero",
               "int", "uint64_t junk, %s v" % ct, pre + "%s(&a, v); return osc_atom_u_getBool(&a);" % setfn, "return v != 0;")
        s.pair(setfn, "%s typetag" % setfn, "the atom becomes '%s' and owns nothing" % t, "int", "uint64_t junk, %s v" % ct,
               pre + "%s(&a, v); return osc_atom_u_getTypetag(&a) == '%s' && a.alloc == 0;" % (setfn, t), "return 1;")
        # copies
        get = "osc_atom_u_get" + nm
        s.pair("osc_atom_u_copyInto", "osc_atom_u_copyInto of '%s' value" % t, "the copy holds the same value", ct, "uint64_t junk, %s v" % ct,
               pre + "struct _osc_atom_u b; memset(&b, 0, sizeof b); struct _osc_atom_u *bp = &b; %s(&a, v); osc_atom_u_copyInto(&bp, &a); return %s(&b);" % (setfn, get),
               "return v;")
        s.pair("osc_atom_u_copyInto", "osc_atom_u_copyInto of '%s' typetag" % t, "the copy has the same type, is unlinked and owns nothing", "int",
               "uint64_t junk, %s v, struct _osc_atom_u *l" % ct,
               pre + "struct _osc_atom_u b; memset(&b, 0, sizeof b); struct _osc_atom_u *bp = &b; %s(&a, v); a.next = l; a.prev = l; osc_atom_u_copyInto(&bp, &a);"
               " return b.typetag == '%s' && bp == &b && b.alloc == 0 && !b.next && !b.prev;" % (setfn, t), "return 1;")
        # the source of a copy is not changed
        s.pair("osc_atom_u_copyInto", "osc_atom_u_copyInto source '%s'" % t, "the source keeps its value and type", ct, "uint64_t junk, %s v" % ct,
               pre + "struct _osc_atom_u b; memset(&b, 0, sizeof b); struct _osc_atom_u *bp = &b; %s(&a, v); osc_atom_u_copyInto(&bp, &a); return a.typetag == '%s' ? %s(&a) : 0;" % (setfn, t, get),
               "return v;")
    for setc, t, v in (("osc_atom_u_setTrue(&a)", "T", "1"), ("osc_atom_u_setFalse(&a)", "F", "0"), ("osc_atom_u_setNil(&a)", "N", "0"),
                       ("osc_atom_u_setBool(&a, 1)", "T", "1"), ("osc_atom_u_setBool(&a, 0)", "F", "0"), ("osc_atom_u_setBool(&a, 256)", "T", "1")):
        setfn = setc.split("(")[0]
        for g, rt in list(RET.items()) + [("Bool", "int")]:
            fn = "osc_atom_u_get" + g
            s.pair(fn, "%s after %s" % (fn, setc), "returns %s" % v, rt, "uint64_t junk", pre + setc + "; return %s(&a);" % fn, "return %s;" % v)
        s.pair(setfn, "%s typetag" % setc, "the atom becomes '%s'" % t, "int", "uint64_t junk",
               pre + setc + "; return osc_atom_u_getTypetag(&a) == '%s' && a.alloc == 0;" % t, "return 1;")
    for g, rt in list(RET.items()) + [("Bool", "int")]:
        fn = "osc_atom_u_get" + g
        s.pair(fn, "%s on NULL" % fn, "returns 0 for a NULL atom", rt, "void", "return %s(0);" % fn, "return 0;")
        if g not in ("Int8", "UInt8", "Int16", "UInt16", "Bool"):
            s.pair(fn, "%s on text" % fn, "returns the decimal number the text spells", rt, "char *d",
                   "struct _osc_atom_u a; memset(&a, 0, sizeof a); a.w.s = d; a.typetag = 's'; return %s(&a);" % fn, "return %s;" % STRTO[g])
    # timetags
    tt = "t_osc_timetag t; t.sec = x; t.frac_sec = y; osc_atom_u_setTimetag(&a, t); "
    for part, v in (("sec", "x"), ("frac_sec", "y")):
        s.pair("osc_atom_u_getTimetag", "osc_atom_u_getTimetag %s" % part, "returns the stored timetag", "uint32_t", "uint64_t junk, uint32_t x, uint32_t y",
               pre + tt + "t_osc_timetag r = osc_atom_u_getTimetag(&a); return r.%s;" % part, "return %s;" % v)
        s.pair("osc_atom_u_copyInto", "osc_atom_u_copyInto of a timetag (%s)" % part, "the copy holds the same timetag", "uint32_t", "uint64_t junk, uint32_t x, uint32_t y",
               pre + tt + "struct _osc_atom_u b; memset(&b, 0, sizeof b); struct _osc_atom_u *bp = &b; osc_atom_u_copyInto(&bp, &a); t_osc_timetag r = osc_atom_u_getTimetag(&b); return r.%s;" % part, "return %s;" % v)
        for t, (nm, ct) in API.items():
            s.pair("osc_atom_u_getTimetag", "osc_atom_u_getTimetag on '%s' (%s)" % (t, part), "is the null timetag for other types", "uint32_t", "uint64_t junk, %s v" % ct,
                   pre + "osc_atom_u_set%s(&a, v); t_osc_timetag r = osc_atom_u_getTimetag(&a); return r.%s;" % (nm, part), "return 0;")
    s.pair("osc_atom_u_setTimetag", "osc_atom_u_setTimetag typetag", "the atom becomes 't'", "int", "uint64_t junk, uint32_t x, uint32_t y",
           pre + tt + "return osc_atom_u_getTypetag(&a) == 't' && a.alloc == 0;", "return 1;")
    # negation: arithmetic negation; an unsigned type becomes the signed type of the same width
    for t, (nm, ct) in API.items():
        ot = t.lower() if t in "CU" else {"I": "i", "H": "h"}.get(t, t)
        onm, oct_ = API[ot]
        neg = "(%s)(-v)" % oct_
        for fam, pfx in (("u", "osc_atom_u"),):
            fn = pfx + "_negate"
            s.pair(fn, "%s of '%s' value" % (fn, t), "is the arithmetic negation", oct_, "uint64_t junk, %s v" % ct,
                   pre + "osc_atom_u_set%s(&a, v); osc_atom_u_negate(&a); return osc_atom_u_get%s(&a);" % (nm, onm), "return %s;" % neg)
            s.pair(fn, "%s of '%s' typetag" % (fn, t), "the result has type '%s'" % ot, "int", "uint64_t junk, %s v" % ct,
                   pre + "osc_atom_u_set%s(&a, v); osc_atom_u_negate(&a); return osc_atom_u_getTypetag(&a) == '%s';" % (nm, ot), "return 1;")
        s.pair("osc_atom_s_negate", "osc_atom_s_negate of '%s' value" % t, "is the arithmetic negation", oct_, "uint64_t junk, %s v" % ct,
               "char b[8]; memcpy(b, &junk, 8); struct _osc_atom_s a; a.data = b; a.typetag = 'x'; osc_atom_s_set%s(&a, v); osc_atom_s_negate(&a); return osc_atom_s_get%s(&a);" % (nm, onm),
               "return %s;" % neg)
        s.pair("osc_atom_s_negate", "osc_atom_s_negate of '%s' typetag" % t, "the result has type '%s'" % ot, "int", "uint64_t junk, %s v" % ct,
               "char b[8]; memcpy(b, &junk, 8); struct _osc_atom_s a; a.data = b; a.typetag = 'x'; osc_atom_s_set%s(&a, v); osc_atom_s_negate(&a); return a.typetag == '%s';" % (nm, ot),
               "return 1;")
    nf.decide(c, s, 300)
