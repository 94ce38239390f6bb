"""C01: reading a serialized atom yields the value its bytes and typetag denote; writing produces them."""
import nf
from specs import *


def run(c):
    s = nf.Spec(PRE + LIBC_MODELS)
    mk = "char b[8]; memcpy(b, &raw, 8); struct _osc_atom_s a; a.data = b; a.typetag = '%s'; "
    for g, rt in RET.items():
        fn = "osc_atom_s_get" + g
        for t in NUM:
            s.pair(fn, "%s on '%s'" % (fn, t), "returns the big-endian '%s' datum converted as C converts it" % t,
                   rt, "uint64_t raw", mk % t + "return %s(&a);" % fn, "return %s;" % conv(g, wire(t)))
        for t, v in (("T", "1"), ("F", "0"), ("N", "0")):
            s.pair(fn, "%s on '%s'" % (fn, t), "returns %s for '%s', whatever the data pointer" % (v, t),
                   rt, "char *d", "struct _osc_atom_s a; a.data = d; a.typetag = '%s'; return %s(&a);" % (t, fn),
                   "return %s;" % v)
        s.pair(fn, "%s on 's'" % fn, "returns the decimal number the text spells",
               rt, "char *d", "struct _osc_atom_s a; a.data = d; a.typetag = 's'; return %s(&a);" % fn,
               "return %s;" % STRTO[g])
        s.pair(fn, "%s on NULL" % fn, "returns 0 for a NULL atom", rt, "void", "return %s(0);" % fn, "return 0;")
    fn = "osc_atom_s_getBool"
    for t in NUM:
        s.pair(fn, "%s on '%s'" % (fn, t), "true exactly when the '%s' datum is not zero" % t,
               "int", "uint64_t raw", mk % t + "return %s(&a);" % fn, "return (%s) != 0;" % wire(t))
    for t, v in (("T", "1"), ("F", "0"), ("N", "0")):
        s.pair(fn, "%s on '%s'" % (fn, t), "is %s" % v, "int", "char *d",
               "struct _osc_atom_s a; a.data = d; a.typetag = '%s'; return %s(&a);" % (t, fn), "return %s;" % v)
    # timetags: seconds then fraction, both big-endian
    fn = "osc_atom_s_getTimetag"
    for part in ("sec", "frac_sec"):
        s.pair(fn, "%s on 't' (%s)" % (fn, part), "decodes the NTP pair big-endian", "uint32_t", "uint64_t raw",
               mk % "t" + "t_osc_timetag t = %s(&a); return osc_timetag_ntp_get%s(t);" % (fn, {"sec": "Seconds", "frac_sec": "Fraction"}[part])
               if False else mk % "t" + "t_osc_timetag t = %s(&a); return t.%s;" % (fn, part),
               "return __builtin_bswap32((uint32_t)(raw%s));" % ("" if part == "sec" else " >> 32"))
        for t in "ifd":
            s.pair(fn, "%s on '%s' (%s)" % (fn, t, part), "is the null timetag for other types", "uint32_t", "uint64_t raw",
                   mk % t + "t_osc_timetag t = %s(&a); return t.%s;" % (fn, part), "t_osc_timetag t = OSC_TIMETAG_NULL; return t.%s;" % part)
        s.pair(fn, "%s on NULL (%s)" % (fn, part), "is the null timetag for a NULL atom", "uint32_t", "void",
               "t_osc_timetag t = %s(0); return t.%s;" % (fn, part), "t_osc_timetag t = OSC_TIMETAG_NULL; return t.%s;" % part)
    # writers
    wr = "char b[8]; memcpy(b, &raw, 8); struct _osc_atom_s a; a.data = b; a.typetag = tt; "
    enc = {"c": "be32((uint32_t)(int32_t)v)", "u": "be32((uint32_t)(int32_t)v)", "i": "be32((uint32_t)v)", "h": "be64((uint64_t)v)",
           "C": "be32(v)", "U": "be32(v)", "I": "be32(v)", "H": "be64(v)", "f": "be32(fbits(v))", "d": "be64(dbits(v))"}
    for t, (nm, ct) in API.items():
        fn = "osc_atom_s_set" + nm
        s.pair(fn, "%s bytes" % fn, "writes the value big-endian in %d bytes and nothing after them" % (8 if t in "hHd" else 4),
               "uint64_t", "uint64_t raw, char tt, %s v" % ct,
               wr + "%s(&a, v); uint64_t o; memcpy(&o, b, 8); return o;" % fn,
               "return %s;" % (enc[t] if t in "hHd" else "(raw & 0xffffffff00000000ull) | (uint64_t)%s" % enc[t]))
        s.pair(fn, "%s typetag" % fn, "the atom becomes '%s' and keeps its buffer" % t, "int", "uint64_t raw, char tt, %s v" % ct,
               wr + "%s(&a, v); return a.typetag == '%s' && a.data == b;" % (fn, t), "return 1;")
    for nm, t in (("True", "T"), ("False", "F"), ("Nil", "N")):
        fn = "osc_atom_s_set" + nm
        s.pair(fn, "%s typetag" % fn, "the atom becomes '%s'" % t, "int", "uint64_t raw, char tt",
               wr + "%s(&a); return a.typetag == '%s';" % (fn, t), "return 1;")
    fn = "osc_atom_s_setTimetag"
    s.pair(fn, "%s bytes" % fn, "writes seconds then fraction big-endian", "uint64_t", "uint64_t raw, char tt, uint32_t x, uint32_t y",
           wr + "t_osc_timetag t; t.sec = x; t.frac_sec = y; %s(&a, t); uint64_t o; memcpy(&o, b, 8); return o;" % fn,
           "return (uint64_t)__builtin_bswap32(x) | ((uint64_t)__builtin_bswap32(y) << 32);")
    s.pair(fn, "%s typetag" % fn, "the atom becomes 't'", "int", "uint64_t raw, char tt, uint32_t x, uint32_t y",
           wr + "t_osc_timetag t; t.sec = x; t.frac_sec = y; %s(&a, t); return a.typetag == 't';" % fn, "return 1;")
    nf.decide(c, s, 190)
