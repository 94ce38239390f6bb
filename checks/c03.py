"""C03: the serialized form of an atom: width, byte order, zero padding, bounds; sizes agree everywhere."""
import nf
from specs import *

MODELS = r'''
/* a nested bundle is modelled as one that serializes to 16 bytes of 0x5a */
size_t M_bndl_nserialize(char *buf, size_t n, t_osc_bndl_u *b){
  if(!buf) return 16;
  if(n < 16) return 0;
  memset(buf, 0x5a, 16);
  return 16;
}
'''


def words(expr_of_k, n):
    pass


def run(c):
    s = nf.Spec(PRE + LIBC_MODELS + MODELS)
    s.opaque.append(("osc_bundle_u_nserialize", "model:M_bndl_nserialize"))
    pre = "struct _osc_atom_u a; memset(&a, 0, sizeof a); a.w.H = junk; a.typetag = 'h'; "
    enc = {"c": "be32((uint32_t)(int32_t)v)", "u": "be32((uint32_t)(int32_t)v)", "i": "be32((uint32_t)v)", "h": "be64((uint64_t)v)",
           "C": "be32(v)", "U": "be32(v)", "I": "be32(v)", "H": "be64(v)", "f": "be32(fbits(v))", "d": "be64(dbits(v))"}
    buf = "char b[16]; memcpy(b, &raw, 8); memcpy(b + 8, &raw, 8); "
    ns = "osc_atom_u_nserialize"
    for t, (nm, ct) in API.items():
        w = 8 if t in "hHd" else 4
        st = pre + "osc_atom_u_set%s(&a, v); " % nm
        par = "uint64_t junk, uint64_t raw, %s v" % ct
        want = enc[t] if w == 8 else "(raw & 0xffffffff00000000ull) | (uint64_t)%s" % enc[t]
        s.pair(ns, "%s '%s' bytes" % (ns, t), "writes exactly the %d big-endian bytes of the value" % w, "uint64_t", par,
               buf + st + "%s(b, 16, &a); uint64_t o; memcpy(&o, b, 8); return o;" % ns, "return %s;" % want)
        s.pair(ns, "%s '%s' rest" % (ns, t), "leaves the rest of the buffer alone", "uint64_t", par,
               buf + st + "%s(b, 16, &a); uint64_t o; memcpy(&o, b + 8, 8); return o;" % ns, "return raw;")
        s.pair(ns, "%s '%s' exact fit" % (ns, t), "a buffer of exactly %d bytes is enough" % w, "uint64_t", par,
               buf + st + "size_t r = %s(b, %d, &a); uint64_t o; memcpy(&o, b, 8); return r == %d ? o : 0;" % (ns, w, w), "return %s;" % want)
        s.pair(ns, "%s '%s' short buffer" % (ns, t), "a shorter buffer is left alone and 0 is returned", "uint64_t", par,
               buf + st + "size_t r = %s(b, %d, &a); uint64_t o; memcpy(&o, b, 8); return o ^ (uint64_t)r;" % (ns, w - 1), "return raw;")
        for fn, call in ((ns, "%s(b, 16, &a)" % ns), (ns, "%s(0, 0, &a)" % ns), ("osc_atom_u_sizeof", "osc_atom_u_sizeof(&a)"),
                         ("osc_atom_u_getSerializedSize", "osc_atom_u_getSerializedSize(&a)")):
            s.pair(fn, "%s '%s' size" % (call, t), "reports %d bytes" % w, "uint64_t", par, buf + st + "return %s;" % call, "return %d;" % w)
        for fn, call in (("osc_sizeof", "osc_sizeof('%s', b)" % t), ("osc_atom_s_sizeof", "osc_atom_s_sizeof(&as)")):
            s.pair(fn, "%s '%s' size" % (fn, t), "reports %d bytes" % w, "uint64_t", "uint64_t raw",
                   buf + "struct _osc_atom_s as; as.data = b; as.typetag = '%s'; return %s;" % (t, call), "return %d;" % w)
        # serialized -> unserialized
        dz = "osc_atom_s_deserializeInto"
        s.pair(dz, "%s '%s' value" % (dz, t), "the value the bytes denote", ct, "uint64_t junk, uint64_t raw",
               buf + pre + "struct _osc_atom_s as; as.data = b; as.typetag = '%s'; struct _osc_atom_u *ap = &a; %s(&ap, &as); return osc_atom_u_get%s(&a);" % (t, dz, nm),
               "return (%s)%s;" % (ct, wire(t)))
        s.pair(dz, "%s '%s' typetag" % (dz, t), "the same type", "int", "uint64_t junk, uint64_t raw",
               buf + pre + "struct _osc_atom_s as; as.data = b; as.typetag = '%s'; struct _osc_atom_u *ap = &a; %s(&ap, &as); return ap == &a && osc_atom_u_getTypetag(&a) == '%s';" % (t, dz, t),
               "return 1;")
        # raw byte-order helpers agree with the widths
        for fn in ("osc_mem_encodeByteorder", "osc_mem_decodeByteorder"):
            s.pair(fn, "%s '%s'" % (fn, t), "reverses exactly %d bytes" % w, "uint64_t", "uint64_t raw",
                   "char d[8], b[8]; memset(b, 0, 8); memcpy(d, &raw, 8); char *o = b; %s('%s', d, &o); uint64_t r; memcpy(&r, b, 8); return r;" % (fn, t),
                   "return %s;" % ("be64(raw)" if w == 8 else "(uint64_t)be32(raw)"))
    for t, setc in (("T", "osc_atom_u_setTrue(&a)"), ("F", "osc_atom_u_setFalse(&a)"), ("N", "osc_atom_u_setNil(&a)")):
        st = pre + setc + "; "
        s.pair(ns, "%s '%s'" % (ns, t), "has no bytes", "uint64_t", "uint64_t junk, uint64_t raw",
               buf + st + "size_t r = %s(b, 16, &a); uint64_t o; memcpy(&o, b, 8); return o ^ (uint64_t)r;" % ns, "return raw;")
        for fn, call in ((ns, "%s(0, 0, &a)" % ns), ("osc_atom_u_sizeof", "osc_atom_u_sizeof(&a)"), ("osc_atom_u_getSerializedSize", "osc_atom_u_getSerializedSize(&a)"),
                         ("osc_sizeof", "osc_sizeof('%s', b)" % t)):
            s.pair(fn, "%s '%s' size" % (call, t), "reports 0 bytes", "uint64_t", "uint64_t junk, uint64_t raw", buf + st + "return %s;" % call, "return 0;")
        dz = "osc_atom_s_deserializeInto"
        s.pair(dz, "%s '%s' typetag" % (dz, t), "the same type", "int", "uint64_t junk, uint64_t raw",
               buf + pre + "struct _osc_atom_s as; as.data = b; as.typetag = '%s'; struct _osc_atom_u *ap = &a; %s(&ap, &as); return osc_atom_u_getTypetag(&a) == '%s';" % (t, dz, t),
               "return 1;")
    # timetags
    tt = pre + "t_osc_timetag t; t.sec = x; t.frac_sec = y; osc_atom_u_setTimetag(&a, t); "
    par = "uint64_t junk, uint64_t raw, uint32_t x, uint32_t y"
    want = "(uint64_t)__builtin_bswap32(x) | ((uint64_t)__builtin_bswap32(y) << 32)"
    s.pair(ns, "%s 't' bytes" % ns, "writes seconds then fraction big-endian", "uint64_t", par,
           buf + tt + "%s(b, 16, &a); uint64_t o; memcpy(&o, b, 8); return o;" % ns, "return %s;" % want)
    s.pair(ns, "%s 't' exact fit" % ns, "8 bytes are enough", "uint64_t", par,
           buf + tt + "size_t r = %s(b, 8, &a); uint64_t o; memcpy(&o, b, 8); return r == 8 ? o : 0;" % ns, "return %s;" % want)
    s.pair(ns, "%s 't' short buffer" % ns, "a shorter buffer is left alone and 0 is returned", "uint64_t", par,
           buf + tt + "size_t r = %s(b, 7, &a); uint64_t o; memcpy(&o, b, 8); return o ^ (uint64_t)r;" % ns, "return raw;")
    for fn, call in ((ns, "%s(0, 0, &a)" % ns), ("osc_atom_u_sizeof", "osc_atom_u_sizeof(&a)"), ("osc_sizeof", "osc_sizeof('t', b)")):
        s.pair(fn, "%s 't' size" % call, "reports 8 bytes", "uint64_t", par, buf + tt + "return %s;" % call, "return 8;")
    for part, off in (("sec", ""), ("frac_sec", " >> 32")):
        s.pair("osc_atom_s_deserializeInto", "osc_atom_s_deserializeInto 't' %s" % part, "the timetag the bytes denote", "uint32_t", "uint64_t junk, uint64_t raw",
               buf + pre + "struct _osc_atom_s as; as.data = b; as.typetag = 't'; struct _osc_atom_u *ap = &a; osc_atom_s_deserializeInto(&ap, &as); t_osc_timetag r = osc_atom_u_getTimetag(&a); return r.%s;" % part,
               "return __builtin_bswap32((uint32_t)(raw%s));" % off)
        s.pair("osc_timetag_decodeFromHeader", "osc_timetag_decodeFromHeader %s" % part, "decodes the NTP pair big-endian", "uint32_t", "uint64_t raw",
               "char b[8]; memcpy(b, &raw, 8); t_osc_timetag r = osc_timetag_decodeFromHeader(b); return r.%s;" % part,
               "return __builtin_bswap32((uint32_t)(raw%s));" % off)
    s.pair("osc_timetag_encodeForHeader", "osc_timetag_encodeForHeader", "writes seconds then fraction big-endian", "uint64_t", "uint32_t x, uint32_t y",
           "char b[8]; t_osc_timetag t; t.sec = x; t.frac_sec = y; osc_timetag_encodeForHeader(t, b); uint64_t o; memcpy(&o, b, 8); return o;", "return %s;" % want)
    # strings: NUL-terminated, zero-padded to a multiple of four
    for n in range(0, 10):
        txt = "abcdefghij"[:n]
        padded = (n // 4 + 1) * 4
        img = (txt.encode() + b"\0" * (padded - n))
        st = pre + "a.w.s = (char *)\"%s\"; a.typetag = 's'; " % txt
        b16 = "char b[16]; memcpy(b, &raw, 8); memcpy(b + 8, &raw, 8); "
        for half in (0, 1):
            ref = "uint64_t o = raw; unsigned char *p = (unsigned char *)&o; "
            for k in range(8):
                if half * 8 + k < padded:
                    ref += "p[%d] = %d; " % (k, img[half * 8 + k])
            s.pair(ns, "%s text of length %d, bytes %d-%d" % (ns, n, half * 8, half * 8 + 7), "text, NUL, zero padding to 4, nothing more", "uint64_t", "uint64_t junk, uint64_t raw",
                   b16 + st + "%s(b, 16, &a); uint64_t o; memcpy(&o, b + %d, 8); return o;" % (ns, half * 8), ref + "return o;")
        s.pair(ns, "%s text of length %d, exact fit" % (ns, n), "%d bytes are enough" % padded, "uint64_t", "uint64_t junk, uint64_t raw",
               b16 + st + "return %s(b, %d, &a);" % (ns, padded), "return %d;" % padded)
        s.pair(ns, "%s text of length %d, short buffer" % (ns, n), "a shorter buffer is left alone", "uint64_t", "uint64_t junk, uint64_t raw",
               b16 + st + "size_t r = %s(b, %d, &a); uint64_t o; memcpy(&o, b, 8); return o ^ (uint64_t)r;" % (ns, padded - 1), "return raw;")
        for fn, call in ((ns, "%s(0, 0, &a)" % ns), ("osc_atom_u_getSerializedSize", "osc_atom_u_getSerializedSize(&a)"), ("osc_sizeof", "osc_sizeof('s', a.w.s)"),
                         ("osc_util_getPaddedStringLen", "osc_util_getPaddedStringLen(a.w.s)")):
            s.pair(fn, "%s text of length %d" % (call, n), "reports the padded size", "uint64_t", "uint64_t junk", st + "return %s;" % call, "return %d;" % padded)
    # blobs: 4-byte big-endian length, data, zero padding; any length by residue
    for n in range(0, 9):
        tot = 4 + (n + 3) // 4 * 4
        st = pre + "uint64_t w0 = %dull << 24 | v << 32, w1 = v >> 32; unsigned char src[16]; memcpy(src, &w0, 8); memcpy(src + 8, &w1, 8); a.w.b = (char *)src; a.typetag = 'b'; " % n
        for half in (0, 1):
            ref = "uint64_t o = raw; unsigned char *p = (unsigned char *)&o; unsigned char *q = (unsigned char *)&v; "
            for k in range(8):
                at = half * 8 + k
                if at < 3:
                    ref += "p[%d] = 0; " % k
                elif at == 3:
                    ref += "p[%d] = %d; " % (k, n)
                elif at < 4 + n:
                    ref += "p[%d] = q[%d]; " % (k, at - 4)
                elif at < tot:
                    ref += "p[%d] = 0; " % k
            s.pair(ns, "%s blob of length %d, bytes %d-%d" % (ns, n, half * 8, half * 8 + 7), "length, data, zero padding to 4, nothing more", "uint64_t",
                   "uint64_t junk, uint64_t raw, uint64_t v", buf + st + "%s(b, 16, &a); uint64_t o; memcpy(&o, b + %d, 8); return o;" % (ns, half * 8), ref + "return o;")
        s.pair(ns, "%s blob of length %d, short buffer" % (ns, n), "a shorter buffer is left alone", "uint64_t", "uint64_t junk, uint64_t raw, uint64_t v",
               buf + st + "size_t r = %s(b, %d, &a); uint64_t o; memcpy(&o, b, 8); return o ^ (uint64_t)r;" % (ns, tot - 1), "return raw;")
        for fn, call in ((ns, "%s(0, 0, &a)" % ns), (ns, "%s(b, 16, &a)" % ns), ("osc_sizeof", "osc_sizeof('b', (char *)src)")):
            s.pair(fn, "%s blob of length %d" % (call, n), "reports the padded size with its length word", "uint64_t", "uint64_t junk, uint64_t raw, uint64_t v",
                   buf + st + "return %s;" % call, "return %d;" % tot)
    for r in range(4):
        k = "(uint64_t)(k & 0xffffff) * 4 + %d" % r
        s.pair("osc_util_getPaddingForNBytes", "osc_util_getPaddingForNBytes n = 4k+%d" % r, "smallest multiple of four that also holds a terminator", "uint64_t", "uint32_t k",
               "return osc_util_getPaddingForNBytes(%s);" % k, "return (uint64_t)(k & 0xffffff) * 4 + 4;")
        s.pair("osc_util_getBlobLength", "osc_util_getBlobLength n = 4k+%d" % r, "length word plus data rounded up to four", "uint64_t", "uint32_t k",
               "return osc_util_getBlobLength(%s);" % k, "return (uint64_t)(k & 0xffffff) * 4 + %d;" % (4 if r == 0 else 8))
    # nested bundles: 4-byte big-endian size, then the bundle
    for part in range(2):
        st = "struct _osc_atom_u a; memset(&a, 0, sizeof a); a.w.H = junk; a.typetag = '.'; "
        b24 = "char b[24]; memset(b, 0, 24); "
    s.pair(ns, "%s nested bundle size word" % ns, "a big-endian size precedes the bundle", "uint32_t", "uint64_t junk",
           st + b24 + "%s(b, 20, &a); uint32_t o; memcpy(&o, b, 4); return o;" % ns, "return be32(16);")
    s.pair(ns, "%s nested bundle body" % ns, "the bundle follows its size", "uint64_t", "uint64_t junk",
           st + b24 + "%s(b, 20, &a); uint64_t o, p; memcpy(&o, b + 4, 8); memcpy(&p, b + 12, 8); return o ^ (p << 1);" % ns,
           "return 0x5a5a5a5a5a5a5a5aull ^ (0x5a5a5a5a5a5a5a5aull << 1);")
    s.pair(ns, "%s nested bundle returned size" % ns, "size word plus bundle", "uint64_t", "uint64_t junk",
           st + b24 + "return %s(b, 24, &a) * 100 + %s(0, 0, &a);" % (ns, ns), "return 2020;")
    for n in (4, 8, 12, 19):
        s.pair(ns, "%s nested bundle, %d-byte buffer" % (ns, n), "a buffer too small for the bundle is left alone and 0 is returned", "uint64_t", "uint64_t junk",
               st + b24 + "size_t r = %s(b, %d, &a); uint64_t o, p, q; memcpy(&o, b, 8); memcpy(&p, b + 8, 8); memcpy(&q, b + 16, 8); return o | p | q | r;" % (ns, n), "return 0;")
    s.pair("osc_sizeof", "osc_sizeof nested bundle", "size word plus the size it announces", "uint64_t", "uint64_t raw",
           "char b[8]; memcpy(b, &raw, 8); return osc_sizeof('.', b) & 0xffffffffu;", "return (uint32_t)(be32(raw) + 4);")
    nf.decide(c, s, 310)
