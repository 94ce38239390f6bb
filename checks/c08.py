"""C08: an argument (and an array of arguments) owns the text, blob or bundle stored in it: released exactly once, never shared by a copy."""
import nf
from specs import *

NAME = {t: nm for t, (nm, ct) in API.items()}
CT = {t: ct for t, (nm, ct) in API.items()}
INC = '''
#include "osc_atom_array_u.h"
#include "osc_array.h"
#include "osc_array.r"
#include "osc_error.h"
#include "osc_bundle_u.h"
'''
MODEL = r'''
/* a nested bundle stands for one block of its own */
void *M_bnew(char v){ char *b = M_alloc(8); b[0] = v; return b; }
void M_bfree(void *b){ M_free(b); }
t_osc_err M_bcopy(void **d, char *s){ *d = M_bnew(s[0]); return 0; }
INL char *M_text(const char *t, int n){ char *p = M_alloc(n + 1); for(int i = 0; i <= n; i++) p[i] = t[i]; return p; }
'''
# kind -> (store into a from the three bytes of t, does it read back)
K = {
    "int": ("osc_atom_u_setInt32(a, t[0]);", "osc_atom_u_getTypetag(a) == 'i' && osc_atom_u_getInt32(a) == t[0]"),
    "double": ("osc_atom_u_setDouble(a, t[0]);", "osc_atom_u_getTypetag(a) == 'd' && osc_atom_u_getDouble(a) == t[0]"),
    "bool": ("osc_atom_u_setBool(a, t[0] - 1);", "osc_atom_u_getTypetag(a) == (t[0] - 1 ? 'T' : 'F')"),
    "nil": ("osc_atom_u_setNil(a);", "osc_atom_u_getTypetag(a) == 'N'"),
    "timetag": ("{ t_osc_timetag g; g.sec = t[0]; g.frac_sec = t[1]; osc_atom_u_setTimetag(a, g); }", "osc_atom_u_getTypetag(a) == 't' && osc_atom_u_getTimetag(a).sec == t[0] && osc_atom_u_getTimetag(a).frac_sec == t[1]"),
    "text": ("osc_atom_u_setString(a, (char *)t);", "osc_atom_u_getTypetag(a) == 's' && osc_atom_u_getStringPtr(a) != (char *)t && M_same(osc_atom_u_getStringPtr(a), t, 4)"),
    "owned text": ("osc_atom_u_setStringPtr(a, M_text((char *)t, 3)); osc_atom_u_setShouldFreePtr(a, 1);", "osc_atom_u_getTypetag(a) == 's' && M_same(osc_atom_u_getStringPtr(a), t, 4)"),
    "blob": ("{ uint8_t b[8] = {0, 0, 0, 4, t[0], t[1], t[2], 9}; osc_atom_u_setBlob(a, (char *)b); }", "osc_atom_u_getTypetag(a) == 'b' && osc_atom_u_getBlobLen(a) == 4 && M_same(osc_atom_u_getBlob(a), bb, 8)"),
    "bundle": ("osc_atom_u_setBndl_u(a, M_bnew(t[0]));", "osc_atom_u_getTypetag(a) == '.' && *(uint8_t *)osc_atom_u_getBndl(a) == t[0]"),
}
SAME = "INL int M_same(const void *x, const void *y, int n){ const char *p = x, *q = y; for(int i = 0; i < n; i++) if(p[i] != q[i]) return 0; return 1; }\n"
T = "uint8_t t[4] = {1 | v, 1 | (v >> 8), 1 | (v >> 16), 0}, bb[8] = {0, 0, 0, 4, t[0], t[1], t[2], 9}; "
U = "uint8_t u[4] = {1 | w, 1 | (w >> 8), 1 | (w >> 16), 0}; "


def run(c):
    s = nf.Spec(PRE + INC + LIBC_MODELS + HEAP + MODEL + SAME)
    s.opaque += HEAP_OPAQUE + [("osc_bundle_u_free", "model:M_bfree"), ("osc_bundle_u_copy", "model:M_bcopy"), ("osc_bundle_s_deserialize", "e")]
    P = "uint32_t v, uint32_t w"
    setter = {"int": "Int32", "double": "Double", "bool": "Bool", "nil": "Nil", "timetag": "Timetag", "text": "String", "owned text": "StringPtr", "blob": "Blob", "bundle": "Bndl_u"}
    for A, (sa, _) in K.items():
        s.hpair("osc_atom_u_free", "free holding " + A, "everything held is released once", "int", P, T + "t_osc_atom_u *a = osc_atom_u_alloc(); " + sa + " osc_atom_u_free(a); return M_live;", "return 0;")
        s.hpair("osc_atom_u_clear", "clear holding %s" % A, "everything held is released once", "int", P,
                T + "t_osc_atom_u *a = osc_atom_u_alloc(); " + sa + " osc_atom_u_clear(a); int k = M_live; osc_atom_u_clear(a); osc_atom_u_free(a); return (k - 1) * 10 + M_live;", "return 0;")
        for B, (sb, rb) in K.items():
            s.hpair("osc_atom_u_set" + setter[B], "%s replaced by %s" % (A, B), "the new value reads back, the old one is released, nothing leaks", "int", P,
                    U + "t_osc_atom_u *a = osc_atom_u_alloc(); " + sa.replace("t[", "u[").replace(")t", ")u") + T + sb + " int ok = " + rb + "; osc_atom_u_free(a); return ok + 10 * M_live;", "return 1;")
        rb = K[A][1]
        s.hpair("osc_atom_u_copy", "copy of %s outlives its source" % A, "the copy reads the same after the source is gone; both release their own storage", "int", P,
                T + "t_osc_atom_u *o = osc_atom_u_alloc(), *a = o; " + sa + " a = osc_atom_u_copy(o); osc_atom_u_free(o); int ok = " + rb + "; osc_atom_u_free(a); return ok + 10 * M_live;", "return 1;")
        s.hpair("osc_atom_u_copy", "copy of %s, copy changed" % A, "changing the copy leaves the source alone", "int", P,
                T + "t_osc_atom_u *a = osc_atom_u_alloc(); " + sa + " t_osc_atom_u *o = osc_atom_u_copy(a); osc_atom_u_setInt32(o, 3); int ok = " + rb + "; osc_atom_u_free(a); osc_atom_u_free(o); return ok + 10 * M_live;", "return 1;")
        # arrays
        for i in (0, 1):
            mk = T + "t_osc_atom_ar_u *r = osc_atom_array_u_alloc(2); t_osc_atom_u *a = osc_atom_array_u_get(r, %d); " % i + sa
            s.hpair("osc_atom_array_u_free", "array of 2 with %s at %d" % (A, i), "freeing the array releases what its elements hold", "int", P, mk + " osc_atom_array_u_free(r); return M_live;", "return 0;")
            s.hpair("osc_atom_array_u_copy", "copy of an array of 2 with %s at %d" % (A, i), "the copy reads the same after the source is gone", "int", P,
                    mk + " t_osc_atom_ar_u *q = osc_atom_array_u_copy(r); osc_atom_array_u_free(r); a = osc_atom_array_u_get(q, %d); int ok = osc_atom_array_u_getLen(q) == 2 && %s; osc_atom_array_u_free(q); return ok + 10 * M_live;" % (i, rb), "return 1;")
            for have, off in ((None, 0), (None, 1), (1, 0), (3, 0), (1, 1), (3, 1), (5, 2)):
                d = "t_osc_atom_ar_u *q = %s; " % ("0" if have is None else "osc_atom_array_u_alloc(%d)" % have)
                n = max(have or 0, 2 + off)
                s.hpair("osc_atom_array_u_copyInto", "array of 2 with %s at %d copied into %s at offset %d" % (A, i, "nothing" if have is None else "an array of %d" % have, off), "the destination grows as needed and holds copies from the offset on", "int", P,
                        mk + d + "int e = osc_atom_array_u_copyInto(&q, r, %d); osc_atom_array_u_free(r); a = osc_atom_array_u_get(q, %d); int ok = !e && osc_atom_array_u_getLen(q) == %d && %s; osc_atom_array_u_free(q); return ok + 10 * M_live;" % (off, i + off, n, rb), "return 1;")
    s.hpair("osc_atom_u_setString", "text stored over itself", "storing an argument's own text keeps it", "int", P,
            T + "t_osc_atom_u *a = osc_atom_u_alloc(); " + K["text"][0] + " osc_atom_u_setString(a, osc_atom_u_getStringPtr(a)); int ok = " + K["text"][1] + "; osc_atom_u_free(a); return ok + 10 * M_live;", "return 1;")
    s.hpair("osc_atom_u_setBndl_u", "bundle stored over itself", "storing an argument's own bundle keeps it", "int", P,
            T + "t_osc_atom_u *a = osc_atom_u_alloc(); " + K["bundle"][0] + " osc_atom_u_setBndl_u(a, osc_atom_u_getBndl(a)); int ok = " + K["bundle"][1] + "; osc_atom_u_free(a); return ok + 10 * M_live;", "return 1;")
    for A in ("text", "owned text", "blob", "bundle", "int"):
        s.hpair("osc_atom_u_setString", "absent text over %s" % A, "what was held is released", "int", P, T + "t_osc_atom_u *a = osc_atom_u_alloc(); " + K[A][0] + " osc_atom_u_setString(a, 0); osc_atom_u_free(a); return M_live;", "return 0;")
    # texts and blobs of every length residue
    for n in range(0, 9):
        ch = "uint8_t t[16]; memset(t, 0, 16); for(int i = 0; i < %d; i++) t[i] = 1 | (v >> (7 * i)); " % n
        s.hpair("osc_atom_u_setString", "text of %d" % n, "copied with its terminator, nothing beyond it", "int", "uint64_t v", ch + "t_osc_atom_u *a = osc_atom_u_alloc(); osc_atom_u_setString(a, (char *)t); t_osc_atom_u *k = osc_atom_u_copy(a); int ok = M_same(osc_atom_u_getStringPtr(a), t, %d) && M_same(osc_atom_u_getStringPtr(k), t, %d) && osc_atom_u_getStringLen(a) == %d; osc_atom_u_free(a); osc_atom_u_free(k); return ok + 10 * M_live;" % (n + 1, n + 1, n), "return 1;")
        s.hpair("osc_atom_u_setBlob", "blob of %d" % n, "copied whole, nothing beyond it", "int", "uint64_t v", "uint8_t t[12] = {0, 0, 0, %d}; for(int i = 0; i < %d; i++) t[4 + i] = v >> (7 * i); t_osc_atom_u *a = osc_atom_u_alloc(); osc_atom_u_setBlob(a, (char *)t); t_osc_atom_u *k = osc_atom_u_copy(a); int ok = M_same(osc_atom_u_getBlob(a), t, %d) && M_same(osc_atom_u_getBlob(k), t, %d) && osc_atom_u_getBlobLen(a) == %d; osc_atom_u_free(a); osc_atom_u_free(k); return ok + 10 * M_live;" % (n, n, n + 4, n + 4, n), "return 1;")
        s.hpair("osc_atom_u_getString", "text of %d copied out" % n, "a fresh buffer gets the text and terminator", "int", "uint64_t v", ch + "t_osc_atom_u *a = osc_atom_u_alloc(); osc_atom_u_setString(a, (char *)t); char *o = 0; int l = osc_atom_u_getString(a, 0, &o); int ok = l == %d && o != osc_atom_u_getStringPtr(a) && M_same(o, t, %d); osc_atom_u_free(a); M_free(o); return ok + 10 * M_live;" % (n, n + 1), "return 1;")
    # generic arrays
    for n in (0, 1, 3):
        s.hpair("osc_array_allocWithSize", "array of %d" % n, "fresh elements are zero; indices outside are absent", "int", "int k",
                "t_osc_array *r = osc_array_allocWithSize(%d, 8); int bad = osc_array_getLen(r) != %d || osc_array_get(r, %d) != 0; for(int i = 0; i < %d; i++) bad |= *(uint64_t *)osc_array_get(r, i) != 0; osc_array_free(r); return bad + 10 * M_live;" % (n, n, n, n), "return 0;")
        s.hpair("osc_array_get", "index beyond an array of %d" % n, "absent", "int", "uint32_t k", "t_osc_array *r = osc_array_allocWithSize(%d, 8); int ok = osc_array_get(r, (long)k + %d) == 0; osc_array_free(r); return ok;" % (n, n), "return 1;")
        for m in (1, 2, 3, 5):
            keep = min(n, m)
            s.hpair("osc_array_resize", "array of %d resized to %d" % (n, m), "kept elements survive, new ones are zero, the length is the new one", "int", "uint64_t v",
                    "t_osc_array *r = osc_array_allocWithSize(%d, 8); for(int i = 0; i < %d; i++) *(uint64_t *)osc_array_get(r, i) = v + i; int bad = osc_array_resize(r, %d) || osc_array_getLen(r) != %d; for(int i = 0; i < %d; i++) bad |= *(uint64_t *)osc_array_get(r, i) != (i < %d ? v + i : 0); osc_array_free(r); return bad + 10 * M_live;" % (n, n, m, m, m, keep), "return 0;")
        if n:
            for have, off in ((None, 0), (None, 2), (1, 0), (4, 0), (2, 1), (6, 2)):
                tot = max(have or 0, n + off)
                s.hpair("osc_array_copyInto", "array of %d copied into %s at %d" % (n, have, off), "the destination grows as needed; the elements land at the offset, others stay", "int", "uint64_t v",
                        "t_osc_array *r = osc_array_allocWithSize(%d, 8), *q = %s; for(int i = 0; i < %d; i++) *(uint64_t *)osc_array_get(r, i) = v + i; for(int i = 0; i < osc_array_getLen(q); i++) *(uint64_t *)osc_array_get(q, i) = ~v + i; int bad = osc_array_copyInto(&q, r, %d) || osc_array_getLen(q) != %d; for(int i = 0; i < %d; i++) bad |= *(uint64_t *)osc_array_get(q, i) != (i >= %d && i < %d ? v + (i - %d) : i < %d ? ~v + i : 0); osc_array_free(r); osc_array_free(q); return bad + 10 * M_live;"
                        % (n, "0" if have is None else "osc_array_allocWithSize(%d, 8)" % have, n, off, tot, tot, off, off + n, off, have or 0), "return 0;")
            s.hpair("osc_array_copy", "copy of an array of %d" % n, "equal contents in storage of its own", "int", "uint64_t v",
                    "t_osc_array *r = osc_array_allocWithSize(%d, 8); for(int i = 0; i < %d; i++) *(uint64_t *)osc_array_get(r, i) = v + i; t_osc_array *q = osc_array_copy(r); osc_array_clear(r); int bad = osc_array_getLen(q) != %d; for(int i = 0; i < %d; i++) bad |= *(uint64_t *)osc_array_get(q, i) != v + i || *(uint64_t *)osc_array_get(r, i) != 0; osc_array_free(r); osc_array_free(q); return bad + 10 * M_live;" % (n, n, n, n), "return 0;")
    # typed arrays
    for t in ("d", "f", "i", "h", "I", "H"):
        fn = "osc_atom_array_u_get%sArray" % NAME[t]
        for src in ("i", "d", "H"):
            for given in (0, 1):
                s.hpair(fn, "%s of '%s' elements%s" % (fn, src, " into a given buffer" if given else ""), "element by element the typed reading", "int", "%s x, %s y, %s *out" % (CT[src], CT[src], CT[t]),
                        "t_osc_atom_ar_u *r = osc_atom_array_u_alloc(2); osc_atom_u_set%s(osc_atom_array_u_get(r, 0), x); osc_atom_u_set%s(osc_atom_array_u_get(r, 1), y); %s *o = %s; int e = %s(r, &o); osc_atom_array_u_free(r); %s return e + 10 * M_live;" %
                        (NAME[src], NAME[src], CT[t] + (" g[2]," if given else ""), "g" if given else "0", fn, "out[0] = o[0]; out[1] = o[1];" + ("" if given else " M_free(o);")), "out[0] = %s; out[1] = %s; return 0;" % (conv(NAME[t], "x"), conv(NAME[t], "y")))
    for sep in (None, "", " ", ", "):
        for lens in ((), (0,), (2,), (1, 2), (2, 0, 1)):
            k = 0
            mk = "t_osc_atom_ar_u *r = osc_atom_array_u_alloc(%d); " % len(lens)
            want = []
            for i, l in enumerate(lens):
                mk += "char s%d[4] = {0}; " % i
                for j in range(l):
                    mk += "s%d[%d] = 1 | (v >> %d); " % (i, j, 8 * k)
                    want.append("(char)(1 | (v >> %d))" % (8 * k)); k += 1
                mk += "osc_atom_u_setString(osc_atom_array_u_get(r, %d), s%d); " % (i, i)
                want += ["'%s'" % ch for ch in (sep or "")]
            want.append("0")
            for given in (None, 1, 3, 6):
                o = "0" if given is None else "M_alloc(%d)" % given
                chk = " && ".join("o[%d] == %s" % x for x in enumerate(want))
                s.hpair("osc_atom_array_u_getStringArray", "texts of %s joined with %r%s" % (list(lens), sep, "" if given is None else " in a buffer of %d" % given), "each text followed by the separator, terminated, within the buffer", "int", "uint64_t v",
                        mk + "char *o = %s; long n = %d; int e = osc_atom_array_u_getStringArray(r, &n, &o, %s); int ok = !e && n == %d && %s; M_free(o); osc_atom_array_u_free(r); return ok + 10 * M_live;" % (o, given or 0, "0" if sep is None else '"%s"' % sep, len(want), chk), "return 1;")
    nf.decide(c, s, 300)
