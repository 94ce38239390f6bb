"""C07: a message's argument list: every sequence of append, prepend, insert, remove and clear leaves exactly the arguments, in order."""
import itertools
import nf
from specs import *

NAME = {t: nm for t, (nm, ct) in API.items()}
CT = {t: ct for t, (nm, ct) in API.items()}
INC = '''
#include "osc_message_u.h"
#include "osc_message_u.r"
#include "osc_message_iterator_u.h"
#include "osc_atom_array_u.h"
#include "osc_array.h"
#include "osc_error.h"
'''
OBS = r'''
/* everything the public interface shows of an argument list, forwards and backwards */
INL void M_seen(t_osc_msg_u *m, int32_t *out){
  int n = 0;
  out[n++] = osc_message_u_getArgCount(m);
  t_osc_msg_it_u *it = osc_msg_it_u_get(m);
  while(osc_msg_it_u_hasNext(it)) out[n++] = osc_atom_u_getInt32(osc_msg_it_u_next(it));
  osc_msg_it_u_destroy(it);
  out[n++] = -7;
  for(int i = 0; i < osc_message_u_getArgCount(m); i++) out[n++] = osc_atom_u_getInt32(osc_message_u_getArg(m, i));
  out[n++] = osc_message_u_getArg(m, osc_message_u_getArgCount(m)) == 0;
}
'''


def seen(vals):
    o = ["%d" % len(vals)] + list(vals) + ["-7"] + list(vals) + ["1"]
    return "".join("out[%d] = %s; " % (i, v) for i, v in enumerate(o)) + "return 0;"


def run(c):
    s = nf.Spec(PRE + INC + LIBC_MODELS + HEAP + OBS)
    s.opaque += HEAP_OPAQUE + [("osc_bundle_u_free", "e"), ("osc_bundle_u_alloc", "e"), ("osc_bundle_u_copy", "e"), ("osc_bundle_s_deserialize", "e")]
    P = "int32_t x0, int32_t x1, int32_t x2, int32_t x3, int32_t *out"
    # sequences of operations on caller-made arguments; o = operation, model list of names alongside
    def ops(n):
        yield ("append",)
        yield ("prepend",)
        for p in range(n + 2):
            yield ("insert", p)
        for p in range(n):
            yield ("remove", p)
            yield ("move", p)      # remove, then append again
            yield ("moveins", p)   # remove, then insert at the end
        yield ("clear",)

    def apply(seq):
        code, model, k, dead = [], [], 0, []
        for o in seq:
            if o[0] in ("append", "prepend", "insert"):
                if k > 3:
                    return None
                v = "x%d" % k
                code.append("t_osc_atom_u *a%d = osc_atom_u_alloc(); osc_atom_u_setInt32(a%d, %s);" % (k, k, v))
                if o[0] == "append":
                    code.append("osc_message_u_appendAtom(m, a%d);" % k); model.append(v)
                elif o[0] == "prepend":
                    code.append("osc_message_u_prependAtom(m, a%d);" % k); model.insert(0, v)
                else:
                    code.append("osc_message_u_insertAtom(m, a%d, %d);" % (k, o[1])); model.insert(min(o[1], len(model)), v)
                k += 1
            elif o[0] in ("remove", "move", "moveins"):
                v = model.pop(o[1])
                a = "a" + v[1:]
                code.append("osc_message_u_removeAtom(m, %s);" % a)
                if o[0] == "remove":
                    dead.append(a)
                elif o[0] == "move":
                    code.append("osc_message_u_appendAtom(m, %s);" % a); model.append(v)
                else:
                    code.append("osc_message_u_insertAtom(m, %s, 9);" % a); model.append(v)
            else:
                code.append("osc_message_u_clearArgs(m);"); model = []
        return code, model, dead

    names = {"append": "osc_message_u_appendAtom", "prepend": "osc_message_u_prependAtom", "insert": "osc_message_u_insertAtom",
             "remove": "osc_message_u_removeAtom", "move": "osc_message_u_removeAtom", "moveins": "osc_message_u_insertAtom", "clear": "osc_message_u_clearArgs"}
    seqs = []
    for n in range(0, 4):
        base = [("append",)] * n
        for o in ops(n):
            seqs.append(base + [o])
            m2 = apply(base + [o])
            if m2:
                k = len(m2[1])
                for o2 in ([("append",), ("prepend",), ("insert", 1)] + ([("remove", 0), ("remove", k - 1)] if k else [])):
                    if apply(base + [o, o2]) and n < 3:
                        seqs.append(base + [o, o2])
    for sq in seqs:
        r = apply(sq)
        if not r:
            continue
        code, model, dead = r
        key = " ".join("%s%s" % (o[0], "@%d" % o[1] if len(o) > 1 else "") for o in sq)
        s.hpair(names[sq[-1][0]], key, "the list holds exactly the arguments in order, forwards and by index, and everything is released", "int", P,
                "t_osc_msg_u *m = osc_message_u_alloc(); " + " ".join(code) + " M_seen(m, out); " +
                "".join("osc_atom_u_free(%s); " % a for a in dead) + "osc_message_u_free(m); return M_live;", seen(model))
    # typed wrappers: the argument carries the value and type, and sits where asked
    for t in "cuihCUIHfd":
        for w, pos in (("append", 1), ("prepend", 0), ("insert", 1)):
            fn = "osc_message_u_%s%s" % (w, NAME[t])
            at = {"append": "", "prepend": "", "insert": ", 1"}[w]
            after = "osc_message_u_appendNil(m); osc_message_u_appendNil(m); "
            n = {"append": 2, "prepend": 0, "insert": 1}[w]
            s.hpair(fn, fn, "the new argument has the given value and type at the asked position, and is returned", CT[t], "%s v" % CT[t],
                    "t_osc_msg_u *m = osc_message_u_alloc(); %st_osc_atom_u *a = %s(m, v%s); %s r = osc_atom_u_get%s(a); int bad = osc_message_u_getArgCount(m) != 3 || osc_message_u_getArg(m, %d) != a || osc_atom_u_getTypetag(a) != '%s'; "
                    "osc_message_u_free(m); if(bad || M_live) return 77; return r;" % (after, fn, at, CT[t], NAME[t], n, t), "return v;")
    for w in ("append", "prepend", "insert"):
        at = ", 1" if w == "insert" else ""
        n = {"append": 2, "prepend": 0, "insert": 1}[w]
        def wrap(fn, call, tag, par="int v", extra=""):
            s.hpair(fn, fn + extra, "the new argument has the given type at the asked position, and is returned", "int", par,
                    "t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_appendInt32(m, 1); osc_message_u_appendInt32(m, 2); t_osc_atom_u *a = %s; int bad = osc_message_u_getArgCount(m) != 3 || osc_message_u_getArg(m, %d) != a; int t = osc_atom_u_getTypetag(a); "
                    "osc_message_u_free(m); if(bad) return 77; return t + 1000 * M_live;" % (call, n), "return %s;" % tag)
        p = "osc_message_u_" + w
        wrap(p + "Bool", p + "Bool(m, v%s)" % at, "v ? 'T' : 'F'")
        wrap(p + "True", p + "True(m%s)" % at, "'T'")
        wrap(p + "False", p + "False(m%s)" % at, "'F'")
        wrap(p + "Nil", p + "Nil(m%s)" % at, "'N'")
        s.hpair(p + "Timetag", p + "Timetag", "the timetag is carried", "uint64_t", "uint32_t sec, uint32_t frac",
                "t_osc_msg_u *m = osc_message_u_alloc(); t_osc_timetag t; t.sec = sec; t.frac_sec = frac; t_osc_atom_u *a = %sTimetag(m, t%s); t_osc_timetag r = osc_atom_u_getTimetag(a); int bad = osc_message_u_getArg(m, 0) != a || osc_message_u_getArgCount(m) != 1; osc_message_u_free(m); "
                "if(bad || M_live) return 77; return ((uint64_t)r.sec << 32) | r.frac_sec;" % (p, ", 0" if w == "insert" else ""), "return ((uint64_t)sec << 32) | frac;")
        for k in (0, 1, 3, 4):
            chars = "".join("t[%d] = 1 | (v >> %d); " % (i, 8 * i) for i in range(k))
            s.hpair(p + "String", p + "String of %d" % k, "the text is copied, and released with the message", "uint32_t", "uint32_t v",
                    "char t[8]; memset(t, 0, 8); %st_osc_msg_u *m = osc_message_u_alloc(); t_osc_atom_u *a = %sString(m, t%s); char *q = osc_atom_u_getStringPtr(a); uint32_t r = 0; int bad = q == t || osc_atom_u_getTypetag(a) != 's'; for(int i = 0; i < %d; i++) r = (r << 8) | (uint8_t)q[i]; bad |= q[%d] != 0; "
                    "osc_message_u_free(m); if(bad || M_live) return 77; return r;" % (chars, p, ", 0" if w == "insert" else "", k, k),
                    "uint32_t r = 0; " + "".join("r = (r << 8) | (uint8_t)(1 | (v >> %d)); " % (8 * i) for i in range(k)) + "return r;")
        s.hpair(p + "StringPtr", p + "StringPtr", "the given text itself is referenced, not a copy of it", "int", "uint16_t v",
                "char *t = M_alloc(3); t[0] = 1 | v; t[1] = 1 | (v >> 8); t[2] = 0; t_osc_msg_u *m = osc_message_u_alloc(); t_osc_atom_u *a = %sStringPtr(m, t%s); int r = osc_atom_u_getStringPtr(a) == t; osc_message_u_removeAtom(m, a); osc_message_u_free(m); return r;" % (p, ", 0" if w == "insert" else ""),
                "return 1;")
    # addresses
    for old in (None, 1, 3, 5):
        for new in (None, 1, 2, 5):
            if new is None:
                want = "return 1;"
                obs = "q == 0"
            else:
                want = "return 1;"
                obs = "q && q != t && " + " && ".join("q[%d] == t[%d]" % (i, i) for i in range(new + 1))
            chars = lambda nm, k: "" if k is None else "char %s[8]; memset(%s, 0, 8); %s[0] = '/'; " % (nm, nm, nm) + "".join("%s[%d] = 1 | (%s >> %d); " % (nm, i, "v" if nm == "t" else "~v", 7 * i) for i in range(1, k))
            s.hpair("osc_message_u_setAddress", "address of %s replaced by %s" % (old, new), "the message carries exactly the new address in its own storage and nothing leaks", "int", "uint64_t v",
                    "t_osc_msg_u *m = osc_message_u_alloc(); " + chars("o", old) + chars("t", new) + ("osc_message_u_setAddress(m, o); " if old else "") + "int e = osc_message_u_setAddress(m, %s); char *q = osc_message_u_getAddress(m); int r = !e && %s; osc_message_u_free(m); return r + 1000 * M_live;" % ("t" if new else "0", obs), want)
    s.hpair("osc_message_u_setAddress", "address without slash", "rejected; the old address stays", "int", "char v, char w",
            "if(v == '/') return 1; char t[3] = {v, w, 0}, o[3] = {'/', 'a', 0}; t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_setAddress(m, o); int e = osc_message_u_setAddress(m, t); char *q = osc_message_u_getAddress(m); int r = e == OSC_ERR_MALFORMEDADDRESS && q[0] == '/' && q[1] == 'a' && q[2] == 0; osc_message_u_free(m); return r + 1000 * M_live;", "return 1;")
    # copies
    for n in range(0, 4):
        mk = "t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_setAddress(m, \"/ab\"); int32_t xs[3] = {x0, x1, x2}; for(int i = 0; i < %d; i++) osc_message_u_appendInt32(m, xs[i]); " % n
        vals = ["x%d" % i for i in range(n)]
        s.hpair("osc_message_u_deepCopy", "deep copy of %d arguments" % n, "same address and arguments in storage of its own", "int", P,
                mk + "t_osc_msg_u *k = 0; int e = osc_message_u_deepCopy(&k, m); char *q = osc_message_u_getAddress(k); int bad = e || q == osc_message_u_getAddress(m) || q[0] != '/' || q[1] != 'a' || q[2] != 'b' || q[3]; osc_message_u_free(m); M_seen(k, out); osc_message_u_free(k); return bad + M_live;",
                seen(vals))
        s.hpair("osc_message_u_getArgArrayCopy", "argument array of %d arguments" % n, "the array holds copies of all arguments in order", "int", P,
                mk + "t_osc_atom_ar_u *r = osc_message_u_getArgArrayCopy(m); osc_message_u_free(m); out[0] = osc_atom_array_u_getLen(r); for(int i = 0; i < %d; i++) out[1 + i] = osc_atom_u_getInt32(osc_atom_array_u_get(r, i)); osc_atom_array_u_free(r); return M_live;" % n,
                "out[0] = %d; " % n + "".join("out[%d] = %s; " % (i + 1, v) for i, v in enumerate(vals)) + "return 0;")
        s.hpair("osc_message_u_setArgArrayCopy", "arguments appended from an array of %d" % n, "copies of all elements are appended in order", "int", P,
                "t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_appendInt32(m, x3); int32_t xs[3] = {x0, x1, x2}; t_osc_atom_ar_u *r = osc_atom_array_u_alloc(%d); for(int i = 0; i < %d; i++) osc_atom_u_setInt32(osc_atom_array_u_get(r, i), xs[i]); int e = osc_message_u_setArgArrayCopy(m, r); osc_atom_array_u_free(r); M_seen(m, out); osc_message_u_free(m); return e + M_live;" % (n, n),
                seen(["x3"] + vals))
    for fn, arg, get, ct, tag in (("Float", "v", "Float", "float", "f"), ("Double", "v", "Double", "double", "d"), ("Int", "v", "Int32", "int32_t", "i")):
        f = "osc_message_u_allocWith" + fn
        s.hpair(f, f, "a message with that address and the one argument", ct, ct + " v",
                "t_osc_msg_u *m = %s(\"/a\", v); char *q = osc_message_u_getAddress(m); t_osc_atom_u *a = osc_message_u_getArg(m, 0); int bad = osc_message_u_getArgCount(m) != 1 || osc_atom_u_getTypetag(a) != '%s' || q[0] != '/' || q[1] != 'a' || q[2]; %s r = osc_atom_u_get%s(a); osc_message_u_free(m); if(bad || M_live) return 77; return r;" % (f, tag, ct, get), "return v;")
    # absent message
    s.hpair("osc_message_u_getArgCount", "absent message", "no arguments, no address", "int", "int n",
            "osc_message_u_free(0); osc_message_u_clearArgs(0); osc_message_u_removeAtom(0, 0); osc_message_u_initMsg(0); return osc_message_u_getArgCount(0) + (osc_message_u_getArg(0, n) != 0) + (osc_message_u_getAddress(0) != 0) + (osc_message_u_setAddress(0, \"/a\") == 0) + osc_message_u_getSize(0) + M_live;", "return 0;")
    nf.decide(c, s, 200)
