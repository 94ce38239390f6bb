"""C09: a bundle's message list: every sequence of add, replace, remove, copy-in and clear leaves exactly the messages, in order; lookups follow the matcher."""
import itertools
import nf
from specs import *

INC = '''
#include "osc_message_u.h"
#include "osc_message_u.r"
#include "osc_message_iterator_u.h"
#include "osc_bundle_u.h"
#include "osc_bundle_u.r"
#include "osc_bundle_iterator_u.h"
#include "osc_array.h"
#include "osc_match.h"
#include "osc_error.h"
'''
OBS = r'''
/* the matcher: the query carries the verdict (bits 0-1) and the offset (bit 2) for "/a" and for "/b" */
int M_match(const char *p, const char *a, int *po, int *ao){ int k = a[1] == 'a' ? p[1] : p[2]; *po = (k >> 2) & 1; *ao = 0; return k & 3; }
INL t_osc_msg_u *M_msg(const char *addr, int32_t v){ t_osc_msg_u *m = osc_message_u_alloc(); if(addr) osc_message_u_setAddress(m, addr); osc_message_u_appendInt32(m, v); return m; }
INL int32_t M_val(t_osc_msg_u *m){ return osc_message_u_getArgCount(m) == 1 ? osc_atom_u_getInt32(osc_message_u_getArg(m, 0)) : -9; }
INL int M_adr(t_osc_msg_u *m){ char *a = osc_message_u_getAddress(m); return a == 0 ? 0 : a[0] != '/' || a[1] == 0 || a[2] ? 1 : a[1]; }
INL void M_seen(t_osc_bndl_u *b, int32_t *out){
  int n = 0;
  out[n++] = osc_bundle_u_getMsgCount(b);
  t_osc_msg_u *f = osc_bundle_u_getFirstMsg(b);
  out[n++] = f ? M_val(f) : -8;
  t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
  while(osc_bndl_it_u_hasNext(it)){ t_osc_msg_u *m = osc_bndl_it_u_next(it); out[n++] = M_adr(m); out[n++] = M_val(m); }
  osc_bndl_it_u_destroy(it);
  out[n++] = -7;
}
'''


def seen(ms, ret="0"):
    o = ["%d" % len(ms), ms[0][1] if ms else "-8"]
    for a, v in ms:
        o += ["0" if a is None else "'%s'" % a, v]
    o += ["-7"]
    return "".join("out[%d] = %s; " % (i, v) for i, v in enumerate(o)) + "return %s;" % ret


def S(a):
    return "0" if a is None else '"/%s"' % a


FN = {"add": "osc_bundle_u_addMsg", "unique": "osc_bundle_u_addMsgWithoutDups", "replace": "osc_bundle_u_replaceMessage",
      "addcopy": "osc_bundle_u_addMsgCopy", "uniquecopy": "osc_bundle_u_addMsgWithoutDupsCopy", "list": "osc_bundle_u_addMsgList",
      "removemsg": "osc_bundle_u_removeMsg", "remove": "osc_bundle_u_removeMessage", "clear": "osc_bundle_u_clear", "array": "osc_bundle_u_addMsgArrayCopy"}


def apply(seq):
    """C code of the sequence and the list it must leave: [(address, value)]; None when it needs too many values."""
    code, ms, k, own = [], [], 0, []
    for o in seq:
        op = o[0]
        if op in ("add", "unique", "replace", "addcopy", "uniquecopy"):
            if k > 3:
                return None
            a, v, m = o[1], "x%d" % k, "m%d" % k
            code.append("t_osc_msg_u *%s = M_msg(%s, %s); %s(b, %s);" % (m, S(a), v, FN[op], m))
            if op.endswith("copy"):
                code.append("osc_message_u_free(%s);" % m)
                m = None
            if op.startswith("unique") and a is not None:
                ms = [x for x in ms if x[0] != a]
            hit = [i for i, x in enumerate(ms) if x[0] == a] if op == "replace" and a is not None else []
            if hit:
                ms[hit[0]] = (a, v, ms[hit[0]][2])
            else:
                ms.append((a, v, m))
            k += 1
        elif op == "list":
            vs = []
            for a in o[1]:
                if k > 3:
                    return None
                code.append("t_osc_msg_u *m%d = M_msg(%s, x%d);" % (k, S(a), k))
                if vs:
                    code.append("osc_message_u_append(%s, m%d);" % (vs[0][2], k))
                vs.append((a, "x%d" % k, "m%d" % k)); k += 1
            code.append("osc_bundle_u_addMsgList(b, %s);" % (vs[0][2] if vs else "0"))
            ms += vs
        elif op == "array":
            n = len(o[1])
            if k + n > 4:
                return None
            code.append("t_osc_msg_ar_u *r = osc_message_array_u_alloc(%d);" % n)
            for i, a in enumerate(o[1]):
                code.append("t_osc_msg_u *q%d = osc_message_array_u_get(r, %d); %s osc_message_u_appendInt32(q%d, x%d);" % (i, i, "osc_message_u_setAddress(q%d, %s);" % (i, S(a)) if a else "", i, k))
                ms.append((a, "x%d" % k, None)); k += 1
            code.append("osc_bundle_u_addMsgArrayCopy(b, r); osc_message_array_u_free(r);")
        elif op == "removemsg":
            a, v, m = ms.pop(o[1])
            if m is None:
                return None
            code.append("osc_bundle_u_removeMsg(b, %s); osc_message_u_free(%s);" % (m, m))
        elif op == "remove":
            code.append("osc_bundle_u_removeMessage(b, %s);" % S(o[1]))
            ms = [x for x in ms if x[0] != o[1]] if o[1] else ms
        else:
            code.append("osc_bundle_u_clear(b);")
            ms = []
    return code, [x[:2] for x in ms]


def run(c):
    s = nf.Spec(PRE + INC + LIBC_MODELS + HEAP + OBS)
    s.opaque += HEAP_OPAQUE + [("osc_match", "model:M_match"), ("osc_bundle_u_copy", "e"), ("osc_bundle_s_deserialize", "e"), ("osc_atom_u_free", "model:M_afree"), ("osc_atom_u_clear", "model:M_aclear")]
    s.prelude += "void M_afree(t_osc_atom_u *a){ M_free(a); }\nvoid M_aclear(t_osc_atom_u *a){}\n"   # only numbers are stored here
    P = "int32_t x0, int32_t x1, int32_t x2, int32_t x3, int32_t *out"
    seqs = []
    bases = [()] + [p for n in (1, 2) for p in itertools.product("ab", repeat=n)] + [("a", "b", "a"), ("b", "a", "a"), ("a", "a", "a"), (None, "a"), ("a", None), (None,)]
    for base in bases:
        pre = [("add", a) for a in base]
        n = len(base)
        ops = [("add", "a"), ("addcopy", "a"), ("list", ()), ("list", ("a",)), ("list", ("b", None)), ("clear",), ("remove", "a"), ("unique", "a"), ("unique", None), ("uniquecopy", "a"), ("replace", "a"), ("replace", None)] + [("removemsg", i) for i in range(n)]
        ops += [("remove", None)] if None in base else []
        ops += [("array", ("a",)), ("array", ("a", "b"))] if n < 2 else []
        for o in ops:
            seqs.append(pre + [o])
            if n < 3 and None not in base:
                for o2 in (("add", "b"), ("unique", "a"), ("remove", "a")):
                    if o[0] not in ("array", "addcopy", "uniquecopy"):
                        seqs.append(pre + [o, o2])
            if o[0] == "list" and o[1]:
                for i in range(n + len(o[1])):
                    seqs.append(pre + [o, ("removemsg", i)])
                    seqs.append(pre + [o, ("removemsg", i), ("add", "c")])
    done = set()
    for sq in seqs:
        key = " ".join("%s%s" % (o[0], "(%s)" % ",".join(str(x) for x in o[1:]) if len(o) > 1 else "") for o in sq)
        r = apply(sq)
        if not r or key in done:
            continue
        done.add(key)
        code, ms = r
        s.hpair(FN[sq[-1][0]], key, "the bundle holds exactly the messages in order, its count agrees, and everything is released", "int", P,
                "t_osc_bndl_u *b = osc_bundle_u_alloc(); " + " ".join(code) + " M_seen(b, out); osc_bundle_u_free(b); return M_live;", seen(ms))
    # lookups: every combination of matcher verdicts, in list order
    VERDICT = ((8, "none"), (9, "address used up, query at a slash"), (13, "address used up, query elsewhere"), (10, "query used up"), (11, "both used up"))
    hit = lambda k, full: k & 3 == 3 if full else bool(k & 3 and (k & 2 or not k & 4))
    PP = "int32_t x0, int32_t x1, int32_t *out"
    VAL = {"a": "x0", "b": "x1", None: "7"}
    for base in ((), ("a",), ("a", "b"), (None, "a", "b")):
        add = "t_osc_bndl_u *b = osc_bundle_u_alloc(); " + "".join("osc_bundle_u_addMsg(b, M_msg(%s, %s)); " % (S(a), VAL[a]) for a in base)
        real = [a for a in base if a]
        for (ka, na), (kb, nb) in itertools.product(VERDICT, VERDICT):
            if (kb != 8 and "b" not in real) or (ka != 8 and "a" not in real) or (None in base and (ka in (9, 10) or kb in (9, 10))):
                continue
            q = "char q[4] = {'/', %d, %d, 0}; " % (ka, kb)
            for full in (0, 1):
                k = "%s query over %s, verdicts: %s; %s" % ("whole-address" if full else "prefix", list(base), na, nb)
                h = [a for a in real if hit(ka if a == "a" else kb, full)]
                s.hpair("osc_bundle_u_addressExists", k, "true exactly when some message's address matches", "int", PP,
                        q + add + "int res = 5; osc_bundle_u_addressExists(b, q, %d, &res); osc_bundle_u_free(b); return res + 10 * M_live;" % full, "return %d;" % bool(h))
                s.hpair("osc_bundle_u_lookupAddress", k, "copies of exactly the matching messages, in order", "int", PP,
                        q + add + "t_osc_msg_ar_u *r = osc_bundle_u_lookupAddress(b, q, %d); osc_bundle_u_free(b); int n = osc_message_array_u_getLen(r); for(int i = 0; i < n; i++){ out[2 * i] = M_adr(osc_message_array_u_get(r, i)); out[2 * i + 1] = M_val(osc_message_array_u_get(r, i)); } osc_message_array_u_free(r); return n + 10 * M_live;" % full,
                        "".join("out[%d] = '%s'; out[%d] = %s; " % (2 * i, a, 2 * i + 1, VAL[a]) for i, a in enumerate(h)) + "return %d;" % len(h))
                for empty in (0, 1):
                    if not base or base[0] is None:
                        continue
                    s.hpair("osc_bundle_u_addressIsBound", k + (", first message without arguments" if empty else ""), "true exactly when the first matching message has arguments", "int", PP,
                            q + add + ("osc_message_u_clearArgs(osc_bundle_u_getFirstMsg(b)); " if empty else "") + "int res = 5; osc_bundle_u_addressIsBound(b, q, %d, &res); osc_bundle_u_free(b); return res + 10 * M_live;" % full,
                            "return %d;" % bool(h and not (empty and h[0] == "a")))
            h = [a for a in real if hit(ka if a == "a" else kb, 1)]
            s.hpair("osc_bundle_u_getFirstFullMatch", "first whole match over %s, verdicts: %s; %s" % (list(base), na, nb), "the first message whose address matches wholly, if any", "int", PP,
                    q + add + "t_osc_msg_u *k = osc_bundle_u_getFirstFullMatch(b, q); int r = k ? M_adr(k) : -1; osc_bundle_u_free(b); return r + 1000 * M_live;", "return %s;" % ("'%s'" % h[0] if h else "-1"))
    # callbacks, copies of messages, absent bundles
    s.prelude += "void M_cb(t_osc_msg_u *m, void *ctx){ int32_t *o = ctx; o[++o[0]] = M_val(m); }\n"
    for n in range(0, 4):
        s.hpair("osc_bundle_u_getMessagesWithCallback", "callback over %d" % n, "called once per message, in order", "int", P,
                "int32_t o[5] = {0}, xs[3] = {x0, x1, x2}; t_osc_bndl_u *b = osc_bundle_u_alloc(); for(int i = 0; i < %d; i++) osc_bundle_u_addMsg(b, M_msg(\"/a\", xs[i])); osc_bundle_u_getMessagesWithCallback(b, M_cb, o); for(int i = 0; i <= %d; i++) out[i] = o[i]; osc_bundle_u_free(b); return M_live;" % (n, n),
                "out[0] = %d; " % n + "".join("out[%d] = x%d; " % (i + 1, i) for i in range(n)) + "return 0;")
    for da, dn in ((None, 0), ("x", 0), (None, 2), ("x", 1)):
        for sa, sn in ((None, 0), ("y", 1), (None, 1), ("y", 2)):
            s.hpair("osc_message_u_deepCopy", "message (%s, %d arguments) copied over (%s, %d arguments)" % (sa, sn, da, dn), "the destination becomes a copy and releases what it held", "int", P,
                    "t_osc_msg_u *d = osc_message_u_alloc(), *k = osc_message_u_alloc(); " + ("osc_message_u_setAddress(d, %s); " % S(da) if da else "") + ("osc_message_u_setAddress(k, %s); " % S(sa) if sa else "") +
                    "".join("osc_message_u_appendInt32(d, x%d); " % i for i in range(dn)) + "".join("osc_message_u_appendInt32(k, x%d); " % (2 + i) for i in range(sn)) +
                    "int e = osc_message_u_deepCopy(&d, k); osc_message_u_free(k); out[0] = M_adr(d); out[1] = osc_message_u_getArgCount(d); for(int i = 0; i < %d; i++) out[2 + i] = osc_atom_u_getInt32(osc_message_u_getArg(d, i)); osc_message_u_free(d); return e + M_live;" % sn,
                    "out[0] = %s; out[1] = %d; " % ("'%s'" % sa if sa else "0", sn) + "".join("out[%d] = x%d; " % (2 + i, 2 + i) for i in range(sn)) + "return 0;")
    s.hpair("osc_bundle_u_getMsgCount", "absent bundle", "no messages; adding and removing do nothing", "int", "int v",
            "t_osc_msg_u *m = M_msg(\"/a\", v); osc_bundle_u_free(0); osc_bundle_u_clear(0); osc_bundle_u_addMsg(0, m); osc_bundle_u_addMsgWithoutDups(0, m); osc_bundle_u_addMsgCopy(0, m); osc_bundle_u_removeMsg(0, m); int r = osc_bundle_u_getMsgCount(0) + (osc_bundle_u_getFirstMsg(0) != 0) + (osc_bndl_it_u_get(0) != 0) + osc_bndl_it_u_hasNext(0) + (osc_bndl_it_u_next(0) != 0); osc_message_u_free(m); return r + M_live;", "return 0;")
    # more matches than the lookup makes room for at first; a copy keeps what identifies the message
    w = nf.Spec(s.prelude + "void M_deep(t_osc_msg_u **d, t_osc_msg_u *m){ (*d)->size = M_val(m); }\n")
    w.opaque = s.opaque + [("osc_message_u_deepCopy", "model:M_deep")]
    for n in (15, 16, 17):
        w.hpair("osc_bundle_u_lookupAddress", "%d matches" % n, "copies of exactly the matching messages, in order", "int", PP,
                "char q[4] = {'/', 11, 8, 0}; t_osc_bndl_u *b = osc_bundle_u_alloc(); " + "".join("osc_bundle_u_addMsg(b, M_msg(\"/a\", x0 + %d)); " % i for i in range(n)) +
                "t_osc_msg_ar_u *r = osc_bundle_u_lookupAddress(b, q, 1); osc_bundle_u_free(b); int n = osc_message_array_u_getLen(r); for(int i = 0; i < n; i++) out[i] = osc_message_array_u_get(r, i)->size; osc_message_array_u_free(r); return n + 1000 * M_live;",
                "".join("out[%d] = x0 + %d; " % (i, i) for i in range(n)) + "return %d;" % n)
    nf.decide(c, s, 200)
    nf.decide(c, w, 600)
