"""C11: serialized bundles: header and message sequence; every reader, builder, editor and set operation over them, and the sanity check."""
import itertools
import nf
from specs import *

INC = '''
#include "osc.h"
#include "osc_message_u.h"
#include "osc_message_u.r"
#include "osc_message_s.h"
#include "osc_message_s.r"
#include "osc_bundle_u.h"
#include "osc_bundle_u.r"
#include "osc_bundle_iterator_u.h"
#include "osc_bundle_s.h"
#include "osc_bundle_s.r"
#include "osc_bundle_iterator_s.h"
#include "osc_array.h"
#include "osc_match.h"
#include "osc_error.h"
#include "osc_timetag.h"
'''
OBS = r'''
INL int M_words(const void *x, const void *y, int n){ const char *p = x, *q = y; int r = 1; for(int i = 0; i < n; i += 4){ uint32_t a, b; memcpy(&a, p + i, 4); memcpy(&b, q + i, 4); r &= a == b; } return r; }
INL char *M_blk(const void *im, int n, int room){ char *b = M_alloc(n + room); memcpy(b, im, n); return b; }
/* the matcher: plain addresses match when equal; a query "/<k1><k2>" below '0' carries the verdict (bits 0-1) and the offset (bit 2) for "/a" and for "/b" */
int M_match(const char *p, const char *a, int *po, int *ao){ *po = *ao = 0; if(p[1] >= 'a') return p[1] == a[1] ? 3 : 0; int k = a[1] == 'a' ? p[1] : p[2]; *po = (k >> 2) & 1; return k & 3; }
/* messages hold integers only */
size_t M_mser(char *buf, size_t n, t_osc_msg_u *m){
  int k = osc_message_u_getArgCount(m);
  size_t len = 12 + 4 * k;
  if(!buf) return len;
  if(n < len) return 0;
  uint32_t w[5] = {be32((uint32_t)len - 4), '/' | (uint32_t)(uint8_t)osc_message_u_getAddress(m)[1] << 8, k == 0 ? ',' : k == 1 ? ',' | 'i' << 8 : ',' | 'i' << 8 | 'i' << 16, 0, 0};
  for(int i = 0; i < k; i++) w[3 + i] = be32((uint32_t)osc_atom_u_getInt32(osc_message_u_getArg(m, i)));
  memcpy(buf, w, len);
  return len;
}
t_osc_msg_u *M_mde(t_osc_msg_s *s){
  t_osc_msg_u *m = osc_message_u_alloc();
  osc_message_u_setAddress(m, osc_message_s_getAddress(s));
  for(int i = 0; i < osc_message_s_getArgCount(s); i++){ uint32_t w; memcpy(&w, osc_message_s_getData(s) + 4 * i, 4); osc_message_u_appendInt32(m, (int32_t)be32(w)); }
  return m;
}
void M_afree(t_osc_atom_u *a){ M_free(a); }
void M_aclear(t_osc_atom_u *a){}
void M_cb(t_osc_msg_s *m, void *ctx){ char **o = ctx; int n = (int)(intptr_t)o[0] + 1; o[n] = osc_message_s_getPtr(m); o[0] = (char *)(intptr_t)n; }
'''
HEAD = ["0x6e756223u", "0x00656c64u"]
ZERO = HEAD + ["0u", "0u"]
TAGS = {"-": [], "0": ["','"], "1": ["(',' | 'i' << 8)"], "2": ["(',' | 'i' << 8 | 'i' << 16)"]}


def msg(m, i):
    """Words of message m (letter and argument count, or '-' for none but the address), the i-th of its bundle."""
    n = 0 if m[1] == "-" else int(m[1])
    body = ["('/' | '%s' << 8)" % m[0]] + TAGS[m[1]] + ["x%d" % (i + k) for k in range(n)]
    return ["be32(%d)" % (4 * len(body))] + body


def image(ms, head=None, first=0):
    w = list(HEAD + ["t0", "t1"] if head is None else head)
    i = first
    for m in ms:
        w += msg(m, i)
        i += 0 if m[1] == "-" else int(m[1])
    return w


def sizes(ms):
    return [4 * len(msg(m, 0)) for m in ms]


def offs(ms):
    o, at = [], 16
    for n in sizes(ms):
        o.append(at)
        at += n
    return o


P = "uint32_t t0, uint32_t t1, uint32_t x0, uint32_t x1, uint32_t x2, uint32_t x3, uint32_t x4, uint32_t x5, unsigned char junk"


def blk(ms, nm="b", room=0, head=None, first=0):
    w = image(ms, head, first)
    return "uint32_t %s_[%d] = {%s}; char *%s = M_blk(%s_, %d, %d); long l%s = %d; " % (nm, len(w), ", ".join(w), nm, nm, 4 * len(w), room, nm, 4 * len(w))


def want(w, nm="w"):
    return "uint32_t %s[%d] = {%s}; " % (nm, len(w), ", ".join(w))


def values(ms, first=0):
    """The words after the header, message by message, as in image()."""
    out, i = [], first
    for m in ms:
        out.append(msg(m, i))
        i += 0 if m[1] == "-" else int(m[1])
    return out


BASES = [(), ("a1",), ("b0",), ("a-",), ("a2", "b1"), ("a1", "a0"), ("b0", "a1"), ("a1", "b1", "a1"), ("b0", "a0", "a1"), ("a-", "b1")]
SEQ = [b for b in BASES if not any(m[1] == "-" for m in b)]


def build(ms):
    s, i = "t_osc_bndl_u *u = osc_bundle_u_alloc(); ", 0
    for m in ms:
        s += "{ t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_setAddress(m, \"/%s\"); " % m[0]
        for k in range(int(m[1])):
            s += "osc_message_u_appendInt32(m, (int32_t)be32(x%d)); " % (i + k)
        i += int(m[1])
        s += "osc_bundle_u_addMsg(u, m); } "
    return s


def run(c):
    s = nf.Spec(PRE + INC + LIBC_MODELS + HEAP + OBS)
    s.opaque += HEAP_OPAQUE + [("osc_match", "model:M_match"), ("osc_message_u_nserialize", "model:M_mser"), ("osc_message_s_deserialize", "model:M_mde"), ("osc_bundle_u_copy", "e"),
                               ("osc_atom_u_free", "model:M_afree"), ("osc_atom_u_clear", "model:M_aclear")]
    X = lambda fn, key, desc, h, r="return 1;", par=P: s.hpair(fn, key, desc, "int", par, h, r)
    one = "return ok + 10 * M_live;"
    for ms in SEQ:
        k, W = list(ms), image(ms, ZERO)
        n = 4 * len(W)
        X("osc_bundle_u_nserialize", "bundle of %s serialized" % k, "the header, then each message in order; the size agrees everywhere",
          build(ms) + want(W) + "char *b = M_alloc(%d); int ok = osc_bundle_u_nserialize(0, 0, u) == %d && osc_bundle_u_getSerializedSize(u) == %d && osc_bundle_u_nserialize(b, %d, u) == %d && M_words(b, w, %d); M_free(b); t_osc_bndl_s *s = osc_bundle_u_serialize(u); osc_bundle_u_free(u); ok &= osc_bundle_s_getLen(s) == %d && M_words(osc_bundle_s_getPtr(s), w, %d); osc_bundle_s_deepFree(s); " % (n, n, n, n, n, n, n, n) + one)
        for short in sorted({0, 15, 16, 17, n - 1, n - 4}):
            if short >= n:
                continue
            X("osc_bundle_u_nserialize", "bundle of %s, buffer of %d" % (k, short), "nothing is written past the buffer and no more than it holds is reported",
              build(ms) + "char *b = M_alloc(%d); memset(b, junk, %d); size_t r = osc_bundle_u_nserialize(b, %d, u); int ok = r <= %d; for(int i = %d; i < %d; i++) ok &= (uint8_t)b[i] == junk; M_free(b); osc_bundle_u_free(u); " % (n, n, short, short, short, n) + one)
        same = ""
        i = 0
        for m in ms:
            same += "ok &= osc_bndl_it_u_hasNext(it); { t_osc_msg_u *m = osc_bndl_it_u_next(it); ok &= osc_message_u_getAddress(m)[1] == '%s' && osc_message_u_getArgCount(m) == %s; " % (m[0], m[1])
            for j in range(int(m[1])):
                same += "ok &= osc_atom_u_getInt32(osc_message_u_getArg(m, %d)) == (int32_t)be32(x%d); " % (j, i + j)
            i += int(m[1])
            same += "} "
        X("osc_bundle_s_deserialize", "bundle of %s decoded" % k, "the same messages, in order",
          blk(ms) + "t_osc_bndl_u *u = osc_bundle_s_deserialize(lb, b); M_free(b); int ok = osc_bundle_u_getMsgCount(u) == %d; t_osc_bndl_it_u *it = osc_bndl_it_u_get(u); %s ok &= !osc_bndl_it_u_hasNext(it); osc_bndl_it_u_destroy(it); osc_bundle_u_free(u); " % (len(ms), same) + one)
    for ms in BASES:
        k, W, O = list(ms), image(ms), offs(ms)
        n = 4 * len(W)
        X("osc_bundle_iterator_s_next", "iteration over %s" % k, "each message once, in order, and again after a reset",
          blk(ms) + "t_osc_bndl_it_s *it = osc_bndl_it_s_get(lb, b); int ok = 1; for(int r = 0; r < 2; r++){ " +
          "".join("ok &= osc_bndl_it_s_hasNext(it); { t_osc_msg_s *m = osc_bndl_it_s_next(it); ok &= osc_message_s_getPtr(m) == b + %d && osc_message_s_getAddress(m) == b + %d && osc_message_s_getArgCount(m) == %s; } " % (o, o + 4, m[1].replace("-", "0")) for o, m in zip(O, ms)) +
          "ok &= !osc_bndl_it_s_hasNext(it); osc_bndl_it_s_reset(it); } osc_bndl_it_s_destroy(it); M_free(b); " + one)
        X("osc_bundle_s_getMsgCount", "count of %s" % k, "the number of messages; a whole bundle passes the sanity check", blk(ms) + "int q = -1; int ok = osc_bundle_s_getMsgCount(lb, b, &q) == OSC_ERR_NONE && q == %d && osc_error_bundleSanityCheck(lb, b) == OSC_ERR_NONE; M_free(b); " % len(ms) + one)
        X("osc_bundle_s_getFirstMsg", "first message of %s" % k, "the first message in the order sent", blk(ms) + "t_osc_bndl_s *s = osc_bundle_s_alloc(lb, b); t_osc_msg_s *m = osc_bundle_s_getFirstMsg(s); int ok = %s; osc_message_s_free(m); osc_bundle_s_deepFree(s); " % ("m && osc_message_s_getPtr(m) == b + 16 && osc_message_s_getAddress(m) == b + 20 && osc_message_s_getArgCount(m) == %s" % ms[0][1].replace("-", "0") if ms else "m == 0") + one)
        X("osc_bundle_s_getMessagesWithCallback", "callback over %s" % k, "called once per message, in order", blk(ms) + "char *o[5] = {0}; int ok = osc_bundle_s_getMessagesWithCallback(lb, b, M_cb, o) == OSC_ERR_NONE && o[0] == (char *)%d" % len(ms) + "".join(" && o[%d] == b + %d" % (i + 1, o) for i, o in enumerate(O)) + "; M_free(b); " + one)
        X("osc_bundle_s_deepCopy", "copy of %s" % k, "the same bytes in storage of its own", blk(ms) + "t_osc_bndl_s *s = osc_bundle_s_alloc(lb, b), *d = 0; int e = osc_bundle_s_deepCopy(&d, s); osc_bundle_s_deepFree(s); int ok = !e && osc_bundle_s_getLen(d) == %d && osc_bundle_s_getPtr(d) != b && M_words(osc_bundle_s_getPtr(d), b_, %d); osc_bundle_s_deepFree(d); " % (n, n) + one)
        X("osc_bundle_s_setTimetag", "timetag of %s" % k, "written after the identifier and read back; nothing else changes",
          blk(ms) + want(image(ms, HEAD + ["be32(x4)", "be32(x5)"])) + "t_osc_timetag o = osc_bundle_s_getTimetag(lb, b), g; int ok = o.sec == be32(t0) && o.frac_sec == be32(t1); g.sec = x4; g.frac_sec = x5; osc_bundle_s_setTimetag(lb, b, g); ok &= M_words(b, w, %d); o = osc_bundle_s_getTimetag(lb, b); ok &= o.sec == x4 && o.frac_sec == x5; M_free(b); " % n + one)
        # builders
        for extra in ("a0", "b1", "a2", "b-"):
            q = "uint32_t q_[5] = {%s}; t_osc_msg_s *q = osc_message_s_alloc(); osc_message_s_wrap(q, (char *)q_); " % ", ".join(w.replace("x0", "x4").replace("x1", "x5") for w in msg(extra, 0))
            W2 = W + [w.replace("x0", "x4").replace("x1", "x5") for w in msg(extra, 0)]
            for b in (0, 1):
                call = "e = osc_bundle_s_appendMessage(&lb, &b, q); " if not b else "t_osc_bndl_s *s = osc_bundle_s_alloc(lb, b); e = osc_bundle_s_appendMessage_b(&s, q); b = osc_bundle_s_getPtr(s); lb = osc_bundle_s_getLen(s); osc_bundle_s_free(s); "
                X("osc_bundle_s_appendMessage" + "_b" * b, "%s plus %s%s" % (k, extra, ", as an object" * b), "the message is added at the end, nothing else changes", blk(ms) + q + want(W2) + "int e; " + call + "int ok = !e && lb == %d && M_words(b, w, %d); osc_message_s_free(q); M_free(b); " % (4 * len(W2), 4 * len(W2)) + one)
        # editors
        for p in "ab":
            left = [v for m, v in zip(ms, values(ms)) if m[0] != p]
            W2 = W[:4] + [x for v in left for x in v]
            X("osc_bundle_s_removeMessage", "%s without /%s" % (k, p), "every message with that address is gone, the others keep their order and bytes", blk(ms) + want(W2) + "int ok = osc_bundle_s_removeMessage(\"/%s\", &lb, b, 1) == OSC_ERR_NONE && lb == %d && M_words(b, w, %d); M_free(b); " % (p, 4 * len(W2), 4 * len(W2)) + one)
            X("osc_bundle_s_getFirstEqualAddr", "first /%s of %s" % (p, k), "the first message with that very address", blk(ms) + "char *m = osc_bundle_s_getFirstEqualAddr(lb, b, \"/%s\"); int ok = m == %s; M_free(b); " % (p, next(("b + %d" % o for o, m in zip(O, ms) if m[0] == p), "0")) + one)
        for i, o in enumerate(O):
            for new in ("b0", "a1", "b2", "a-"):
                nw = [w.replace("x0", "x4").replace("x1", "x5") for w in msg(new, 0)]
                vs = values(ms)
                vs[i] = nw
                W2 = W[:4] + [x for v in vs for x in v]
                for room in (0, 12):
                    X("osc_bundle_s_replaceMessage", "message %d of %s becomes %s, room of %d" % (i, k, new, room), "that message is replaced in place, the others keep their order and bytes; the buffer grows when it must",
                      blk(ms, room=room) + "uint32_t q_[5] = {%s}; t_osc_msg_s *q = osc_message_s_alloc(), *o = osc_message_s_alloc(); osc_message_s_wrap(q, (char *)q_); osc_message_s_wrap(o, b + %d); " % (", ".join(nw), o) + want(W2) +
                      "long cap = lb + %d, pos = lb; int ok = osc_bundle_s_replaceMessage(&cap, &pos, &b, o, q) == OSC_ERR_NONE && pos == %d && cap == %d && M_words(b, w, %d); osc_message_s_free(q); osc_message_s_free(o); M_free(b); " % (room, 4 * len(W2), max(4 * len(W2), n + room), 4 * len(W2)) + one)
    # building from nothing
    for extra in ("a0", "b1", "a2", "b-"):
        W2 = ZERO + msg(extra, 0)
        q = "uint32_t q_[5] = {%s}; t_osc_msg_s *q = osc_message_s_alloc(); osc_message_s_wrap(q, (char *)q_); " % ", ".join(msg(extra, 0))
        for b in (0, 1):
            call = "long lb = 0; char *b = 0; e = osc_bundle_s_appendMessage(&lb, &b, q); " if not b else "t_osc_bndl_s *s = 0; e = osc_bundle_s_appendMessage_b(&s, q); char *b = osc_bundle_s_getPtr(s); long lb = osc_bundle_s_getLen(s); osc_bundle_s_free(s); "
            X("osc_bundle_s_appendMessage" + "_b" * b, "nothing plus %s%s" % (extra, ", as an object" * b), "a bundle with a clear timetag holding the message", q + want(W2) + "int e; " + call + "int ok = !e && lb == %d && M_words(b, w, %d); osc_message_s_free(q); M_free(b); " % (4 * len(W2), 4 * len(W2)) + one)
        n = 4 * len(W2) - 20
        X("osc_bundle_s_wrapMessage", "bundle around %s" % extra, "a bundle with a clear timetag holding the message; the caller owns it", "uint32_t q_[5] = {%s}; " % ", ".join(msg(extra, 0)[1:]) + want(W2) + "long lb = 0; char *b = 0, al = 9; int ok = osc_bundle_s_wrapMessage(%d, (char *)q_, &lb, &b, &al) == OSC_ERR_NONE && lb == %d && al == 1 && M_words(b, w, %d); M_free(b); " % (n, n + 20, n + 20) + one)
        X("osc_bundle_s_wrapMessage", "bundle around %s in a given buffer" % extra, "identifier, size and message are put there and nothing is allocated", "uint32_t q_[5] = {%s}; " % ", ".join(msg(extra, 0)[1:]) + want(W2) + "long lb = 0; char *b = M_alloc(%d), *g = b, al = 9; int ok = osc_bundle_s_wrapMessage(%d, (char *)q_, &lb, &b, &al) == OSC_ERR_NONE && lb == %d && b == g && al == 0 && M_words(b, w, 8) && M_words(b + 16, w + 4, %d); M_free(b); " % (n + 20, n, n + 20, n + 4) + one)
    X("osc_bundle_s_allocEmptyBundle", "empty bundle", "a header with a clear timetag", want(ZERO) + "t_osc_bndl_s *s = osc_bundle_s_allocEmptyBundle(); int ok = osc_bundle_s_getLen(s) == 16 && M_words(osc_bundle_s_getPtr(s), w, 16); osc_bundle_s_deepFree(s); " + one)
    for room in (0, 8, 16, 32):
        X("osc_bundle_s_setBundleID_b", "header set in a bundle of %d" % room, "it becomes an empty bundle with a clear timetag", want(ZERO) + "t_osc_bndl_s *s = osc_bundle_s_alloc(%d, %s); int ok = osc_bundle_s_setBundleID_b(s) == OSC_ERR_NONE && osc_bundle_s_getLen(s) == 16 && M_words(osc_bundle_s_getPtr(s), w, 16); osc_bundle_s_deepFree(s); " % (room, "M_alloc(%d)" % room if room else "0") + one)
    X("osc_bundle_s_setBundleID", "identifier", "eight bytes, nothing more", "char b[16]; memset(b, junk, 16); uint32_t w[2] = {%s}; int ok = osc_bundle_s_setBundleID(b) == OSC_ERR_NONE && M_words(b, w, 8) && osc_bundle_s_strcmpID(b) == 0; for(int i = 8; i < 16; i++) ok &= (uint8_t)b[i] == junk; return ok;" % ", ".join(HEAD))
    X("osc_bundle_s_appendMessage", "no message", "adding nothing changes nothing", "long lb = 0; char *b = 0; int ok = osc_bundle_s_appendMessage(&lb, &b, 0) == OSC_ERR_NONE && b == 0 && lb == 0; " + one)
    X("osc_bundle_s_getLen", "absent bundle", "an absent bundle has no length, no bytes, no messages and no timetag", "t_osc_timetag g = osc_bundle_s_getTimetag(15, (char *)&junk), h = osc_bundle_s_getTimetag(16, 0); osc_bundle_s_setTimetag(15, (char *)&junk, g); osc_bundle_s_setTimetag(16, 0, g); osc_bundle_s_setLen(0, 1); osc_bundle_s_setPtr(0, 0); osc_bundle_s_free(0); osc_bundle_s_deepFree(0); t_osc_bndl_s *d = 0; int q; int ok = osc_bundle_s_getLen(0) == 0 && osc_bundle_s_getPtr(0) == 0 && osc_bundle_s_getFirstMsg(0) == 0 && g.sec == 0 && g.frac_sec == 0 && h.sec == 0 && osc_bundle_s_deepCopy(&d, 0) == OSC_ERR_NOBUNDLE && osc_bundle_s_getMsgCount(16, 0, &q) == OSC_ERR_NOBUNDLE && osc_bundle_s_setBundleID(0) == OSC_ERR_NOBUNDLE && osc_bundle_s_setBundleID_b(0) == OSC_ERR_NOBUNDLE && osc_bundle_s_union(0, 0) == 0; " + one)
    # two bundles
    R2 = {"x%d" % i: "x%d" % (i + 3) for i in range(3)}
    TWO = [(), ("a1",), ("b1",), ("a0", "b1"), ("b0", "c1"), ("a0", "a1")]
    for l, r in itertools.product(TWO, TWO):
        k = "%s and %s" % (list(l), list(r))
        WL, WR = image(l), image(r, HEAD + ["x4", "x5"], 2)
        two = blk(l, "b") + blk(r, "c", head=HEAD + ["x4", "x5"], first=2)
        vl, vr = values(l), values(r, 2)
        A = [m[0] for m in l]
        B = [m[0] for m in r]
        cat = WL + WR[4:]
        X("osc_bundle_s_concat", "concatenation of %s" % k, "the first bundle, then the messages of the second", two + want(cat) + "char *o = M_alloc(%d); int ok = osc_bundle_s_concat(lb, b, lc, c, o) == %d && M_words(o, w, %d); M_free(o); M_free(b); M_free(c); " % (4 * len(cat), 4 * len(cat), 4 * len(cat)) + one)
        tail = "M_free(b); M_free(c); " + one
        # union: everything of the first, and of the second what has a new address
        un, seen = list(WL), set(A)
        for a, v in zip(B, vr):
            if a not in seen:
                un += v
                seen.add(a)
        if not l and not r:
            un = list(ZERO)
        X("osc_bundle_s_union", "union of %s" % k, "the first bundle, then each message of the second whose address is new", two + want(un) + "t_osc_bndl_s *x = osc_bundle_s_alloc(lb, b), *y = osc_bundle_s_alloc(lc, c), *u = osc_bundle_s_union(x, y); osc_bundle_s_free(x); osc_bundle_s_free(y); int ok = osc_bundle_s_getLen(u) == %d && M_words(osc_bundle_s_getPtr(u), w, %d); osc_bundle_s_deepFree(u); " % (4 * len(un), 4 * len(un)) + tail)
        it, seen = WL[:4] if l and r else list(ZERO), set()
        for a, v in zip(A, vl):
            if a in B and a not in seen:
                it = it + v
                seen.add(a)
        X("osc_bundle_s_intersection", "intersection of %s" % k, "each address both have, once, with the first bundle's message", two + want(it) + "long lo = 0; char *o = 0; int ok = osc_bundle_s_intersection(lb, b, lc, c, &lo, &o) == OSC_ERR_NONE && lo == %d && M_words(o, w, %d); M_free(o); " % (4 * len(it), 4 * len(it)) + tail)
        df, seen = WL[:4] if l or r else list(ZERO), set()
        for a, v in list(zip(A, vl)) + list(zip(B, vr)):
            if (a in A) != (a in B) and a not in seen:
                df = df + v
                seen.add(a)
        X("osc_bundle_s_difference", "difference of %s" % k, "each address only one of them has, once", two + want(df) + "long lo = 0; char *o = 0; int ok = osc_bundle_s_difference(lb, b, lc, c, &lo, &o) == OSC_ERR_NONE && lo == %d && M_words(o, w, %d); M_free(o); " % (4 * len(df), 4 * len(df)) + tail)
    # lookups: every combination of matcher verdicts, in order
    VERDICT = ((8, "none"), (9, "address used up, query at a slash"), (13, "address used up, query elsewhere"), (10, "query used up"), (11, "both used up"))
    hit = lambda v, full: v & 3 == 3 if full else bool(v & 3 and (v & 2 or not v & 4))
    for ms in ((), ("a1",), ("a1", "b1"), ("a0", "b1"), ("a-", "b2"), ("b1", "a1", "b0")):
        O = offs(ms)
        real = [m[0] for m in ms]
        for (ka, na), (kb, nb) in itertools.product(VERDICT, VERDICT):
            if (kb != 8 and "b" not in real) or (ka != 8 and "a" not in real) or (len(ms) == 3 and ka == 9):
                continue
            q = "char q[4] = {'/', %d, %d, 0}; " % (ka, kb)
            V = {"a": ka, "b": kb}
            for full in (0, 1):
                k = "%s query over %s, verdicts: %s; %s" % ("whole-address" if full else "prefix", list(ms), na, nb)
                h = [i for i, m in enumerate(ms) if hit(V[m[0]], full)]
                X("osc_bundle_s_addressExists", k, "true exactly when some message's address matches", q + blk(ms) + "int r = 5; osc_bundle_s_addressExists(lb, b, q, %d, &r); int ok = r == %d; M_free(b); " % (full, bool(h)) + one)
                X("osc_bundle_s_addressIsBound", k, "true exactly when a message whose address matches has arguments", q + blk(ms) + "int r = 5; osc_bundle_s_addressIsBound(lb, b, q, %d, &r); int ok = r == %d; M_free(b); " % (full, any(ms[i][1] in "12" for i in h)) + one)
                for b in (0, 1):
                    get = "t_osc_msg_ar_s *r = osc_bundle_s_lookupAddress(lb, b, q, %d); " % full if not b else "t_osc_bndl_s *s = osc_bundle_s_alloc(lb, b); t_osc_msg_ar_s *r = osc_bundle_s_lookupAddress_b(s, q, %d); osc_bundle_s_free(s); " % full
                    X("osc_bundle_s_lookupAddress" + "_b" * b, k + ", as an object" * b, "exactly the matching messages, in order", q + blk(ms) + get + ("int ok = r && osc_message_array_s_getLen(r) == %d" % len(h) + "".join(" && osc_message_s_getPtr(osc_message_array_s_get(r, %d)) == b + %d" % (j, O[i]) for j, i in enumerate(h)) + "; osc_message_array_s_free(r); " if h else "int ok = r == 0; ") + "M_free(b); " + one)
            h = [i for i, m in enumerate(ms) if hit(V[m[0]], 1)]
            X("osc_bundle_s_getFirstFullMatch", "first whole match over %s, verdicts: %s; %s" % (list(ms), na, nb), "the first message whose address matches wholly, if any", q + blk(ms) + "char *m = osc_bundle_s_getFirstFullMatch(lb, b, q); int ok = m == %s; M_free(b); " % ("b + %d" % O[h[0]] if h else "0") + one)
    # more matches than the lookup makes room for at first
    for n in (16, 17, 33):
        ms = ("a0",) * n
        X("osc_bundle_s_lookupAddress", "%d matches" % n, "exactly the matching messages, in order", "char q[4] = {'/', 11, 8, 0}; " + blk(ms) + "t_osc_msg_ar_s *r = osc_bundle_s_lookupAddress(lb, b, q, 1); int ok = r && osc_message_array_s_getLen(r) == %d" % n +
          "".join(" && osc_message_s_getPtr(osc_message_array_s_get(r, %d)) == b + %d" % (i, 16 + 12 * i) for i in range(n)) + "; osc_message_array_s_free(r); M_free(b); " + one)
    # the sanity check: a block of n bytes never read past its end, accepted exactly when its messages fill it
    E = "OSC_ERR_"
    for n in range(0, 17):
        X("osc_error_bundleSanityCheck", "block of %d" % n, "too short for a header, or empty", "char b[16]; { uint32_t h[4] = {%s}; memcpy(b, h, 16); } return osc_error_bundleSanityCheck(%d, b);" % (", ".join(ZERO), n), "return %s;" % (E + ("BUNDLETOOSMALL" if n < 16 else "NONE")))
    for i in range(8):
        X("osc_error_bundleSanityCheck", "identifier wrong at %d" % i, "not a bundle unless it starts with the identifier", "char b[16]; { uint32_t h[4] = {%s}; memcpy(b, h, 16); } b[%d] ^= 32 + (junk & 15); return osc_error_bundleSanityCheck(16, b);" % (", ".join(ZERO), i), "return %sNOBUNDLEID;" % E)
    X("osc_error_bundleSanityCheck", "absent bundle", "no bundle", "return osc_error_bundleSanityCheck((int)x0, 0);", "return %sNOBUNDLE;" % E)
    for n in range(17, 45):
        for s1 in (-2147483648, -20, -5, -4, -1, 0, 3, 4, 5, 8, 12, 16, 20, 24, 2147483647):
            for sl in (1, 0):
                # what the block must be judged to be
                def judge(at):
                    if at + 4 > n:
                        return "MSGTOOLARGE"
                    size = s1 if at == 16 else 4
                    if size > n - at - 4:
                        return "MSGTOOLARGE"
                    if size < 4:
                        return "MSGTOOSMALL"
                    if at == 16 and not sl:
                        return "MALFORMEDADDRESS"
                    return "NONE" if at + 4 + size == n else judge(at + 4 + size)
                # after the first message: four-byte messages to the end
                rest = "int at = 20 + %d; while(at + 8 <= %d){ uint32_t w = be32(4); memcpy(b + at, &w, 4); b[at + 4] = '/'; at += 8; } if(at + 4 <= %d){ uint32_t w = be32(4); memcpy(b + at, &w, 4); }" % (s1, n, n) if 4 <= s1 <= n - 20 else ""
                X("osc_error_bundleSanityCheck", "block of %d, first size %d, %s" % (n, s1, "address" if sl else "no address"), "accepted exactly when whole messages fill the block; nothing past the block is read",
                  "char *b = M_alloc(%d); { uint32_t h[5] = {%s}; memcpy(b, h, 16); memcpy(b + 16, h + 4, %d); } %s %s int r = osc_error_bundleSanityCheck(%d, b), q = 9; int e = osc_bundle_s_getMsgCount(%d, b, &q); M_free(b); return r + 1000 * (e != r) + 10000 * M_live;" %
                  (n, ", ".join(ZERO + ["be32((uint32_t)%d)" % s1]), min(4, n - 16), ("b[20] = '%s';" % ("/" if sl else "a")) if n > 20 else "", rest, n, n), "return %s;" % (E + judge(16)))
    # renaming
    for m in ("a-", "a0", "a1", "a2"):
        for ln in range(1, 9):
            src = values((m,))[0]
            addr = ["'/'"] + ["(uint32_t)(uint8_t)(65 + ((x4 >> %d) & 15))" % (3 * i) for i in range(ln - 1)]
            chars = addr + ["0u"] * (4 - ln % 4)
            body = ["(%s)" % " | ".join("%s << %d" % (ch, 8 * j) for j, ch in enumerate(chars[i:i + 4])) for i in range(0, len(chars), 4)] + src[2:]
            W2 = ["be32(%d)" % (4 * len(body))] + body
            X("osc_message_s_renameCopy", "%s renamed to %d characters" % (m, ln), "the copy has the new address and everything else of the original" if ln > 1 else "not an address: nothing is written",
              "uint32_t q_[6] = {%s}; t_osc_msg_s *q = osc_message_s_alloc(); osc_message_s_wrap(q, (char *)q_); char ad[12]; memset(ad, 0, 12); ad[0] = '/'; " % ", ".join(src) + "".join("ad[%d] = 65 + ((x4 >> %d) & 15); " % (i + 1, 3 * i) for i in range(ln - 1)) +
              want(W2) + "char *o = M_alloc(%d); memset(o, junk, %d); int r = osc_message_s_renameCopy(o, q, %d, ad); " % (4 * len(W2), 4 * len(W2), ln) +
              ("int ok = r == %d && M_words(o, w, %d); " % (4 * len(body), 4 * len(W2)) if ln > 1 else "int ok = r == 0; for(int i = 0; i < %d; i++) ok &= (uint8_t)o[i] == junk; " % (4 * len(W2))) + "M_free(o); osc_message_s_free(q); " + one)
    nf.decide(c, s, 900)
