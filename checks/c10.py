"""C10: messages and bundles on the wire: size, padded address, padded type tags, data, header; readers find exactly what writers put there."""
import nf
from specs import *

INC = '''
#include "osc.h"
#include "osc_message_u.h"
#include "osc_message_u.r"
#include "osc_message_s.h"
#include "osc_message_s.r"
#include "osc_message_iterator_s.h"
#include "osc_message_iterator_u.h"
#include "osc_bundle_u.h"
#include "osc_bundle_u.r"
#include "osc_bundle_iterator_u.h"
#include "osc_bundle_s.h"
#include "osc_bundle_iterator_s.h"
#include "osc_array.h"
#include "osc_error.h"
#include "osc_util.h"
'''
OBS = r'''
INL int M_words(const void *x, const void *y, int n){ const char *p = x, *q = y; int r = 1; for(int i = 0; i < n; i += 4){ uint32_t a, b; memcpy(&a, p + i, 4); memcpy(&b, q + i, 4); r &= a == b; } return r; }
/* a nested bundle stands for one block holding its own 16 bytes */
void *M_bnew(uint32_t v){ char *b = M_alloc(16); memset(b, 0x5a, 16); memcpy(b + 8, &v, 4); return b; }
void M_bfree(void *b){ M_free(b); }
size_t M_bser(char *buf, size_t n, char *b){ if(!buf) return 16; if(n < 16) return 0; memcpy(buf, b, 16); return 16; }
void *M_bde(long len, char *p){ char *b = M_alloc(16); if(len == 16) memcpy(b, p, 16); return b; }
'''
# kind -> (tag, C that appends it to m, from value x; data words as C expressions over x; check of a read-back argument a)
W = lambda *ws: list(ws)
K = {
    "i": ("i", "osc_message_u_appendInt32(m, (int32_t)x);", W("be32((uint32_t)x)"), "osc_atom_u_getInt32(a) == (int32_t)x"),
    "I": ("I", "osc_message_u_appendUInt32(m, (uint32_t)x);", W("be32((uint32_t)x)"), "osc_atom_u_getUInt32(a) == (uint32_t)x"),
    "c": ("c", "osc_message_u_appendInt8(m, (int8_t)x);", W("be32((uint32_t)(int32_t)(int8_t)x)"), "osc_atom_u_getInt8(a) == (int8_t)x"),
    "U": ("U", "osc_message_u_appendUInt16(m, (uint16_t)x);", W("be32((uint32_t)(uint16_t)x)"), "osc_atom_u_getUInt16(a) == (uint16_t)x"),
    "h": ("h", "osc_message_u_appendInt64(m, (int64_t)x);", W("be32((uint32_t)(x >> 32))", "be32((uint32_t)x)"), "osc_atom_u_getInt64(a) == (int64_t)x"),
    "H": ("H", "osc_message_u_appendUInt64(m, x);", W("be32((uint32_t)(x >> 32))", "be32((uint32_t)x)"), "osc_atom_u_getUInt64(a) == x"),
    "f": ("f", "osc_message_u_appendFloat(m, asf((uint32_t)x));", W("be32((uint32_t)x)"), "fbits(osc_atom_u_getFloat(a)) == (uint32_t)x"),
    "d": ("d", "osc_message_u_appendDouble(m, asd(x));", W("be32((uint32_t)(x >> 32))", "be32((uint32_t)x)"), "dbits(osc_atom_u_getDouble(a)) == x"),
    "t": ("t", "{ t_osc_timetag g; g.sec = x >> 32; g.frac_sec = (uint32_t)x; osc_message_u_appendTimetag(m, g); }", W("be32((uint32_t)(x >> 32))", "be32((uint32_t)x)"), "osc_atom_u_getTimetag(a).sec == (uint32_t)(x >> 32) && osc_atom_u_getTimetag(a).frac_sec == (uint32_t)x"),
    "T": ("T", "osc_message_u_appendTrue(m);", W(), "1"), "F": ("F", "osc_message_u_appendFalse(m);", W(), "1"), "N": ("N", "osc_message_u_appendNil(m);", W(), "1"),
    ".": (".", "osc_message_u_appendBndl_u(m, M_bnew((uint32_t)x));", W("be32(16)", "0x5a5a5a5au", "0x5a5a5a5au", "(uint32_t)x", "0x5a5a5a5au"), "({ uint32_t k; memcpy(&k, (char *)osc_atom_u_getBndl(a) + 8, 4); k == (uint32_t)x; })"),
}
ch = lambda i: "((uint32_t)(uint8_t)(1 | (x >> %d)))" % (7 * i)


def pack(chars):
    """Words holding the characters, NUL padding to the next multiple of four (always at least one NUL)."""
    chars = list(chars) + ["0u"] * (4 - len(chars) % 4)
    return ["(%s)" % " | ".join("%s << %d" % (c, 8 * j) for j, c in enumerate(chars[i:i + 4])) for i in range(0, len(chars), 4)]


for n in range(0, 6):
    fill = "char b[12]; memset(b, 0, 12); " + "".join("b[%d] = 1 | (x >> %d); " % (i, 7 * i) for i in range(n))
    K["s%d" % n] = ("s", "{ %sosc_message_u_appendString(m, b); }" % fill, pack([ch(i) for i in range(n)]), "({ %sint r = 1; for(int i = 0; i <= %d; i++) r &= osc_atom_u_getStringPtr(a)[i] == b[i]; r; })" % (fill, n))
    fb = "char b[16]; memset(b, 0, 16); { uint32_t n_ = be32(%d); memcpy(b, &n_, 4); } " % n + "".join("b[%d] = 1 | (x >> %d); " % (4 + i, 7 * i) for i in range(n))
    K["b%d" % n] = ("b", "{ %sosc_message_u_appendBlob(m, b); }" % fb, ["be32(%d)" % n] + (pack([ch(i) for i in range(n)])[:(n + 3) // 4]), "({ %sint r = 1; for(int i = 0; i < %d; i++) r &= osc_atom_u_getBlob(a)[i] == b[i]; r; })" % (fb, 4 + n))


class Msg:
    """A message of given address length and argument kinds; values x<i>, address characters from v."""
    def __init__(self, alen, kinds, first=0, v="v"):
        self.alen, self.kinds, self.first, self.v = alen, kinds, first, v
        self.tags = "".join(K[k][0] for k in kinds)
        self.addr = ["'/'"] + ["((uint32_t)(uint8_t)(1 | (%s >> %d)))" % (v, 7 * i) for i in range(alen - 1)]
        data = [w.replace("x", "x%d" % (first + i)).replace("0x%da" % (first + i), "0xa").replace("0x%d5a" % (first + i), "0x5a") for i, k in enumerate(kinds) for w in K[k][2]]
        body = pack(["(uint32_t)%s" % c for c in self.addr]) + pack(["(uint32_t)'%s'" % c for c in "," + self.tags]) + data
        self.words = ["be32(%d)" % (4 * len(body))] + body
        self.size = 4 * len(self.words)

    def build(self, m="m"):
        s = "t_osc_msg_u *%s = osc_message_u_alloc(); { char ad[12]; memset(ad, 0, 12); ad[0] = '/'; " % m + "".join("ad[%d] = 1 | (%s >> %d); " % (i + 1, self.v, 7 * i) for i in range(self.alen - 1)) + "osc_message_u_setAddress(%s, ad); } " % m
        for i, k in enumerate(self.kinds):
            s += "{ t_osc_msg_u *m_ = %s; uint64_t x = x%d; %s } " % (m, self.first + i, K[k][1].replace("(m,", "(m_,").replace("(m)", "(m_)"))
        return s

    def same(self, m):
        """Expression: message m (unserialized) reads back as this one."""
        s = "({ t_osc_msg_u *m_ = %s; char *ad_ = osc_message_u_getAddress(m_); int r_ = osc_message_u_getArgCount(m_) == %d && ad_[%d] == 0; " % (m, len(self.kinds), self.alen)
        s += "".join("r_ &= (uint8_t)ad_[%d] == %s; " % (i, c) for i, c in enumerate(self.addr))
        for i, k in enumerate(self.kinds):
            s += "{ uint64_t x = x%d; t_osc_atom_u *a = osc_message_u_getArg(m_, %d); r_ &= osc_atom_u_getTypetag(a) == '%s' && %s; } " % (self.first + i, i, self.tags[i], K[k][3])
        return s + "r_; })"


def want(words, nm="want"):
    return "uint32_t %s[%d] = {%s}; " % (nm, len(words), ", ".join(words))


P = "uint64_t x0, uint64_t x1, uint64_t x2, uint64_t x3, uint64_t x4, uint64_t x5, uint64_t v, uint64_t w"
HEAD = ["0x6e756223u", "0x00656c64u", "0u", "0u"]


def run(c):
    s = nf.Spec(PRE + INC + LIBC_MODELS + HEAP + OBS)
    s.opaque += HEAP_OPAQUE + [("osc_match", "e"), ("osc_bundle_u_copy", "e")]
    nested = [("osc_bundle_u_nserialize", "model:M_bser"), ("osc_bundle_s_deserialize", "model:M_bde"), ("osc_bundle_u_free", "model:M_bfree")]
    s.opaque += nested
    kinds = list(K)
    shapes = [(2, [k]) for k in kinds]
    shapes += [(a, []) for a in range(1, 8)] + [(a, ["i"]) for a in range(1, 8)]
    shapes += [(2, ["T"] * n) for n in range(2, 7)] + [(3, ["i", "d"]), (4, ["s2", "i"]), (2, ["b3", "h"]), (5, ["T", "i", "N"]), (3, ["f", "s4", "b1"]), (2, ["t", ".", "i"]), (6, [".", "s1"]), (2, ["c", "U", "I", "H"]), (2, ["d", "s0", "F", "b4", "h"])]
    par = P
    for a, ks in shapes:
        M = Msg(a, ks)
        k = "address of %d, arguments [%s]" % (a, " ".join(ks))
        mk = M.build()
        n = M.size
        fn = "osc_message_u_nserialize"
        s.hpair(fn, "%s: %s" % (fn, k), "size word, padded address, comma and padded type tags, then the data in order; every size agrees", "int", par,
                mk + "char *b = M_alloc(%d); %sint ok = %s(0, 0, m) == %d && osc_message_u_getSerializedSize(m) == %d && %s(b, %d, m) == %d && M_words(b, want, %d); M_free(b); osc_message_u_free(m); return ok + 10 * M_live;" % (n, want(M.words), fn, n, n, fn, n, n, n), "return 1;")
        for short in sorted({0, 3, 4, n - 4, n - 1} - {n}):
            if short >= n:
                continue
            s.hpair(fn, "%s: %s, buffer of %d" % (fn, k, short), "a buffer too small is left alone and 0 is returned", "int", par + ", unsigned char junk",
                    mk + "char *b = M_alloc(%d); memset(b, junk, %d); int ok = %s(b, %d, m) == 0; for(int i = 0; i < %d; i++) ok &= (uint8_t)b[i] == junk; M_free(b); osc_message_u_free(m); return ok + 10 * M_live;" % (n, n, fn, short, n), "return 1;")
        # the serialized message and what its readers find
        D = M.size - 4 * sum(len(K[q][2]) for q in ks)
        rd = mk + "t_osc_msg_s *q = osc_message_u_serialize(m); osc_message_u_free(m); char *p = osc_message_s_getPtr(q); %s" % want(M.words)
        s.hpair("osc_message_s_wrap", "serialized message: %s" % k, "the parts are found where they are and the arguments counted", "int", par,
                rd + "int ok = M_words(p, want, %d) && osc_message_s_getSize(q) == %d && osc_message_s_getAddress(q) == p + 4 && osc_message_s_getTypetags(q) == p + %d && osc_message_s_getData(q) == p + %d && osc_message_s_getArgCount(q) == %d%s && osc_message_s_getTypetag(q, %d) == 0; osc_message_s_deepFree(q); return ok + 10 * M_live;" %
                (n, n - 4, 4 + 4 * len(pack(M.addr)), D, len(ks), "".join(" && osc_message_s_getTypetag(q, %d) == '%s'" % x for x in enumerate(M.tags)), len(ks)), "return 1;")
        offs = []
        at = D
        for q in ks:
            offs.append(at)
            at += 4 * len(K[q][2])
        for cached in (0, 1):
            cc = "osc_message_s_cacheDataOffsets(q); " if cached else ""
            nm = ", offsets cached" if cached else ""
            s.hpair("osc_message_s_getArg", "arguments by index: %s%s" % (k, nm), "each argument has its own type and its own data", "int", par,
                    rd + cc + "int ok = 1; " + "".join("{ t_osc_atom_s *a = 0; osc_message_s_getArg(q, %d, &a); ok &= a && osc_atom_s_getTypetag(a) == '%s' && osc_atom_s_getData(a) == p + %d; osc_atom_s_free(a); } " % (i, M.tags[i], offs[i]) for i in range(len(ks))) +
                    "t_osc_atom_s *z = 0; osc_message_s_getArg(q, %d, &z); ok &= z == 0; osc_message_s_deepFree(q); return ok + 10 * M_live;" % len(ks), "return 1;")
            s.hpair("osc_message_iterator_s_next", "arguments by iteration: %s%s" % (k, nm), "each argument once, in order, with its own type and data", "int", par,
                    rd + cc + "t_osc_msg_it_s *it = osc_msg_it_s_get(q); int ok = 1; for(int k = 0; k < 2; k++){ " + "".join("ok &= osc_msg_it_s_hasNext(it); { t_osc_atom_s *a = osc_msg_it_s_next(it); ok &= osc_atom_s_getTypetag(a) == '%s' && osc_atom_s_getData(a) == p + %d; } " % (M.tags[i], offs[i]) for i in range(len(ks))) +
                    "ok &= !osc_msg_it_s_hasNext(it) && osc_msg_it_s_next(it) == 0; osc_msg_it_s_reset(it); } osc_msg_it_s_destroy(it); osc_message_s_deepFree(q); return ok + 10 * M_live;", "return 1;")
        s.hpair("osc_message_s_deserialize", "decoded again: %s" % k, "the same address and arguments", "int", par,
                rd + "t_osc_msg_u *u = osc_message_s_deserialize(q); osc_message_s_deepFree(q); int ok = %s; osc_message_u_free(u); return ok + 10 * M_live;" % M.same("u"), "return 1;")
    nf.decide(c, s, 636, chunk=40, mix=True)
