"""C15: lists and tables: every sequence of operations leaves exactly what was put in and not taken out."""
import itertools
import nf
from specs import *

INC = '''
#include "osc_linkedlist.h"
#include "osc_hashtab.h"
'''
OBS = r'''
void M_t(int32_t); void M_i(int64_t);
typedef struct { int32_t v; int gone; char *key; } M_cell;
void M_end(void *d){ ((M_cell *)d)->gone++; }
void M_copy(void **d, void *s){ M_cell *c = M_alloc(sizeof(M_cell)); c->v = ((M_cell *)s)->v + 1; c->gone = 0; c->key = 0; *d = c; }
void M_drop(void *d){ M_t(7); M_i(((M_cell *)d)->v); M_free(d); }
static void M_see(void *d){ if(d) M_i(((M_cell *)d)->v); else M_t(-9); }
void M_each(void *ctx, int i, void *d){ M_t(i); M_see(d); }
void M_eat(void *l, int i, void *d){ M_t(i); M_see(i < 0 ? 0 : osc_linkedlist_popHead(l)); }
/* what the public interface shows of a list */
static void M_list(t_osc_linkedlist *l, int n){
  M_t((int)osc_linkedlist_getCount(l));
  M_see(osc_linkedlist_peekHead(l)); M_see(osc_linkedlist_peekTail(l));
  for(int i = -1; i <= n; i++) M_see(osc_linkedlist_peekNth(l, i));
  osc_linkedlist_iterate(l, M_each, 0);
}
/* tables: the callbacks are told of entries in no particular order, so they note who they were told of */
void M_kill(char *k, void *v){ ((M_cell *)v)->gone += k == ((M_cell *)v)->key ? 1 : 100; }
void M_kill2(char *k, void *v){ ((M_cell *)v)->gone += k == ((M_cell *)v)->key ? 10 : 1000; }
typedef struct { int n, sum; } M_tally;
void M_visit(char *k, void *v, void *ctx){ M_tally *t = ctx; t->n++; ((M_cell *)v)->gone += k == ((M_cell *)v)->key ? 100000 : 10000000; }
'''


def run(c):
    s = nf.Spec(PRE + INC + LIBC_MODELS + HEAP + OBS)
    s.opaque += HEAP_OPAQUE + [("M_t", "i"), ("M_i", "i")]
    P = "int32_t x0, int32_t x1, int32_t x2, int32_t x3"
    CELLS = "".join("M_cell c%d = {x%d, 0, 0}; " % (i, i) for i in range(4))
    see = lambda v: "M_t(-9); " if v is None else "M_i(%s); " % v

    def listing(vals):
        n = len(vals)
        nth = lambda i: vals[i] if -1 <= i < n and n else None
        return "M_t(%d); " % n + see(nth(0)) + see(nth(-1)) + "".join(see(nth(i)) for i in range(-1, n + 1)) + "".join("M_t(%d); %s" % (i, see(v)) for i, v in enumerate(vals)) + "M_t(-1); M_t(-9); "

    # lists: operations, what they show and what they leave
    def lops(n):
        yield from ("append", "prepend", "popHead", "popTail", "clear")
        for k in range(-1, n + 1):
            yield ("popNth", k)

    def lstep(o, st):
        """(code, reference, list after, cells used, cells destroyed)"""
        vals, used, gone = st
        n = len(vals)
        if o in ("append", "prepend"):
            if used > 3:
                return None
            return "osc_linkedlist_%s(l, &c%d); " % (o, used), "", (vals + (used,) if o == "append" else (used,) + vals, used + 1, gone)
        if o == "clear":
            return "osc_linkedlist_clear(l); ", "", ((), used, gone + vals)
        k = 0 if o == "popHead" else n - 1 if o == "popTail" else o[1] if o[1] >= 0 else n - 1
        code = "M_see(osc_linkedlist_%s(l%s)); " % (o if isinstance(o, str) else o[0], "" if isinstance(o, str) else ", %d" % o[1])
        if not 0 <= k < n:
            return code, see(None), st
        return code, see("x%d" % vals[k]), (vals[:k] + vals[k + 1:], used, gone)

    def lname(o):
        return o if isinstance(o, str) else "%s(%d)" % o
    seqs = [((), "", "", ((), 0, ()))]
    todo = seqs
    for depth in range(4):
        nxt = []
        for q, code, ref, st in todo:
            for o in lops(len(st[0])):
                if depth == 3 and o not in ("append", "prepend") and not (isinstance(o, tuple) and len(st[0]) == 3):
                    continue
                r = lstep(o, st)
                if r:
                    nxt.append((q + (o,), code + r[0], ref + r[1], r[2]))
        seqs = seqs + nxt
        todo = nxt
    for four in itertools.product(("append", "prepend"), repeat=3):
        st, code, ref = ((), 0, ()), "", ""
        for o in four + ("append",):
            a, b, st = lstep(o, st)
            code, ref = code + a, ref + b
        for k in range(-1, 5):
            a, b, t = lstep(("popNth", k), st)
            seqs.append((four + ("append", ("popNth", k)), code + a, ref + b, t))
    for dtor in (1, 0):
        for q, code, ref, (vals, used, gone) in seqs:
            if not dtor and len(q) > 3:
                continue
            code = "t_osc_linkedlist *l = osc_linkedlist_new(%s); " % ("M_end" if dtor else "0") + code + "M_list(l, %d); " % len(vals)
            ref += listing(["x%d" % v for v in vals])
            left = vals
            if len(vals) > 1:  # the links backwards: taken from the end
                code += "M_see(osc_linkedlist_popTail(l)); M_see(osc_linkedlist_peekTail(l)); M_see(osc_linkedlist_popTail(l)); "
                ref += see("x%d" % vals[-1]) + see("x%d" % vals[-2]) + see("x%d" % vals[-2])
                left = vals[:-2]
            code += "osc_linkedlist_destroy(l); "
            for v in range(used):
                code += "M_t(c%d.gone); " % v
                ref += "M_t(%d); " % (dtor if v in gone + left else 0)
            s.hpair("osc_linkedlist_new", ("%s%s" % (" ".join(map(lname, q)) or "nothing", "" if dtor else ", no destructor")), "a list holds what was put in and not taken out, in order; what is left in it is destroyed once", "int", P, CELLS + code + "return M_live;", ref + "return 0;")
    # copies
    own = "t_osc_linkedlist *l = osc_linkedlist_new(M_drop); "
    mk = lambda i: "{ M_cell *p = M_alloc(sizeof(M_cell)); p->v = x%d; p->gone = 0; p->key = 0; osc_linkedlist_append(l, p); } " % i
    for n in range(4):
        xs = ["x%d" % i for i in range(n)]
        ys = [x + " + 1" for x in xs]
        s.hpair("osc_linkedlist_clone", "a list of %d" % n, "a clone holds copies, in order, and is independent of the list", "int", P,
                own + "".join(map(mk, range(n))) + "t_osc_linkedlist *k = osc_linkedlist_clone(l, M_copy); M_list(l, %d); M_list(k, %d); osc_linkedlist_destroy(l); M_list(k, %d); osc_linkedlist_destroy(k); return M_live;" % (n, n, n),
                listing(xs) + listing(ys) + "".join("M_t(7); M_i(%s); " % x for x in xs) + listing(ys) + "".join("M_t(7); M_i(%s); " % y for y in ys) + "return 0;")
        s.hpair("osc_linkedlist_iterate", "taking out the head at each of %d" % n, "each element is visited although the one visited is taken out", "int", P,
                CELLS + "t_osc_linkedlist *l = osc_linkedlist_new(0); " + "".join("osc_linkedlist_append(l, &c%d); " % i for i in range(n)) + "osc_linkedlist_iterate(l, M_eat, l); M_t((int)osc_linkedlist_getCount(l)); osc_linkedlist_destroy(l); return M_live;",
                "".join("M_t(%d); M_i(%s); " % (i, x) for i, x in enumerate(xs)) + "M_t(-1); M_t(-9); M_t(0); return 0;")
    s.hpair("osc_linkedlist_new", "no list", "functions of a list do nothing without one", "int", P,
            CELLS + "osc_linkedlist_append(0, &c0); osc_linkedlist_prepend(0, &c0); osc_linkedlist_clear(0); osc_linkedlist_destroy(0); M_list(0, 1); M_see(osc_linkedlist_popHead(0)); M_see(osc_linkedlist_popTail(0)); M_see(osc_linkedlist_popNth(0, 1)); return M_live;",
            "M_t(0); " + "M_t(-9); " * 5 + "M_t(-1); M_t(-9); M_t(-9); M_t(-9); M_t(-9); return 0;")
    s.hpair("osc_linkedlist_clone", "no list", "functions of a list do nothing without one", "int", P, "M_t(!osc_linkedlist_clone(0, M_copy)); return M_live;", "M_t(1); return 0;")
    s.hpair("osc_linkedlist_append", "no data", "what is not there is not put into a list", "int", P, "t_osc_linkedlist *l = osc_linkedlist_new(0); osc_linkedlist_append(l, 0); osc_linkedlist_prepend(l, 0); M_list(l, 0); osc_linkedlist_iterate(l, 0, 0); osc_linkedlist_destroy(l); return M_live;", listing([]) + "return 0;")

    # tables.  A, R and c share a slot of the smallest table; AA and d do not
    KEYS = ["A", "R", "c", "AA"]

    NAMES = {k: k for k in KEYS}
    NAMES.update(B1="B1", L1="/long/name/1", L2="/long/name/2", U="\\303\\251\\377", W="\\303\\251")
    size_of = lambda k: NAMES[k].count("\\") or len(NAMES[k])

    def tops(used):
        for k in KEYS[:3] if used < 4 else []:
            yield ("store", k)
        for k in ("A", "R") if used < 4 else []:
            yield ("storeSafe", k)
        if used < 4:
            yield ("store", "AA")
        for k in ("A", "R", "c"):
            yield ("remove", k)
        yield ("clear", "")

    def tstep(o, st):
        d, used, log = st
        d, log, (f, k) = dict(d), dict(log), o
        add = lambda v, n: log.__setitem__(v, log.get(v, 0) + n)
        if f in ("store", "storeSafe"):
            code = 'char k%d[] = "%s"; c%d.key = k%d; osc_hashtab_%s(h, %d, k%d, &c%d); ' % (used, NAMES[k], used, used, f, size_of(k), used, used)
            if f == "store" and k in d:
                add(d[k], 1)
            if f == "store" or k not in d:
                d[k] = used
            return code, (d, used + 1, log)
        if f == "clear":
            for v in d.values():
                add(v, 1)
            return "osc_hashtab_clear(h); ", ({}, used, log)
        if k in d:
            add(d.pop(k), 10)
        return 'osc_hashtab_remove(h, %d, "%s", M_kill2); ' % (size_of(k), NAMES[k]), (d, used, log)
    tseqs = [((), "", ({}, 0, {}))]
    todo = tseqs
    for depth in range(3):
        nxt = []
        for q, code, st in todo:
            for o in tops(st[1]):
                a, t = tstep(o, st)
                nxt.append((q + (o,), code + a, t))
        tseqs = tseqs + nxt
        todo = nxt
    for three in itertools.permutations(("A", "R", "c")):  # the middle of a chain, and its ends
        for o in [(f, k) for f in ("remove", "store", "storeSafe") for k in KEYS]:
            st, code, q = ({}, 0, {}), "", tuple(("store", k) for k in three) + (o,)
            for x in q:
                a, st = tstep(x, st)
                code += a
            tseqs.append((q, code, st))
    # keys of the same hash, long keys that differ late, and bytes above 127
    for a, b in (("AA", "B1"), ("L1", "L2"), ("U", "W")):
        for x, y in ((a, b), (b, a)):
            for o in ((), (("remove", x),), (("remove", y),), (("store", x),), (("storeSafe", x), ("remove", x))):
                st, code, q = ({}, 0, {}), "", (("store", x), ("storeSafe", y)) + o
                for z in q:
                    t, st = tstep(z, st)
                    code += t
                tseqs.append((q, code, st))
    for size, dtor in ((1, 1), (1, 0), (20, 1)):
        for q, code, (d, used, log) in tseqs:
            if (size != 1 or not dtor) and len(q) > 2:
                continue
            code = CELLS + "M_tally t = {0, 0}; t_osc_hashtab *h = osc_hashtab_new(%d, %s); " % (size, "M_kill" if dtor else "0") + code
            ref = ""
            for k in KEYS + [k for k in NAMES if k not in KEYS and len(q) > 1 and q[0][1] in ("AA", "B1", "L1", "L2", "U", "W")]:
                code += 'M_see(osc_hashtab_lookup(h, %d, "%s")); ' % (size_of(k), NAMES[k])
                ref += see("x%d" % d[k] if k in d else None)
            code += "osc_hashtab_foreach(h, M_visit, &t); M_t(t.n); osc_hashtab_destroy(h); "
            ref += "M_t(%d); " % len(d)
            for v in range(used):
                n = log.get(v, 0)
                if not dtor:
                    n = n // 10 * 10
                if v in d.values():
                    n += 100000 + dtor
                code += "M_t(c%d.gone); " % v
                ref += "M_t(%d); " % n
            s.hpair("osc_hashtab_new", "%s%s%s" % (" ".join("%s(%s)" % o for o in q) or "nothing", "" if dtor else ", no destructor", "" if size == 1 else ", a larger table"), "a table has each key once, with the value last stored; what is replaced or left is destroyed once", "int", P, code + "return M_live;", ref + "return 0;")
    for n in (600, 100000):
        s.hpair("osc_hashtab_new", "a table for %d" % n, "a table may be asked to be large", "int", P, CELLS + 'char kA[] = "A"; t_osc_hashtab *h = osc_hashtab_new(%d, 0); osc_hashtab_store(h, 1, kA, &c0); M_see(osc_hashtab_lookup(h, 1, "A")); M_see(osc_hashtab_lookup(h, 1, "R")); return 0;' % n, "M_i(x0); M_t(-9); return 0;")
    s.hpair("osc_hashtab_new", "no table", "functions of a table do nothing without one", "int", P,
            CELLS + 'osc_hashtab_store(0, 1, "a", &c0); osc_hashtab_storeSafe(0, 1, "a", &c0); M_see(osc_hashtab_lookup(0, 1, "a")); osc_hashtab_remove(0, 1, "a", M_kill); osc_hashtab_foreach(0, M_visit, 0); osc_hashtab_clear(0); osc_hashtab_destroy(0); return M_live;', "M_t(-9); return 0;")
    nf.decide(c, s, 3175, chunk=200)
