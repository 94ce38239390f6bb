"""C13: evaluation of expressions: which arguments are evaluated, in which order, what comes out, and what happens to the bundle."""
import nf
from specs import *
from c12 import CALL
from c11 import INC as BINC, HEAD, ZERO, TAGS, msg

OBS = r'''
#include "osc_hashtab.h"
#include "osc_expr_rec.h"
#include "osc_expr_rec.r"
#include "osc_atom_array_s.h"
#include "osc_bundle_s.h"
INL char *M_blk(const void *im, int n){ char *b = M_alloc(n); memcpy(b, im, n); return b; }
INL int M_words(const void *x, const void *y, int n){ const char *p = x, *q = y; int r = 1; for(int i = 0; i < n; i += 4){ uint32_t a, b; memcpy(&a, p + i, 4); memcpy(&b, q + i, 4); r &= a == b; } return r; }
int M_match(const char *p, const char *a, int *po, int *ao){ *po = *ao = 0; return p[1] == a[1] ? 3 : 0; }
/* functions of the user's: the first notes its argument's value and passes it on, the second fails */
int M_note(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *ctx){
  M_t(argc);
  for(int i = 0; i < argc; i++) m_show(argv[i]);
  if(argc) *out = osc_atom_array_u_copy(argv[0]);
  return 0;
}
int M_fail(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *ctx){ M_t(-1); return 77; }
/* the third notes its arguments and passes the last one on */
int M_last(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *ctx){
  M_t(100 + argc);
  for(int i = 0; i < argc; i++) m_show(argv[i]);
  if(argc) *out = osc_atom_array_u_copy(argv[argc - 1]);
  return 0;
}
static const t_osc_expr_rec M_rlast = {.name = "last", .func = M_last};
static const t_osc_expr_rec M_rnote = {.name = "note", .func = M_note}, M_rfail = {.name = "fail", .func = M_fail};
INL t_osc_expr_arg *m_int(int32_t v){ t_osc_atom_u *a = osc_atom_u_alloc(); osc_atom_u_setInt32(a, v); t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setOSCAtom(g, a); return g; }
INL t_osc_expr_arg *m_bool(int v){ t_osc_atom_u *a = osc_atom_u_alloc(); osc_atom_u_setBool(a, v); t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setOSCAtom(g, a); return g; }
INL t_osc_expr_arg *m_str(const char *s){ t_osc_atom_u *a = osc_atom_u_alloc(); osc_atom_u_setString(a, s); t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setOSCAtom(g, a); return g; }
INL t_osc_expr_arg *m_list(int n, int32_t x, int32_t y, int32_t z, int32_t w){ t_osc_atom_ar_u *l = osc_atom_array_u_alloc(n); if(n > 0) osc_atom_u_setInt32(osc_atom_array_u_get(l, 0), x); if(n > 1) osc_atom_u_setInt32(osc_atom_array_u_get(l, 1), y); if(n > 2) osc_atom_u_setInt32(osc_atom_array_u_get(l, 2), z); if(n > 3) osc_atom_u_setInt32(osc_atom_array_u_get(l, 3), w); t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setList(g, l); return g; }
INL t_osc_expr_arg *m_adr(const char *s){ char *p = M_alloc(M_strlen(s) + 1); M_strcpy(p, s); t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setOSCAddress(g, p); return g; }
INL t_osc_expr_arg *m_sub(t_osc_expr *e){ t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setExpr(g, e); return g; }
int osc_expr_lambda(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context);
INL t_osc_expr_arg *m_fun(int n, char *p, char *q, t_osc_expr *body){
  t_osc_expr_rec *r = osc_expr_rec_alloc();
  char *names[2] = {p, q};
  if(n) osc_expr_rec_setRequiredArgs(r, n, names, 0);
  osc_expr_rec_setFunction(r, osc_expr_lambda);
  osc_expr_rec_setExtra(r, body);
  t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setFunction(g, r); return g;
}
/* environments: the table as a list of pairs */
struct m_ht { int n; t_osc_hashtab_dtor dtor; struct { char *k; void *v; int l; } e[4]; };
t_osc_hashtab *M_ht_new(int n, t_osc_hashtab_dtor d){ struct m_ht *h = M_alloc(sizeof(struct m_ht)); h->n = 0; h->dtor = d; return (t_osc_hashtab *)h; }
void *M_ht_lookup(t_osc_hashtab *t, int l, char *k){ struct m_ht *h = (void *)t; for(int i = 0; i < h->n; i++) if(h->e[i].l == l && !M_strcmp(h->e[i].k, k)) return h->e[i].v; return 0; }
void M_ht_store(t_osc_hashtab *t, int l, char *k, void *v){
  struct m_ht *h = (void *)t; int i;
  for(i = 0; i < h->n; i++) if(h->e[i].l == l && !M_strcmp(h->e[i].k, k)){ h->dtor(h->e[i].k, h->e[i].v); break; }
  h->e[i].k = k; h->e[i].v = v; h->e[i].l = l; if(i == h->n) h->n++;
}
void M_ht_each(t_osc_hashtab *t, void (*f)(char *, void *, void *), void *c){ struct m_ht *h = (void *)t; for(int i = 0; i < h->n; i++) f(h->e[i].k, h->e[i].v, c); }
void M_ht_destroy(t_osc_hashtab *t){ struct m_ht *h = (void *)t; for(int i = 0; i < h->n; i++) h->dtor(h->e[i].k, h->e[i].v); M_free(h); }
char *M_basename(char *p){ return p; }
INL void m_outcome(int r, t_osc_atom_ar_u *out){ M_t(r); if(out) m_show(out); }
'''


class Fun:
    """A function literal."""

    def __init__(self, params, *body):
        self.params, self.body = list(params), body

    def __str__(self):
        return "[%s]{%s}" % (",".join(self.params), "; ".join(show(x) for x in self.body))


class V(list):
    """A value already known: elements with their kinds."""


def show(x):
    return "%s(%s)" % (x[0], ", ".join(show(a) for a in x[1:])) if isinstance(x, tuple) else str(x) if isinstance(x, Fun) else "{%s}" % ", ".join(x) if isinstance(x, list) else x.lstrip("?")


def lit(a, env):
    """The value of a literal."""
    if isinstance(a, V):
        return a
    if isinstance(a, list):
        return V([("I", v) for v in a])
    if a[0] == '"':
        return env.get(a[1:-1], V([("S", a)]))
    return V([("B", a[1:])]) if a[0] == "?" else V([("I", a)])


def text(v):
    return "LEN(%d); " % len(v) + "".join("M_t('s'); m_puts(%s); " % x if k == "S" else "%s(%s); " % (k, x) for k, x in v) if v is not None else "M_i(0); "


UNB = "(int)OSC_ERR_EXPR_ADDRESSUNBOUND"


def ref(x, k, env={}):
    """Reference for an evaluation: the text of what is observed, k continuing with the value (None: no value) or the error."""
    if isinstance(x, str) and x[0] == "/":
        return k(None, UNB)
    if not isinstance(x, tuple):
        return k(lit(x, env), None)
    name, *args = x

    def all_(args, then, vals=()):
        """Evaluates arguments in order up to an error."""
        if len(vals) == len(args):
            return then(list(vals))
        return ref(args[len(vals)], lambda v, e: k(None, e) if e else all_(args, then, vals + (v,)), env)
    if name == "fail":
        return "M_t(-1); " + k(None, "77")
    if name in ("note", "last"):
        return all_(args, lambda vs: "M_t(%d); " % (len(vs) + 100 * (name == "last")) + "".join(text(v) for v in vs) + k((vs[0] if name == "note" else vs[-1]) if vs else None, None))
    if name in ("prog1", "prog2", "progn"):
        n = {"prog1": 1, "prog2": 2, "progn": len(args) or 1}[name]
        return all_(args, lambda vs: k(None, "1") if len(vs) < n else k(vs[n - 1] or V(), None))
    if name == "quote":
        return k(V([("S", args[0])]) if args[0][0] == '"' else lit(args[0], {}), None)
    if name == "if":
        if not 2 <= len(args) <= 3:
            return k(None, "1")

        def br(v, e):
            if e:
                return k(None, e)
            kk = lambda v, e: k(None, e) if e else k(v or V(), None)
            return "if(%s){ %s } else { %s }" % (v[0][1] if v else "0", ref(args[1], kk, env), ref(args[2], kk, env) if len(args) > 2 else k(V(), None))
        return ref(args[0], br, env)
    if name in ("andalso", "orelse"):
        if len(args) != 2:
            return k(None, "1")

        def second(v, e):
            return k(None, e) if e or v is None else k(v, None) if v and v[0][0] == "B" else k(None, "1")

        def first(v, e):
            if e or v is None:
                return k(None, e)
            if not v or v[0][0] != "B":
                return k(None, "1")
            return "if(%s(%s)){ %s } else { %s }" % ("!" if name == "andalso" else "", v[0][1], k(V([("B", "%d" % (name == "orelse"))]), None), ref(args[1], second, env))
        return ref(args[0], first, env)
    if name == "apply":
        f, *rest = args
        if isinstance(f, Fun):
            def call(vals):
                inner = dict(env)
                inner.update(zip(f.params, vals))

                def body(i):
                    return ref(f.body[i], lambda v, e: k(None, e) if e else body(i + 1) if i + 1 < len(f.body) else k(v, None), inner)
                return body(0)
            return all_(rest[:len(f.params)], call)
        if isinstance(f, tuple):
            return ref(f, lambda v, e: k(None, e) if e else k(None, "1") if v is None or len(v) != 1 or v[0][0] != "S" else ref(("apply", v[0][1]) + tuple(rest), k, env), env)
        if f[0] == "/":
            return k(None, UNB)
        if f[0] != '"' or f[1:-1] not in TABLE:
            return k(None, "1")
        return ref((f[1:-1],) + tuple(rest), k, env)
    if name == "map":
        if len(args) < 2:
            return k(None, "1")
        f, *ls = args

        def each(vs):
            n = min(len(v) for v in vs)

            def go(i, out):
                if i == n:
                    return k(V(out), None)
                return ref(("apply", f) + tuple(V([v[i]]) for v in vs), lambda v, e: k(None, e) if e else go(i + 1, out + list(v or [])), env)
            return go(0, [])
        return all_(ls, each)
    if name in ("lreduce", "rreduce"):
        if len(args) < 2:
            return k(None, "1")

        def fold(vs):
            l = [V([y]) for y in vs]
            if name == "rreduce":
                l.reverse()

            def step(acc, rest):
                if not rest:
                    return k(acc, None)
                two = (acc, rest[0]) if name == "lreduce" else (rest[0], acc)
                return ref(("apply", args[0]) + two, lambda v, e: k(None, e) if e else k(None, "1") if not v and len(rest) > 1 else step(v if len(rest) == 1 else V([v[0]]), rest[1:]), env)
            if len(args) > 2:
                return ref(args[2], lambda v, e: k(None, e) if e else k(None, "1") if not v else step(V([v[0]]), l), env)
            return k(vs, None) if len(l) == 1 else step(l[0], l[1:])
        return all_([args[1]], lambda vs: fold(vs[0]))
    raise ValueError(name)


TABLE = {"prog1", "prog2", "progn", "if", "andalso", "orelse", "quote", "apply", "map"}


class B:
    """Builds an expression: text that leaves it in variable e<n>."""

    def __init__(self):
        self.n = 0
        self.text = ""

    def expr(self, x):
        name, *args = x
        n = self.n
        self.n += 1
        self.text += "t_osc_expr *e%d = osc_expr_alloc(); osc_expr_setRec(e%d, %s); " % (n, n, {"note": "(t_osc_expr_rec *)&M_rnote", "fail": "(t_osc_expr_rec *)&M_rfail", "last": "(t_osc_expr_rec *)&M_rlast"}.get(name, 'osc_expr_lookupFunction("%s")' % name))
        for a in args:
            t = self.arg(a)
            self.text += "osc_expr_appendArg(e%d, %s); " % (n, t)
        return "e%d" % n

    def arg(self, a):
        if isinstance(a, Fun):
            b = [self.expr(x) for x in a.body]
            for x in b[1:]:
                self.text += "osc_expr_appendExpr(%s, %s); " % (b[0], x)
            return 'm_fun(%d, %s, %s)' % (len(a.params), ", ".join('"%s"' % p for p in (a.params + ["", ""])[:2]), b[0])
        if isinstance(a, tuple):
            return "m_sub(%s)" % self.expr(a)
        if isinstance(a, list):
            return "m_list(%d, %s)" % (len(a), ", ".join((a + ["0"] * 4)[:4]))
        if a[0] == '"':
            return "m_str(%s)" % a
        if a[0] == "/":
            return 'm_adr("%s")' % a
        if a[0] == "?":
            return "m_bool(%s)" % a[1:]
        return "m_int(%s)" % a


def run(c):
    s = nf.Spec(PRE + BINC + LIBC_MODELS + HEAP + EXPR + CALL + OBS)
    s.opaque += [("option", "split"), ("option", "lazy")] + [o if o[0] != "strcmp" else ("strcmp", "after:M_strcmp") for o in HEAP_OPAQUE] + [("M_t", "i"), ("M_i", "i"), ("M_d", "i"), ("osc_match", "model:M_match"), ("osc_error_handler", "model:M_error"), ("osc_expr_parser_*", "i"), ("__xpg_basename", "model:M_basename"), ("basename", "model:M_basename")] + [("osc_hashtab_" + k, "model:M_ht_" + v) for k, v in (("new", "new"), ("lookup", "lookup"), ("store", "store"), ("foreach", "each"), ("destroy", "destroy"))]
    P = "int32_t x, int32_t y, int32_t z"

    def X(anchor, key, e, r, what):
        b = B()
        b.expr(e)
        s.hpair(anchor, key, what, "int", P, b.text + "t_osc_atom_ar_u *o = 0; long n = 0; char *p = 0; int r = osc_expr_eval(e0, &n, &p, &o, 0); m_outcome(r, o); if(o) osc_atom_array_u_free(o); osc_expr_free(e0); return M_live;", r + "return 0;")
    EV = "osc_expr_eval"
    def E(x, what):
        X(EV, show(x), x, ref(x, lambda v, e: "M_t(%s); " % (e or "0") + (text(v) if v is not None else "")), what)
    n = lambda *a: ("note",) + a
    F = ("fail",)
    what = "each argument is evaluated once, in order, until one fails"
    for x in (n(), n("x"), n("x", "y"), n("x", "y", "z"), n(["x", "y"]), n([]), n('"ab"'), n("?x"), n(n("x")), n(n("x"), n("y")), n(n("x"), "y", n("z")), n(n(n("x"), "y"), n("z")), n(["x", "y"], n("z")),
              F, n(F), n(F, n("x")), n(n("x"), F), n(n("x"), F, n("y")), n("x", "y", F), n(n(F, n("y")), n("x")), n(n(), "x"), n("x", n()),
              n("/a"), n("/a", n("x")), n(n("x"), "/a", n("y")), n("x", n("/a"), n("y")), n('"ab"', n('"c"'), F)):
        E(x, what)
    what = "only the branch taken is evaluated"
    for t in ("x", n("x"), "?x", n("?x"), ["x", "y"], n(["x", "y"]), []):
        E(("if", t, n("y"), n("z")), what)
        E(("if", t, n("y")), what)
    for x in (("if", F, n("y"), n("z")), ("if", "x", F, n("z")), ("if", "x", n("y"), F), ("if", "/a", n("y"), n("z")), ("if", n("/a"), n("y")), ("if", "x", "/a", n("z")), ("if", "x", n("y"), "/a"), ("if", "x"), ("if", "x", "y", "z", "x"), ("if",),
              ("if", "x", "y", "z"), ("if", "x", ["y", "z"], "y"), ("if", "x", '"ab"', []), ("if", "x", ("if", "y", n("x"), n("y")), n("z")), n(("if", "x", n("y"), n("z"))), ("if", ("if", "x", "y", "z"), n("x"), n("y"))):
        if x[0] == "if" and len(x) > 1 and isinstance(x[1], tuple) and x[1][0] == "if":
            continue
        E(x, what)
    for f in ("andalso", "orelse"):
        what = "the second argument is evaluated only if the first does not decide"
        for l in ("?x", n("?x"), n("?x", F), F, "x", n("x"), "/a", n()):
            for r in ("?y", n("?y"), F, n("y"), "/a", n()):
                E((f, l, r), what)
        for x in ((f,), (f, "?x"), (f, "?x", "?y", "?z"), n((f, n("?x"), n("?y")), n("z")), (f, (f, n("?x"), n("?y")), n("?z"))):
            if len(x) > 1 and isinstance(x[1], tuple) and x[1][0] == f:
                continue
            E(x, what)
    what = "a function is entered with its parameters bound to its arguments; its last expression is its value"
    A = lambda f, *a: ("apply", f) + a
    a, b = '"a"', '"b"'
    for x in (A(Fun("a", n(a)), "x"), A(Fun("a", n(a, a)), n("x")), A(Fun("ab", n(a, b)), "x", "y"), A(Fun("ab", n(b, a)), n("x"), n("y")), A(Fun("", n("x"))), A(Fun("a", n(a, b)), "x"), A(Fun("a", n(a)), "x", n("y")),
              A(Fun("ab", n(a, b)), "x"), A(Fun("a", n(a)), ["x", "y"]), A(Fun("a", n(a)), F), A(Fun("ab", n(a)), n("x"), F), A(Fun("ab", n(a)), n("x"), "/a"), A(Fun("a", n("x"), n(a)), "y"), A(Fun("a", n(a), n("x"), n("y")), "z"),
              A(Fun("a", F, n(a)), "x"), A(Fun("a", n(a), F), "x"), A(Fun("a", ("if", a, n("y"), n("z"))), "x"), A(Fun("a", A(Fun("b", n(a, b)), "y")), "x"), A(Fun("a", A(Fun("b", n(a, b)), a)), "x"), A(Fun("a", A(Fun("a", n(a)), "y"), n(a)), "x"),
              A(Fun("a", ("quote", a)), "x"), n(A(Fun("a", n(a)), "x"), "y")):
        E(x, what)
    what = "a function is found by its name"
    for x in (A('"prog1"', n("x"), n("y")), A('"prog2"', n("x"), n("y")), A('"progn"', n("x"), n("y"), n("z")), A('"progn"', n("x"), F, n("z")), A('"zz"', n("x")), A(n('"prog2"'), n("x"), n("y")), A(n('"prog1"'), n("x")), A(F, n("x")), A("/a", n("x")),
              A(n("x"), n("y")), A(n(["x", "y"]), n("y")), A(n(), "x"), A("x", n("y")), A('"if"', "x", n("y"), n("z")), ("prog1", n("x"), n("y")), ("prog1",), ("prog2", "x"), ("progn",), ("prog2", n("x"), n("y"), n("z")), ("quote", '"ab"'), ("quote", "x")):
        E(x, what)
    what = "a function is applied to each member in turn, as many as the shortest list has"
    M = lambda f, *a: ("map", f) + a
    for x in (M(Fun("a", n(a)), ["x", "y"]), M(Fun("a", n(a)), "x"), M(Fun("a", n(a)), []), M(Fun("ab", n(a, b)), ["x", "y"], ["y", "z"]), M(Fun("ab", n(a, b)), ["x", "y"], "z"), M(Fun("ab", n(a, b)), n("x"), n(["y", "z"])), M(Fun("a", n(a)), F), M(Fun("ab", n(a)), n("x"), F),
              M(Fun("ab", n(a)), n("x"), "/a"), M(Fun("a", F), ["x", "y"]), M(Fun("a", n(a), ("if", a, "y", F)), ["x", "z"]), M(Fun("a", ("prog1", ["y", "z"])), ["x", "y"]), M(Fun("a", n(a, ["y", "z"])), ["x", "y"]), M('"prog1"', ["x", "y"]), M('"prog2"', ["x", "y"], ["z", "x"]), M('"prog2"', "x"), ("map", Fun("a", n(a))),
              M(Fun("a", n(a)), ["x", "y", "z"]), M(Fun("ab", n(a, b)), ["x", "y", "z"], ["z", "x"]), M(Fun("ab", n(a, b)), ["y", "z"], ["x", "y", "z"]), A(Fun("ab", A(Fun("ba", n(a, b)), a, b)), "x", "y"), A(Fun("ab", n(A(Fun("ba", n(a, b)), n(a), n(b)), a, b)), "x", "y")):
        E(x, what)
    what = "a list is folded from the left or from the right"
    for f in ("lreduce", "rreduce"):
        R = lambda g, *a: (f, g) + a
        for g in (Fun("ab", n(a, b)), Fun("ab", ("last", a, b))):
            for l in ("x", ["x", "y"], ["x", "y", "z"]):
                E(R(g, l), what)
                E(R(g, l, "z"), what)
                E(R(g, n(l), n("z")), what)
        for x in (R(Fun("ab", n(a, b)), F), R(Fun("ab", n(a, b)), "/a"), R(Fun("ab", n(a, b)), n("x"), F), R(Fun("ab", n(a, b)), n("x"), "/a"), R(Fun("ab", n(a), F), ["x", "y"]), R(Fun("ab", n(a), F), ["x", "y"], "z"), R(Fun("ab", n(a, b)), "x", ["y", "z"]), R('"prog1"', ["x", "y"], "z"), R('"prog2"', ["x", "y"], "z"), R('"prog2"', ["x", "y"]),
                  (f, Fun("ab", n(a)))):
            E(x, what)
    nf.decide(c, s, 281, chunk=18, mix=True)
