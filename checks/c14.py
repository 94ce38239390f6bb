"""C14: expressions and the bundle they are evaluated against: what they read from it, what they leave in it."""
from collections import namedtuple
import nf
from specs import *
from c12 import CALL
from c11 import INC as BINC
import c13
from c13 import B, V, Fun, show, lit, text, UNB

OBS = c13.OBS.replace("p[1] == a[1]", "(p[1] == '?' || p[1] == a[1])") + r'''
/* messages made here hold integers only */
size_t M_mser(char *buf, size_t n, t_osc_msg_u *m){
  int k = osc_message_u_getArgCount(m);
  size_t len = (k < 3 ? 12 : 16) + 4 * k;
  if(!buf) return len;
  if(n < len) return 0;
  uint32_t w[9], p = 0;
  w[p++] = be32((uint32_t)len - 4);
  w[p++] = '/' | (uint32_t)(uint8_t)osc_message_u_getAddress(m)[1] << 8;
  w[p++] = k == 0 ? ',' : k == 1 ? ',' | 'i' << 8 : k == 2 ? ',' | 'i' << 8 | 'i' << 16 : ',' | 'i' << 8 | 'i' << 16 | 'i' << 24;
  if(k >= 3) w[p++] = k == 3 ? 0 : 'i';
  for(int i = 0; i < k; i++) w[p++] = be32((uint32_t)osc_atom_u_getInt32(osc_message_u_getArg(m, i)));
  memcpy(buf, w, len);
  return len;
}
'''
HEAD = ["0x6e756223u", "0x00656c64u"]
KEEP = ("t0", "t1")


class S(namedtuple("S", "tt ms")):
    """What a bundle holds: its time, and its messages in order."""

    def find(self, adr):
        return next((i for i, m in enumerate(self.ms) if m[0] == adr), None)

    def seen(self, adr):
        """The messages a lookup finds."""
        return [m for m in self.ms if adr[1] == "?" or m[0] == adr]

    def put(self, adr, vals):
        i, m = self.find(adr), (adr, tuple(vals))
        return self._replace(ms=self.ms + (m,) if i is None else self.ms[:i] + (m,) + self.ms[i + 1:])


def words(b):
    """The words of a bundle: messages of integers, times, and strings of at most three letters."""
    out = HEAD + ["be32(%s)" % t for t in b.tt]
    for adr, vals in b.ms:
        tags = [","] + [{"I": "i", "S": "s", "TT": "t"}[k] for k, _ in vals]
        t = [" | ".join("'%s' << %d" % (c, 8 * j) for j, c in enumerate(tags[i:i + 4])) or "0" for i in range(0, len(tags) + 1, 4)]
        body = ["('/' | '%s' << 8)" % adr[1]] + ["(%s)" % w for w in t]
        for k, v in vals:
            body += ["be32((uint32_t)%s)" % v] if k == "I" else ["be32(%s)" % w for w in v.split(", ")] if k == "TT" else ["(%s)" % " | ".join("'%s' << %d" % (ch, 8 * j) for j, ch in enumerate(v[1:-1]))]
        out += ["be32(%d)" % (4 * len(body))] + body
    return out


def ref(x, b, env={}):
    """Reference: (observations, value or None, error or None, bundle left)."""
    if isinstance(x, str) and x[0] == "/":
        at = [] if b is None else b.seen(x)
        return ("", V(at[0][1]), None, b) if at else ("", None, UNB, b)
    if not isinstance(x, tuple):
        return "", lit(x, env), None, b
    name, *args = x
    if name == "fail":
        return "M_t(-1); ", None, "77", b
    if name in ("note", "last", "prog1", "prog2", "progn"):
        o, vs = "", []
        for a in args:
            p, v, e, b = ref(a, b, env)
            o += p
            if e:
                return o, None, e, b
            vs.append(v)
        if name in ("note", "last"):
            return o + "M_t(%d); " % (len(vs) + 100 * (name == "last")) + "".join(text(v) for v in vs), (vs[0] if name == "note" else vs[-1]) if vs else None, None, b
        n = {"prog1": 1, "prog2": 2, "progn": len(args) or 1}[name]
        return (o, None, "1", b) if len(vs) < n else (o, V(vs[n - 1] or []), None, b)
    if name == "if":
        o, v, e, b = ref(args[0], b, env)
        if e:
            return o, None, e, b
        t = v[0][1] if v else "0"
        if t not in ("0", "1"):
            raise ValueError("undecided test")
        if t == "0" and len(args) < 3:
            return o, V(), None, b
        p, v, e, b = ref(args[1 if t == "1" else 2], b, env)
        return o + p, None if e else V(v or []), e, b
    if name == "apply":
        f, *rest = args
        inner, o, v = dict(env), "", None
        for p, a in zip(f.params, rest):
            q, v, e, b = ref(a, b, env)
            o += q
            if e:
                return o, None, e, b
            inner[p] = v
        for y in f.body:
            q, v, e, b = ref(y, b, inner)
            o += q
            if e:
                return o, None, e, b
        return o, v, None, b
    if b is None:
        return "", None, "1", b
    if name == "assign":
        o, t = "", args[0]
        if not (isinstance(t, str) and t[0] == "/"):
            if isinstance(t, tuple) and t[0] == "value" and isinstance(t[1], str) and t[1][0] == "/" and b.find(t[1]) is not None:
                t = t[1]
            o, v, e, b = ref(t, b, env)
            if e:
                return o, None, e if e == UNB else "1", b
            if not v or v[0][0] != "S":
                return o, None, "1", b
            t = v[0][1][1:-1]
            if t[0] != "/":
                return o, None, "(int)OSC_ERR_MALFORMEDADDRESS", b
        p, v, e, b = ref(args[1], b, env)
        if e:
            return o + p, None, e, b
        return o + p, v, None, b.put(t, v or ())
    if name == "assign_to_index":
        if len(args) != 3 or not (isinstance(args[0], str) and args[0][0] == "/"):
            return "", None, "1", b
        at = b.find(args[0])
        if at is None:
            return "", None, "1", b
        now = list(b.ms[at][1])
        o, ix, e, b = ref(args[1], b, env)
        if e:
            return o, None, e, b
        p, v, e, b = ref(args[2], b, env)
        o += p
        if e:
            return o, None, e, b
        if not ix or not v:
            return o, None, "1", b
        ns = [int(k) for _, k in ix]
        if len(ns) == 1 and len(v) > 1 and not 0 <= ns[0] < len(now):
            return o, None, "1", b
        for n, y in zip(ns, list(v) * (len(ns) if len(v) == 1 else 1)):
            if 0 <= n < len(now):
                now[n] = y
        return o, V(now), None, b.put(args[0], now)
    if name in ("bound", "exists"):
        o, a = "", args[0]
        if not (isinstance(a, str) and a[0] == "/"):
            if isinstance(a, list) or isinstance(a, str) and a[0] != '"':
                return o, None, "1", b
            o, v, e, b = ref(a, b, env)
            if e or v is None or len(v) != 1 or v[0][0] != "S" or isinstance(args[0], tuple) and v[0][1][1] != "/":
                return o, None, "1", b
            a = v[0][1][1:-1]
        return o, V([("B", "%d" % any(name == "exists" or m[1] for m in b.seen(a)))]), None, b
    if name == "value":
        o, v, e, b = ref(args[0], b, env)
        if e or not v or v[0][0] != "S":
            return o, None, e, b
        at = b.seen(v[0][1][1:-1])
        return o, V(at[0][1]) if at else None, None, b
    if name == "getmsgcount":
        return "", V([("I", "%d" % len(b.ms))]), None, b
    if name == "getaddresses":
        return "", V([("S", '"%s"' % m[0]) for m in b.ms]), None, b
    if name == "emptybundle" and not args:
        return "", V([("B", "%d" % (not b.ms))]), None, b
    if name == "gettimetag":
        return "", V([("TT", "%s, %s" % b.tt)]), None, b
    if name == "settimetag":
        o, v, e, b = ref(args[0], b, env)
        return (o, None, "1", b) if e or not v else (o, None, None, b._replace(tt=tuple(v[0][1].split(", "))))
    if name == "delete":
        for a in args:
            if isinstance(a, str) and a[0] in '/"':
                b = b._replace(ms=tuple(m for m in b.ms if m[0] != a.strip('"')))
        return ("", None, None, b) if args else ("", None, "1", b)
    raise ValueError(name)


def run(c):
    s = nf.Spec(PRE + BINC + LIBC_MODELS + HEAP + EXPR + CALL + OBS)
    s.opaque += [("option", "split"), ("option", "lazy")] + [o if o[0] != "strcmp" else ("strcmp", "after:M_strcmp") for o in HEAP_OPAQUE] + [("M_t", "i"), ("M_i", "i"), ("M_d", "i"), ("osc_match", "model:M_match"), ("osc_message_u_nserialize", "model:M_mser"), ("osc_error_handler", "model:M_error"), ("osc_expr_parser_*", "i"), ("__xpg_basename", "model:M_basename"), ("basename", "model:M_basename")] + [("osc_hashtab_" + k, "model:M_ht_" + v) for k, v in (("new", "new"), ("lookup", "lookup"), ("store", "store"), ("foreach", "each"), ("destroy", "destroy"))]
    P = "int32_t x, int32_t y, int32_t z, uint32_t t0, uint32_t t1, uint32_t t2, uint32_t t3"

    def E(x, b, what, anchor="osc_expr_eval"):
        bld = B()
        bld.expr(x)
        o, v, e, after = ref(x, b)
        tail = "M_t(%s); " % (e or "0") + (text(v) if v is not None and not e else "") + "return 1;"
        key = "%s on %s" % (show(x), "no bundle" if b is None else " ".join("%s(%s)" % (m[0], ",".join(z[1] for z in m[1])) for m in b.ms) or "nothing")
        if b is None:
            s.hpair(anchor, key, what, "int", P, bld.text + "t_osc_atom_ar_u *o = 0; int r = osc_expr_eval(e0, 0, 0, &o, 0); m_outcome(r, o); if(o) osc_atom_array_u_free(o); osc_expr_free(e0); return 1 + 10 * M_live;", o + tail)
            return
        w, w2 = words(b), words(after)
        s.hpair(anchor, key, what, "int", P, "uint32_t b_[%d] = {%s}; char *b = M_blk(b_, %d); long lb = %d; " % (len(w), ", ".join(w), 4 * len(w), 4 * len(w)) + bld.text +
                "t_osc_atom_ar_u *o = 0; int r = osc_expr_eval(e0, &lb, &b, &o, 0); m_outcome(r, o); uint32_t w[%d] = {%s}; int ok = lb == %d && M_words(b, w, %d); if(o) osc_atom_array_u_free(o); osc_expr_free(e0); M_free(b); return ok + 10 * M_live;" % (len(w2), ", ".join(w2), 4 * len(w2), 4 * len(w2)), o + tail)
    n = lambda *a: ("note",) + a
    m = lambda a, *v: (a, tuple(("I", i) for i in v))
    t = lambda a, v: (a, (("S", '"%s"' % v),))
    N = lambda *ms: S(KEEP, tuple(ms))
    F = ("fail",)
    B0, B1, B2, B3 = N(), N(m("/a", "y")), N(m("/b", "x"), m("/a", "y", "z")), N(m("/a", "x", "y"), m("/b"), m("/c", "z"))
    B4, B5, B6 = N(t("/p", "/a"), m("/a", "x")), N(t("/p", "/q")), N(m("/a", "x"), t("/p", "xy"))
    BT = N(m("/a", "x"), ("/t", (("TT", "t2, t3"),)))
    what = "an address stands for what the bundle holds under it"
    for x in (n("/a"), n("/a", "/b"), n(n("/a")), n("x", "/a")):
        for b in (None, B0, B1, B2, B3):
            E(x, b, what)
    for x in (("if", "1", "/a", "/b"), ("if", "0", "/a", "/b"), ("apply", Fun("a", n('"a"', "/b")), "/a"), ("progn", "/a", "/b")):
        E(x, B2, what)
    E(n("/p", "/a"), B4, what)
    E(n("/t"), BT, what)
    what = "assignment replaces the message at the address or adds one, and has the value assigned"
    A = lambda *a: ("assign",) + a
    for b in (B0, B1, B2, B3):
        for x in (A("/a", "x"), A("/a", ["x", "y"]), A("/b", []), A("/a", n("z")), A("/c", "/a"), A("/a", F), n(A("/a", "x"), "/a"), A("/c", n())):
            E(x, b, what)
    for x in (A("/a", A("/b", "z")), ("progn", A("/a", "z"), A("/b", "/a")), ("if", "0", A("/a", "x"), A("/b", "z")), ("if", "1", A("/a", "x"), A("/b", "z")), n(A("/a", "z"), A("/a", "x")), ("apply", Fun("a", A("/a", '"a"')), "x"),
              A("/a", "/d"), A('"/a"', "z"), A('"xy"', "z"), A("x", "z"), A(F, "z"), A(n('"/b"'), "z"), A(n("x"), "z"), A("/a", ("if", "1", "/b", "x"))):
        E(x, B2, what)
    for x in (A("/a", "x"), A('"/a"', n("x"))):
        E(x, None, what)
    what = "assignment to what an address names"
    for x in (A(("value", "/p"), "z"), A(("value", "/p"), n("y", "z")), A(("value", '"/p"'), "z"), A(("value", "/q"), "z")):
        for b in (B4, B5, B6):
            E(x, b, what)
    what = "elements at the indexes are replaced and the others kept"
    J = lambda *a: ("assign_to_index",) + a
    for b in (B1, B2, B3, B0):
        for x in (J("/a", "0", "z"), J("/a", "1", "z"), J("/a", ["0", "1"], "z"), J("/a", ["1", "0"], ["x", "z"]), J("/a", "0", ["x", "z"]), J("/a", "1", ["x", "z"]), J("/a", "-1", "z"), J("/a", n("0"), n("z")), J("/a", ["-1", "1", "0"], "z"), J("/a", ["2", "1", "0"], ["x", "y", "z"])):
            E(x, b, what)
    for x in (J("/a", ["0", "1"], []), J("/a", [], "z"), J("/a", "/d", "z"), J("/a", "0", "/d"), J("/a", F, "z"), J("/a", "0", F), J("/a", "0"), J("x", "0", "z"), J(n("/a"), "0", "z"), J("/a", "0", "/b"), J("/b", "0", "/a"), J("/a", ["0", "0"], ["x", "z"])):
        E(x, B2, what)
    E(J("/a", "0", "z"), None, what)
    what = "an address is bound when a message there has arguments, and exists when there is a message"
    for f in ("bound", "exists"):
        for a in ("/a", "/b", '"/a"', n('"/b"'), "/d"):
            for b in (B0, B1, B3):
                E((f, a), b, what)
        for a in (n(), n("x"), n('"xy"'), n(['x', 'y']), F, "x", ["x", "y"]):
            E((f, a), B2, what)
        E((f, "/a"), None, what)
        E(("if", "1", (f, "/a"), "x"), B1, what)
    what = "what is at the address that an address holds"
    V_ = lambda *a: ("value",) + a
    for a in ("/p", '"/a"', '"/p"', n("/p"), "/a", n('"/a"'), "x", n("x"), F, "/d", n(), '"/d"', n(F)):
        for b in (B4, B5, B6):
            E(V_(a), b, what)
    E(n(V_("/p"), "x"), B4, what)
    E(V_("/p"), None, what)
    what = "messages are counted and listed in order"
    for b in (None, B0, B1, B2, B3, B4):
        for x in (("getmsgcount",), ("getaddresses",), ("emptybundle",), n(("getmsgcount",), ("getaddresses",))):
            E(x, b, what)
    E(("progn", A("/d", "x"), ("getmsgcount",)), B2, what)
    E(("progn", ("delete", "/a"), ("getaddresses",)), B3, what)
    what = "messages at the addresses given are taken out, the rest stay"
    D = lambda *a: ("delete",) + a
    for b in (B0, B1, B2, B3, N(m("/a", "x"), m("/a", "y", "z"), m("/b"))):
        for x in (D("/a"), D('"/b"'), D("/b", "/a"), D("/d"), D("x", "/a"), D(n("x"), '"/a"')):
            E(x, b, what)
    E(D(), B1, what)
    E(D("/a"), None, what)
    E(("progn", D("/a"), n("/a")), B2, what)
    E(("progn", D("/a"), A("/a", "x")), B3, what)
    what = "the time of the bundle is read and set, and nothing else changes"
    for b in (None, B0, B2, BT):
        for x in (("gettimetag",), n(("gettimetag",)), ("settimetag", "/t"), ("settimetag", n("/t")), ("settimetag", F), ("settimetag", []), ("settimetag", n()), ("settimetag", ("gettimetag",))):
            E(x, b, what)
    what = "a pattern reads the first message it matches, and names only itself when written to"
    BP, BQ = N(m("/b"), m("/a", "y", "z")), N(m("/?", "x"), m("/a", "y"))
    for b in (B0, B2, BP, BQ, B3):
        for x in (n("/?"), ("bound", "/?"), ("exists", "/?"), V_('"/?"'), n("/a"), A("/?", "x"), A("/a", "/?"), A("/a", "z"), D("/?"), D("/a"), ("progn", A("/?", "x"), n("/?"))):
            E(x, b, what)
    what = "the first of several messages at an address is read; any of them makes it bound"
    B7, B8 = N(m("/a"), m("/b", "z"), m("/a", "x")), N(m("/a", "x"), m("/a", "y", "z"))
    for b in (B7, B8):
        for x in (n("/a"), ("bound", "/a"), ("exists", "/a"), V_('"/a"'), ("getmsgcount",), ("getaddresses",), D("/a"), ("progn", D("/a"), ("emptybundle",)), D("/b", "/a")):
            E(x, b, what)
    nf.decide(c, s, 393, chunk=25, mix=True)
