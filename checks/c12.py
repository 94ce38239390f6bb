"""C12: the functions of the expression language, called by name: what each computes, element by element."""
import re
import nf
from specs import *

NAME = {t: nm for t, (nm, ct) in API.items()}
CT = {t: ct for t, (nm, ct) in API.items()}
CALL = r'''
#include "osc_expr.h"
#include "osc_error.h"
/* what a call shows: a sequence of values */
extern void M_t(int);
extern void M_i(int64_t);
extern void M_d(double);
extern int M_cmp3(uint32_t, uint32_t) __attribute__((const));
int M_error(void *ctx, const char *file, const char *fn, int line, t_osc_err e, const char *fmt, ...){ return 0; }
void M_qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)){
  char *b = base, t[64];
  if(size > sizeof t) M_open();
  for(size_t i = 1; i < n; i++)
    for(size_t j = i; j > 0 && cmp(b + (j - 1) * size, b + j * size) > 0; j--){ memcpy(t, b + j * size, size); memcpy(b + j * size, b + (j - 1) * size, size); memcpy(b + (j - 1) * size, t, size); }
}
char *M_strstr(const char *h, const char *n){
  for(;; h++){ size_t i = 0; while(n[i] && h[i] == n[i]) i++; if(!n[i]) return (char *)h; if(!*h) return 0; }
}
INL int m_in(const char *set, char c){ for(; *set; set++) if(*set == c) return 1; return 0; }
char *M_strtok_r(char *s, const char *sep, char **save){
  if(!s) s = *save;
  while(*s && m_in(sep, *s)) s++;
  if(!*s){ *save = s; return 0; }
  char *t = s;
  while(*s && !m_in(sep, *s)) s++;
  if(*s) *s++ = 0;
  *save = s;
  return t;
}
#define m_call(name, argc, argv, out) ({ t_osc_expr_rec *rec = osc_expr_lookupFunction(name); t_osc_expr e; memset(&e, 0, sizeof e); e.rec = rec; rec && rec->func ? rec->func(&e, argc, argv, out, 0) : 99; })
INL char *m_text(uint32_t v, int n){ char *p = M_alloc(n + 1); for(int i = 0; i < n; i++) p[i] = 1 | (v >> (8 * i)); p[n] = 0; return p; }
INL void m_puts(const char *s){ for(;;){ M_i(*s); if(!*s) return; s++; } }
INL void m_put(t_osc_atom_u *a){
  int t = osc_atom_u_getTypetag(a);
  M_t(t);
  switch(t){
  case 'c': M_i(osc_atom_u_getInt8(a)); break;
  case 'C': M_i(osc_atom_u_getUInt8(a)); break;
  case 'u': M_i(osc_atom_u_getInt16(a)); break;
  case 'U': M_i(osc_atom_u_getUInt16(a)); break;
  case 'i': M_i(osc_atom_u_getInt32(a)); break;
  case 'I': M_i(osc_atom_u_getUInt32(a)); break;
  case 'h': M_i(osc_atom_u_getInt64(a)); break;
  case 'H': M_i(osc_atom_u_getUInt64(a)); break;
  case 'f': M_d(osc_atom_u_getFloat(a)); break;
  case 'd': M_d(osc_atom_u_getDouble(a)); break;
  case 's': m_puts(osc_atom_u_getStringPtr(a)); break;
  case 't': { t_osc_timetag g = osc_atom_u_getTimetag(a); M_i(g.sec); M_i(g.frac_sec); } break;
  case 'b': { char *b = osc_atom_u_getBlob(a); M_i(osc_atom_u_getBlobLen(a)); for(int i = 0; i < osc_atom_u_getBlobLen(a); i++) M_i(b[4 + i]); } break;
  }
}
INL void m_show(t_osc_atom_ar_u *r){
  M_i(osc_atom_array_u_getLen(r));
  for(int i = 0; i < osc_atom_array_u_getLen(r); i++) m_put(osc_atom_array_u_get(r, i));
}
/* the same, written by a reference */
#define LEN(n) M_i(n)
#define P(t, v) do { M_t(t); M_i(v); } while(0)
#define I(v) P('i', (int32_t)(v))
#define H(v) P('h', (int64_t)(v))
#define D(v) do { M_t('d'); M_d(v); } while(0)
#define FL(v) do { M_t('f'); M_d((float)(v)); } while(0)
#define B(v) M_t((v) ? 'T' : 'F')
#define TAG(t) M_t(t)
INL void S(uint32_t v){ M_t('s'); for(int i = 0; i < 3; i++) M_i((char)(1 | (v >> (8 * i)))); M_i(0); }
INL void TT(uint32_t s, uint32_t f){ M_t('t'); M_i(s); M_i(f); }
INL void num(double v){ /* a whole number in the narrowest of int32, uint32, int64, uint64 that holds it */
  if(v >= -2147483648. && v <= 2147483647.) I(v);
  else if(v >= 0 && v <= 4294967295.) P('I', (uint32_t)v);
  else if(v >= -9223372036854775808. && v < 9223372036854775808.) H(v);
  else if(v >= 0 && v < 18446744073709551616.) P('H', (uint64_t)v);
  else D(v);
}
#define SGN(x) ((x) == 0 ? 0 : (x) < 0 ? -1 : 1)
'''
BASE = "abcde"


def run(c):
    s = nf.Spec(PRE + EXPR + LIBC_MODELS + HEAP + CALL)
    s.opaque += [("option", "split")] + [o if o[0] != "strcmp" else ("strcmp", "after:M_strcmp") for o in HEAP_OPAQUE] + [("osc_bundle_*", "i"), ("osc_message_*", "i"), ("osc_expr_parser_*", "i")] + [("M_t", "i"), ("M_i", "i"), ("M_d", "i"), ("osc_error_handler", "model:M_error"), ("qsort", "model:M_qsort"), ("strstr", "model:M_strstr"), ("strtok_r", "model:M_strtok_r")]
    A = "osc_expr_lookupFunction"

    def ctype(t):
        return {"s": "uint32_t", "t": "uint64_t"}.get(t) or CT[t]

    def elem(t, v):
        if t in "TFN":
            return {"T": "osc_atom_u_setTrue(e);", "F": "osc_atom_u_setFalse(e);", "N": "osc_atom_u_setNil(e);"}[t]
        if t == "s" and v[0] == '"':
            return "osc_atom_u_setString(e, %s);" % v
        if t == "s":
            return "{ osc_atom_u_setStringPtr(e, m_text(%s, 3)); osc_atom_u_setShouldFreePtr(e, 1); }" % v
        if t == "t":
            return "{ t_osc_timetag g; g.sec = %s >> 32; g.frac_sec = %s; osc_atom_u_setTimetag(e, g); }" % (v, v)
        return "osc_atom_u_set%s(e, %s);" % (NAME[t], v)

    def show(t, v):
        if t in "TFN":
            return "TAG('%s');" % t
        if t == "s" and v[0] == '"':
            return "TAG('s'); m_puts(%s);" % v
        return {"s": "S(%s);", "t": "TT(%s >> 32, %s);", "d": "D(%s);", "f": "FL(%s);"}.get(t, "P('%s', %%s);" % t).replace("%s", v)

    def X(name, lists, want, what, key=None, err=None, extra=""):
        """name(lists...) must show `want`: C text over a0, a1, .., b0, .. (the elements); err: the call fails; want None: no value.
        A list is a sequence of tags; 'i=3' is an element of known value."""
        par, h, args = [], "", ""
        lists = [re.findall(r"[a-zA-Z](?:=(?:-?[\d.]+|'.'|\"[^\"]*\"))?", l) for l in lists]
        for j, l in enumerate(lists):
            h += "t_osc_atom_ar_u *l%d = osc_atom_array_u_alloc(%d); " % (j, len(l))
            args += "LEN(%d); " % len(l)
            for k, e in enumerate(l):
                t, v = e[0], "%s%d" % (BASE[j], k)
                if "=" in e:
                    v = "(%s)" % e[2:] if t != "s" else e[2:]
                elif t not in "TFN":
                    par.append("%s %s" % (ctype(t), v))
                h += "{ t_osc_atom_u *e = osc_atom_array_u_get(l%d, %d); %s } " % (j, k, elem(t, v))
                args += show(t, v)
        n = len(lists)
        h += "t_osc_atom_ar_u *argv[%d] = {%s}, *out = 0; int err = m_call(\"%s\", %d, argv, &out); M_t(err ? 'E' : out ? '=' : '0'); if(!err && out) m_show(out); " % (
            max(n, 1), ", ".join("l%d" % j for j in range(n)) or "0", name, n)
        # the arguments read as before; everything is released
        h += "".join("m_show(l%d); " % j for j in range(n)) + "osc_atom_array_u_free(out); " + "".join("osc_atom_array_u_free(l%d); " % j for j in range(n)) + "return M_live;"
        r = extra + ("M_t('E'); " if err else "M_t('0'); " if want is None else want if want.startswith("!") else "M_t('='); " + want).lstrip("!")
        s.hpair(A, key or "%s(%s)" % (name, ", ".join("".join(l) or "-" for l in lists)), what, "int", ", ".join(par) or "int unused", h, r + " " + args + "return 0;")

    def L(*vals):
        return "LEN(%d); " % len(vals) + "".join(v + ";" for v in vals)

    def copy(tags, names):
        return L(*[show(t, n) for t, n in zip(tags, names)])
    WID = "cCuUiIhHfd"
    ERR = "an error, and nothing else happens"
    ONE = ("1", "2")
    # mathematics on every element, in double
    what = "the function it is named after, for every element"
    for f, g in dict(abs="fabs", acos="acos", asin="asin", atan="atan", ceil="ceil", cos="cos", cosh="cosh", exp="exp", floor="floor", log="log", log10="log10", sin="sin", sinh="sinh", sqrt="sqrt", tan="tan", tanh="tanh",
                     erf="erf", erfc="erfc", gamma="tgamma", j0="j0", j1="j1", lgamma="lgamma", y0="y0", y1="y1", acosh="acosh", asinh="asinh", atanh="atanh", cbrt="cbrt", expm1="expm1", logb="logb", round="round").items():
        X(f, ["d"], L("D(%s(a0))" % g), what)
        X(f, ["di"], L("D(%s(a0))" % g, "D(%s((double)a1))" % g), what)
    for f in ("atan2", "fmod", "pow", "hypot", "remainder", "nextafter"):
        X(f, ["d", "d"], L("D(%s(a0, b0))" % f), what)
        X(f, ["id", "d"], L("D(%s((double)a0, b0))" % f, "D(%s(a1, b0))" % f), what)
    X("ilogb", ["d"], L("I(ilogb(a0))"), what)
    X("ilogb", ["di"], L("I(ilogb(a0))", "I(ilogb((double)a1))"), what)
    for f in ("jn", "yn"):
        X(f, ["i", "d"], L("D(%s(a0, b0))" % f), what)
    # constants
    for f, v in dict(pi="M_PI", twopi="2 * M_PI", halfpi="M_PI / 2", quarterpi="M_PI / 4", oneoverpi="1 / M_PI", twooverpi="2 / M_PI", e="M_E", lntwo="M_LN2", lnten="M_LN10", logtwoe="M_LOG2E", logtene="M_LOG10E",
                     sqrttwo="M_SQRT2", sqrthalf="M_SQRT1_2", phi="1.618033988749895", degtorad="0.017453", radtodeg="57.29578",
                     twelfth_root_of_2="1.059463094359295", thirteenth_root_of_3="1.088182243463317").items():
        X(f, [], L("D(%s)" % v), "the constant it is named after")
    # lists
    what = "the elements the indexes name, in their order"
    for tags in ("i", "id", "sif"):
        n = len(tags)
        names = ["a%d" % k for k in range(n)]
        for k in range(-1, n + 1):
            if 0 <= k < n:
                X("nth", [tags, "i=%d" % k], copy(tags[k], [names[k]]), what)
            else:
                X("nth", [tags, "i=%d" % k], None, ERR, err=1)
        X("nth", [tags, "i=%di=0" % (n - 1)], copy(tags[n - 1] + tags[0], [names[n - 1], names[0]]), what)
        X("nth", [tags, "d=%d.7" % (n - 1), "i=0"], copy(tags[n - 1] + tags[0], [names[n - 1], names[0]]), what)
        X("nth", [tags, "i=0i=%d" % n], None, ERR, err=1)
        X("nth", [tags, ""], L(), what)
        what2 = "a copy with the element there replaced"
        for k in range(-1, n + 1):
            d = list(zip(tags, names))
            if 0 <= k < n:
                d[k] = ("d", "c0")
            X("assign_to_index", [tags, "i=%d" % k, "d"], copy(*zip(*d)), what2)  # an index outside the list is skipped
            d = list(zip(tags, names))
            if 0 <= k < n:
                d[k] = ("s", "c0")
                X("assign_to_index", [tags, "i=%d" % k, "sd"], copy(*zip(*d)), what2)
            else:
                X("assign_to_index", [tags, "i=%d" % k, "sd"], None, ERR, err=1)
            d = list(zip(tags, names))
            d[0] = ("d", "c0")
            if 0 <= k < n:
                d[k] = ("d", "c0")
            X("assign_to_index", [tags, "i=0i=%d" % k, "d"], copy(*zip(*d)), "one value goes to every index")
            d = list(zip(tags, names))
            d[0] = ("d", "c0")
            if 0 <= k < n:
                d[k] = ("i", "c1")
            X("assign_to_index", [tags, "i=0i=%d" % k, "di"], copy(*zip(*d)), "values go to indexes pairwise")
        X("assign_to_index", [tags, "", "d"], None, ERR, err=1)
        X("assign_to_index", [tags, "i=0", ""], None, ERR, err=1)
    for tags in ("", "i", "s", "id", "Tsf", "hNi"):
        n = len(tags)
        nm = ["a%d" % k for k in range(n)]
        X("length", [tags], L("I(%d)" % n), "the number of elements")
        for f in ("rev", "reverse"):
            X(f, [tags], copy(tags[::-1], nm[::-1]), "the elements in the opposite order")
        X("identity", [tags], copy(tags, nm), "the list itself")
        X("prog1", [tags, "i"], copy(tags, nm), "the first of its arguments")
        X("prog2", ["i", tags, "d"], copy(tags, ["b%d" % k for k in range(n)]), "the second of its arguments")
        X("progn", ["i", tags], copy(tags, ["b%d" % k for k in range(n)]), "the last of its arguments")
        X("progn", ["i", "s", tags], copy(tags, ["c%d" % k for k in range(n)]), "the last of its arguments")
        X("list", [tags], copy(tags, nm) if n else None, "its arguments one after another")
        X("list", [tags, "is"], copy(tags + "is", nm + ["b0", "b1"]), "its arguments one after another")
        X("list", ["f", "", tags], copy("f" + tags, ["a0"] + ["c%d" % k for k in range(n)]), "its arguments one after another")
        X("first", [tags], copy(tags[:1], nm[:1]) if n else None, "the first element, if any")
        X("last", [tags], copy(tags[-1:], nm[-1:]) if n else None, "the last element, if any")
        X("rest", [tags], copy(tags[1:], nm[1:]) if n else None, "all elements but the first")
        X("butlast", [tags], copy(tags[:-1], nm[:-1]) if n else None, "all elements but the last")
        X("typetags", [tags], L(*["P('c', '%s')" % t for t in tags]), "the type of every element")
        for k in range(-1, 3):
            X("nfill", ["i=%d" % k, tags], copy(tags * max(k, 0), ["b%d" % i for i in range(n)] * max(k, 0)), "that many copies of the list")
        X("interleave", [tags, "id"], copy(*[sum(z, ()) for z in zip(*[((t, u), (x, y)) for t, x, u, y in zip(tags, nm, "id", ["b0", "b1"])])]) if n else L(), "one element of each list in turn, as far as the shortest goes")
        X("interleave", ["fd", tags, "iss"], copy(*[sum(z, ()) for z in zip(*[((t, u, w), (x, y, z)) for t, x, u, y, w, z in zip("fd", ["a0", "a1"], tags, ["b0", "b1", "b2"], "iss", ["c0", "c1", "c2"])])]) if n else L(), "one element of each list in turn, as far as the shortest goes")
    X("prog1", [], None, ERR, err=1)
    X("prog2", ["i"], None, ERR, err=1)
    # sums
    for tags in ("", "i", "d", "h", "if", "ii", "IHc", "fdd"):
        n = len(tags)
        nm = ["(double)a%d" % k for k in range(n)]
        fl = set(tags) & set("fd")
        for f, op, z in (("sum", "+", "0."), ("product", "*", "1.")):
            e = (" %s " % op).join([z] + nm)
            X(f, [tags], L("D(%s)" % e) if fl else L("num(%s)" % e), "the %s of all elements, in double if any of them is a float and in the narrowest integer that holds it otherwise" % f)
            X(f, [tags, "", "c"], L("D(%s %s (double)c0)" % (e, op)) if fl else L("num(%s %s (double)c0)" % (e, op)), "the %s of all elements" % f)
        for f in ("mean", "avg"):
            X(f, [tags], L("D((%s) / %d)" % (" + ".join(["0."] + nm), n)), "the sum divided by the number of elements")
        X("l2norm", [tags], L("D(sqrt(%s))" % " + ".join(["0."] + ["pow(%s, 2.)" % x for x in nm])), "the Euclidean length")
        X("sign", [tags], L(*["I(SGN(%s))" % x for x in nm]), "-1, 0 or 1 for every element")
    for i, t in enumerate(WID):
        for u in WID[:i + 1]:
            ty = CT[t]
            X("cumsum", [u + t], L(show(t, "(%s)((%s)0 + (%s)a0)" % (ty, ty, ty)), show(t, "(%s)((%s)((%s)0 + (%s)a0) + (%s)a1)" % (ty, ty, ty, ty, ty))), "every prefix's sum, in the widest type among the elements")
            if u != t and "f" not in u + t and "d" not in u + t:
                X("bitand", [u, t], L(show(t, "(%s)((%s)a0 & (%s)b0)" % (ty, ty, ty))), "the bits set in both, in the wider type")
                X("bitor", [t, u], L(show(t, "(%s)((%s)a0 | (%s)b0)" % (ty, ty, ty))), "the bits set in either, in the wider type")
        if t not in "fd":
            X("bitand", [t, t], L(show(t, "(%s)(a0 & b0)" % CT[t])), "the bits set in both")
            X("bitor", [t, t], L(show(t, "(%s)(a0 | b0)" % CT[t])), "the bits set in either")
    for f in ("bitand", "bitor"):
        for l in (["f", "i"], ["i", "d"], ["s", "i"], ["i"], ["i", "i", "i"]):
            X(f, l, None, ERR, err=1)
    # extremes
    for tags in ("i", "d", "id", "fs", "hif", "ddd"):
        n = len(tags)
        if "s" in tags:
            continue
        dd = ["(double)a%d" % k for k in range(n)]
        cond = {"min": "<=", "max": ">="}

        def pick(op, i=0, k=None):
            """decision tree for the last of the smallest (largest)"""
            if i == n:
                return "M_t(0);" if k is None else show(tags[k], "a%d" % k)
            cur = ("HUGE_VAL" if op == "<=" else "-HUGE_VAL") if k is None else dd[k]
            return "if(%s %s %s){ %s }else{ %s }" % (dd[i], op, cur, pick(op, i + 1, i), pick(op, i + 1, k))
        X("min", [tags], "LEN(1); " + pick("<="), "the smallest element")
        X("max", [tags], "LEN(1); " + pick(">="), "the largest element")
        if n < 3:
            X("extrema", [tags], "LEN(2); " + pick("<=") + pick(">="), "the smallest element and the largest")
    # negation
    for f in ("not", "!"):
        for t in WID:
            X(f, [t], L("I(!a0)"), "whether it is zero")
        X(f, ["TFN"], L("B(0)", "B(1)", "B(1)"), "the opposite truth value")
        X(f, ["si"], L("S(a0)", "I(!a1)"), "texts are left alone")
    # vectors
    for l, m in ((["dd", "dd"], 2), (["did", "fd"], 2), (["i", "d"], 1), (["", "d"], 0)):
        X("dot", l, L("D(%s)" % " + ".join(["0."] + ["(double)a%d * (double)b%d" % (k, k) for k in range(m)])), "the sum of the products of matching elements")
    for t in WID:
        ty = CT[t]
        a = ["((%s)a%d)" % (ty, k) for k in range(3)]
        b = ["((%s)b%d)" % (ty, k) for k in range(3)]
        v = [(1, 2), (2, 0), (0, 1)]
        X("cross", [t * 3, ("c" if t not in "uU" else t) + t * 2], L(*[show(t, "(%s)((%s * %s) - (%s * %s))" % (ty, a[i], b[j], a[j], b[i])) for i, j in v]), "the vector product, in the widest type among the elements")
    for l in (["dd", "ddd"], ["ddd", "dd"], ["ddd"], ["dddd", "ddd"]):
        X("cross", l, None, ERR, err=1)
    X("det", ["d"], L("D(a0)"), "the determinant of the rows")
    X("det", ["di", "dd"], L("D((a0 * b1) - ((double)a1 * b0))"), "the determinant of the rows")
    X("det", ["ddd", "ddd", "ddd"], L("D((a0*b1*c2)+(a1*b2*c0)+(a2*b0*c1)-(a2*b1*c0)-(a1*b0*c2)-(a0*b2*c1))"), "the determinant of the rows")
    for l in (["dd", "d"], ["d", "dd"], ["ddd", "ddd", "dd"], ["ddd", "dd", "ddd"], ["dd", "ddd", "ddd"], ["dddd", "ddd", "dddd", "dddd"], []):
        X("det", l, None, ERR, err=1)
    # operators under their names
    what = "the operator of that name"
    for names, op in ((("+", "add", "+="), "+"), (("-", "sub", "-="), "-"), (("*", "mul", "*="), "*")):
        for nm in names:
            X(nm, ["i", "i"], L("I((uint32_t)a0 %s (uint32_t)b0)" % op), what)
            X(nm, ["dd", "d"], L("D(a0 %s b0)" % op, "D(a1 %s b0)" % op), what)
            X(nm, ["d", "ii"], L("D(a0 %s (double)b0)" % op, "D(a0 %s (double)b1)" % op), what)
    for nm in ("/", "div", "/="):
        X(nm, ["dd", "d=2"], L("D(a0 / 2.)", "D(a1 / 2.)"), what)
        X(nm, ["i", "d=4"], L("D((double)a0 / 4.)"), what)
        X(nm, ["i", "i=0"], L('TAG(\'s\'); m_puts("Inf")'), what)
    for nm in ("%", "mod", "%="):
        X(nm, ["d", "i=0"], L("D(a0)"), what)
        X(nm, ["i=7", "i=4"], L("I(3)"), what)
        X(nm, ["i=-7", "i=4"], L("I(1)"), what)
    for names, op in ((("<", "lt"), "<"), (("<=", "le"), "<="), ((">", "gt"), ">"), ((">=", "ge"), ">="), (("==", "eq"), "=="), (("!=", "ne"), "!=")):
        for nm in names:
            X(nm, ["i", "i"], L("B(a0 %s b0)" % op), what)
            X(nm, ["d", "d"], L("B(a0 %s b0)" % op), what)
    for names, op in ((("&", "and"), "&&"), (("|", "or"), "||")):
        for nm in names:
            X(nm, ["i", "i"], L("B(a0 %s b0)" % op), what)
            X(nm, ["T", "F"], L("B(1 %s 0)" % op), what)
            X(nm, ["F", "F"], L("B(0 %s 0)" % op), what)
            X(nm, ["T", "T"], L("B(1 %s 1)" % op), what)
    # nothing is called by a name that is not there, a part of one or a longer one
    for nm in ("", "nosuch", "si", "sinhh", "lengt", "lengths", "SUM", "+-", "sum ", "av"):
        s.hpair(A, "no function %r" % nm, "there is none", "int", "int unused", 'return osc_expr_lookupFunction("%s") != 0;' % nm, "return 0;")
    # order
    def order(tags, out, names=None):
        """insertion of the elements in all ways; equal elements are left open"""
        names = names or ["a%d" % k for k in range(len(tags))]
        dd = ["(double)%s" % x for x in names]

        def ins(done, k):
            if k == len(names):
                return out(done)
            def pos(p):
                if p == 0:
                    return ins([k] + done, k + 1)
                j = done[p - 1]
                if tags[j] == "s" or tags[k] == "s":
                    return ins(done[:p] + [k] + done[p:], k + 1) if tags[k] == "s" else pos(p - 1)
                return "if(%s < %s){ %s }else if(%s > %s){ %s }else M_open();" % (dd[j], dd[k], ins(done[:p] + [k] + done[p:], k + 1), dd[j], dd[k], pos(p - 1))
            return pos(len(done))
        return ins([], 0)
    for tags in ("", "d", "i", "s", "dd", "ii", "id", "hf", "si", "is", "fsd", "ddd"):
        n = len(tags)
        X("sort", [tags], "LEN(%d); " % n + order(tags, lambda o: "".join(show(tags[k], "a%d" % k) for k in o)), "the elements from smallest to largest, texts last")
        X("sortidx", [tags], "LEN(%d); " % n + order(tags, lambda o: "".join("I(%d);" % k for k in o)), "the places of the elements from smallest to largest, texts last")
        if n and "s" not in tags:
            X("median", [tags], "LEN(1); " + order(tags, lambda o: "D(%s);" % ("(double)a%d" % o[n // 2] if n % 2 else "((double)a%d + (double)a%d) / 2." % (o[n // 2 - 1], o[n // 2]))), "the middle element, or the mean of the middle two")
    X("sort", ["i", "d"], "LEN(2); " + order("id", lambda o: "".join(["I(a0);", "D(b0);"][k] for k in o), ["a0", "b0"]), "all elements of all its arguments, in order")
    X("nonzero", ["TFNT"], L("I(0)", "I(3)"), "the places of the elements that are true")
    X("nonzero", ["i=0i=3d=0d=2.5i=0i=-1"], L("I(1)", "I(3)", "I(5)"), "the places of the elements that are true")
    X("nonzero", ["FF"], L(), "the places of the elements that are true")
    X("nonzero", [""], L(), "the places of the elements that are true")
    # sequences
    def seq(t, *v):
        return L(*["%s(%s)" % ("D" if t == "d" else "I", x) for x in v])
    what = "start, start + step, .. as far as the end"
    for a, b, st, v in ((0, 3, None, (0, 1, 2, 3)), (3, 0, None, (3, 2, 1, 0)), (-1, 1, None, (-1, 0, 1)), (0, 5, 2, (0, 2, 4)), (5, 0, -2, (5, 3, 1)), (0, 4, 4, (0, 4)), (0, 3, 4, (0,)), (2, 2, None, (2,)), (2, 2, 7, (2,))):
        X("aseq", ["i=%d" % a, "i=%d" % b] + (["i=%d" % st] if st is not None else []), seq("i", *v), what)
        X("aseq", ["d=%d" % a, "i=%d" % b] + (["i=%d" % st] if st is not None else []), seq("d", *v), what)
        if a != b:
            X("aseq", ["i=%d" % a, "d=%d" % b] + (["i=%d" % st] if st is not None else []), seq("d", *v), what)
            if st:
                X("aseq", ["i=%d" % a, "i=%d" % b, "d=%d" % st], seq("d", *v), what)
    X("aseq", ["i=0", "i=1", "d=0.5"], seq("d", 0, 0.5, 1), what)
    X("aseq", ["d=0.5", "d=2"], seq("d", 0.5, 1.5), what)
    for l in (["i=0", "i=3", "i=0"], ["i=0", "i=3", "i=-1"], ["i=3", "i=0", "i=1"], ["i=0"], []):
        X("aseq", l, None, ERR, err=1)
    # scaling
    what = "every number moved between the limits; the rest is left alone"

    def clip1(v, lo, hi, out):
        return "if(%s < %s){ if(%s > %s){ %s }else{ %s } }else if(%s > %s){ %s }else{ %s }" % (v, lo, lo, hi, out(hi), out(lo), v, hi, out(hi), out(v))
    def clip2(v, lo, hi, out):
        return "{ double v = %s, lo = %s, hi = %s; if(v < lo) v = lo; if(v > hi) v = hi; %s; }" % (v, lo, hi, out)
    for t in "fd":
        for lim in ("d", "f", "i") if t == "d" else ("d", "i"):
            X("clip", [t, lim, lim], "LEN(1); " + clip2("a0", "b0", "c0", "D(v)"), what)
    for t in "cCuUi":
        X("clip", [t, "i", "i"], "LEN(1); " + clip2("a0", "b0", "c0", "I(v)"), what)
        X("clip", [t, "d", "i"], "LEN(1); " + clip1("(double)a0", "b0", "(double)c0", lambda v: "D(%s);" % v), what)
        X("clip", [t, "i", "d"], "LEN(1); " + clip1("(double)a0", "(double)b0", "c0", lambda v: "D(%s);" % v), what)
    X("clip", ["sTFN", "i", "i"], L("S(a0)", "B(1)", "B(0)", "TAG('N')"), what)
    X("clip", ["dd", "i=-1", "i=1"], "LEN(2); " + clip2("a0", "-1.", "1.", "D(v)") + clip2("a1", "-1.", "1.", "D(v)"), what)
    X("clip", ["", "i", "i"], L(), what)
    for l in (["i"], ["i", "i"], ["i", "i", "i", "i"]):
        X("clip", l, None, ERR, err=1)
    what = "every number mapped linearly from the first range to the second"
    for t in "fdi":
        v = "(double)a0"
        X("scale", [t, "d", "d", "d", "d"], "LEN(1); if(e0 == d0){ D(d0); }else{ double m = (e0 - d0) / (c0 - b0), k = d0 - m * b0; D(m * %s + k); }" % v, what)
    X("scale", ["d", "i=0", "i=10", "i=0", "i=100"], L("D(10. * a0 + 0.)"), what)
    X("scale", ["f", "i=0", "i=10", "i=5", "i=5"], L("D(5)"), what)
    X("scale", ["c", "i=0", "i=1", "i=7", "i=9"], L("I(2. * (double)a0 + 7.)"), what)
    X("scale", ["i", "i=0", "i=1", "i=7", "i=7"], L("I(7)"), what)
    for k in range(1, 5):
        X("scale", ["i", "d" if k == 1 else "i=0", "d" if k == 2 else "i=1", "d=7" if k == 3 else "i=7", "d=7" if k == 4 else "i=7"], L("D(7)"), what)
    X("scale", ["sTFN", "i=0", "i=1", "i=7", "i=9"], L("S(a0)", "B(1)", "B(0)", "TAG('N')"), what)
    X("scale", ["sTFN", "i=0", "i=1", "i=7", "i=7"], L("S(a0)", "B(1)", "B(0)", "TAG('N')"), what)
    X("scale", ["i", "i", "i", "i"], None, ERR, err=1)
    for t in "dfi":
        v = "(double)a0"
        X("mtof", [t], L("D(440 * exp(.05776226504666210911810267678817 * (%s - 69)))" % v), "the frequency of a MIDI note")
        X("mtof", [t, "d"], L("D(b0 * exp(.05776226504666210911810267678817 * (%s - 69)))" % v), "the frequency of a MIDI note")
        X("mtof", [t + "d", ""], L("D(440 * exp(.05776226504666210911810267678817 * (%s - 69)))" % v, "D(440 * exp(.05776226504666210911810267678817 * (a1 - 69)))"), "the frequency of a MIDI note")
        X("ftom", [t], L("D(69 + (17.31234049066756088831909617202611 * log(%s / 440)))" % v), "the MIDI note of a frequency")
        X("ftom", [t, "d"], L("D(69 + (17.31234049066756088831909617202611 * log(%s / b0)))" % v), "the MIDI note of a frequency")
        X("ftom", ["d" + t, ""], L("D(69 + (17.31234049066756088831909617202611 * log(a0 / 440)))", "D(69 + (17.31234049066756088831909617202611 * log((double)a1 / 440)))"), "the MIDI note of a frequency")
    for f in ("mtof", "ftom"):
        X(f, ["sTFN"], L("S(a0)", "B(1)", "B(0)", "TAG('N')"), "the rest is left alone")
        X(f, [], None, ERR, err=1)
    # range
    def rng(tags):
        n = len(tags)
        dd = ["(double)a%d" % k for k in range(n)]

        def ext(op, k, i, out):
            if i == n:
                return out(k)
            if k is None:
                return "if(%s %s %s){ %s }else M_open();" % (dd[i], op, "HUGE_VAL" if op == "<=" else "-HUGE_VAL", ext(op, i, i + 1, out))
            return "if(%s %s %s){ %s }else if(%s %s %s){ %s }else M_open();" % (dd[i], op, dd[k], ext(op, i, i + 1, out), dd[i], {"<=": ">", ">=": "<"}[op], dd[k], ext(op, k, i + 1, out))
        res = lambda lo, hi: "D(%s - %s);" % (dd[hi], dd[lo]) if {tags[lo], tags[hi]} & set("fd") else "I(%s - %s);" % (dd[hi], dd[lo])
        return ext("<=", None, 0, lambda lo: ext(">=", None, 0, lambda hi: res(lo, hi)))
    for tags in ("d", "i", "dd", "cc", "uc", "ddd"):
        X("range", [tags], "LEN(1); " + rng(tags), "the largest element minus the smallest")
    X("range", [], None, "nothing")
    # texts
    def tx(v):
        return v if v[0] == '"' else "((char[4]){1 | %s, 1 | (%s >> 8), 1 | (%s >> 16), 0})" % (v, v, v)
    for x, y in (("s", "s"), ("s", 's="ab"'), ('s="abc"', "s"), ('s="ab"', 's="ab"'), ('s="ab"', 's="abc"')):
        a = tx(x[2:] if "=" in x else "a0")
        b = tx(y[2:] if "=" in y else "b0")
        X("strcmp", [x, y], L("I(M_strcmp(%s, %s))" % (a, b)), "how the texts compare, byte by byte")
        for k in (0, 1, 2, 5):
            X("strcmp", [x, y, "i=%d" % k], L("I(M_strncmp(%s, %s, %d))" % (a, b, k)), "how the beginnings of the texts compare")
    X("strcmp", ["s"], None, ERR, err=1)
    X("strlen", ["s"], L("H(3)"), "the length of every text")
    X("strlen", ["ss"], L("H(3)", "H(3)"), "the length of every text")
    X("strlen", ['s=""s="/a/b"'], L("H(0)", "H(4)"), "the length of every text")
    X("strlen", [""], L(), "the length of every text")
    X("strlen", [], None, ERR, err=1)
    ch = lambda *k: "TAG('s'); " + "".join("M_i((char)(1 | (b0 >> %d)));" % (8 * i) for i in k) + "M_i(0)"
    for k in range(-1, 4):
        ok = 0 <= k < 3
        X("strchar", ["i=%d" % k, "s"], L(ch(k)) if ok else None, "the characters of every text at those places", err=None if ok else 1)
        X("strchar", ["i=0i=%d" % k, "s"], L(ch(0, k)) if ok else None, "the characters of every text at those places", err=None if ok else 1)
        X("strchar", ["i=0i=%di=2" % k, "s"], L(ch(0, k, 2)) if ok else None, "the characters of every text at those places", err=None if ok else 1)
        X("strchar", ["i=%d" % k, 's="xy"s'], None if not 0 <= k < 2 else L("TAG('s'); M_i(%d); M_i(0)" % ord("xy"[k]), ch(k).replace("b0", "b1")), "the characters of every text at those places", err=None if 0 <= k < 2 else 1)
    X("strchar", ["i=1", ""], L(), "the characters of every text at those places")
    X("strchar", ["", "s"], L("TAG('s'); M_i(0)"), "the characters of every text at those places")
    X("strchar", ["i=0"], None, ERR, err=1)
    for sub, st, v in (("/", "/a/b", (0, 2)), ("aa", "aaaa", (0, 2)), ("aa", "aaa", (0,)), ("b", "abcab", (1, 4)), ("ab", "abcab", (0, 3)), ("abc", "ab", ()), ("x", "", ()), ("ab", "aab", (1,)), ("abc", "abc", (0,))):
        X("strfind", ['s="%s"' % sub, 's="%s"' % st], L(*["H(%d)" % k for k in v]), "every place the first text is found in the second, one after another")
    X("strfind", ['s=""', "s"], None, "an empty text is not looked for")
    X("strfind", ["s"], None, ERR, err=1)

    for sep, st, v in (("/", "/a/b", ("a", "b")), ("/", "a//bc/", ("a", "bc")), (",;", "a,b;c", ("a", "b", "c")), ("x", "abc", ("abc",)), ("x", "", ()), ("x", "xx", ()), ("ab", "cabd", ("c", "d"))):
        X("split", ['s="%s"' % sep, 's="%s"' % st], L(*["TAG('s'); m_puts(\"%s\")" % k for k in v]), "the pieces of the second text between characters of the first")
    X("split", ['s=""', "s"], L(*["P('c', (char)(1 | (b0 >> %d)))" % (8 * k) for k in range(3)]), "without a separator, every character")
    X("split", ["s"], None, ERR, err=1)
    X("readstring", ["s"], L("S(a0)"), "the text")
    for l in (["i"], ["ss"], ["s", "s"]):
        X("readstring", l, None, ERR, err=1)
    # casts
    what = "every element converted to the type of that name"
    CAST = {"float32": "f", "float64": "d", "int8": "c", "char": "c", "int16": "u", "int32": "i", "int64": "h", "uint8": "C", "uint16": "U", "uint32": "I", "uint64": "H"}
    for f, t in CAST.items():
        for u in "cid":
            X(f, [u], L(show(t, "(%s)a0" % CT[t])), what)
        X(f, ["cu"], L(show(t, "(%s)a0" % CT[t]), show(t, "(%s)a1" % CT[t])), what)
        X(f, [""], L(), what)
        X("cast", ["c='%s'" % t, "i"], L(show(t, "(%s)b0" % CT[t])), "every element converted to the type given for it")
        X("cast", ["c='%s'" % t, "iu"], L(show(t, "(%s)b0" % CT[t]), show(t, "(%s)b1" % CT[t])), "every element converted to the type given for it")
        X("cast", ["c='%s'c='h'" % t, "iu"], L(show(t, "(%s)b0" % CT[t]), "H(b1)"), "every element converted to the type given for it")
    X("bool", ["idTFN"], "LEN(5); B(a0 != 0); B(a1 != 0); B(1); B(0); B(0);", what)
    X("string", ["s"], L("S(a0)"), what)
    X("string", ["c='x'"], L('TAG(\'s\'); m_puts("x")'), what)
    X("cast", ["c='s'", "s"], L("S(b0)"), "every element converted to the type given for it")
    X("cast", ["c='i'"], None, ERR, err=1)
    bl = lambda n, *v: "TAG('b'); M_i(%d); " % n + "".join("M_i((char)%s);" % x for x in v)
    X("blob", ["cccc"], L(bl(4, "a0", "a1", "a2", "a3")), "one block of the elements as bytes")
    X("blob", ["iu"], L(bl(2, "a0", "a1")), "one block of the elements as bytes")
    X("blob", [""], L(bl(0)), "one block of the elements as bytes")
    # byte order
    what = "every element with its bytes in the other order"
    for f in ("hton32", "ntoh32"):
        for t in "cui":
            X(f, [t], L("I(__builtin_bswap32((int32_t)a0))"), what)
        for t in "CUI":
            X(f, [t], L("P('I', __builtin_bswap32((uint32_t)a0))"), what)
        X(f, ["iI", "c"], L("I(__builtin_bswap32(a0))", "P('I', __builtin_bswap32(a1))", "I(__builtin_bswap32((int32_t)b0))"), what)
    for t in "CUIH":
        X("hton64", [t], L("P('H', __builtin_bswap64((uint64_t)a0))"), what)
    for t in "cuih":
        X("ntoh64", [t], L("H(__builtin_bswap64((int64_t)a0))"), what)
    X("hton64", ["H", "I"], L("P('H', __builtin_bswap64(a0))", "P('H', __builtin_bswap64(b0))"), what)
    # times
    X("strtotime", ["i"], None, ERR, err=1)
    X("strtotime", ["ss"], None, ERR, err=1)
    X("strtotime", [], None, ERR, err=1)
    X("floattotime", ["i"], None, ERR, err=1)
    X("floattotime", ["dd"], None, ERR, err=1)
    X("floattotime", [], None, ERR, err=1)
    nf.decide(c, s, 1013, chunk=43, mix=True)
