"""C06: element-wise application: ++ and -- over lists, and binary operators over two lists with one-element broadcast."""
import nf
from specs import *

NAME = {t: nm for t, (nm, ct) in API.items()}
CT = {t: ct for t, (nm, ct) in API.items()}
OPMODEL = r'''
extern int32_t M_iop(int32_t, int32_t) __attribute__((const));
extern double M_dop(double, double) __attribute__((const));
int M_op(t_osc_atom_u *a, t_osc_atom_u *b, t_osc_atom_u **r, void *ctx){ (*r)->w.i = M_iop(a ? a->w.i : -1, b ? b->w.i : -1); (*r)->typetag = 'i'; return 0; }
'''


def run(c):
    s = nf.Spec(PRE + EXPR + LIBC_MODELS + HEAP + OPMODEL)
    s.opaque += HEAP_OPAQUE + [("osc_bundle_u_free", "e")]
    # over lists: ++ and --, and element-wise application with one-element broadcast
    mk = "t_osc_atom_ar_u *argv[2] = {&la, &lb}, *out = 0; struct _osc_expr_rec rec; memset(&rec, 0, sizeof rec); struct _osc_expr f; memset(&f, 0, sizeof f); f.rec = &rec; rec.name = \"x\"; "
    for fn, sym in (("osc_expr_plus1", "+"), ("osc_expr_minus1", "-")):
        for t in "cCuUiIhHfd":
            s.hpair(fn, "%s '%s'" % (fn, t), "adds or subtracts one in the same type", CT[t], "%s va, %s vb" % (CT[t], CT[t]),
                    "struct _osc_atom_u a[2]; memset(a, 0, sizeof a); osc_atom_u_set%s(a, va); osc_atom_u_set%s(a + 1, vb); struct _osc_array la, lb; osc_atom_array_u_set(&la, a, 2); osc_atom_array_u_set(&lb, a, 0); " % (NAME[t], NAME[t]) + mk +
                    "int e = %s(&f, 1, argv, &out, 0); if(e || osc_atom_array_u_getLen(out) != 2) return 77; t_osc_atom_u *x = osc_atom_array_u_get(out, 0), *y = osc_atom_array_u_get(out, 1); "
                    "if(x->typetag != '%s' || y->typetag != '%s') return 78; return osc_atom_u_get%s(x) ^ osc_atom_u_get%s(y);".replace("^", "-") % (fn, t, t, NAME[t], NAME[t]),
                    "return (%s)((%s)(va %s 1) - (%s)(vb %s 1));" % (CT[t], CT[t], sym, CT[t], sym))
    for la in range(0, 4):
        for lb in range(0, 4):
            n = max(la, lb) if 1 in (la, lb) else min(la, lb)
            st = "struct _osc_atom_u a[3], b[3]; memset(a, 0, sizeof a); memset(b, 0, sizeof b); int32_t va[3] = {x0, x1, x2}, vb[3] = {y0, y1, y2}; for(int i = 0; i < 3; i++){ osc_atom_u_setInt32(a + i, va[i]); osc_atom_u_setInt32(b + i, vb[i]); } " \
                 "struct _osc_array la, lb; osc_atom_array_u_set(&la, a, %d); osc_atom_array_u_set(&lb, b, %d); " % (la, lb) + mk
            par = "int32_t x0, int32_t x1, int32_t x2, int32_t y0, int32_t y1, int32_t y2"
            for fn, extra in (("osc_expr_2arg", "M_op"), ("osc_expr_2arg_dbl_dbl", "M_dop")):
                s.hpair(fn, "%s lists of %d and %d" % (fn, la, lb), "one element is applied to all; otherwise element by element", "long", par,
                        st + "rec.extra = (void *)%s; int e = %s(&f, 2, argv, &out, 0); if(e) return 77; return osc_atom_array_u_getLen(out);" % (extra, fn), "return %d;" % n)
                for k in range(n):
                    x, y = "x%d" % (0 if la == 1 else k), "y%d" % (0 if lb == 1 else k)
                    if 0 in (la, lb):  # a missing operand
                        x, y = ("x0" if la else "M", "y0" if lb else "M")
                        x, y = (v.replace("M", "-1" if fn == "osc_expr_2arg" else "0") for v in (x, y))
                    if fn == "osc_expr_2arg":
                        s.hpair(fn, "%s lists of %d and %d element %d" % (fn, la, lb, k), "the operator applied to the matching elements, in order", "int32_t", par,
                                st + "rec.extra = (void *)M_op; int e = %s(&f, 2, argv, &out, 0); if(e) return 77; return osc_atom_u_getInt32(osc_atom_array_u_get(out, %d));" % (fn, k),
                                "return M_iop(%s, %s);" % (x, y))
                    else:
                        s.hpair(fn, "%s lists of %d and %d element %d" % (fn, la, lb, k), "the function applied to the matching elements, in order", "double", par,
                                st + "rec.extra = (void *)M_dop; int e = %s(&f, 2, argv, &out, 0); if(e) return 77; return osc_atom_u_getDouble(osc_atom_array_u_get(out, %d));" % (fn, k),
                                "return M_dop((double)%s, (double)%s);" % (x, y))
    nf.decide(c, s, 90)
