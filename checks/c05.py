"""C05: infix operators and casts of the expression language: result type and value for every pair of operand types."""
import nf
from specs import *

RANK = "cCuUiIhH"
OPS = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/"}
CMP = {"lt": "<", "le": "<=", "gt": ">", "gte": ">=", "eq": "==", "neq": "!="}
CT = {t: ct for t, (nm, ct) in API.items()}
NAME = {t: nm for t, (nm, ct) in API.items()}
MOD = r'''
INL double m_mod(double x, double m){ int s = m == 0 ? 0 : m < 0 ? -1 : 1; return x - m * s * floor(x / fabs(m)); }
extern int M_cmp(const char*, const char*) __attribute__((pure));
int M_strcmp2(const char *a, const char *b){ return M_cmp(a, b); }
INL t_osc_timetag m_ftt(double d){ t_osc_timetag t; t.sec = (uint32_t)(d - fmod(d, 1.0)); t.frac_sec = (uint32_t)(fmod(d, 1.0) * 4294967295.0); return t; }
INL int m_ttcmp(uint32_t x1, uint32_t y1, uint32_t x2, uint32_t y2){ return x1 < x2 ? -1 : x1 > x2 ? 1 : y1 < y2 ? -1 : y1 > y2 ? 1 : 0; }
'''


def arg(v, t):
    """declare operand atom `v` of type t holding the parameter of that name"""
    d = "struct _osc_atom_u %s; memset(&%s, 0, sizeof %s); %s.w.H = 0x5a5a5a5a5a5a5a5aull; " % (v, v, v, v)
    if t in "TF":
        return d + "%s.w.H = %s; osc_atom_u_set%s(&%s); " % (v, "v" + v, {"T": "True", "F": "False"}[t], v)
    return d + "osc_atom_u_set%s(&%s, v%s); " % (NAME[t], v, v)


def run(c):
    s = nf.Spec(PRE + EXPR + LIBC_MODELS + HEAP + MOD)
    s.opaque += [o for o in HEAP_OPAQUE if o[0] != "strcmp"] + [("strcmp", "model:M_strcmp2")]
    res = "struct _osc_atom_u r; memset(&r, 0, sizeof r); struct _osc_atom_u *rp = &r; "

    def ctype(t):
        return "uint64_t" if t in "TF" else CT[t]

    def val(v, t):
        return {"T": "1", "F": "0"}.get(t, "v" + v)
    tags = "TFcCuUiIhHfd"
    for ta in tags:
        for tb in tags:
            par = "%s va, %s vb" % (ctype(ta), ctype(tb))
            pre = arg("a", ta) + arg("b", tb) + res
            a, b = val("a", ta), val("b", tb)
            fl = ta in "fd" or tb in "fd"
            if fl:
                rt = "d"
            elif ta in "TF" and tb in "TF":
                rt = "i"
            else:
                rt = max((x for x in (ta, tb) if x in RANK), key=RANK.index)
            ct = CT[rt]
            for op, sym in OPS.items():
                fn = "osc_expr_" + op
                key = "%s '%s' '%s'" % (fn, ta, tb)
                x, y = "(%s)(%s)" % (ct, a), "(%s)(%s)" % (ct, b)
                want = "return (%s)(%s %s %s);" % (ct, x, sym, y)
                call = pre + "int e = %s(&a, &b, &rp, 0); if(e || rp != &r) return (%s)77; " % (fn, ct)
                if op == "divide":
                    if not fl:
                        if ta in "TF" and rt in "cih":
                            continue  # a constant dividend folds to a range test; the value is covered by the other types
                        if (ta, tb) == ("U", "c"):
                            continue
                        un = {"i": "uint32_t", "h": "uint64_t"}.get(rt)
                        if un:
                            want = "if(%s == -1) return (%s)(0 - (%s)%s); %s" % (y, ct, un, x, want)
                    # division by zero: the text Inf
                    s.hpair(fn, key + " by zero", "x/0 is the text Inf, nothing else is", "int", par,
                            call.replace("return (%s)77" % ct, "return 77") + "if(r.typetag == 's') return r.w.s[0] == 'I' && r.w.s[1] == 'n' && r.w.s[2] == 'f' && r.w.s[3] == 0 ? 1 : 2; return 0;",
                            "return %s == 0;" % y)
                    s.hpair(fn, key, "the quotient in the wider operand type", ct, par, call + "if(r.typetag == 's') return 99; return r.typetag == '%s' ? osc_atom_u_get%s(&r) : (%s)78;" % (rt, NAME[rt], ct),
                            "if(%s == 0) return 99; %s" % (y, want))
                else:
                    s.hpair(fn, key, "the result has the wider operand type and its exact value", ct, par,
                            call + "return r.typetag == '%s' ? osc_atom_u_get%s(&r) : (%s)78;" % (rt, NAME[rt], ct), want)
            da, db = "(double)(%s)" % a, "(double)(%s)" % b
            for op, sym in CMP.items():
                fn = "osc_expr_" + op
                s.hpair(fn, "%s '%s' '%s'" % (fn, ta, tb), "numbers compare by value", "int", par,
                        pre + "int e = %s(&a, &b, &rp, 0); if(e || rp != &r) return 77; return r.typetag;" % fn, "return (%s %s %s) ? 'T' : 'F';" % (da, sym, db))
            for op, sym in (("and", "&&"), ("or", "||")):
                fn = "osc_expr_" + op
                s.hpair(fn, "%s '%s' '%s'" % (fn, ta, tb), "truth values combine", "int", par,
                        pre + "int e = %s(&a, &b, &rp, 0); if(e || rp != &r) return 77; return r.typetag;" % fn, "return ((%s) != 0 %s (%s) != 0) ? 'T' : 'F';" % (a, sym, b))
            fn = "osc_expr_mod"
            mt = "d" if fl else "i"
            at = ta
            s.hpair(fn, "%s '%s' '%s'" % (fn, ta, tb), "floored remainder, in double or int32", CT[mt], par,
                    pre + "int e = %s(&a, &b, &rp, 0); if(e || rp != &r) return 77; if((double)(%s) == 0) return 99; return r.typetag == '%s' ? osc_atom_u_get%s(&r) : 78;" % (fn, b, mt, NAME[mt]),
                    "if(%s == 0) return 99; return (%s)m_mod(%s, %s);" % (db, CT[mt], da, db))
            s.hpair(fn, "%s '%s' '%s' zero modulus" % (fn, ta, tb), "a zero modulus gives the left operand back", ctype(ta) if ta not in "TF" else "int", par,
                    pre + "int e = %s(&a, &b, &rp, 0); if(e || rp != &r) return 77; if((double)(%s) != 0) return 99; return r.typetag == '%s' ? %s : 78;" % (fn, b, ta, "osc_atom_u_get%s(&r)" % NAME[ta] if ta not in "TF" else "1"),
                    "if(%s != 0) return 99; return %s;" % (db, a if ta not in "TF" else "1"))
    # missing operands
    for ta in "cCuUiIhHfd":
        for op in list(OPS):
            fn = "osc_expr_" + op
            for lbl, call in (("left", "%s(0, &a, &rp, 0)" % fn), ("right", "%s(&a, 0, &rp, 0)" % fn)):
                s.hpair(fn, "%s '%s' without a %s operand" % (fn, ta, lbl), "gives the other operand back", CT[ta], "%s va" % CT[ta],
                        arg("a", ta) + res + "int e = %s; if(e) return 77; return r.typetag == '%s' ? osc_atom_u_get%s(&r) : 78;" % (call, ta, NAME[ta]), "return va;")
        for op in list(CMP):
            fn = "osc_expr_" + op
            for lbl, call in (("left", "%s(0, &a, &rp, 0)" % fn), ("right", "%s(&a, 0, &rp, 0)" % fn)):
                s.hpair(fn, "%s '%s' without a %s operand" % (fn, ta, lbl), "is false", "int", "%s va" % CT[ta],
                        arg("a", ta) + res + "int e = %s; if(e) return 77; return r.typetag;" % call, "return 'F';")
        for lbl, k in (("left", "0, &a"), ("right", "&a, 0")):
            s.hpair("osc_expr_and", "osc_expr_and '%s' without a %s operand" % (ta, lbl), "is false", "int", "%s va" % CT[ta],
                    arg("a", ta) + res + "int e = osc_expr_and(%s, &rp, 0); if(e) return 77; return r.typetag;" % k, "return 'F';")
            s.hpair("osc_expr_or", "osc_expr_or '%s' without a %s operand" % (ta, lbl), "is the other operand's truth value", "int", "%s va" % CT[ta],
                    arg("a", ta) + res + "int e = osc_expr_or(%s, &rp, 0); if(e) return 77; return r.typetag;" % k, "return va != 0 ? 'T' : 'F';")
    # text
    sa = "struct _osc_atom_u a; memset(&a, 0, sizeof a); a.typetag = 's'; a.w.s = (char *)p; "
    sb = "struct _osc_atom_u b; memset(&b, 0, sizeof b); b.typetag = 's'; b.w.s = (char *)q; "
    for op, sym in CMP.items():
        fn = "osc_expr_" + op
        s.hpair(fn, "%s text text" % fn, "texts compare in byte order", "int", "const char *p, const char *q",
                sa + sb + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "return M_cmp(p, q) %s 0 ? 'T' : 'F';" % sym)
    for op, tn, nt in (("lt", "F", "T"), ("le", "F", "T"), ("gt", "T", "F"), ("gte", "T", "F")):
        fn = "osc_expr_" + op
        for t in tags:
            s.hpair(fn, "%s text '%s'" % (fn, t), "texts sort after numbers", "int", "const char *p, %s vb" % ctype(t),
                    sa + arg("b", t) + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "return '%s';" % tn)
            s.hpair(fn, "%s '%s' text" % (fn, t), "texts sort after numbers", "int", "%s va, const char *q" % ctype(t),
                    arg("a", t) + sb + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "return '%s';" % nt)
    # nil
    na, nb = sa.replace("'s'", "'N'"), sb.replace("'s'", "'N'")
    for fn, y, n in (("osc_expr_eq", "T", "F"), ("osc_expr_neq", "F", "T")):
        s.hpair(fn, fn + " nil nil", "nil equals nil", "int", "const char *p, const char *q", na + nb + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "return '%s';" % y)
        s.hpair(fn, fn + " nil text", "nil equals nothing else", "int", "const char *p, const char *q", na + sb + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "return '%s';" % n)
        for t in tags:
            s.hpair(fn, "%s nil '%s'" % (fn, t), "nil equals nothing else", "int", "const char *p, %s vb" % ctype(t), na + arg("b", t) + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "return '%s';" % n)
            s.hpair(fn, "%s '%s' nil" % (fn, t), "nil equals nothing else", "int", "%s va, const char *q" % ctype(t), arg("a", t) + nb + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "return '%s';" % n)
    # timetags
    ta_ = "struct _osc_atom_u a; memset(&a, 0, sizeof a); t_osc_timetag t1; t1.sec = x1; t1.frac_sec = y1; osc_atom_u_setTimetag(&a, t1); "
    tb_ = "struct _osc_atom_u b; memset(&b, 0, sizeof b); t_osc_timetag t2; t2.sec = x2; t2.frac_sec = y2; osc_atom_u_setTimetag(&b, t2); "
    T = "uint32_t x1, uint32_t y1, uint32_t x2, uint32_t y2"
    for op, sym in CMP.items():
        fn = "osc_expr_" + op
        s.hpair(fn, fn + " timetag timetag", "timetags compare chronologically", "int", T, ta_ + tb_ + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn,
                "return m_ttcmp(x1, y1, x2, y2) %s 0 ? 'T' : 'F';" % sym)
        for t in "cCuUiIhHfd":
            s.hpair(fn, "%s timetag '%s'" % (fn, t), "a number stands for that many seconds", "int", "uint32_t x1, uint32_t y1, %s vb" % CT[t],
                    ta_ + arg("b", t) + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "t_osc_timetag t = m_ftt((double)vb); return m_ttcmp(x1, y1, t.sec, t.frac_sec) %s 0 ? 'T' : 'F';" % sym)
            s.hpair(fn, "%s '%s' timetag" % (fn, t), "a number stands for that many seconds", "int", "%s va, uint32_t x2, uint32_t y2" % CT[t],
                    arg("a", t) + tb_ + res + "int e = %s(&a, &b, &rp, 0); if(e) return 77; return r.typetag;" % fn, "t_osc_timetag t = m_ftt((double)va); return m_ttcmp(t.sec, t.frac_sec, x2, y2) %s 0 ? 'T' : 'F';" % sym)
    for part in ("sec", "frac_sec"):
        want = {"sec": "return (uint32_t)(x1 + x2 + ((uint32_t)(y1 + y2) < y1));", "frac_sec": "return y1 + y2;"}[part]
        s.hpair("osc_expr_add", "osc_expr_add timetag timetag %s" % part, "timetags add", "uint32_t", T,
                ta_ + tb_ + res + "int e = osc_expr_add(&a, &b, &rp, 0); if(e || r.typetag != 't') return 77; t_osc_timetag t = osc_atom_u_getTimetag(&r); return t.%s;" % part, want)
        for t in "cCuUiIhHfd":
            s.hpair("osc_expr_add", "osc_expr_add timetag '%s' %s" % (t, part), "a number of seconds is added", "uint32_t", "uint32_t x1, uint32_t y1, %s vb" % CT[t],
                    ta_ + arg("b", t) + res + "int e = osc_expr_add(&a, &b, &rp, 0); if(e || r.typetag != 't') return 77; t_osc_timetag t = osc_atom_u_getTimetag(&r); return t.%s;" % part,
                    "t_osc_timetag q = m_ftt((double)vb); uint32_t x2 = q.sec, y2 = q.frac_sec; " + want)
            s.hpair("osc_expr_add", "osc_expr_add '%s' timetag %s" % (t, part), "a number of seconds is added", "uint32_t", "%s va, uint32_t x2, uint32_t y2" % CT[t],
                    arg("a", t) + tb_ + res + "int e = osc_expr_add(&a, &b, &rp, 0); if(e || r.typetag != 't') return 77; t_osc_timetag t = osc_atom_u_getTimetag(&r); return t.%s;" % part,
                    "t_osc_timetag q = m_ftt((double)va); uint32_t x1 = q.sec, y1 = q.frac_sec; " + want)
    # casts
    casts = {"int8": "c", "uint8": "C", "int16": "u", "uint16": "U", "int32": "i", "uint32": "I", "int64": "h", "uint64": "H", "float32": "f", "float64": "d"}
    for nm, t in casts.items():
        fn = "osc_expr_explicitCast_" + nm
        for src in tags:
            s.hpair(fn, "%s of '%s'" % (fn, src), "the value converted to the named type", CT[t], "%s va" % ctype(src),
                    arg("a", src) + res + "int e = %s(&r, &a); if(e) return 77; return r.typetag == '%s' ? osc_atom_u_get%s(&r) : 78;" % (fn, t, NAME[t]), "return (%s)(%s);" % (CT[t], val("a", src)))
    for src in tags:
        s.hpair("osc_expr_explicitCast_bool", "osc_expr_explicitCast_bool of '%s'" % src, "true exactly when not zero", "int", "%s va" % ctype(src),
                arg("a", src) + res + "int e = osc_expr_explicitCast_bool(&r, &a); if(e) return 77; return r.typetag;", "return (%s) != 0 ? 'T' : 'F';" % val("a", src))
    nf.decide(c, s, 2000)
