"""What the executor of tools/symex.py assumes about std, downcast-rs, anyhow and bevy_math."""
import re

import mir
from rs import T, UNIT, Unsupported, show_ty
from sym import ANY, BOOL, F64, INT, INTS, OPT, TEXT, Agg, Clo, Cond, Opaque, Pipe, Ref, V, conj, elem, neg, none, simple, some, unit

STR = ("str", "String")


def branch(ex, st, c, yes, no):
    """run `yes` where c holds and `no` elsewhere; -> value"""
    if c == "true":
        return yes(st)
    if c == "false":
        return no(st)
    a, b = st.copy(), st.copy()
    a.pc, b.pc = a.pc + (c,), b.pc + (neg(c),)
    import symex
    d = ex.depth
    try:
        va = yes(a)
    except symex.Never:
        ex.depth = d
        va = None
    try:
        vb = no(b)
    except symex.Never:
        if va is None:
            raise
        # only the first way returns
        ex.depth = d
        st.cells, st.ok = a.cells, conj([a.ok, c])
        return va
    if va is None:
        st.cells, st.ok = b.cells, conj([b.ok, neg(c)])
        return vb
    ex.merge(b, c, a)
    st.cells, st.ok = b.cells, b.ok
    return ex.cond(c, va, vb)


def cond_of(ex, o, name):
    c = ex.is_var(o, name)
    return ex.let(c, "bool") if not simple(c) else c


def payload_ty(ex, o):
    if isinstance(o, Cond):
        t = payload_ty(ex, o.a)
        return t if t[0] != "infer" and "infer" not in str(t) else payload_ty(ex, o.b)
    if isinstance(o, Agg) and o.variant in ("Some", "Ok"):
        return o.fields[0].ty
    t = mir.strip(o.ty)
    return t[2][0] if t[0] == "T" and t[2] else ("infer",)


def iterate(ex, v, st):
    w = ex.w
    if isinstance(v, Pipe):
        return v
    if isinstance(v, Ref):
        return iterate(ex, ex.load(st, v), st)
    if isinstance(v, Cond):
        t = ex.find_enum(v) if not isinstance(v.a, Pipe) else v.a.ty
        if isinstance(v.a, Pipe) or isinstance(v.b, Pipe):
            a, b = iterate(ex, v.a, st), iterate(ex, v.b, st)
            ta = ex.collect(a, st)
            e = ex.w_elem
            return Pipe(ex.cond(v.c, V(ta, T("Iter", e)), V(ex.collect(b, st), T("Iter", e))))
    t = mir.strip(v.ty)
    if t[0] == "T" and t[1] == "Vec":
        return Pipe(V(ex.term(v, st), T("Iter", vec_elem(v, t))))
    if t[0] == "T" and t[1] == "Option":
        c = cond_of(ex, v, "Some")
        if c == "false":
            return Pipe(V("Seq::<%s>::empty()" % w.vty(t[2][0]), T("Iter", t[2][0])))
        p = ex.getf(v, 0, "Some", st)
        if c == "true":
            return Pipe(ex.e("seq![%s]" % ex.term(p, st), T("Iter", p.ty)))
        return Pipe(ex.e("if %s { seq![%s] } else { Seq::<%s>::empty() }" % (c, ex.term(p, st), w.vty(p.ty)), T("Iter", p.ty)))
    if t[0] == "T" and t[1] == "HashSet":
        return Pipe(ex.e("set_order(%s)" % ex.term(v, st), T("Iter", t[2][0])))
    if t[0] == "T" and t[1] in ("HashMap", "BTreeMap"):
        e = ("tuple", (t[2][0], t[2][1]))
        return Pipe(ex.e("%s(%s)" % ("map_order" if t[1] == "HashMap" else "entries", ex.term(v, st)), T("Iter", e)))
    if t[0] == "T" and t[1] == "Iter":
        return Pipe(v)
    if t[0] == "T" and t[1] in w.ix.structs and w.erased(t):
        m = w.find_method("IntoIterator", "into_iter", t)
        if m:
            return iterate(ex, ex.invoke(m[0], [v], m[1], st), st)
    raise Unsupported("iteration over " + show_ty(t))


def vec_elem(v, t):
    if isinstance(v, Agg) and v.fields and "infer" in str(t):
        return v.fields[0].ty
    return t[2][0]


def text_of(ex, v, st):
    v = ex.deep(v, st)
    t = mir.strip(v.ty)
    if t[0] == "T" and t[1] in STR:
        return V(ex.term(v, st), TEXT)
    vt = ex.w.vty(t)
    return ex.e("%s(%s)" % (ex.w.ufn("show_" + ex.w.mangle(t), [vt], "Txt"), ex.term(v, st)), TEXT)


def convert(ex, a, b, v, st):
    if a == b or (a[0] == "T" and b[0] == "T" and a[1] in STR and b[1] in STR):
        return V(ex.term(v, st), b) if not isinstance(v, Opaque) else v
    if b[0] == "T" and b[1] in ("DVec3", "DVec2"):
        v = ex.deep(v, st)
        n = int(b[1][-1])
        if a[0] == "tuple" and len(a[1]) == n:
            return Agg(b, None, [ex.getf(v, i) for i in range(n)])
        if a[0] == "T" and a[1] == "Vec":
            return Agg(b, None, [ex.index(v, "%d of %d" % (i, n), None, st) for i in range(n)])
    if b[0] == "T" and b[1] == "Option":
        return some(v)
    if b[0] == "T" and b[1] == "Error":
        return Opaque(b)
    if b[0] == "T" and b[1] in INTS and a[0] == "T" and a[1] in INTS:
        return V(ex.term(v, st), b)
    if b[0] == "T" and b[1] == "DataMap":
        raise Unsupported("DataMap from iterator")
    raise Unsupported("conversion %s -> %s" % (show_ty(a), show_ty(b)))


def default(ex, t):
    t = mir.strip(t)
    w = ex.w
    if t[0] == "T":
        if t[1] == "Vec":
            return V("Seq::<%s>::empty()" % w.vty(t[2][0]), t)
        if t[1] == "HashSet":
            return V("Set::<%s>::empty()" % w.vty(t[2][0]), t)
        if t[1] in ("HashMap", "BTreeMap"):
            return V("Map::<%s, %s>::empty()" % (w.vty(t[2][0]), w.vty(t[2][1])), t)
        if t[1] == "Option":
            return none(t[2][0])
        if t[1] in STR:
            return V(ex.text('""'), TEXT)
        if t[1] in INTS:
            return V("0int", t)
        if t[1] == "f64":
            return V(ex.f64("0"), F64)
        if t[1] == "bool":
            return V("false", BOOL)
    if t == UNIT:
        return unit()
    return None


def comp(ex, v, st):
    v = ex.deep(v, st)
    n = len(ex.w.fields(mir.strip(v.ty)))
    return [ex.getf(v, i) for i in range(n)]


def f2(ex, n, a, b, st, rt=F64):
    return ex.e("%s(%s, %s)" % (ex.w.ufn(n, ["F64", "F64"], ex.w.vty(rt)), ex.term(a, st), ex.term(b, st)), rt)


OPS = {"Add": ("add", "f_add"), "Sub": ("sub", "f_sub"), "Mul": ("mul", "f_mul"), "Div": ("div", "f_div")}


def vec_op(ex, op, a, b, st):
    a, b = ex.deep(a, st), ex.deep(b, st)
    ta, tb = mir.strip(a.ty), mir.strip(b.ty)
    if ta == F64 and tb == F64:
        return f2(ex, op, a, b, st)
    if ta[0] == "T" and ta[1].startswith("DVec"):
        xs = comp(ex, a, st)
        ys = comp(ex, b, st) if tb == ta else [b] * len(xs)
        return Agg(ta, None, [f2(ex, op, x, y, st) for x, y in zip(xs, ys)])
    if tb[0] == "T" and tb[1].startswith("DVec") and ta == F64:
        return Agg(tb, None, [f2(ex, op, a, y, st) for y in comp(ex, b, st)])
    return ufun(ex, "op_%s_%s_%s" % (op, ex.w.mangle(ta), ex.w.mangle(tb)), [a, b], tb, st)


def ufun(ex, name, args, rt, st):
    ts = [(ex.term(a, st), ex.w.vty(ex.dyn_ty(a, st))) for a in args if not isinstance(a, Opaque)]
    return ex.e("%s(%s)" % (ex.w.ufn(re.sub(r"\W+", "_", name), [b for a, b in ts], ex.w.vty(rt)), ", ".join(a for a, b in ts)), rt)


def equal(ex, a, b, st):
    """== of two values -> condition, or None where the crate decides"""
    a, b = ex.deep(a, st), ex.deep(b, st)
    ta = mir.strip(a.ty)
    if ta[0] == "T" and (ta[1] in INTS or ta[1] in STR or ta[1] in ("bool", "char", "TypeId")):
        return V(ex.let("%s == %s" % (ex.term(a, st), ex.term(b, st)), "bool"), BOOL)
    if ta == F64:
        return f2(ex, "f_eq", a, b, st, BOOL)
    if ta[0] == "T" and ta[1].startswith("DVec"):
        return V(ex.let(conj([ex.term(f2(ex, "f_eq", x, y, st, BOOL)) for x, y in zip(comp(ex, a, st), comp(ex, b, st))]), "bool"), BOOL)
    if ta[0] == "tuple" and ta[1]:
        es = [equal(ex, ex.e("%s.%d" % (ex.term(a, st), i), t), ex.e("%s.%d" % (ex.term(b, st), i), t), st) for i, t in enumerate(ta[1])]
        return None if None in es else V(ex.let(conj([ex.term(e, st) for e in es]), "bool"), BOOL)
    if ta[0] == "T" and ta[1] == "Option":
        x, y = ex.let(ex.term(a, st), ex.w.vty(ta)), ex.let(ex.term(b, st), ex.w.vty(ta))
        e = payload_equal(ex, V(x + "->Some_0", ta[2][0]), V(y + "->Some_0", ta[2][0]), st)
        return e and V(ex.let("(%s is Some) == (%s is Some) && (%s is Some && %s is Some ==> %s)" % (x, y, x, y, ex.term(e, st)), "bool"), BOOL)
    return None


def payload_equal(ex, a, b, st):
    t = mir.strip(a.ty)
    e = equal(ex, a, b, st)
    if e is None and t[0] == "T" and (t[1] in ex.w.ix.structs or t[1] in ex.w.ix.enums):
        m = ex.w.find_method("PartialEq", "eq", t)
        e = m and ex.invoke(m[0], (a, b), m[1], st)
    return e or None


def trait_call(ex, trait, name, t, targs, gen, args, st, rt, env):
    w = ex.w
    crate = t[0] == "T" and (t[1] in w.ix.structs or t[1] in w.ix.enums)
    if trait == "Clone" and name == "clone":
        m = w.find_method("Clone", "clone", t) if crate else None
        if m and not getattr(m[0], "impl", {}).get("derived", True):
            return None
        return (ex.deep(args[0], st),)
    if trait in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut") and not (crate and w.find_method(trait, name, t)):
        return (args[0],)
    if trait in ("ToString",) and name == "to_string":
        v = ex.deep(args[0], st)
        return (text_of(ex, v, st),)
    if trait == "ToOwned":
        return (ex.deep(args[0], st),)
    if trait in ("PartialEq", "Eq") and name in ("eq", "ne"):
        r = equal(ex, args[0], args[1], st)
        if r is None:
            m = w.find_method("PartialEq", "eq", t)
            if not m:
                raise Unsupported("== of " + show_ty(t))
            r = ex.invoke(m[0], args, m[1], st)
        return (V(neg(ex.term(r, st)), BOOL) if name == "ne" else r,)
    if trait == "Try" and name == "branch":
        o = ex.deref(args[0], st)
        ot = ex.find_enum(o)
        good = "Ok" if ot[1] == "Result" else "Some"
        c = cond_of(ex, o, good)
        pt = payload_ty(ex, o)
        cf = T("ControlFlow", T("Residual"), pt)
        bad = Agg(cf, "Break", (Opaque(T("Residual")),))
        if c == "false":
            return (bad,)
        return (ex.cond(c, Agg(cf, "Continue", (ex.getf(o, 0, good, st),)), bad),)
    if trait == "FromResidual":
        if rt[0] == "T" and rt[1] == "Option":
            return (none(rt[2][0]),)
        return (Agg(rt, "Err", (Opaque(T("Error")),)),)
    if trait in ("FnOnce", "FnMut", "Fn"):
        a = args[1]
        return (ex.apply(args[0], list(a.fields) if isinstance(a, Agg) else [a], st),)
    if trait == "IntoIterator" and name == "into_iter" and not crate:
        v = ex.deref(args[0], st) if isinstance(args[0], Ref) else args[0]
        return (iterate(ex, v, st),)
    if trait in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator"):
        return (iterator(ex, name, args, gen, st, rt),)
    if trait == "Default" and name == "default":
        d = default(ex, t)
        if d is not None:
            return (d,)
        if w.is_var(t):
            return (V(w.ufn("default_of", ["int"], "Any") + "(%s)" % w.kind(t), t),)
        if not crate:
            return (fresh(ex, "default_" + w.mangle(t), t),)
        return None
    if trait == "Any" and name == "type_id":
        a = args[0]
        at = ex.dyn_ty(a, st)
        if at[0] == "T" and (at[1].startswith("dyn ") or w.is_var(at)):
            return (ex.e("kind(%s)" % ex.term(a, st), T("TypeId")),)
        return (V(w.kind(at), T("TypeId")),)
    if trait is None and name in ("downcast_ref", "downcast_mut"):
        a = args[0]
        k = w.kind(gen[0])
        if isinstance(a, Ref):
            any_ = ex.term(a, st)
            c = ex.let("kind(%s) == %s" % (any_, k), "bool")
            if name == "downcast_mut":
                return (ex.cond(c, some(Ref(a.cell, a.path + (("any", gen[0]),))), none(gen[0])),)
            return (ex.cond(c, some(ex.unany(any_, gen[0])), none(gen[0])),)
        if isinstance(a, Cond):
            raise Unsupported("downcast of a choice")
        any_ = ex.toany(a, st)
        return (ex.cond(ex.let("kind(%s) == %s" % (any_, k), "bool"), some(ex.unany(any_, gen[0])), none(gen[0])),)
    if trait is None and name in ("type_name", "type_id"):
        return (Opaque(TEXT),)
    if trait == "Index" and name == "index" and t[0] == "T" and t[1] == "Vec":
        v = ex.deref(args[0], st)
        k, q = ex.term(args[1], st), ex.term(v, st)
        st.ok = conj([st.ok, ex.let("0 <= %s < %s.len()" % (k, q), "bool")])
        return (ex.e("%s[%s]" % (q, k), vec_elem(v, t)),)
    if trait in OPS and name == OPS[trait][0] and not crate:
        return (vec_op(ex, OPS[trait][1], args[0], args[1], st),)
    if trait in ("AddAssign", "SubAssign", "MulAssign", "DivAssign") and not crate:
        op = OPS[trait[:3]][1]
        v = vec_op(ex, op, ex.load(st, args[0]), args[1], st)
        ex.store(st, args[0], v)
        return (unit(),)
    if trait == "Neg" and not crate:
        v = ex.deep(args[0], st)
        n = w.ufn("f_neg", ["F64"], "F64")
        if mir.strip(v.ty) == F64:
            return (ex.e("%s(%s)" % (n, ex.term(v, st)), F64),)
        return (Agg(v.ty, None, [ex.e("%s(%s)" % (n, ex.term(x, st)), F64) for x in comp(ex, v, st)]),)
    if trait == "From" and name == "from" and not crate:
        return (convert(ex, ex.dyn_ty(args[0], st), t, args[0], st),)
    if trait == "IFCParse" and name == "parse":
        return (Clo("parser:" + show_ty(t), (T(t[1]),), None, {}),)
    if trait == "Parser" and name == "parse" and args:
        p = ex.deref(args[0], st)
        if isinstance(p, Clo) and p.span.startswith("parser:"):
            # a whole text either is accepted with one value or refused
            o = ex.e("%s(%s)" % (w.ufn("parsed_" + w.mangle(p.fields[0]), ["Txt"], "Option<%s>" % w.vty(p.fields[0])), ex.term(args[1], st)), OPT(p.fields[0]))
            rt2 = T("Result", p.fields[0], T("Error"))
            return (ex.cond(ex.let("%s is Some" % o.term, "bool"), Agg(rt2, "Ok", (ex.getf(o, 0, "Some", st),)), Agg(rt2, "Err", (Opaque(T("Error")),))),)
    if (trait, name) in w.dyn and t[0] == "T" and t[1] == "dyn IfcType":
        # a method call through the object's own table: the function of its type
        f, vt, rt2 = w.dyn[(trait, name)]
        v = ex.e("%s__ret(%s)" % (f, ", ".join(ex.term(a, st) for a in args)), rt2)
        st.ok = conj([st.ok, ex.let("%s__ok(%s)" % (f, ", ".join(ex.term(a, st) for a in args)), "bool")])
        return (v,)
    if trait in ("Context",):
        return (args[0],)
    if trait == "Extend" and name == "extend":
        r = args[0]
        it = iterate(ex, args[1], st)
        s = ex.collect(it, st)
        v = ex.load(st, r)
        tt = mir.strip(v.ty)
        if tt[1] == "Vec":
            ex.store(st, r, ex.e("%s + %s" % (ex.term(v, st), s), tt))
            return (unit(),)
    if trait in ("Debug", "Display", "Hash", "Write"):
        return (Opaque(("infer",)),)
    if trait == "FromIterator" and name == "from_iter":
        return (gather(ex, iterate(ex, args[0], st), t, st),)
    if trait in ("Ord", "PartialOrd") and not crate:
        a, b = ex.deep(args[0], st), ex.deep(args[1], st)
        tt = mir.strip(a.ty)
        if tt[0] == "T" and tt[1] in INTS and name in ("lt", "le", "gt", "ge"):
            return (ex.e("%s %s %s" % (ex.term(a, st), {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name], ex.term(b, st)), BOOL),)
        if tt[0] == "T" and tt[1] in INTS and name in ("max", "min"):
            return (ex.e("if %s %s %s { %s } else { %s }" % (ex.term(a, st), ">" if name == "max" else "<", ex.term(b, st), ex.term(a, st), ex.term(b, st)), tt),)
        if tt[0] == "T" and tt[1] in INTS and name == "clamp":
            c = ex.deep(args[2], st)
            a, b, c = ex.term(a, st), ex.term(b, st), ex.term(c, st)
            st.ok = conj([st.ok, "%s <= %s" % (b, c)])
            return (ex.e("if %s < %s { %s } else if %s > %s { %s } else { %s }" % (a, b, b, a, c, c, a), tt),)
    return None


def fresh(ex, name, t):
    ex.w.n += 1
    return V("%s()" % ex.w.ufn("any_%s_%d" % (re.sub(r"\W+", "_", name), ex.w.n), [], ex.w.vty(t)), t)


def gather(ex, it, t, st):
    """collect"""
    t = mir.strip(t)
    if t[0] == "T" and t[1] in ("Option", "Result"):
        raise Unsupported("collect into " + show_ty(t))
    s, kept = effects(ex, it, st)
    e = ex.w_elem
    if t[0] == "T" and t[1] == "Vec":
        return V(s, T("Vec", e))
    if t[0] == "T" and t[1] == "HashSet":
        return ex.e("%s.to_set()" % s, T("HashSet", e))
    if t[0] == "T" and t[1] in ("BTreeMap", "HashMap"):
        return ex.e("from_entries(%s)" % s, T(t[1], *e[1]))
    if t[0] == "T" and t[1] in ex.w.ix.structs:
        r = ex.w.erased(t)
        if r and r[2][0] == "T" and r[2][1] == "Vec":
            return V(s, t)
    raise Unsupported("collect into " + show_ty(t))


def effects(ex, it, st):
    """sequence of a pipeline whose closures may have effects"""
    try:
        save = (ex.w.n, len(ex.w.out))
        return ex.collect(it, st), True
    except Unsupported as u:
        if "effects" not in str(u):
            raise
    return ex.gather_effects(it, st), False


def iterator(ex, name, args, gen, st, rt):
    w = ex.w
    a = args[0]
    if name == "next":
        r = a
        v = ex.load(st, r) if isinstance(r, Ref) else r
        while isinstance(v, Ref):
            r, v = v, ex.load(st, v)
        it = iterate(ex, v, st)
        s = ex.collect(it, st)
        e = ex.w_elem
        c = ex.let("%s.len() > 0" % s, "bool")
        if isinstance(r, Ref):
            ex.store(st, r, Pipe(V(ex.let("if %s { %s.drop_first() } else { %s }" % (c, s, s), "Seq<%s>" % w.vty(e)), T("Iter", e))))
        return ex.cond(c, some(ex.e("%s.first()" % s, e)), none(e))
    it = iterate(ex, a, st)
    if name in ("map", "filter", "filter_map", "flat_map"):
        return Pipe(it.src, it.ops + ((name, args[1]),))
    if name == "flatten":
        return Pipe(it.src, it.ops + (("flatten", None),))
    if name in ("cloned", "copied", "by_ref", "into_iter", "iter", "fuse", "peekable"):
        return it
    if name == "enumerate":
        s = ex.collect(it, st)
        e = ("tuple", (INT, ex.w_elem))
        return Pipe(ex.e("enumerated(%s)" % s, T("Iter", e)))
    if name == "chain":
        s = ex.collect(it, st)
        e = ex.w_elem
        return Pipe(ex.e("%s + %s" % (s, ex.collect(iterate(ex, args[1], st), st)), T("Iter", e)))
    if name == "rev":
        s = ex.collect(it, st)
        return Pipe(ex.e("%s.reverse()" % s, T("Iter", ex.w_elem)))
    if name in ("take", "skip"):
        s = ex.collect(it, st)
        n = ex.term(args[1], st)
        return Pipe(ex.e(("if %s < %s.len() { %s.%s(%s) } else { %s }" % (n, s, s, name, n, s)) if name == "take" else "if %s < %s.len() { %s.skip(%s) } else { %s.take(0) }" % (n, s, s, n, s), T("Iter", ex.w_elem)))
    if name == "zip":
        s = ex.collect(it, st)
        e1 = ex.w_elem
        s2 = ex.collect(iterate(ex, args[1], st), st)
        e2 = ex.w_elem
        return Pipe(ex.e("zipped(%s, %s)" % (s, s2), T("Iter", ("tuple", (e1, e2)))))
    if name == "collect":
        return gather(ex, it, gen[0] if gen and gen[0][0] != "infer" and "infer" not in str(gen[0][:2]) else rt, st)
    if name == "last":
        s = ex.collect(it, st)
        e = ex.w_elem
        return ex.cond(ex.let("%s.len() > 0" % s, "bool"), some(ex.e("%s.last()" % s, e)), none(e))
    if name in ("max", "min"):
        s = ex.collect(it, st)
        if w.vty(ex.w_elem) != "int":
            raise Unsupported(name)
        return ex.e("seq_%s(%s)" % (name, s), OPT(ex.w_elem))
    if name == "count":
        return ex.e("%s.len() as int" % ex.collect(it, st), INT)
    if name == "sum":
        s = ex.collect(it, st)
        e = mir.strip(ex.w_elem)
        if e == F64:
            ex.w.ufn("f_sum", ["Seq<F64>"], "F64")
            return ex.e("f_sum(%s)" % s, F64)
        return ex.e("int_sum(%s)" % s, e)
    if name in ("any", "all"):
        src, f, ca, e = ex.predicate(it, st, lambda x, s: ex.term(ex.apply(args[1], [x], s), s))
        if name == "any":
            return ex.e("exists|i: int| 0 <= i < %s.len() && %s(#[trigger] %s[i]%s)" % (src, f, src, ca), BOOL)
        return ex.e("forall|i: int| 0 <= i < %s.len() ==> %s(#[trigger] %s[i]%s)" % (src, f, src, ca), BOOL)
    if name == "try_for_each":
        src, f, ca, e = ex.predicate(it, st, lambda x, s: ex.is_var(ex.deref(ex.apply(args[1], [x], s), s), "Ok"))
        c = ex.let("forall|i: int| 0 <= i < %s.len() ==> %s(#[trigger] %s[i]%s)" % (src, f, src, ca), "bool")
        t = T("Result", UNIT, T("Error"))
        return ex.cond(c, Agg(t, "Ok", (unit(),)), Agg(t, "Err", (Opaque(T("Error")),)))
    if name in ("find", "find_map") and all(k != "flat_map" and k != "flatten" for k, f in it.ops):
        return ex.first(Pipe(it.src, it.ops + (("filter" if name == "find" else "filter_map", args[1]),)), st)
    if name in ("find", "find_map", "position"):
        src, f, ca, e = ex.predicate(it, st, lambda x, s: ex.term(ex.apply(args[1], [x], s), s) if name != "find_map" else ex.let(ex.is_var(ex.deref(ex.apply(args[1], [x], s), s), "Some"), "bool"))
        g = w.fresh("find")
        caps = [c for c in ca.replace(",", " ").split()]
        par = "".join(", %s: %s" % (c, w.vty_of[c]) for c in caps)
        # position of the first element which satisfies the predicate
        w.out.append("pub open spec fn %s(s: Seq<%s>%s) -> int\n    decreases s.len(),\n{\n    if s.len() == 0 { -1int } else if %s(s.first()%s) { 0int } else { let r = %s(s.drop_first()%s); if r < 0 { -1int } else { r + 1 } }\n}\n" % (g, w.vty(e), par, f, ca, g, ca))
        w.finds = getattr(w, "finds", {})
        w.finds[g] = dict(f=f, caps=caps, e=e)
        k = ex.let("%s(%s%s)" % (g, src, ca), "int")
        c = ex.let("%s >= 0" % k, "bool")
        x = ex.e("%s[%s]" % (src, k), e)
        if name == "position":
            return ex.cond(c, some(V(k, INT)), none(INT))
        if name == "find":
            return ex.cond(c, some(x), none(e))
        s2 = st.copy()
        o = ex.deref(ex.apply(args[1], [x], s2), s2)
        p = ex.getf(o, 0, "Some", s2)
        return ex.cond(c, some(p), none(p.ty))
    if name == "for_each":
        return ex.for_each(it, args[1], st)
    if name == "reduce":
        s = ex.collect(it, st)
        e = ex.w_elem
        c = ex.let("%s.len() > 0" % s, "bool")
        r = ex.fold(Pipe(ex.e("%s.drop_first()" % s, T("Iter", e))), ex.e("%s.first()" % s, e), args[1], st)
        return ex.cond(c, some(r), none(e))
    if name == "fold":
        return ex.fold(it, args[1], args[2], st)
    raise Unsupported("Iterator::" + name)


def path_call(ex, pa, name, gen, args, st, rt, env):
    w = ex.w
    key = "::".join(n for n, g in pa.segs)
    owner = pa.segs[-2][0] if len(pa.segs) > 1 else ""
    og = [ex.gty(x, env) for x in (pa.segs[-2][1] or [])] if len(pa.segs) > 1 else []
    if owner == "Option":
        return (option(ex, name, args, st, rt, og, gen),)
    if owner == "Result":
        o = ex.deref(args[0], st)
        if name == "map_err":
            return (o,)
        c = cond_of(ex, o, "Ok")
        if name in ("unwrap", "expect"):
            st.ok = conj([st.ok, c])
            return (ex.getf(o, 0, "Ok", st),)
        if name == "is_ok":
            return (V(c, BOOL),)
        if name == "is_err":
            return (V(neg(c), BOOL),)
        if name == "ok":
            pt = payload_ty(ex, o)
            return (none(pt) if c == "false" else ex.cond(c, some(ex.getf(o, 0, "Ok", st)), none(pt)),)
        if name == "map":
            bad = Agg(rt, "Err", (Opaque(T("Error")),))
            return (branch(ex, st, c, lambda s: okv(ex.apply(args[1], [ex.getf(o, 0, "Ok", s)], s)), lambda s: bad),)
    if owner == "Vec" or (owner == "<impl>" and "slice" in key) or owner == "slice" or key.startswith(("core::slice", "std::slice", "alloc::slice")):
        return (vec(ex, name, args, st, rt, og, gen),)
    if owner in ("HashMap", "BTreeMap"):
        return (hmap(ex, owner, name, args, st, rt, og, gen),)
    if owner == "Entry":
        return (entry(ex, name, args, st, rt),)
    if owner == "HashSet":
        return (hset(ex, name, args, st, rt, og),)
    if owner in ("bool",) or (owner == "<impl>" and "bool" in key):
        c = ex.term(args[0], st)
        if name == "then_some":
            return (ex.cond(c, some(args[1]), none(args[1].ty)),)
        if name == "then":
            t = [None]

            def yes(s):
                v = ex.apply(args[1], [], s)
                t[0] = v.ty
                return some(v)
            return (branch(ex, st, c, yes, lambda s: none(t[0])),)
    if name == "type_name":
        return (Opaque(TEXT),)
    if owner == "TypeId" and name == "of":
        return (V(w.kind(gen[0]), T("TypeId")),)
    if name == "new" and owner == "Box":
        return (args[0],)
    if owner in ("DVec2", "DVec3"):
        return (dvec(ex, owner, name, args, st, rt),)
    if owner == "String" or owner in ("str",) or (owner == "<impl>" and "str" in key):
        if name in ("new",):
            return (V(ex.text('""'), TEXT),)
        if name in ("as_str", "to_string", "to_owned", "into_string", "as_ref", "clone"):
            return (args[0],)
        v = [a for a in args if not isinstance(a, Opaque)]
        return (ufun(ex, "str_" + name, v, rt if "infer" not in str(rt) else TEXT, st),)
    if "fmt" in key or "anyhow" in key:
        return fmt(ex, key, name, args, st, rt)
    if owner == "Utc" and name == "now" or name == "new_v4" or "Uuid" in key or "chrono" in key:
        return (fresh(ex, name, rt if rt[0] != "infer" else T("DateTime")),)
    if name in ("must_use", "identity", "take", "black_box") and "hint" in key or key.endswith("convert::identity"):
        return (args[0],)
    if key.endswith("mem::take") or key.endswith("mem::replace"):
        v = ex.load(st, args[0])
        d = default(ex, mir.strip(v.ty)) if name == "take" else args[1]
        if d is None:
            m = w.find_method("Default", "default", mir.strip(v.ty))
            d = ex.invoke(m[0], [], m[1], st)
        ex.store(st, args[0], d)
        return (v,)
    if owner == "f64" or (owner == "<impl>" and "f64" in key):
        return (ufun(ex, "f64_" + name, args, rt, st),)
    if owner == "Box" and name == "new_uninit":
        return (Opaque(T("Box")),)
    if name == "map" and (key.startswith("std::array") or key.startswith("core::array")):
        v = ex.deref(args[0], st)
        if isinstance(v, Agg):
            xs = [ex.apply(args[1], [x], st) for x in v.fields]
            return (Agg(T("Vec", xs[0].ty), None, xs),)
    if name == "box_assume_init_into_vec_unsafe" or name == "into_vec" or name == "box_new":
        return (args[0],)
    if key.startswith("itertools") or owner == "Itertools":
        raise Unsupported(key)
    return None


def okv(v):
    return Agg(T("Result", v.ty, T("Error")), "Ok", (v,))


def option(ex, name, args, st, rt, og, gen):
    w = ex.w
    a = args[0]
    if name in ("as_ref", "as_deref"):
        return ex.deref(a, st)
    if name in ("take",):
        v = ex.load(st, a)
        t = payload_ty(ex, v)
        ex.store(st, a, none(t))
        return v
    if name == "insert" or name == "replace":
        old = ex.load(st, a)
        ex.store(st, a, some(args[1]))
        return old if name == "replace" else Ref(a.cell, a.path + (("f", 0, "Some"),))
    if name == "as_mut":
        if isinstance(a, Ref):
            v = ex.load(st, a)
            return ex.cond(cond_of(ex, v, "Some"), some(Ref(a.cell, a.path + (("f", 0, "Some"),))), none(payload_ty(ex, v)))
        return a
    o = ex.deref(a, st)
    c = cond_of(ex, o, "Some")
    pt = payload_ty(ex, o)

    def get(s):
        return ex.getf(o, 0, "Some", s)
    if name in ("unwrap", "expect"):
        st.ok = conj([st.ok, c])
        return get(st)
    if name in ("cloned", "copied"):
        if c == "false":
            return none(pt)
        return ex.cond(c, some(ex.deep(get(st), st)), none(pt))
    if name == "is_some":
        return V(c, BOOL)
    if name == "is_none":
        return V(neg(c), BOOL)
    if name == "map":
        t = [None]

        def yes(s):
            v = ex.apply(args[1], [get(s)], s)
            t[0] = v.ty
            return some(v)
        if c == "false":
            return none(elem(rt))
        return branch(ex, st, c, yes, lambda s: none(t[0]))
    if name == "and_then":
        t = [None]

        def yes(s):
            v = ex.apply(args[1], [get(s)], s)
            t[0] = payload_ty(ex, v)
            return v
        if c == "false":
            return none(elem(rt))
        return branch(ex, st, c, yes, lambda s: none(t[0]))
    if name == "filter":
        t = branch(ex, st, c, lambda s: ex.apply(args[1], [get(s)], s), lambda s: V("false", BOOL))
        return ex.cond(conj([c, ex.term(t, st)]), some(get(st)), none(pt))
    if name == "flatten":
        if c == "false":
            return none(elem(pt))
        i = get(st)
        return ex.cond(c, i, none(payload_ty(ex, i)))
    if name in ("ok_or_else", "ok_or"):
        t = T("Result", pt, T("Error"))
        bad = Agg(t, "Err", (Opaque(T("Error")),))
        return bad if c == "false" else ex.cond(c, Agg(t, "Ok", (get(st),)), bad)
    if name == "unwrap_or":
        return args[1] if c == "false" else ex.cond(c, ex.deep(get(st), st), args[1])
    if name == "unwrap_or_else":
        return branch(ex, st, c, get, lambda s: ex.apply(args[1], [], s))
    if name == "unwrap_or_default":
        d = default(ex, pt)
        if d is None:
            m = w.find_method("Default", "default", mir.strip(pt))
            d = ex.invoke(m[0], [], m[1], st)
        return ex.cond(c, get(st), d)
    if name == "or":
        return ex.cond(c, o, args[1])
    if name == "or_else":
        return branch(ex, st, c, lambda s: o, lambda s: ex.apply(args[1], [], s))
    if name == "map_or":
        return branch(ex, st, c, lambda s: ex.apply(args[2], [get(s)], s), lambda s: args[1])
    if name == "map_or_else":
        return branch(ex, st, c, lambda s: ex.apply(args[2], [get(s)], s), lambda s: ex.apply(args[1], [], s))
    if name == "is_some_and":
        return branch(ex, st, c, lambda s: ex.apply(args[1], [get(s)], s), lambda s: V("false", BOOL))
    if name == "iter":
        return iterate(ex, o, st)
    raise Unsupported("Option::" + name)


def emptied(ex, a, st):
    """what was in a container, which is empty afterwards"""
    v = ex.deref(a, st)
    it = iterate(ex, v, st)
    ex.store(st, a, default(ex, mir.strip(v.ty)))
    return it


def vec(ex, name, args, st, rt, og, gen):
    w = ex.w
    if name in ("new", "with_capacity"):
        t = og[0] if og and og[0][0] != "infer" else (rt[2][0] if rt[0] == "T" and rt[2] else ("infer",))
        return V("Seq::<%s>::empty()" % w.vty(t), T("Vec", t))
    a = args[0]
    if name in ("iter", "into_iter"):
        return iterate(ex, ex.deref(a, st), st)
    if name == "drain" and "RangeFull" in str(gen):
        return emptied(ex, a, st)
    if name in ("as_slice", "to_vec", "into_vec", "as_ref", "into_boxed_slice", "to_owned"):
        return ex.deref(a, st)
    v = ex.deref(a, st)
    t = mir.strip(v.ty)
    if name == "push":
        x = args[1]
        e = t[2][0] if t[2] and t[2][0][0] != "infer" else x.ty
        ex.store(st, a, ex.e("%s.push(%s)" % (ex.term(v, st), ex.term(x, st)), T("Vec", e)))
        return unit()
    s = ex.term(v, st)
    if name == "len":
        return ex.e("%s.len() as int" % s, INT)
    if name == "is_empty":
        return ex.e("%s.len() == 0" % s, BOOL)
    if name in ("first", "last"):
        return ex.cond(ex.let("%s.len() > 0" % s, "bool"), some(ex.e("%s.%s()" % (s, name), t[2][0])), none(t[2][0]))
    if name == "contains":
        return ex.e("%s.contains(%s)" % (s, ex.term(args[1], st)), BOOL)
    if name in ("extend_from_slice", "append"):
        ex.store(st, a, ex.e("%s + %s" % (s, ex.term(args[1], st)), t))
        return unit()
    if name == "clear":
        ex.store(st, a, default(ex, t))
        return unit()
    if name == "pop":
        c, old = ex.let("%s.len() > 0" % s, "bool"), ex.e("%s.last()" % s, t[2][0])
        ex.store(st, a, ex.e("if %s { %s.drop_last() } else { %s }" % (c, s, s), t))
        return ex.cond(c, some(old), none(t[2][0]))
    if name == "reverse":
        ex.store(st, a, ex.e("%s.reverse()" % s, t))
        return unit()
    if name == "truncate":
        k = ex.term(args[1], st)
        ex.store(st, a, ex.e("if %s < %s.len() { %s.take(%s) } else { %s }" % (k, s, s, k, s), t))
        return unit()
    if name in ("insert", "remove"):
        k = ex.term(args[1], st)
        st.ok = conj([st.ok, ex.let("%s %s %s.len()" % (k, "<=" if name == "insert" else "<", s), "bool")])
        if name == "insert":
            ex.store(st, a, ex.e("%s.insert(%s, %s)" % (s, k, ex.term(args[2], st)), t))
            return unit()
        old = ex.e("%s[%s]" % (s, k), t[2][0])
        ex.store(st, a, ex.e("%s.remove(%s)" % (s, k), t))
        return old
    if name == "get":
        k = ex.term(args[1], st)
        return ex.cond(ex.let("%s < %s.len()" % (k, s), "bool"), some(ex.e("%s[%s]" % (s, k), t[2][0])), none(t[2][0]))
    if name == "map":   # array map
        if isinstance(v, Agg):
            xs = [ex.apply(args[1], [x], st) for x in v.fields]
            return Agg(T("Vec", xs[0].ty), None, xs)
    raise Unsupported("Vec::" + name)


def hmap(ex, owner, name, args, st, rt, og, gen):
    w = ex.w
    if name in ("new", "with_capacity"):
        t = T(owner, *(og[:2] if len(og) >= 2 and og[0][0] != "infer" else rt[2][:2]))
        return V("Map::<%s, %s>::empty()" % (w.vty(t[2][0]), w.vty(t[2][1])), t)
    a = args[0]
    v = ex.deref(a, st)
    t = mir.strip(v.ty if not isinstance(v, Cond) else v.a.ty)
    m = ex.term(v, st)
    kt, vt = t[2][0], t[2][1]
    if name in ("iter", "into_iter"):
        return iterate(ex, v, st)
    if name == "drain":
        return emptied(ex, a, st)
    if name == "clear":
        ex.store(st, a, default(ex, t))
        return unit()
    if name in ("keys", "into_keys"):
        return Pipe(ex.e("%s(%s)" % ("key_order" if owner == "HashMap" else "asc", m), T("Iter", kt)))
    if name in ("values", "into_values"):
        return Pipe(ex.e("%s(%s)" % ("value_order" if owner == "HashMap" else "asc_values", m), T("Iter", vt)))
    if name == "len":
        return ex.e("%s.dom().len() as int" % m, INT)
    if name == "is_empty":
        return ex.e("%s.dom().len() == 0" % m, BOOL)
    if name in ("last_key_value", "first_key_value", "last_entry") and owner == "BTreeMap":
        s = ex.let("entries(%s)" % m, "Seq<(%s, %s)>" % (w.vty(kt), w.vty(vt)))
        e = ("tuple", (kt, vt))
        return ex.cond(ex.let("%s.len() > 0" % s, "bool"), some(ex.e("%s.%s()" % (s, name.split("_")[0]), e)), none(e))
    k = ex.term(ex.deep(args[1], st), st)
    if name == "contains_key":
        return ex.e("%s.contains_key(%s)" % (m, k), BOOL)
    has = ex.let("%s.contains_key(%s)" % (m, k), "bool")
    if name == "get":
        return ex.cond(has, some(ex.e("%s[%s]" % (m, k), vt)), none(vt))
    if name == "get_mut":
        return ex.cond(has, some(Ref(a.cell, a.path + (("key", k, vt),))), none(vt))
    if name == "insert":
        x = args[2]
        xt = ex.toany(x, st) if w.vty(vt) == "Any" else ex.term(x, st)
        ex.store(st, a, ex.e("%s.insert(%s, %s)" % (m, k, xt), t))
        return ex.cond(has, some(ex.e("%s[%s]" % (m, k), vt)), none(vt))
    if name == "remove":
        ex.store(st, a, ex.e("%s.remove(%s)" % (m, k), t))
        return ex.cond(has, some(ex.e("%s[%s]" % (m, k), vt)), none(vt))
    if name == "entry":
        return Agg(T("Entry", kt, vt), None, (a, V(k, kt)))
    raise Unsupported(owner + "::" + name)


def entry(ex, name, args, st, rt):
    e = args[0]
    r, k = e.fields
    vt = e.ty[2][1]
    if not isinstance(r, Ref):
        raise Unsupported("Entry of a value")
    m = ex.load(st, r)
    mt = mir.strip(m.ty if not isinstance(m, Cond) else m.a.ty)
    has = ex.let("%s.contains_key(%s)" % (ex.term(m, st), k.term), "bool")

    def add(s):
        if name in ("or_default",):
            v = default(ex, vt)
            if v is None:
                x = ex.w.find_method("Default", "default", mir.strip(vt))
                v = ex.invoke(x[0], [], x[1], s)
        elif name == "or_insert":
            v = args[1]
        elif name == "or_insert_with":
            v = ex.apply(args[1], [], s)
        else:
            raise Unsupported("Entry::" + name)
        cur = ex.load(s, r)
        ex.store(s, r, ex.e("%s.insert(%s, %s)" % (ex.term(cur, s), k.term, ex.term(v, s)), mt))
        return unit()
    branch(ex, st, has, lambda s: unit(), add)
    return Ref(r.cell, r.path + (("key", k.term, vt),))


def hset(ex, name, args, st, rt, og):
    w = ex.w
    if name in ("new", "with_capacity"):
        t = og[0] if og and og[0][0] != "infer" else rt[2][0]
        return V("Set::<%s>::empty()" % w.vty(t), T("HashSet", t))
    a = args[0]
    v = ex.deref(a, st)
    t = mir.strip(v.ty)
    s = ex.term(v, st)
    if name in ("iter", "into_iter"):
        return iterate(ex, v, st)
    if name == "drain":
        return emptied(ex, a, st)
    if name == "clear":
        ex.store(st, a, default(ex, t))
        return unit()
    if name == "len":
        return ex.e("%s.len() as int" % s, INT)
    if name == "is_empty":
        return ex.e("%s.len() == 0" % s, BOOL)
    x = ex.term(ex.deep(args[1], st), st)
    if name == "insert":
        new = ex.e("!%s.contains(%s)" % (s, x), BOOL)
        ex.store(st, a, ex.e("%s.insert(%s)" % (s, x), t))
        return new
    if name == "contains":
        return ex.e("%s.contains(%s)" % (s, x), BOOL)
    if name == "remove":
        had = ex.e("%s.contains(%s)" % (s, x), BOOL)
        ex.store(st, a, ex.e("%s.remove(%s)" % (s, x), t))
        return had
    raise Unsupported("HashSet::" + name)


def dvec(ex, owner, name, args, st, rt):
    t = T(owner)
    n = int(owner[-1])
    if name == "new":
        return Agg(t, None, args)
    if name == "splat":
        return Agg(t, None, [args[0]] * n)
    v = comp(ex, args[0], st) if ex.dyn_ty(args[0], st)[1].startswith("DVec") else None
    if name == "extend" and owner == "DVec2":
        return Agg(T("DVec3"), None, v + [args[1]])
    if name == "truncate" and owner == "DVec3":
        return Agg(T("DVec2"), None, v[:2])
    if name == "cross" and owner == "DVec3":
        b = comp(ex, args[1], st)

        def m(i, j):
            return f2(ex, "f_sub", f2(ex, "f_mul", v[i], b[j], st), f2(ex, "f_mul", v[j], b[i], st), st)
        # glam: (y*bz - by*z, z*bx - bz*x, x*by - bx*y)
        def g(i, j):
            return f2(ex, "f_sub", f2(ex, "f_mul", v[i], b[j], st), f2(ex, "f_mul", b[i], v[j], st), st)
        return Agg(t, None, [g(1, 2), g(2, 0), g(0, 1)])
    if name in ("from_array",):
        return Agg(t, None, [ex.index(ex.deep(args[0], st), "%d of %d" % (i, n), None, st) for i in range(n)])
    return ufun(ex, "%s_%s" % (owner, name), args, rt if rt[0] != "infer" else t, st)


def fmt(ex, key, name, args, st, rt):
    if name.startswith("new_") and "Argument" in key:
        return (Agg(T("FmtArg"), None, (ex.deep(args[0], st),)),)
    if "Arguments" in key:
        xs = []
        for a in args:
            a = ex.deref(a, st)
            if isinstance(a, Agg) and a.ty[0] == "T" and a.ty[1] == "Vec":
                xs += [ex.deref(x, st) for x in a.fields]
            else:
                xs.append(a)
        return (Agg(T("FmtArgs"), None, xs),)
    if key.endswith("fmt::format") or key.endswith("::format"):
        a = args[0]
        if not isinstance(a, Agg):
            return (fresh(ex, "text", TEXT),)
        lit, ts = [], []
        for x in a.fields:
            if isinstance(x, Agg) and x.ty == T("FmtArg"):
                y = x.fields[0]
                if isinstance(y, Opaque):
                    return (fresh(ex, "text", TEXT),)
                try:
                    ts.append((ex.term(y, st), ex.w.vty(ex.dyn_ty(y, st))))
                except Unsupported:
                    return (fresh(ex, "text", TEXT),)
            else:
                lit.append(getattr(x, "text", repr(x)))
        import zlib
        n = "fmt_%x" % zlib.crc32(("".join(lit) + "|".join(b for a, b in ts)).encode())
        return (ex.e("%s(%s)" % (ex.w.ufn(n, [b for a, b in ts], "Txt"), ", ".join(a for a, b in ts)), TEXT),)
    return (Opaque(rt if rt[0] != "infer" else T("Error")),)
