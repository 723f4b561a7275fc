"""The executor behind tools/sym.py: runs MIR blocks on symbolic values."""
import re

import mir
import rs
from rs import T, UNIT, Unsupported, show_ty, subst, unify
from sym import (ANY, BOOL, F64, INT, INTS, OPT, TEXT, Agg, Clo, Cond, Ctx, Disc, Opaque, Pipe, Ref, State, V, conj, disj, elem, neg, none,
                 simple, some, unit)
import symstd

ZERO = T("usize")


def balanced(e):
    d = 0
    for c in e:
        d += c in "([{"
        d -= c in ")]}"
        if d < 0:
            return False
    return d == 0


class Never(Unsupported):
    """a call which panics in every case"""


class Frame:
    def __init__(self, fn, env):
        self.fn, self.env = mir.body(fn), env
        self.cells = {}
        if getattr(fn, "parsed", None) is None:
            fn.parsed = {b: [x for x in (mir.parse_stmt(s) for s in st) if x] for b, st in fn.blocks.items()}
            fn.cfg = Cfg(fn)


class Cfg:
    """blocks which can return, immediate post-dominators, loops"""

    def __init__(self, fn):
        self.succ = {}
        for b, st in fn.parsed.items():
            self.succ[b] = targets(st[-1]) if st else []
        pred = {}
        for b, ss in self.succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        rets = [b for b, st in fn.parsed.items() if st and st[-1][0] == "RETURN"]
        live, todo = set(), list(rets)
        while todo:
            b = todo.pop()
            if b not in live:
                live.add(b)
                todo += pred.get(b, [])
        self.live = live
        # post-dominators
        allb = set(live)
        pd = {b: set(allb) | {"exit"} for b in live}
        for r in rets:
            pd[r] = {r, "exit"}
        change = True
        order = list(live)
        while change:
            change = False
            for b in order:
                if b in rets:
                    continue
                ss = [s for s in self.succ[b] if s in live]
                n = set.intersection(*[pd[s] for s in ss]) | {b} if ss else {b}
                if n != pd[b]:
                    pd[b] = n
                    change = True
        self.ipdom = {}
        for b in live:
            c = pd[b] - {b}
            # the closest: the one whose own post-dominators are all of c
            self.ipdom[b] = next((x for x in c if x != "exit" and pd[x] == c), "exit")
        # back edges by depth first search
        self.loops = {}
        color, stack = {}, [("bb0", iter([s for s in self.succ.get("bb0", []) if s in live]))]
        color["bb0"] = 1
        while stack:
            b, it = stack[-1]
            s = next(it, None)
            if s is None:
                color[b] = 2
                stack.pop()
            elif color.get(s) == 1:
                self.loops.setdefault(s, set()).add(b)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter([x for x in self.succ[s] if x in live])))
        for h, srcs in self.loops.items():
            bodyb, todo = {h}, list(srcs)
            while todo:
                b = todo.pop()
                if b not in bodyb:
                    bodyb.add(b)
                    todo += [p for p in pred.get(b, []) if p in live]
            self.loops[h] = bodyb


def targets(s):
    if s[0] == "GOTO":
        return [s[1]]
    if s[0] == "SWITCH":
        return [b for k, b in s[2]]
    if s[0] == "DROP":
        return [s[2]] if s[2] else []
    if s[0] == "ASSERT":
        return [s[3]] if s[3] else []
    if s[0] == "CALL":
        return [s[4]] if s[4] else []
    return []


class Ex:
    def __init__(self, w):
        self.w = w
        self.ctx = Ctx()
        self.depth = 0
        self.watch = None
        self.lemmas = []

    # ------------------------------------------------------------ terms
    def let(self, term, vty, t=None):
        if simple(term) and len(term) < 60 and "(" not in term:
            return term
        v = self.ctx.find(term)
        if v is None:
            v = self.w.fresh("v", vty)
            self.ctx.memo[term] = v
            self.ctx.items.append(("let", v, vty, term))
            if t is not None:
                self.w.rty_of[v] = t
        return v

    def e(self, term, t):
        """value of a term, named"""
        return V(self.let(term, self.w.vty(t), t), t)

    def term(self, v, st=None, t=None):
        """Verus term of a value"""
        w = self.w
        if isinstance(v, V):
            return v.term
        if isinstance(v, Ref):
            return self.term(self.load(st, v), st)
        if isinstance(v, Cond):
            a, b = self.term(v.a, st, t), self.term(v.b, st, t)
            if a == b:
                return a
            tt = v.a.ty if not isinstance(v.a, Opaque) else v.b.ty
            if tt[0] == "ref":
                tt = self.deep(v.a, st).ty
            tt = tt if "infer" not in str(tt) else v.b.ty
            return self.let("if %s { %s } else { %s }" % (v.c, a, b), w.vty(tt), tt)
        if isinstance(v, Opaque):
            return "()"
        if isinstance(v, Pipe):
            return self.collect(v, st)
        if isinstance(v, Disc):
            raise Unsupported("discriminant as a number")
        if isinstance(v, Clo):
            raise Unsupported("closure as a value")
        if isinstance(v, Agg):
            t = mir.strip(v.ty)
            if t[0] == "T" and t[1] in ("Vec",):
                return self.let("seq![%s]" % ", ".join(self.term(x, st) for x in v.fields), w.vty(t), t) if v.fields else "Seq::<%s>::empty()" % w.vty(t[2][0])
            if t[0] == "tuple":
                if not t[1] and not v.fields:
                    return "()"
                ts = [self.term(x, st) for x in v.fields]
                m = self.same(ts, [str(i) for i in range(len(ts))], t)
                return m or ("(%s)" % ", ".join(ts) if len(ts) > 1 else ts[0])
            if v.variant is None:
                r = w.real_fields(t)
                if not r:
                    return "()"
                ts = [self.term(v.fields[i], st) for i, n, ft in r]
                if len(r) == 1:
                    return ts[0]
                m = self.same(ts, [w.fname(n) for i, n, ft in r], t)
                return m or self.let("%s { %s }" % (w.vty(t), ", ".join("%s: %s" % (w.fname(n), x) for (i, n, ft), x in zip(r, ts))), w.vty(t), t)
            ts = [self.term(x, st) for x in v.fields]
            if t[1] in ("Option", "Result"):
                vt = w.vty(t if "infer" not in str(t) else self.retype(v))
                head = re.sub("^(Option|Result)<", r"\1::<", vt) + "::" + v.variant
                if v.variant == "Err":
                    ts = ["()"]
            else:
                head = w.vty(t) + "::" + v.variant
            fs = w.fields(t, v.variant) if t[1] in w.ix.enums else []
            if fs and fs[0][0] != "0":
                return self.let("%s { %s }" % (head, ", ".join("%s: %s" % (w.fname(n), x) for (n, _), x in zip(fs, ts))), w.vty(t), t)
            if "infer" in str(t):
                t = self.retype(v)
            return self.let("%s(%s)" % (head, ", ".join(ts)), w.vty(t), t) if ts else head
        raise Unsupported("value %r" % (v,))

    def retype(self, v):
        if v.variant in ("Some", "Ok") and v.fields:
            return ("T", v.ty[1], (self.vtype(v.fields[0]),) + tuple(v.ty[2][1:]))
        return v.ty

    def vtype(self, v):
        return v.ty

    def same(self, ts, names, t):
        if not ts:
            return None
        base = None
        for x, n in zip(ts, names):
            if not x.endswith("." + n):
                return None
            b = x[:-len(n) - 1]
            if base not in (None, b) or not simple(b):
                return None
            base = b
        return base if base and self.w.vty_of.get(base) == self.w.vty(t) else None

    def deep(self, v, st):
        """without references"""
        if isinstance(v, Ref):
            return self.deep(self.load(st, v), st)
        if isinstance(v, Cond):
            return self.cond(v.c, self.deep(v.a, st), self.deep(v.b, st))
        if isinstance(v, Agg):
            return Agg(v.ty, v.variant, [self.deep(x, st) for x in v.fields])
        return v

    def cond(self, c, a, b):
        if a == b or c == "true":
            return a
        if c == "false":
            return b
        if isinstance(a, V) and isinstance(b, V):
            if a.ty == BOOL and mir.strip(b.ty) == BOOL:
                if a.term == "true" and b.term == "false":
                    return V(c, BOOL)
                if a.term == "false" and b.term == "true":
                    return V(neg(c), BOOL)
                if a.term == "true":
                    return self.e(disj([c, b.term]), BOOL)
                if b.term == "false":
                    return self.e(conj([c, a.term]), BOOL)
                if b.term == "true":
                    return self.e(disj([neg(c), a.term]), BOOL)
                if a.term == "false":
                    return self.e(conj([neg(c), b.term]), BOOL)
            return self.e("if %s { %s } else { %s }" % (c, a.term, b.term), a.ty if "infer" not in str(a.ty) else b.ty)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.variant == b.variant and len(a.fields) == len(b.fields):
            return Agg(a.ty, a.variant, [self.cond(c, x, y) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if isinstance(a, Clo) and isinstance(b, Clo) and a.span == b.span:
            return Clo(a.span, [self.cond(c, x, y) for x, y in zip(a.fields, b.fields)], a.fn, dict(a.env))
        for x, y, f in ((a, b, False), (b, a, True)):
            if isinstance(x, Agg) and x.variant is None and isinstance(y, V) and mir.strip(x.ty) == mir.strip(y.ty) and mir.strip(x.ty)[0] in ("T", "tuple") and self.w.is_struct(mir.strip(x.ty)):
                y2 = self.expand(y)
                if y2 is not None:
                    return self.cond(c, y2, x) if f else self.cond(c, x, y2)
        return Cond(c, a, b)

    def expand(self, v):
        t = mir.strip(v.ty)
        fs = self.w.fields(t)
        return Agg(v.ty, None, [self.getf(v, i) for i in range(len(fs))])

    # ------------------------------------------------------------ projections
    def getf(self, v, n, variant=None, st=None):
        w = self.w
        if isinstance(v, Cond):
            if variant is not None:
                a, b = self.is_var(v.a, variant), self.is_var(v.b, variant)
                if b == "false":
                    return self.getf(v.a, n, variant, st)
                if a == "false":
                    return self.getf(v.b, n, variant, st)
            return self.cond(v.c, self.getf(v.a, n, variant, st), self.getf(v.b, n, variant, st))
        if isinstance(v, Ref):
            return self.getf(self.load(st, v), n, variant, st)
        if isinstance(v, (Agg, Clo)):
            if isinstance(v, Agg) and variant != v.variant and variant is not None:
                t = mir.strip(v.ty)
                if variant == "Some" and v.variant == "None" and t[2] and "infer" not in str(t):
                    # read on a path which isn't taken
                    return V(self.arbitrary(t[2][0]), t[2][0])
                raise Unsupported("field of variant %s of %s" % (variant, v.variant))
            return v.fields[n]
        if isinstance(v, V):
            t = mir.strip(v.ty)
            if variant is not None:
                fn, ft = w.fields(t, variant)[n]
                if w.vty(ft) == "()":
                    return Opaque(ft) if ft[0] == "T" else unit()
                return V(self.let("%s->%s_%s" % (v.term, variant, w.fname(fn) if not fn.isdigit() else fn), w.vty(ft), ft), ft)
            fs = w.fields(t)
            fn, ft = fs[n]
            if ft[0] == "T" and ft[1] == "PhantomData":
                return Opaque(ft)
            r = w.erased(t)
            if r:
                return V(v.term, ft)
            if t[0] == "tuple":
                return V("%s.%s" % (v.term, fn), ft)
            return V("%s.%s" % (v.term, w.fname(fn)), ft)
        if isinstance(v, Opaque):
            return Opaque(("infer",))
        raise Unsupported("field %s of %r" % (n, v))

    def setf(self, v, n, x, variant=None):
        if isinstance(v, V):
            t = mir.strip(v.ty)
            if variant is not None:
                v = Agg(t, variant, [self.getf(v, i, variant) for i in range(len(self.w.fields(t, variant)))])
            else:
                v = self.expand(v)
        if isinstance(v, Agg):
            fs = list(v.fields)
            fs[n] = x
            return Agg(v.ty, v.variant, fs)
        if isinstance(v, Clo):
            fs = list(v.fields)
            fs[n] = x
            return Clo(v.span, fs, v.fn, dict(v.env))
        raise Unsupported("write to a field of %r" % (v,))

    def step(self, v, el, st):
        """one path element of a reference"""
        if el[0] == "f":
            return self.getf(v, el[1], el[2], st)
        if el[0] == "key":
            if isinstance(v, Cond):
                return self.cond(v.c, self.step(v.a, el, st), self.step(v.b, el, st))
            t = self.term(v, st)
            return self.e("%s[%s]" % (t, el[1]), el[2])
        if el[0] == "any":
            return self.unany(self.term(v, st), el[1])
        raise Unsupported("path %r" % (el,))

    def put(self, v, path, x, st):
        if not path:
            return x
        el = path[0]
        if isinstance(v, Ref):
            self.store(st, Ref(v.cell, v.path + tuple(path)), x)
            return v
        if isinstance(v, Cond) and el[0] != "key":
            return self.cond(v.c, self.put(v.a, path, x, st), self.put(v.b, path, x, st))
        inner = self.put(self.step(v, el, st), path[1:], x, st) if len(path) > 1 else x
        if el[0] == "f":
            return self.setf(v, el[1], inner, el[2])
        if el[0] == "key":
            t = v.ty if not isinstance(v, Cond) else v.a.ty
            u = "upd(%s, %s, %s)" if self.w.whole and self.w.vty(t) == "Map<int, Any>" else "%s.insert(%s, %s)"
            return self.e(u % (self.term(v, st), el[1], self.term(inner, st)), t)
        if el[0] == "any":
            return V(self.toany(inner, st), ANY)
        raise Unsupported("write path")

    def load(self, st, r):
        if r.cell not in st.cells:
            raise Unsupported("uninitialised")
        v = st.cells[r.cell]
        for el in r.path:
            if isinstance(v, Ref):
                v = self.load(st, v)
            v = self.step(v, el, st)
        return v

    def store(self, st, r, x):
        v = st.cells.get(r.cell)
        if r.path and isinstance(v, Ref):
            self.store(st, Ref(v.cell, v.path + r.path), x)
            return
        st.cells[r.cell] = self.put(v, r.path, x, st) if r.path else x

    def unany(self, t, ty):
        ty = mir.strip(ty)
        if self.w.is_var(ty):
            return V(t, ty)
        return self.e("%s->%s_0" % (t, ty[1]), ty)

    def toany(self, v, st):
        t = mir.strip(v.ty)
        if isinstance(v, Ref):
            return self.toany(self.load(st, v), st)
        if isinstance(v, Cond):
            return self.let("if %s { %s } else { %s }" % (v.c, self.toany(v.a, st), self.toany(v.b, st)), "Any", ANY)
        if t[0] == "T" and t[1].startswith("dyn ") or self.w.is_var(t):
            return self.term(v, st)
        if t[0] == "T" and t[1] in self.w.ifc_types:
            return self.let("Any::%s(%s)" % (t[1], self.term(v, st)), "Any", ANY)
        raise Unsupported("dyn IfcType of " + show_ty(t))

    # ------------------------------------------------------------ places and operands
    def cell(self, fr, n):
        if n not in fr.cells:
            self.w.n += 1
            fr.cells[n] = self.w.n
        return fr.cells[n]

    def sty(self, fr, text):
        return self.norm(subst(mir.strip(mir.parse_type(text)), dict(fr.env)), fr.env)

    def norm(self, t, env):
        if t[0] == "proj":
            a = self.norm(subst(t[1], dict(env)), env)
            if t[3] in ("Item", "IntoIter") and elem(a)[0] != "infer":
                return elem(a) if t[3] == "Item" else T("Iter", elem(a))
            return ("infer",)
        if t[0] == "T":
            if t[1].startswith("impl ") and t[1] in dict(env):
                return dict(env)[t[1]]
            return ("T", t[1], tuple(self.norm(x, env) for x in t[2]))
        if t[0] == "tuple":
            return ("tuple", tuple(self.norm(x, env) for x in t[1]))
        return t

    def index(self, v, ix, fr, st):
        m = re.fullmatch(r"(\d+) of \d+", ix)
        if isinstance(v, Agg) and m:
            return v.fields[int(m.group(1))]
        if m:
            return self.e("%s[%s]" % (self.term(v, st), m.group(1)), elem(mir.strip(v.ty)))
        k = self.term(st.cells[self.cell(fr, int(ix[1:]))], st)
        return self.e("%s[%s]" % (self.term(v, st), k), elem(mir.strip(v.ty)))

    def read(self, st, fr, p):
        c = self.cell(fr, p.local)
        if c not in st.cells:
            ty = self.sty(fr, fr.fn.locals[p.local]) if p.local in fr.fn.locals else ("infer",)
            if ty == UNIT:
                return unit()
            raise Unsupported("read of uninitialised _%d in %s" % (p.local, fr.fn.name))
        v = st.cells[c]
        variant = None
        for el in p.proj:
            if el == "deref":
                v = self.deref(v, st)
            elif el[0] == "variant":
                variant = el[1]
                continue
            elif el[0] == "field":
                v = self.deref(v, st) if isinstance(v, Ref) else v
                v = self.getf(v, el[1], variant, st)
            elif el[0] == "index":
                v = self.index(self.deref(v, st), el[1], fr, st)
            variant = None
        return v

    def deref(self, v, st):
        if isinstance(v, Ref):
            return self.load(st, v)
        if isinstance(v, Cond):
            return self.cond(v.c, self.deref(v.a, st), self.deref(v.b, st))
        return v

    def lval(self, st, fr, p):
        """reference to a place (through the references on the way)"""
        r = Ref(self.cell(fr, p.local))
        variant = None
        for el in p.proj:
            if el == "deref":
                v = self.load(st, r)
                if isinstance(v, Ref):
                    r = v
            elif el[0] == "variant":
                variant = el[1]
                continue
            elif el[0] == "field":
                v = self.load(st, r) if r.cell in st.cells else None
                if isinstance(v, Ref):
                    r = v
                r = Ref(r.cell, r.path + (("f", el[1], variant),))
            else:
                raise Unsupported("write to an element")
            variant = None
        return r

    def write(self, st, fr, p, v):
        if not p.proj:
            st.cells[self.cell(fr, p.local)] = v
        else:
            self.store(st, self.lval(st, fr, p), v)

    def operand(self, st, fr, op):
        if op[0] in ("copy", "move"):
            return self.read(st, fr, op[1])
        return self.const(st, fr, op[1])

    def const(self, st, fr, s):
        if s in ("true", "false"):
            return V(s, BOOL)
        m = re.fullmatch(r"(-?\d+)_(\w+)", s)
        if m:
            return V(m.group(1), T(m.group(2)))
        m = re.fullmatch(r"(-?[\d.eE+-]+)_?f64", s)
        if m:
            return V(self.f64(m.group(1)), F64)
        if s.startswith('"'):
            return V(self.text(s), TEXT)
        if s.startswith('b"') or s.startswith("b'"):
            return Opaque(TEXT)
        if s.startswith("'"):
            return V(s, T("char"))
        if s == "()":
            return unit()
        m = re.match(r"\{alloc", s)
        if m:
            return Opaque(("infer",))
        p = re.sub(r"::<[^<>]*>", "", s)
        m = re.search(r"bevy_math::(DVec[23])::(\w+)$", s)
        if m:
            return self.vec_const(m.group(1), m.group(2))
        if "promoted[" in s:
            m = re.search(r"promoted\[\d+\]$", s)
            f = self.w.fns.get("%s::%s" % (fr.fn.name, m.group(0)))
            if f is None:
                raise Unsupported("constant " + s[:80])
            return self.run_fn(f, [], dict(fr.env), st)
        f = self.w.fns.get(s) or self.w.fns.get(p)
        if f is not None and f.params == [] and f.ret is not None and "fn " not in s and self.is_const(f):
            return self.run_fn(f, [], {}, st)
        t = None
        try:
            pa = mir.p_path(mir.Toks(s))
        except Unsupported:
            raise Unsupported("constant " + s[:100])
        if re.match(r"std::marker::PhantomData", s):
            return Opaque(T("PhantomData"))
        # enum constant
        if len(pa.segs) >= 2 and pa.segs[-2][0] in self.w.ix.enums and not pa.q and any(v["name"] == pa.segs[-1][0] for v in self.w.ix.enums[pa.segs[-2][0]]["vars"]):
            return Agg(self.norm(subst(mir.strip(mir.path_type(mir.Path(pa.segs[:-1]))), dict(fr.env)), fr.env), pa.segs[-1][0], ())
        return Clo("fn:" + s, (), None, dict(fr.env))

    def is_const(self, f):
        return f.text is not None and not getattr(f, "impl_fn", False)

    def vec_const(self, t, n):
        k = int(t[-1])
        tab = {"ZERO": "0", "ONE": "1", "NEG_X": None}
        if n in tab and tab[n]:
            return Agg(T(t), None, [V(self.f64(tab[n]), F64)] * k)
        if n in ("X", "Y", "Z"):
            return Agg(T(t), None, [V(self.f64("1" if c == n else "0"), F64) for c in "XYZ"[:k]])
        raise Unsupported("constant %s::%s" % (t, n))

    def f64(self, s):
        x = repr(float(s)).replace("-", "m").replace(".", "_").replace("+", "p")
        return self.w.ufn("fl_" + x, [], "F64") + "()"

    def text(self, s):
        n = self.w.ufn("txt_%s" % re.sub(r"\W+", "_", s)[:40] + "_%x" % (hash_of(s)), [], "Txt")
        return n + "()"

    # ------------------------------------------------------------ functions
    def run_fn(self, fn, args, env, st):
        """execute a function in place"""
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion in " + fn.name)
        fr = Frame(fn, env)
        for (k, ty), a in zip(fn.params, args):
            st.cells[self.cell(fr, k)] = a
        out = self.run(fr, "bb0", st, frozenset())
        self.depth -= 1
        if "return" not in out:
            raise Never("%s never returns" % fn.name)
        c, s = out["return"]
        st.cells, st.ok = s.cells, conj([s.ok])
        st.pc = st.pc
        v = st.cells.get(self.cell(fr, 0))
        if v is None:
            v = unit()
        for c in fr.cells.values():
            pass
        return v

    def run(self, fr, b, st, stops):
        """-> {stop: (condition, state)}; 'return' is a stop"""
        fn = fr.fn
        while True:
            if b in stops:
                return {b: ("true", st)}
            if b in fn.cfg.loops and (fr, b) not in getattr(self, "open", ()):
                pc0 = st.pc
                r = self.loop(fr, b, st, stops)
                if len(r) == 1 and list(r)[0] not in stops and list(r)[0] != "return":
                    b = list(r)[0]
                    st = r[b][1]
                    continue
                j = fn.cfg.ipdom.get(b, "exit")
                outs, dead = [], []
                for k, (c, s) in r.items():
                    s.pc = pc0 + ((c,) if c != "true" else ())
                    o = self.run(fr, k, s, stops | ({j} if j != "exit" else set()))
                    if not o:
                        dead.append(c)
                    outs.append((c, o))
                r = self.join(fr, outs, j, stops, dead, pc0)
                if set(r) == {j} and j not in stops and j != "exit":
                    b, st = j, r[j][1]
                    continue
                if j in r and j not in stops:
                    c, s2 = r.pop(j)
                    o = self.run(fr, j, s2, stops)
                    return self.join(fr, [(c, o)] + [(cc, {kk: ("true", ss)}) for kk, (cc, ss) in r.items()], "exit", stops, (), pc0)
                return r
            stmts = fn.parsed[b]
            for s in stmts[:-1]:
                self.stmt(fr, st, s)
            s = stmts[-1]
            k = s[0]
            if k == "GOTO":
                b = s[1]
            elif k == "RETURN":
                return {"return": ("true", st)}
            elif k in ("UNREACHABLE", "RESUME"):
                return {}
            elif k == "DROP":
                self.drop(fr, st, s[1])
                b = s[2]
            elif k == "ASSERT":
                v = self.operand(st, fr, s[2])
                c = self.term(v, st)
                c = neg(c) if s[1] else c
                st.ok = conj([st.ok, c])
                b = s[3]
            elif k == "CALL":
                d = self.depth
                try:
                    v = self.call(fr, st, s[2], s[3], s[1])
                except Never:
                    self.depth, v = d, None
                if s[4] is None or v is None or s[4] not in fn.cfg.live:
                    return {}
                self.write(st, fr, s[1], v)
                b = s[4]
            elif k == "SWITCH":
                arms = self.switch(fr, st, s)
                alive = [(c, t) for c, t in arms if t in fn.cfg.live]
                dead = [c for c, t in arms if t not in fn.cfg.live and not self.impossible(fn, t)]
                j = fn.cfg.ipdom.get(b, "exit")
                if len(alive) == 1 and not dead:
                    b = alive[0][1]
                    continue
                outs = []
                for c, t in alive:
                    s2 = st.copy()
                    if c != "true":
                        s2.pc = s2.pc + (c,)
                    o = self.run(fr, t, s2, stops | ({j} if j != "exit" else set()))
                    if not o:
                        dead.append(c)
                    outs.append((c, o))
                r = self.join(fr, outs, j, stops, dead, st.pc)
                if set(r) == {j} and j not in stops and j != "exit":
                    b, st = j, r[j][1]
                    continue
                if j in r and j not in stops:
                    c, s2 = r.pop(j)
                    o = self.run(fr, j, s2, stops)
                    return self.join(fr, [(c, o)] + [(cc, {kk: ("true", ss)}) for kk, (cc, ss) in r.items()], "exit", stops, (), st.pc)
                return r
            else:
                raise Unsupported("terminator " + k)

    def impossible(self, fn, t):
        """the arm which rustc adds for exhaustiveness"""
        st = fn.parsed.get(t, [])
        return bool(st) and st[0][0] == "UNREACHABLE"

    def join(self, fr, outs, j, stops, dead, pc=None):
        got = {}
        for c, o in outs:
            for k, (cc, s) in o.items():
                got.setdefault(k, []).append((conj([c, cc]), s))
        r = {}
        total = len([1 for c, o in outs if o])
        for k, xs in got.items():
            st = xs[-1][1].copy()
            for c, s in reversed(xs[:-1]):
                self.merge(st, c, s)
            if dead:
                st.ok = conj([st.ok] + [neg(d) for d in dead])
            if pc is not None:
                st.pc = pc
            whole = len(got) == 1
            r[k] = ("true" if whole else self.let(disj([c for c, s in xs]), "bool"), st)
        return r

    def merge(self, st, c, s):
        """st becomes: if c then s else st"""
        if "false" in (s.ok, st.ok):
            # one of them panics: what it would have left doesn't matter
            keep, c = (st, neg(c)) if s.ok == "false" else (s, c)
            for k, v in keep.cells.items():
                st.cells[k] = v
            st.ok = conj([c, keep.ok])
            return
        for k, v in s.cells.items():
            if k not in st.cells:
                st.cells[k] = v
            elif st.cells[k] is not v and st.cells[k] != v:
                try:
                    st.cells[k] = self.cond(c, v, st.cells[k])
                except Unsupported:
                    del st.cells[k]
        if s.ok != st.ok:
            # both sides keep what they have in common
            st.ok = self.let("if %s { %s } else { %s }" % (c, s.ok, st.ok), "bool")

    def switch(self, fr, st, s):
        v = self.operand(st, fr, s[1])
        arms, rest = [], []
        for k, b in s[2]:
            if k == "otherwise":
                c = conj([neg(x) for x in rest])
            else:
                c = self.test(v, k, st)
                rest.append(c)
            if c == "false":
                continue
            arms.append((c, b))
            if c == "true":
                break
        # the last arm needs no condition of its own when the others decide it
        return [(self.let(c, "bool") if not simple(c) else c, b) for c, b in arms]

    def test(self, v, k, st):
        if isinstance(v, Disc):
            t = mir.strip(v.of.ty)
            vs = self.w.variants(self.find_enum(v.of))
            return self.is_var(v.of, vs[int(k)]) if int(k) < len(vs) else "false"
        if isinstance(v, Cond):
            return self.ifte(v.c, self.test(v.a, k, st), self.test(v.b, k, st))
        t = mir.strip(v.ty)
        if t == BOOL:
            return neg(v.term) if k == "0" else v.term
        if isinstance(v, V):
            if re.fullmatch(r"-?\d+", v.term):
                return "true" if v.term == k else "false"
            return "%s == %s" % (v.term, k)
        raise Unsupported("switch on %r" % (v,))

    def find_enum(self, v):
        if isinstance(v, Cond):
            a = self.find_enum(v.a)
            return a if a[0] == "T" else self.find_enum(v.b)
        return mir.strip(v.ty)

    def ifte(self, c, a, b):
        if a == b:
            return a
        if a == "true" and b == "false":
            return c
        if a == "false" and b == "true":
            return neg(c)
        if a == "true":
            return disj([c, b])
        if a == "false":
            return conj([neg(c), b])
        if b == "false":
            return conj([c, a])
        if b == "true":
            return disj([neg(c), a])
        return "if %s { %s } else { %s }" % (c, a, b)

    def is_var(self, v, name):
        if isinstance(v, Agg):
            return "true" if v.variant == name else "false"
        if isinstance(v, Cond):
            return self.ifte(v.c, self.is_var(v.a, name), self.is_var(v.b, name))
        if isinstance(v, V):
            t = mir.strip(v.ty)
            if len(self.w.variants(t)) == 1:
                return "true"
            return "%s is %s" % (v.term, name)
        raise Unsupported("variant of %r" % (v,))

    # ------------------------------------------------------------ statements
    def stmt(self, fr, st, s):
        if s[0] == "assign":
            p, r = s[1], s[2]
            self.write(st, fr, p, self.rvalue(fr, st, r, p))
        elif s[0] in ("setdisc",):
            raise Unsupported("set discriminant")
        else:
            raise Unsupported("statement " + s[0])

    def rvalue(self, fr, st, r, p):
        r = r.strip()
        m = re.match(r"&(mut |raw const |raw mut |fake shallow |fake )?(.*)$", r, re.S)
        if m:
            pl = mir.parse_place(m.group(2).strip())
            if m.group(1) in ("mut ", "raw mut "):
                lv = self.lval(st, fr, pl)
                v = st.cells.get(lv.cell)
                if not lv.path and isinstance(v, Clo):
                    return lv
                return lv
            v = self.read(st, fr, pl)
            if isinstance(v, Pipe):
                return v
            return v
        if r.startswith("discriminant("):
            v = self.read(st, fr, mir.parse_place(r[13:-1]))
            v = self.deref(v, st)
            if isinstance(v, Opaque):
                raise Unsupported("discriminant of " + show_ty(v.ty))
            return Disc(v)
        m = re.match(r"(?:no_retag )?(?:copy|move) \(\(?(.*)\.0: std::ptr::Unique<.*>\)(?:\.0: .*\))? as .* \(\w+\)$", r, re.S)
        if m:
            return self.read(st, fr, mir.parse_place(m.group(1)))
        m = re.match(r"no_retag copy (\(\*_\d+\))$", r)
        if m:
            # the box is borrowed through a reference: keep the reference
            inner = self.read(st, fr, mir.parse_place(m.group(1)[2:-1]))
            return inner if isinstance(inner, Ref) else self.deref(inner, st)
        m = re.match(r"((?:no_retag copy|copy|move|const) .*) as (.*) \((\w+)(\(.*\))?(, \w+)*\)$", r, re.S)
        if m and m.group(1).count("(") == m.group(1).count(")"):
            v = self.operand(st, fr, mir.parse_operand(m.group(1)))
            return self.cast(fr, st, v, m.group(2), m.group(3), r)
        if r.startswith(("copy ", "move ", "no_retag copy ")):
            return self.operand(st, fr, mir.parse_operand(r))
        if r.startswith("const "):
            return self.const(st, fr, r[6:].strip())
        if r.startswith("("):
            j = mir.match_paren(r, 0)
            if j == len(r):
                xs = [self.operand(st, fr, mir.parse_operand(x)) for x in mir.split_top(r[1:-1])]
                return Agg(("tuple", tuple(x.ty for x in xs)), None, xs)
        if r.startswith("["):
            m = re.fullmatch(r"\[(.*); (\d+)\]", r, re.S)
            if m and len(mir.split_top(r[1:-1])) == 1:
                x = self.operand(st, fr, mir.parse_operand(m.group(1)))
                xs = [x] * int(m.group(2))
            else:
                xs = [self.operand(st, fr, mir.parse_operand(x)) for x in mir.split_top(r[1:-1])]
            t = self.sty(fr, fr.fn.locals[p.local]) if not p.proj else ("infer",)
            if t[0] != "T" or t[1] != "Vec":
                t = T("Vec", xs[0].ty if xs else ("infer",))
            return Agg(t, None, xs)
        if r.startswith("{closure@"):
            m = re.match(r"(\{closure@[^}]*\})(?: \{(.*)\})?$", r, re.S)
            fs = []
            if m.group(2):
                for x in mir.split_top(m.group(2)):
                    fs.append(self.operand(st, fr, mir.parse_operand(x.split(":", 1)[1].strip())))
            f = self.closure_fn(fr, m.group(1))
            used = [int(a or b) for a, b in re.findall(r"\(_1\.(\d+):|\(\(\*_1\)\.(\d+):", f.text)]
            if used and max(used) + 1 != len(fs):
                raise Unsupported("captured values of " + m.group(1))
            return Clo(m.group(1), fs, f, dict(fr.env))
        m = re.match(r"(Add|Sub|Mul|Div|Rem|Eq|Ne|Lt|Le|Gt|Ge|BitAnd|BitOr|AddWithOverflow|SubWithOverflow|MulWithOverflow|Not|Neg|PtrMetadata|Len|Cmp|AddUnchecked)\((.*)\)$", r, re.S)
        if m:
            xs = mir.split_top(m.group(2))
            if m.group(1) in ("Len",):
                return self.e("%s.len() as int" % self.term(self.read(st, fr, mir.parse_place(xs[0])), st), INT)
            return self.binop(m.group(1), [self.operand(st, fr, mir.parse_operand(x)) for x in xs], st)
        if re.match(r"[A-Za-z_<]", r):
            return self.aggregate(fr, st, r, p)
        raise Unsupported("rvalue " + r[:100])

    def closure_fn(self, fr, span):
        base = fr.fn.name
        c = [f for n, f in self.w.fns.items() if n.startswith(base + "::{closure#") and n.count("::{closure#") == base.count("::{closure#") + 1 and f.params and span in f.params[0][1]]
        if len(c) != 1:
            c2 = [f for n, f in self.w.fns.items() if f.params and span in f.params[0][1] and "{closure#" in n.rsplit("::", 1)[-1]]
            if len(c2) == 1:
                return c2[0]
            raise Unsupported("closure %s in %s (%d)" % (span, base, len(c)))
        return c[0]

    def binop(self, op, xs, st):
        if op in ("Not", "Neg"):
            x = self.term(xs[0], st)
            if op == "Not":
                return V(neg(x), BOOL) if simple(x) else self.e(neg(x), BOOL)
            if mir.strip(xs[0].ty) == F64:
                return self.e("%s(%s)" % (self.w.ufn("f_neg", ["F64"], "F64"), x), F64)
            return self.e("-%s" % x, xs[0].ty)
        if op == "PtrMetadata":
            return self.e("%s.len() as int" % self.term(xs[0], st), INT)
        a, b = xs
        ta, tb = self.term(a, st), self.term(b, st)
        t = mir.strip(a.ty)
        if t == F64:
            n = {"Add": "f_add", "Sub": "f_sub", "Mul": "f_mul", "Div": "f_div", "Rem": "f_rem", "Eq": "f_eq", "Ne": "f_ne", "Lt": "f_lt", "Le": "f_le", "Gt": "f_gt", "Ge": "f_ge"}[op]
            rt = F64 if op in ("Add", "Sub", "Mul", "Div", "Rem") else BOOL
            if op == "Ne":
                return self.e("!%s(%s, %s)" % (self.w.ufn("f_eq", ["F64", "F64"], "bool"), ta, tb), BOOL)
            return self.e("%s(%s, %s)" % (self.w.ufn(n, ["F64", "F64"], self.w.vty(rt)), ta, tb), rt)
        o = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "AddWithOverflow": "+",
             "SubWithOverflow": "-", "MulWithOverflow": "*", "BitAnd": "&&", "BitOr": "||", "AddUnchecked": "+"}[op]
        if op in ("BitAnd", "BitOr") and t != BOOL:
            raise Unsupported("bit operation")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr"):
            if isinstance(a, Opaque):
                raise Unsupported("comparison of " + show_ty(a.ty))
            return self.e("%s %s %s" % (ta, o, tb), BOOL)
        v = self.e("%s %s %s" % (ta, o, tb), t)
        if op.endswith("WithOverflow"):
            lo, hi = INTS[t[1]]
            over = self.e("%s > %d" % (v.term, hi) if o == "+" else ("%s < %d" % (v.term, lo) if o == "-" and lo == 0 else "%s > %d || %s < %d" % (v.term, hi, v.term, lo)), BOOL)
            return Agg(("tuple", (t, BOOL)), None, (v, over))
        return v

    def cast(self, fr, st, v, ty, kind, r):
        t = self.sty(fr, ty)
        if "Unsize" in r or "dyn " in ty:
            if t[0] == "T" and t[1] in ("dyn IfcType",):
                return V(self.toany(v, st), ANY)
            if t[0] == "T" and t[1].startswith("dyn "):
                # the value keeps its own type
                return v
            return v
        if kind == "IntToInt":
            a, b = mir.strip(v.ty), t
            x = self.term(v, st)
            if a == BOOL:
                return self.e("if %s { 1int } else { 0int }" % x, b)
            if a[1] in INTS and b[1] in INTS and INTS[a[1]][0] >= INTS[b[1]][0] and INTS[a[1]][1] <= INTS[b[1]][1]:
                return V(x, b)
            if b[1] in INTS and INTS[b[1]][0] == 0:
                return self.e("%s %% %d" % (x, INTS[b[1]][1] + 1), b)
        if kind in ("Transmute", "PtrToPtr", "PointerCoercion", "Subtype"):
            return v
        if kind in ("IntToFloat", "FloatToInt"):
            n = "f_of_int" if kind == "IntToFloat" else "f_to_int"
            return self.e("%s(%s)" % (self.w.ufn(n, [self.w.vty(v.ty)], self.w.vty(t)), self.term(v, st)), t)
        raise Unsupported("cast " + r[-80:])

    def aggregate(self, fr, st, r, p):
        m = re.match(r"(.*?)(?: ?\{(.*)\})$", r, re.S)
        named = None
        if m and not r.endswith(")"):
            head, named = m.group(1).strip(), m.group(2).strip()
            xs = [x.split(":", 1) for x in mir.split_top(named)]
        elif r.endswith(")"):
            k = mir.open_of(r)
            head, xs = r[:k], [(None, x) for x in mir.split_top(r[k + 1:-1])]
        else:
            head, xs = r, []
        pa = mir.p_path(mir.Toks(head))
        vals = [(n and n.strip(), self.operand(st, fr, mir.parse_operand(x))) for n, x in xs]
        w = self.w
        n = mir.type_name(pa.segs)
        ty = self.norm(subst(mir.strip(mir.path_type(pa)), dict(fr.env)), fr.env)
        if n == "PhantomData":
            return Opaque(T("PhantomData"))
        lt = self.sty(fr, fr.fn.locals[p.local]) if not p.proj else None
        if len(pa.segs) >= 2:
            et = self.norm(subst(mir.strip(mir.path_type(mir.Path(pa.segs[:-1]))), dict(fr.env)), fr.env)
            if et[0] == "T" and (et[1] in w.ix.enums or et[1] in ("Option", "Result", "ControlFlow", "Ordering")):
                if et[1] == "Result" and pa.segs[-1][0] == "Err":
                    return Agg(et, "Err", (Opaque(T("Error")),))
                if et[1] not in w.ix.enums and vals and et[2] and "infer" not in str(vals[0][1].ty) and vals[0][1].ty[0] in ("T", "tuple"):
                    et = ("T", et[1], (vals[0][1].ty if pa.segs[-1][0] in ("Some", "Ok") else et[2][0],) + et[2][1:])
                if vals and vals[0][0] and et[1] in w.ix.enums:
                    order = [n for n, _ in w.fields(et, pa.segs[-1][0])]
                    d = dict(vals)
                    return Agg(et, pa.segs[-1][0], [d[x] for x in order])
                return Agg(et, pa.segs[-1][0], [v for _, v in vals])
        if ty[0] == "T" and ty[1] in w.ix.structs:
            if lt and lt[0] == "T" and lt[1] == ty[1]:
                ty = lt
            if vals and vals[0][0]:
                d = dict(vals)
                return Agg(ty, None, [d[x] if x in d else d["r#" + x] for x, _ in w.fields(ty)])
            return Agg(ty, None, [v for _, v in vals])
        if n in ("DVec2", "DVec3"):
            return Agg(T(n), None, [v for _, v in vals])
        if "fmt" in head or "anyhow" in head or "ParseError" in head:
            return Opaque(ty)
        raise Unsupported("aggregate " + r[:100])

    # ------------------------------------------------------------ drop
    def drop(self, fr, st, p):
        c = self.cell(fr, p.local)
        if c not in st.cells:
            return
        try:
            v = self.read(st, fr, p)
        except Unsupported:
            return
        t = v.ty
        if isinstance(v, Ref) or t[0] == "mut" or t[0] != "T":
            return
        lt = mir.parse_type(fr.fn.locals[p.local]) if not p.proj else None
        m = self.w.find_method("Drop", "drop", mir.strip(t))
        if m:
            fn, env = m
            ref = self.lval(st, fr, p)
            self.invoke(fn, [ref], env, st)

    # ------------------------------------------------------------ calls
    def call(self, fr, st, head, ops, dest):
        args = [self.operand(st, fr, o) for o in ops]
        rt = self.sty(fr, fr.fn.locals[dest.local]) if not dest.proj else ("infer",)
        if head.startswith(("move ", "copy ")):
            return self.apply(self.operand(st, fr, mir.parse_operand(head)), args, st)
        pa = mir.p_path(mir.Toks(head))
        return self.call_path(pa, args, fr.env, st, rt, fr)

    def gty(self, t, env):
        return self.norm(subst(mir.strip(t), dict(env)), env)

    def dyn_ty(self, v, st):
        """type of a value, through references"""
        if isinstance(v, Ref):
            return self.dyn_ty(self.load(st, v), st)
        if isinstance(v, Cond):
            a = self.dyn_ty(v.a, st)
            return a if a[0] == "T" else self.dyn_ty(v.b, st)
        return mir.strip(v.ty)

    def call_path(self, pa, args, env, st, rt, fr=None):
        w = self.w
        name = pa.segs[-1][0]
        gen = [self.gty(x, env) for x in (pa.segs[-1][1] or []) if x[0] != "assoc"]
        if pa.q:
            t = self.gty(pa.q[0], env)
            trait = pa.q[1].segs[-1][0] if pa.q[1] else None
            targs = [self.gty(x, env) for x in (pa.q[1].segs[-1][1] or []) if x[0] != "assoc"] if pa.q[1] else []
            if args and t[0] == "T" and (t[1].startswith("impl ") or t[1] == "Self" or t[1].startswith("dyn ") and t[1] != "dyn IfcType") or t[0] == "infer":
                t2 = self.dyn_ty(args[0], st) if args else t
                if t2[0] in ("T", "tuple", "closure"):
                    t = t2
            r = symstd.trait_call(self, trait, name, t, targs, gen, args, st, rt, env)
            if r is not None:
                return r[0]
            if trait == "Into":
                to = targs[0] if targs and targs[0][0] != "infer" else rt
                t = self.dyn_ty(args[0], st) if args[0].ty[0] != "infer" else t
                if mir.strip(to) == t:
                    return args[0]
                m = w.find_method("From", "from", mir.strip(to), [t])
                if not m:
                    return symstd.convert(self, t, mir.strip(to), args[0], st)
                return self.invoke(m[0], args, m[1], st, gen)
            m = w.find_method(trait, name, t, targs or None) or w.find_method(trait, name, t) if trait else w.find_method(None, name, t)
            if m:
                return self.invoke(m[0], args, m[1], st, gen)
            f = w.trait_default(trait, name)
            if f:
                return self.invoke(f, args, {**dict(zip(w.trait_params(trait), targs)), "Self": t}, st, gen)
            raise Unsupported("call <%s as %s>::%s" % (show_ty(t), trait, name))
        if len(pa.segs) >= 2 and pa.segs[-2][0] == "<impl>" and pa.segs[-2][1][0][0] == "T":
            # an inherent impl in another module than the type's
            t = self.gty(pa.segs[-2][1][0], env)
            if t[0] == "T" and (t[1] in w.ix.structs or t[1] in w.ix.enums):
                m = w.find_method(None, name, t)
                if m:
                    return self.invoke(m[0], args, m[1], st, gen)
        if len(pa.segs) >= 2:
            tn = mir.type_name(pa.segs[:-1])
            if tn[0].isupper() and (tn in w.ix.structs or tn in w.ix.enums):
                t = self.gty(mir.path_type(mir.Path(pa.segs[:-1])), env)
                if not t[2] and args and self.dyn_ty(args[0], st)[:2] == t[:2]:
                    t = self.dyn_ty(args[0], st)
                m = w.find_method(None, name, t)
                if not m and not t[2]:
                    c = [i for i in w.impls if name in i["fns"] and i["ty"][:2] == t[:2] and not (i["trait"] and not i["derived"])]
                    m = (c[0]["fns"][name], {}) if c else None
                if m:
                    return self.invoke(m[0], args, m[1], st, gen)
        key = pa.key()
        f = w.fns.get(key)
        if f is not None and f.ret is not None:
            return self.invoke(f, args, {}, st, gen)
        r = symstd.path_call(self, pa, name, gen, args, st, rt, env)
        if r is not None:
            return r[0]
        # trait method written as a path: Trait::method
        if len(pa.segs) >= 2 and pa.segs[-2][0] in w.ix.traits and args:
            t = self.dyn_ty(args[0], st)
            m = w.find_method(pa.segs[-2][0], name, t)
            if m:
                return self.invoke(m[0], args, m[1], st, gen)
            f = w.trait_default(pa.segs[-2][0], name)
            if f:
                return self.invoke(f, args, {"Self": t}, st, gen)
        raise Unsupported("call " + repr(pa)[:160])

    def bind(self, fn, args, env, gen, st):
        """type parameters of a call"""
        env = dict(env)
        gs = [g for g in self.w.generics(fn)]
        imp = []
        for k, ty in fn.params:
            t = mir.strip(mir.parse_type(ty)) if "closure@" not in ty else None
            for s in find_impl(t):
                if s not in imp:
                    imp.append(s)
        for g, t in zip(gs + imp, gen):
            if t[0] != "infer":
                env[g] = t
        for (k, ty), a in zip(fn.params, args):
            try:
                t = mir.strip(mir.parse_type(ty))
                at = self.dyn_ty(a, st)
            except Unsupported:
                continue
            if at[0] == "infer":
                continue
            if t[0] == "T" and t[1].startswith("impl "):
                env[t[1]] = at
            names = set(gs) | set(fn.impl["gen"] if getattr(fn, "impl", None) else ())
            m = {}
            if unify(t, at, names, m):
                for x, y in m.items():
                    if y[0] != "infer":
                        env.setdefault(x, y)
        return env

    def invoke(self, fn, args, env, st, gen=()):
        env = self.bind(fn, args, env, gen, st)
        if self.w.under_contract(fn):
            return self.w.use(self, fn, env, args, st)
        return self.run_fn(fn, args, env, st)

    def apply(self, f, args, st):
        """call a closure or function value"""
        if isinstance(f, Ref):
            inner = self.load(st, f)
            if isinstance(inner, Ref):
                return self.apply(inner, args, st)
            if isinstance(inner, Clo) and inner.fn is not None:
                self_arg = f
                byref = inner.fn.params[0][1].startswith("&")
                return self.run_fn(inner.fn, [self_arg if byref else inner] + args, dict(inner.env), st)
            return self.apply(inner, args, st)
        if isinstance(f, Cond):
            raise Unsupported("choice of functions")
        if isinstance(f, Clo):
            if f.fn is not None:
                if f.fn.params[0][1].startswith("&mut"):
                    self.w.n += 1
                    c = self.w.n
                    st.cells[c] = f
                    return self.run_fn(f.fn, [Ref(c)] + args, dict(f.env), st)
                return self.run_fn(f.fn, [f] + args, dict(f.env), st)
            s = f.span[3:]
            pa = mir.p_path(mir.Toks(s))
            last = pa.segs[-1][0]
            # constructor used as a function
            if last[0].isupper():
                return self.construct(pa, args, dict(f.env))
            return self.call_path(pa, args, dict(f.env), st, ("infer",))
        raise Unsupported("call of %r" % (f,))

    def construct(self, pa, args, env):
        w = self.w
        if len(pa.segs) >= 2:
            et = self.gty(mir.path_type(mir.Path(pa.segs[:-1])), env)
            if et[0] == "T" and (et[1] in w.ix.enums or et[1] in ("Option", "Result")):
                if et[1] in ("Option", "Result") and pa.segs[-1][0] in ("Some", "Ok"):
                    et = ("T", et[1], (args[0].ty,) + et[2][1:])
                return Agg(et, pa.segs[-1][0], args)
        ty = self.gty(mir.path_type(pa), env)
        if ty[1] in w.ix.structs:
            return Agg(ty, None, args)
        raise Unsupported("constructor " + repr(pa))

    # ------------------------------------------------------------ loops
    def changed(self, before, after):
        """places (cell, path) which differ"""
        out = []
        for k, v in before.cells.items():
            if k in after.cells and after.cells[k] is not v and after.cells[k] != v:
                self.differ(v, after.cells[k], (k,), out)
        return out

    def differ(self, a, b, at, out):
        if a is b or a == b:
            return
        if self.w.whole and any(mir.strip(x.ty)[0] == "T" and mir.strip(x.ty)[1] in self.w.ifc_types for x in (a, b) if not isinstance(x, Cond)):
            out.append(at)
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Agg) and isinstance(y, V) and x.variant is None:
                t = mir.strip(y.ty)
                if t[0] in ("T", "tuple") and self.w.is_struct(t) and not self.w.erased(t):
                    if x is a:
                        b = self.expand(y)
                    else:
                        a = self.expand(y)
                    break
        if isinstance(a, Agg) and isinstance(b, Agg) and a.variant is None and b.variant is None and len(a.fields) == len(b.fields) and mir.strip(a.ty)[:2] not in (("T", "Vec"),):
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.differ(x, y, at + (i,), out)
        elif isinstance(b, Cond) and isinstance(a, Agg) and a.variant is None:
            out1 = []
            self.differ(a, b.a, at, out1)
            self.differ(a, b.b, at, out1)
            out += [x for x in out1 if x not in out]
        else:
            out.append(at)

    def at(self, s, k):
        return self.term(self.deep(self.load(s, self.place(k)), s), s)

    def place(self, k):
        return Ref(k[0], tuple(("f", i, None) for i in k[1:]))

    def abstract(self, st, keys, tag="c"):
        """give the cells fresh names; -> (state, [(cell, name, value)])"""
        s, vs = st.copy(), []
        for k in keys:
            v = self.deep(self.load(st, self.place(k)), st)
            t = v.ty
            if isinstance(v, Cond):
                t = self.find_enum(v)
            if isinstance(v, (Clo, Pipe)):
                raise Unsupported("loop changes a %s" % type(v).__name__)
            if isinstance(v, Opaque) or self.w.vty(t) == "()":
                continue
            n = self.w.fresh(tag, self.w.vty(t))
            self.w.rty_of[n] = t
            self.store(s, self.place(k), V(n, t))
            vs.append((k, n, t))
        return s, vs

    def free(self, text, bound):
        out = []
        for x in re.findall(r"\ba\d+(?:_\w+)*\b|\b[a-zA-Z]+\d+\b|\bk[A-Z]\w*\b", text):
            if x in self.w.vty_of and x not in bound and x not in out:
                out.append(x)
        return out

    def scope(self):
        c = Ctx(self.ctx)
        self.ctx = c
        return c

    def unscope(self):
        self.ctx = self.ctx.parent

    def lets(self, items):
        return "".join("    let %s: %s = %s;\n" % (i[1], i[2], i[3]) for i in items if i[0] == "let")

    # ------------------------------------------------------------ loops which only collect
    def collected(self, n, t, term, items):
        """what one round appends to (adds to) the accumulator n, or None"""
        lets = {i[1]: i[3] for i in items if i[0] == "let"}
        number = self.w.vty(t) == "F64"
        if not number and not self.w.vty(t).startswith("Seq<"):
            return None
        tainted = {n}
        for i in items:
            if i[0] == "let" and any(re.search(r"\b%s\b" % x, i[3]) for x in tainted):
                tainted.add(i[1])
        clean = lambda e: not any(re.search(r"\b%s\b" % x, e) for x in tainted)

        def part(e):
            e = e.strip()
            if e == n:
                return []
            if e in lets:
                return part(lets[e]) if e in tainted else None
            m = re.fullmatch(r"if (.*?) \{ (.*) \} else \{ (.*) \}", e)
            if m and e.count("{") == 2:
                a, b = part(m.group(2)), part(m.group(3))
                if a is None or b is None or not clean(m.group(1)) or number:
                    return None
                j = lambda l: (l[0] if len(l) == 1 else "(%s)" % " + ".join(l)) if l else self.none_of(t)
                return [self.let("if %s { %s } else { %s }" % (m.group(1), j(a), j(b)), self.w.vty(t))]
            if number:
                m = re.fullmatch(r"f_add\(%s, (.*)\)" % n, e)
                return ["seq![%s]" % m.group(1)] if m and clean(m.group(1)) else None
            m = re.fullmatch(r"(\w+)\.push\((.*)\)", e)
            if m and m.group(1) in tainted and clean(m.group(2)) and balanced(m.group(2)):
                a = part(m.group(1))
                return None if a is None else a + ["seq![%s]" % m.group(2)]
            m = re.fullmatch(r"(\w+) \+ (.*)", e)
            if m and m.group(1) in tainted and clean(m.group(2)):
                a = part(m.group(1))
                return None if a is None else a + [m.group(2) if simple(m.group(2)) else "(%s)" % m.group(2)]
            return None
        l = part(term)
        if not l or number and len(l) != 1:
            return None
        return (l[0] if len(l) == 1 else "(%s)" % " + ".join(l)), tainted

    def none_of(self, t):
        return self.w.vty(t) + "::empty()" if not self.w.vty(t).startswith("Seq<") else "Seq::<%s>::empty()" % self.w.vty(t)[4:-1]

    def as_pipes(self, vs, outs, ok, items, x, et, src, init):
        """a loop whose rounds only append to lists (or add to a sum from 0): the lists as pipelines; -> ([value], condition) or None"""
        w = self.w
        got, bad = [], set()
        saved = self.ctx
        self.ctx = Ctx(saved)
        self.ctx.items = list(items)
        try:
            for (k, n, t), e, i0 in zip(vs, outs, init):
                r = self.collected(n, t, e, self.ctx.items)
                if r is None or w.vty(t) == "F64" and i0 != "fl_0_0()":
                    return None
                got.append(r[0])
                bad |= r[1]
            items = list(self.ctx.items)
        finally:
            self.ctx = saved
        uses = lambda e: any(re.search(r"\b%s\b" % b, e) for b in bad)
        items = [i for i in items if i[0] == "let" and i[1] not in bad]
        if any(uses(g) for g in got) or uses(ok) or any(uses(i[3]) for i in items):
            return None
        body, vals, cond = self.lets(items), [], "true"
        for (k, n, t), val, i0 in zip(vs, got, init):
            number = w.vty(t) == "F64"
            ty = F64 if number else mir.strip(t)[2][0]
            g = "Seq<%s>" % w.vty(ty)
            mine = ok if cond == "true" else "true"
            caps = self.free(body + " " + val + " " + mine, {i[1] for i in items} | {x.term})
            f = w.fresh("pipe")
            par, ca = "".join(", %s: %s" % (c, w.vty_of[c]) for c in caps), "".join(", " + c for c in caps)
            w.out.append("pub open spec fn step_%s(%s: %s%s) -> %s {\n%s    %s\n}\n" % (f, x.term, w.vty(et), par, g, body, val))
            w.out.append("pub open spec fn %s(s: Seq<%s>%s) -> %s\n    decreases s.len(),\n{\n    if s.len() == 0 { Seq::<%s>::empty() } else { step_%s(s.first()%s) + %s(s.drop_first()%s) }\n}\n" % (
                f, w.vty(et), par, g, w.vty(ty), f, ca, f, ca))
            if mine != "true":
                w.out.append("pub open spec fn ok_%s(%s: %s%s) -> bool {\n%s    %s\n}\n" % (f, x.term, w.vty(et), par, body, mine))
                cond = self.let("forall|i: int| 0 <= i < %s.len() ==> ok_%s(#[trigger] %s[i]%s)" % (src, f, src, ca), "bool")
            w.recs[f] = dict(kind="pipe", caps=caps, et=w.vty(et), ret=g, ok=mine != "true", src=src)
            w.loops[f] = dict(kind="pipe", caps=caps, et=et, rt=ty, body=body, x=x.term, val=val, ok=mine)
            v = self.let("%s(%s%s)" % (f, src, ca), g, T("Vec", ty))
            if number:
                w.ufn("f_sum", ["Seq<F64>"], "F64")
                v = self.let("f_sum(%s)" % v, "F64")
            else:
                j = next((i[3] for i in self.all_items() if i[1] == i0), i0)
                if not re.fullmatch(r"Seq::(<.*>::)?empty\(\)", j):
                    v = self.let("%s + %s" % (i0, v), g, t)
            vals.append(V(v, t))
        return vals, cond

    def all_items(self):
        c = self.ctx
        while c is not None:
            yield from (i for i in c.items if i[0] == "let")
            c = c.parent

    def loop(self, fr, h, st, stops):
        """for loop: the header calls next() on an iterator"""
        cfg = fr.fn.cfg
        body = cfg.loops[h]
        # straight line from the header to the call of next
        b, pre = h, st.copy()
        while True:
            stmts = fr.fn.parsed[b]
            for s in stmts[:-1]:
                self.stmt(fr, pre, s)
            t = stmts[-1]
            if t[0] == "CALL" and re.search(r"as (std::iter::|core::iter::)?Iterator>::next$", t[2]):
                break
            if t[0] == "GOTO":
                b = t[1]
                continue
            raise Unsupported("loop in " + fr.fn.name)
        ref = self.operand(pre, fr, t[3][0])
        it = self.load(pre, ref)
        while isinstance(it, Ref):
            ref, it = it, self.load(pre, it)
        if not isinstance(it, Pipe):
            raise Unsupported("loop over %r in %s" % (type(it).__name__, fr.fn.name))
        seq = V(self.collect(it, pre), it.src.ty if not it.ops else T("Iter", it.ty[2][0]))
        if it.ops:
            seq = V(seq.term, T("Iter", self.w_elem))
        et = elem(seq.ty)
        rest = Pipe(V("@rest", seq.ty))
        nextb, dest = t[4], t[1]
        exits = {}
        keys, live = [], dict(st.cells)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 8:
                raise Unsupported("loop state in " + fr.fn.name)
            self.scope()
            base, vs = self.abstract(pre, keys)
            x = self.w.var("x", et)
            s0 = base.copy()
            s0.pc, s0.ok = (), "true"
            s0.cells[ref.cell] = rest if not ref.path else s0.cells[ref.cell]
            entry = s0.copy()
            self.write(s0, fr, dest, some(x))
            self.open = getattr(self, "open", ()) + ((fr, h),)
            out_blocks = frozenset({h} | {y for bb in body for y in cfg.succ[bb] if y not in body and y in cfg.live})
            o = self.run(fr, nextb, s0, out_blocks)
            self.open = self.open[:-1]
            new = set(keys)
            for k, (c, s) in o.items():
                for q in self.changed(entry, s):
                    if q[0] != ref.cell and q[0] in st.cells:
                        new.add(q)
                # cells which only exist after a break are needed as well
                if k != h:
                    for q in s.cells:
                        if q not in pre.cells and self.needed(fr, k, q) and not constant(under(s.cells[q], (c,) + s.pc)):
                            v = self.deep(s.cells[q], s)
                            t = v.ty if not isinstance(v, Cond) else self.find_enum(v)
                            pre.cells[q] = V(self.arbitrary(t), t)
                            new.add((q,))
            new = widest(new)
            if new == set(keys):
                break
            self.unscope()
            keys = sorted(new)
        items = self.ctx.items
        self.unscope()
        return self.finish_loop(fr, h, st, pre, ref, seq, x, et, vs, o, items, nextb, dest, keys)

    def needed(self, fr, b, q):
        if q == fr.cells.get(0):
            return True
        local = next((l for l, c in fr.cells.items() if c == q), None)
        if not getattr(self.w, "wide", False) or local is None:
            return False
        # second attempt: whatever is mentioned after the way out
        todo, seen = [b], set()
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if any(re.search(r"\b_%d\b" % local, x) for x in fr.fn.blocks[y] if not x.startswith("StorageDead")):
                return True
            todo += fr.fn.cfg.succ[y]
        return False

    def finish_loop(self, fr, h, st, pre, ref, seq, x, et, vs, o, items, nextb, dest, keys):
        w = self.w
        fname = w.fresh("loop_%s_" % re.sub(r"\W+", "_", fr.fn.name.rsplit(">::", 1)[-1])[:30])
        tags = [h] + sorted(k for k in o if k != h)
        rtys = ["int"] + [w.vty(t) for k, n, t in vs] + ["bool"]
        rty = "(%s)" % ", ".join(rtys)

        # the body's terms live in the scope of the loop function
        pipes = None
        if tags == [h] and o[h][0] == "true" and vs:
            self.ctx, saved = Ctx(self.ctx), self.ctx
            self.ctx.items = list(items)
            cs, its = [self.at(o[h][1], q) for q, n, t in vs], self.ctx.items
            self.ctx = saved
            pipes = self.as_pipes(vs, cs, o[h][1].ok, its, x, et, seq.term, [self.at(pre, k) for k, n, t in vs])
        if pipes:
            after = pre.copy()
            for (k, n, t), v in zip(vs, pipes[0]):
                self.store(after, self.place(k), v)
            after.ok = conj([pre.ok, pipes[1]])
            return self.past_loop(fr, h, [after], ref, seq, et, o, nextb, dest, tags, ["true"])
        if len(tags) == 2 and h in o and vs:
            found = self.as_first(h, tags[1], pre, x, et, vs, o, items, seq.term, set(st.cells))
            if found:
                r, ok = found
                stopped = pre.copy()
                for i, (k, n, t) in enumerate(vs):
                    self.store(stopped, self.place(k), V("%s->Some_0%s" % (r, ".%d" % i if len(vs) > 1 else ""), t))
                pre.ok = stopped.ok = conj([pre.ok, ok])
                return self.past_loop(fr, h, [pre, stopped], ref, seq, et, o, nextb, dest, tags, ["!(%s is Some)" % r, "%s is Some" % r])
        saved = self.ctx
        self.ctx = Ctx(saved)
        self.ctx.items = list(items)

        def result(tag, s):
            return "(%s)" % ", ".join([str(tag)] + [self.at(s, k) for k, n, t in vs] + [s.ok])
        branches = []
        for i, k in enumerate(tags):
            if k not in o:
                continue
            c, s = o[k]
            if k == h:
                cs = [self.at(s, q) for q, n, t in vs]
                rec = ("rec", cs, s.ok)
                branches.append((c, rec))
            else:
                branches.append((c, ("ret", result(i, s))))
        items = self.ctx.items
        self.ctx = saved
        body = self.lets(items)
        if not vs and len(tags) == 2 and h in o:
            return self.leave(fr, h, pre, ref, seq, x, et, o, items, nextb, dest, tags, branches)
        text = body + " ".join(str(b) for b in branches)
        bound = {i[1] for i in items if i[0] == "let"} | {n for k, n, t in vs} | {x.term}
        caps = self.free(text, bound)
        # names chosen during execution of the body but outside it
        params = "s: Seq<%s>" % w.vty(et) + "".join(", %s: %s" % (n, w.vty(t)) for k, n, t in vs) + "".join(", %s: %s" % (c, w.vty_of[c]) for c in caps)
        capargs = "".join(", " + c for c in caps)

        def expr(b):
            if b[0] == "ret":
                return b[1]
            r = "%s(s.drop_first()%s%s)" % (fname, "".join(", " + c for c in b[1]), capargs)
            if b[2] == "true":
                return r
            return "{ let r = %s; (%s) }" % (r, ", ".join(["r.%d" % i for i in range(len(rtys) - 1)] + ["r.%d && %s" % (len(rtys) - 1, b[2])]))
        e = ""
        for c, b in branches[:-1]:
            e += "if %s { %s } else " % (c, expr(b))
        e += "{ %s }" % expr(branches[-1][1]) if len(branches) > 1 else expr(branches[0][1])
        empty = "(%s)" % ", ".join(["0int"] + [n for k, n, t in vs] + ["true"])
        w.vty_of[fname] = None
        w.out.append("pub open spec fn %s(%s) -> %s\n    decreases s.len(),\n{\n  if s.len() == 0 { %s } else {\n    let %s: %s = s.first();\n%s    %s\n  }\n}\n" % (
            fname, params, rty, empty, x.term, w.vty(et), body, e))
        init = [self.at(pre, k) for k, n, t in vs]
        r = self.let("%s(%s%s%s)" % (fname, seq.term, "".join(", " + i for i in init), capargs), rty)
        w.loops[fname] = dict(kind="loop", vs=vs, caps=caps, branches=branches, body=body, x=x.term, et=et, tags=tags)
        w.rty_of[r] = ("tuple", (INT,) + tuple(t for k, n, t in vs) + (BOOL,))
        del w.vty_of[fname]
        after = pre.copy()
        for i, (k, n, t) in enumerate(vs):
            self.store(after, self.place(k), V("%s.%d" % (r, i + 1), t))
        after.ok = conj([pre.ok, "%s.%d" % (r, len(vs) + 1)])
        return self.past_loop(fr, h, [after] * len(tags), ref, seq, et, o, nextb, dest, tags, ["%s.0 == %d" % (r, i) for i in range(len(tags))] if len(tags) > 1 else ["true"])

    def as_first(self, h, k, pre, x, et, vs, o, items, src, before):
        """a loop which changes nothing before it is left: what it is left with
        (what doesn't exist before the loop is only read after a way out which sets it)"""
        w, saved = self.w, self.ctx
        self.ctx = Ctx(saved)
        self.ctx.items = list(items)
        moved = [n for q, n, t in vs if self.at(o[h][1], q) != n]
        same = all(q[0] not in before for q, n, t in vs if n in moved)
        vals = [self.at(o[k][1], q) for q, n, t in vs]
        c = self.let(neg(o[h][0]), "bool")
        okh, okk = o[h][1].ok, o[k][1].ok
        ok = okh if okh == okk else self.let("if %s { %s } else { %s }" % (c, okk, okh), "bool")
        its = [i for i in self.ctx.items if i[0] == "let"]
        self.ctx = saved
        if not same or any(re.search(r"\b%s\b" % n, e) for n in moved for e in [self.lets(its), c, ok] + vals):
            return None
        start = {n: self.at(pre, q) for q, n, t in vs}
        put = lambda e: re.sub(r"\b(%s)\b" % "|".join(start), lambda m: start[m.group(1)], e)
        body, c, ok, vals = put(self.lets(its)), put(c), put(ok), [put(v) for v in vals]
        ty = vs[0][2] if len(vs) == 1 else ("tuple", tuple(t for q, n, t in vs))
        vt = vals[0] if len(vs) == 1 else "(%s)" % ", ".join(vals)
        caps = self.free(" ".join([body, c, vt, ok]), {i[1] for i in its} | {x.term})
        r, okr = self.emit_first(x, et, ty, body, c, vt, ok, caps, src)
        return r, okr

    def emit_first(self, x, et, ty, body, c, vt, ok, caps, src):
        w = self.w
        f = w.fresh("first")
        cp = "".join(", %s: %s" % (q, w.vty_of[q]) for q in caps)
        ca = "".join(", " + q for q in caps)
        o = "Option<%s>" % w.vty(ty)
        w.out.append("pub open spec fn %s(s: Seq<%s>%s) -> %s\n    decreases s.len(),\n{\n    if s.len() == 0 { %s::None } else {\n    let %s: %s = s.first();\n%s    if %s { %s::Some(%s) } else { %s(s.drop_first()%s) } }\n}\n" % (
            f, w.vty(et), cp, o, o.replace("<", "::<", 1), x.term, w.vty(et), body, c, o.replace("<", "::<", 1), vt, f, ca))
        fine = "true"
        if ok != "true":
            w.out.append("pub open spec fn ok_%s(s: Seq<%s>%s) -> bool\n    decreases s.len(),\n{\n    if s.len() == 0 { true } else {\n    let %s: %s = s.first();\n%s    (%s) && (%s || ok_%s(s.drop_first()%s)) }\n}\n" % (
                f, w.vty(et), cp, x.term, w.vty(et), body, ok, c if simple(c) else "(%s)" % c, f, ca))
            fine = self.let("ok_%s(%s%s)" % (f, src, ca), "bool")
        w.recs[f] = dict(kind="first", caps=caps, et=w.vty(et), ret=o, ok=ok != "true", src=src)
        w.loops[f] = dict(kind="first", caps=caps, et=et, rt=ty, body=body, x=x.term, val=vt, cond=c, ok=ok)
        return self.let("%s(%s%s)" % (f, src, ca), o, OPT(ty)), fine

    def past_loop(self, fr, h, afters, ref, seq, et, o, nextb, dest, tags, conds):
        """what follows a loop, for each way out of it"""
        w, outs = self.w, {}
        for i, k in enumerate(tags):
            s = afters[i].copy()
            if k in o:
                for q, v in o[k][1].cells.items():
                    v = under(v, (o[k][0],) + o[k][1].pc)
                    if k != h and q not in s.cells and constant(v):
                        s.cells[q] = v
            if i == 0:
                # the iterator is exhausted
                if not ref.path:
                    s.cells[ref.cell] = Pipe(V("Seq::<%s>::empty()" % w.vty(et), seq.ty))
                self.write(s, fr, dest, none(et))
                self.open = getattr(self, "open", ()) + ((fr, h),)
                oo = self.run(fr, nextb, s, frozenset({y for bb in fr.fn.cfg.loops[h] for y in fr.fn.cfg.succ[bb] if y not in fr.fn.cfg.loops[h] and y in fr.fn.cfg.live}))
                self.open = self.open[:-1]
                if len(oo) != 1:
                    raise Unsupported("loop exit in " + fr.fn.name)
                kk = list(oo)[0]
                outs[kk] = (conds[0], oo[kk][1])
            else:
                cnd = conds[i]
                if k in outs:
                    s2 = s
                    self.merge(s2, outs[k][0], outs[k][1])
                    outs[k] = (disj([outs[k][0], cnd]), s2)
                else:
                    outs[k] = (cnd, s)
        if len(outs) == 1:
            k = list(outs)[0]
            return {k: ("true", outs[k][1])}
        return outs

    def leave(self, fr, h, pre, ref, seq, x, et, o, items, nextb, dest, tags, branches):
        """a loop which changes nothing and is left at the first element that fails a test"""
        w = self.w
        c = o[h][0]
        body = self.lets(items)
        caps = self.free(body + " " + c, {i[1] for i in items if i[0] == "let"} | {x.term})
        f = w.fresh("pred")
        w.out.append("pub open spec fn %s(%s: %s%s) -> bool {\n%s    %s\n}\n" % (f, x.term, w.vty(et), "".join(", %s: %s" % (q, w.vty_of[q]) for q in caps), body, c))
        all_ = self.let("forall|i: int| 0 <= i < %s.len() ==> %s(#[trigger] %s[i]%s)" % (seq.term, f, seq.term, "".join(", " + q for q in caps)), "bool")
        if o[h][1].ok != "true" or o[tags[1]][1].ok != "true":
            # every element has to be harmless, also those after the one it stops at
            ok = conj([o[h][1].ok, o[tags[1]][1].ok])
            caps = self.free(body + " " + ok, {i[1] for i in items if i[0] == "let"} | {x.term})
            w.out.append("pub open spec fn ok_%s(%s: %s%s) -> bool {\n%s    %s\n}\n" % (f, x.term, w.vty(et), "".join(", %s: %s" % (q, w.vty_of[q]) for q in caps), body, ok))
            pre.ok = conj([pre.ok, self.let("forall|i: int| 0 <= i < %s.len() ==> ok_%s(#[trigger] %s[i]%s)" % (seq.term, f, seq.term, "".join(", " + q for q in caps)), "bool")])
        k = tags[1]
        s1, s2 = pre.copy(), pre.copy()
        for q, v in o[k][1].cells.items():
            v = under(v, (o[k][0],) + o[k][1].pc)
            if q not in s2.cells and constant(v):
                s2.cells[q] = v
        if not ref.path:
            s1.cells[ref.cell] = Pipe(V("Seq::<%s>::empty()" % w.vty(et), seq.ty))
        self.write(s1, fr, dest, none(et))
        self.open = getattr(self, "open", ()) + ((fr, h),)
        oo = self.run(fr, nextb, s1, frozenset({y for bb in fr.fn.cfg.loops[h] for y in fr.fn.cfg.succ[bb] if y not in fr.fn.cfg.loops[h] and y in fr.fn.cfg.live}))
        self.open = self.open[:-1]
        if len(oo) != 1:
            raise Unsupported("loop exit in " + fr.fn.name)
        kk = list(oo)[0]
        if kk == k:
            raise Unsupported("loop exits in " + fr.fn.name)
        return {kk: (all_, oo[kk][1]), k: (neg(all_), s2)}

    def arbitrary(self, t):
        return "arbitrary::<%s>()" % self.w.vty(t)

    # ------------------------------------------------------------ iterator pipelines
    def collect(self, it, st):
        """sequence of a pipeline's elements (pure closures)"""
        if isinstance(it, Cond):
            return self.let("if %s { %s } else { %s }" % (it.c, self.collect(it.a, st), self.collect(it.b, st)), "Seq<%s>" % self.w.vty(elem(it.a.ty)))
        if not it.ops:
            self.w_elem = elem(it.src.ty)
            return self.term(it.src, st)
        et = elem(it.src.ty)
        key = (it.src.term, repr(it.ops))
        self.scope()
        x = self.w.var("x", et)
        s = st.copy()
        s.pc, s.ok = (), "true"
        before = s.copy()
        kind, val, ty = self.steps(it.ops, x, s)
        if self.changed(before, s):
            self.unscope()
            raise Unsupported("pipeline with effects")
        ok = s.ok
        items = self.ctx.items
        self.unscope()
        body = self.lets(items)
        caps = self.free(body + " " + val + " " + ok, {i[1] for i in items} | {x.term})
        f = self.w.fresh("pipe")
        g = "Seq<%s>" % self.w.vty(ty)
        step = "step_" + f
        self.w.out.append("pub open spec fn %s(%s: %s%s) -> %s {\n%s    %s\n}\n" % (step, x.term, self.w.vty(et), "".join(", %s: %s" % (c, self.w.vty_of[c]) for c in caps), g, body, val))
        self.w.out.append("pub open spec fn %s(s: Seq<%s>%s) -> %s\n    decreases s.len(),\n{\n    if s.len() == 0 { Seq::<%s>::empty() } else { %s(s.first()%s) + %s(s.drop_first()%s) }\n}\n" % (
            f, self.w.vty(et), "".join(", %s: %s" % (c, self.w.vty_of[c]) for c in caps), g, self.w.vty(ty), step, "".join(", " + c for c in caps), f, "".join(", " + c for c in caps)))
        if ok != "true":
            okf = "ok_" + f
            self.w.out.append("pub open spec fn %s(%s: %s%s) -> bool {\n%s    %s\n}\n" % (okf, x.term, self.w.vty(et), "".join(", %s: %s" % (c, self.w.vty_of[c]) for c in caps), body, ok))
            st.ok = conj([st.ok, self.let("forall|i: int| 0 <= i < %s.len() ==> %s(#[trigger] %s[i]%s)" % (it.src.term, okf, it.src.term, "".join(", " + c for c in caps)), "bool")])
        self.w_elem = ty
        self.w.recs[f] = dict(kind="pipe", caps=caps, et=self.w.vty(et), ret=g, ok=ok != "true", src=it.src.term)
        self.w.loops[f] = dict(kind="pipe", caps=caps, et=et, rt=ty, body=body, x=x.term, val=val, ok=ok)
        return self.let("%s(%s%s)" % (f, it.src.term, "".join(", " + c for c in caps)), g, T("Vec", ty))

    def steps(self, ops, v, st):
        """-> ('seq', term, element type): what one element contributes"""
        w = self.w
        if not ops:
            v = self.deep(v, st)
            t = v.ty if not isinstance(v, Cond) else self.find_enum(v)
            return "seq", "seq![%s]" % self.term(v, st), t
        (k, f), rest = ops[0], ops[1:]
        if k == "map":
            return self.steps(rest, self.apply(f, [v], st), st)
        if k in ("filter", "filter_map"):
            o = self.apply(f, [v], st)
            if k == "filter":
                c, p = self.term(o, st), v
            else:
                o = self.deref(o, st)
                c = self.let(self.is_var(o, "Some"), "bool")
                p = self.getf(o, 0, "Some", st)
            before, st.ok = st.ok, "true"
            _, val, ty = self.steps(rest, p, st)
            st.ok = conj([before, disj([neg(c), st.ok]) if st.ok != "true" else "true"])
            return "seq", self.choose(c, val, ty), ty
        if k in ("flat_map", "flatten"):
            it = self.apply(f, [v], st) if k == "flat_map" else v
            it = symstd.iterate(self, it, st)
            if isinstance(it, Cond):
                raise Unsupported("choice of iterators")
            it = Pipe(it.src, it.ops + rest)
            t = self.collect(it, st)
            return "seq", t, self.w_elem
        raise Unsupported("iterator step " + k)

    def element(self, ops, v, st):
        """-> (condition, value) of the one element which these steps make of v"""
        if not ops:
            return "true", v
        (k, f), rest = ops[0], ops[1:]
        if k == "map":
            return self.element(rest, self.apply(f, [v], st), st)
        if k not in ("filter", "filter_map"):
            raise Unsupported("element through " + k)
        o = self.apply(f, [v], st)
        if k == "filter":
            c, p = self.term(o, st), v
        else:
            o = self.deref(o, st)
            c = self.let(self.is_var(o, "Some"), "bool") if o.ty != ("never",) else "false"
            p = self.getf(o, 0, "Some", st)
        before, st.ok = st.ok, "true"
        c2, val = self.element(rest, p, st)
        st.ok = conj([before, disj([neg(c), st.ok]) if st.ok != "true" else "true"])
        return conj([c, c2]), val

    def first(self, it, st):
        """the first element of a pipeline -> Option value"""
        w = self.w
        et = elem(it.src.ty)
        src = self.term(it.src, st)
        self.scope()
        x = w.var("x", et)
        s = st.copy()
        s.pc, s.ok = (), "true"
        before = s.copy()
        c, val = self.element(it.ops, x, s)
        val = self.deep(val, s)
        if self.changed(before, s):
            self.unscope()
            raise Unsupported("pipeline with effects")
        ty = val.ty if not isinstance(val, Cond) else self.find_enum(val)
        vt, ok = self.term(val, s), s.ok
        items = self.ctx.items
        self.unscope()
        body = self.lets(items)
        caps = self.free(" ".join([body, c, vt, ok]), {i[1] for i in items} | {x.term})
        r, fine = self.emit_first(x, et, ty, body, c, vt, ok, caps, src)
        st.ok = conj([st.ok, fine])
        return V(r, OPT(ty))

    # ------------------------------------------------------------ pipelines whose closures change something
    def drive(self, ops, v, st, sink):
        """one element through the steps, in order; what comes out goes to the sink"""
        if not ops:
            return sink(v, st)
        (k, f), rest = ops[0], ops[1:]
        if k == "map":
            return self.drive(rest, self.apply(f, [v], st), st, sink)
        if k in ("filter", "filter_map"):
            o = self.apply(f, [v], st)
            if k == "filter":
                c, p = self.term(o, st), lambda s: v
            else:
                o = self.deref(o, st)
                c, p = symstd.cond_of(self, o, "Some"), lambda s: self.getf(o, 0, "Some", s)

            def yes(s):
                self.drive(rest, p(s), s, sink)
                return unit()
            return symstd.branch(self, st, c, yes, lambda s: unit())
        if k in ("flat_map", "flatten"):
            it = symstd.iterate(self, self.apply(f, [v], st) if k == "flat_map" else v, st)
            if isinstance(it, Cond):
                raise Unsupported("choice of iterators")
            return self.each(Pipe(it.src, it.ops + rest), st, sink)
        raise Unsupported("iterator step " + k)

    def each(self, it, st, sink):
        """for every element in order; the state becomes what is left after the last one"""
        w = self.w
        src = self.term(it.src, st)
        et = elem(it.src.ty)
        keys, rounds = [], 0
        while True:
            rounds += 1
            if rounds > 8:
                raise Unsupported("state of a pipeline")
            self.scope()
            base, vs = self.abstract(st, keys)
            x = w.var("x", et)
            s = base.copy()
            s.pc, s.ok = (), "true"
            before = s.copy()
            self.drive(it.ops, x, s, sink)
            for q in self.changed(before, s):
                t = mir.strip(self.load(st, self.place(q)).ty)
                if "infer" in str(t):
                    # an accumulator which had no elements to take a type from
                    n = self.deep(self.load(s, self.place(q)), s)
                    n = n.a if isinstance(n, Cond) else n
                    self.store(st, self.place(q), V("Seq::<%s>::empty()" % w.vty(n.ty[2][0]), n.ty))
            new = widest(set(keys) | set(self.changed(before, s)))
            if new == set(keys):
                break
            self.unscope()
            keys = sorted(new)
        rtys = [w.vty(t) for k, n, t in vs] + ["bool"]
        outs = [self.at(s, k) for k, n, t in vs]
        ok = s.ok
        items = self.ctx.items
        self.unscope()
        pipes = vs and self.as_pipes(vs, outs, ok, items, x, et, src, [self.at(st, k) for k, n, t in vs])
        if pipes:
            for (k, n, t), v in zip(vs, pipes[0]):
                self.store(st, self.place(k), v)
            st.ok = conj([st.ok, pipes[1]])
            return
        body = self.lets(items)
        caps = self.free(" ".join([body, ok] + outs), {i[1] for i in items} | {n for k, n, t in vs} | {x.term})
        name = w.fresh("each")
        ca = "".join(", " + c for c in caps)
        rty = "(%s)" % ", ".join(rtys) if vs else "bool"
        r = "%s(s.drop_first()%s%s)" % (name, "".join(", " + o for o in outs), ca)
        if ok != "true":
            r = "{ let r = %s; (%s) }" % (r, ", ".join(["r.%d" % i for i in range(len(vs))] + ["r.%d && %s" % (len(vs), ok)])) if vs else "(%s) && %s" % (ok, r)
        w.out.append("pub open spec fn %s(s: Seq<%s>%s%s) -> %s\n    decreases s.len(),\n{\n  if s.len() == 0 { (%s) } else {\n    let %s: %s = s.first();\n%s    %s\n  }\n}\n" % (
            name, w.vty(et), "".join(", %s: %s" % (n, w.vty(t)) for k, n, t in vs), "".join(", %s: %s" % (c, w.vty_of[c]) for c in caps), rty,
            ", ".join([n for k, n, t in vs] + ["true"]), x.term, w.vty(et), body, r))
        w.loops[name] = dict(kind="each", vs=vs, caps=caps, branches=[("true", ("rec", outs, ok))], body=body, x=x.term, et=et)
        v = self.let("%s(%s%s%s)" % (name, src, "".join(", " + self.at(st, k) for k, n, t in vs), ca), rty, ("tuple", tuple(t for k, n, t in vs) + (BOOL,)))
        for i, (k, n, t) in enumerate(vs):
            self.store(st, self.place(k), V("%s.%d" % (v, i), t))
        st.ok = conj([st.ok, "%s.%d" % (v, len(vs)) if vs else v])

    def cell_of(self, st, v):
        self.w.n += 1
        st.cells[self.w.n] = v
        return Ref(self.w.n)

    def gather_effects(self, it, st):
        acc = self.cell_of(st, V("Seq::empty()", T("Vec", ("infer",))))

        def sink(v, s):
            v = self.deep(v, s)
            t = v.ty if not isinstance(v, Cond) else self.find_enum(v)
            self.store(s, acc, self.e("%s.push(%s)" % (self.term(self.load(s, acc), s), self.term(v, s)), T("Vec", t)))
        self.each(it, st, sink)
        v = st.cells.pop(acc.cell)
        self.w_elem = v.ty[2][0]
        return self.term(v, st)

    def for_each(self, it, f, st):
        self.each(it, st, lambda v, s: self.apply(f, [v], s))
        return unit()

    def fold(self, it, init, f, st):
        acc = self.cell_of(st, init)
        self.each(it, st, lambda v, s: self.store(s, acc, self.deep(self.apply(f, [self.load(s, acc), v], s), s)))
        return st.cells.pop(acc.cell)

    def choose(self, c, val, ty):
        if c == "true":
            return val
        if c == "false":
            return "Seq::<%s>::empty()" % self.w.vty(ty)
        return self.let("if %s { %s } else { Seq::<%s>::empty() }" % (c, val, self.w.vty(ty)), "Seq<%s>" % self.w.vty(ty))

    def predicate(self, it, st, body, rt="bool"):
        """spec function of one element: body(x, st) -> term; -> (sequence, name, captured)"""
        src = V(self.collect(it, st), T("Iter", elem(it.src.ty) if not it.ops else None or ("infer",)))
        et = self.w_elem
        self.scope()
        x = self.w.var("x", et)
        s = st.copy()
        s.pc, s.ok = (), "true"
        before = s.copy()
        val = body(x, s)
        if self.changed(before, s):
            self.unscope()
            raise Unsupported("closure with effects")
        items = self.ctx.items
        self.unscope()
        b = self.lets(items)
        caps = self.free(b + " " + val + " " + s.ok, {i[1] for i in items} | {x.term})
        f = self.w.fresh("pred")
        par = "%s: %s%s" % (x.term, self.w.vty(et), "".join(", %s: %s" % (c, self.w.vty_of[c]) for c in caps))
        self.w.out.append("pub open spec fn %s(%s) -> %s {\n%s    %s\n}\n" % (f, par, rt, b, val))
        self.w.loops[f] = dict(kind="pred", caps=caps, et=et, body=b, x=x.term, ok=s.ok)
        ca = "".join(", " + c for c in caps)
        if s.ok != "true":
            self.w.out.append("pub open spec fn ok_%s(%s) -> bool {\n%s    %s\n}\n" % (f, par, b, s.ok))
            st.ok = conj([st.ok, self.let("forall|i: int| 0 <= i < %s.len() ==> ok_%s(#[trigger] %s[i]%s)" % (src.term, f, src.term, ca), "bool")])
        return src.term, f, ca, et


def widest(ks):
    """without places inside other places"""
    return {k for k in ks if not any(k[:i] in ks for i in range(1, len(k)))}


def under(v, conds):
    """a value where these conditions hold"""
    if isinstance(v, Cond):
        if v.c in conds:
            return under(v.a, conds)
        if neg(v.c) in conds:
            return under(v.b, conds)
        return Cond(v.c, under(v.a, conds), under(v.b, conds))
    if isinstance(v, Agg):
        return Agg(v.ty, v.variant, [under(x, conds) for x in v.fields])
    return v


def constant(v):
    """a value without parts that were computed"""
    return isinstance(v, Opaque) or isinstance(v, Agg) and all(constant(x) for x in v.fields)


def find_impl(t):
    if t is None:
        return []
    if t[0] == "T":
        r = [t[1]] if t[1].startswith("impl ") else []
        for x in t[2]:
            r += find_impl(x)
        return r
    if t[0] == "tuple":
        return [y for x in t[1] for y in find_impl(x)]
    return []


def hash_of(s):
    import zlib
    return zlib.crc32(s.encode()) & 0xffffff
