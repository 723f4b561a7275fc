"""Instances: functions of the crate as Verus spec functions, with tools/symex.py."""
import os
import re

import mir
import sym
import symex
from rs import T, UNIT, Unsupported, show_ty, subst
from sym import ANY, Agg, Clo, Cond, Opaque, Pipe, Ref, State, V

Id = T("Id")


class Inst:
    """one function translated for given type parameters: spec function of its arguments"""

    def __init__(self, name, fn, env):
        self.name, self.fn, self.env = name, fn, env
        self.params = []      # (name, verus type, type)
        self.muts = {}        # borrowed mutably -> type
        self.parts = []       # (what, verus type): "ret", "mut <param>", "ok"
        self.text = None

    def proj(self, what, call):
        i = [p[0] for p in self.parts].index(what)
        return call if len(self.parts) == 1 else "%s.%d" % (call, i)


def is_mut(ty):
    t = mir.parse_type(ty) if isinstance(ty, str) else ty
    return t[0] in ("mut",) or (t[0] == "ref" and len(t) > 2 and t[2])


def impl_env(w, fn):
    """values for `impl Trait` parameters: the type itself for Into, a sequence for iterators, an unknown object type otherwise"""
    env = {}

    def value(t):
        if t[0] == "T":
            return ("T", t[1], tuple(value(x) for x in t[2])) if not t[1].startswith("impl ") else known(t[1])
        if t[0] == "tuple":
            return ("tuple", tuple(value(x) for x in t[1]))
        return t

    def known(s):
        if s not in env:
            m = re.match(r"impl Into<(.*)>(?:\+\w+)*$", s)
            i = re.match(r"impl (?:Into|DoubleEnded|ExactSize)?Iterator<Item=(.*)>(?:\+\w+)*$", s)
            if m:
                env[s] = value(mir.strip(mir.parse_type(m.group(1))))
            elif i:
                x = i.group(1).replace("impl", "impl ") if i.group(1).startswith("impl") and not i.group(1).startswith("impl ") else i.group(1)
                env[s] = T("Iter", value(mir.strip(mir.parse_type(x))))
            else:
                v = re.sub(r"\W", "", s[5:]).upper()
                w.abstract.add(v)
                env[s] = T(v)
        return env[s]
    for k, ty in fn.params:
        if "closure@" not in ty:
            for s in symex.find_impl(mir.strip(mir.parse_type(ty))):
                known(s)
    return env


def param(w, ex, st, name, ty, t, muts, mut):
    """symbolic argument; registers what is borrowed mutably"""
    if mut:
        w.n += 1
        c = w.n
        st.cells[c] = param(w, ex, st, name, None, t, muts, False)
        muts.append((name, c, t))
        return Ref(c)
    tt = mir.strip(t)
    if tt[0] == "T" and tt[1] in w.ix.structs and has_mut(w, tt):
        fs = []
        for fn_, ft in raw_fields(w, tt):
            m = ft[0] == "mut"
            fs.append(param(w, ex, st, name + "_" + fn_, None, mir.strip(ft), muts, m))
        return Agg(tt, None, fs)
    if tt[0] == "T" and tt[1] == "PhantomData":
        return Opaque(tt)
    if tt == UNIT:
        return sym.unit()
    if tt[0] == "infer" or tt[0] == "T" and tt[1] in ("Formatter",):
        return Opaque(tt)
    vt = w.vty(tt)
    w.vty_of[name] = vt
    w.rty_of[name] = tt
    return V(name, tt)


def raw_fields(w, t):
    d = w.ix.structs[t[1]]
    import rs
    m = dict(zip([g[0] for g in d["gen"]["ps"] if not g[0].startswith("'")], t[2]))
    out = []
    for f in d["fields"]["fs"]:
        raw = f["ty"]
        ty = subst(rs.ty(raw, t), m)
        if raw.get("k") == "ref" and raw.get("mut"):
            ty = ("mut", ty)
        out.append((f["name"], ty))
    return out


def has_mut(w, t):
    if t[0] != "T" or t[1] not in w.ix.structs or t[1] not in w.mut_structs:
        return False
    return True


def emit(w, fn, env, name):
    """translate fn under the bindings env"""
    ins = Inst(name, fn, env)
    ex = symex.Ex(w)
    st = State()
    mir.body(fn)
    env = {**{k: subst(v, dict(env)) for k, v in impl_env(w, fn).items()}, **dict(env)}
    args, muts = [], []
    kvars = sorted({v[1] for v in env.values() if w.is_var(v)})
    for k in kvars:
        w.vty_of["k" + k] = "int"
        ins.params.append(("k" + k, "int", None))
    before = set(w.vty_of)
    for k, ty in fn.params:
        raw = mir.parse_type(ty)
        t = ex.norm(subst(mir.strip(raw), dict(env)), env)
        args.append(param(w, ex, st, "a%d" % k, ty, t, muts, raw[0] == "mut"))
    names = [n for n in w.vty_of if re.fullmatch(r"a\d+(_\w+)*", n)]
    for n in names:
        ins.params.append((n, w.vty_of[n], w.rty_of[n]))
    if not fn.blocks:
        raise Unsupported("no body: " + fn.name)
    v = ex.run_fn(fn, args, env, st)
    parts = []
    put = None
    if isinstance(v, Ref) and any(v.cell == c for n, c, t in muts):
        put = v
    v = ex.deep(v, st) if not isinstance(v, Pipe) else v
    if isinstance(v, Pipe):
        term = ex.collect(v, st)
        ins.ret = T("Iter", ex.w_elem)
        parts.append(("ret", w.vty(ins.ret), term))
    elif not (isinstance(v, Opaque)) and not (v.ty == UNIT):
        term = ex.term(v, st)
        t = v.ty if not isinstance(v, Cond) else ex.find_enum(v)
        parts.append(("ret", w.vty(t), term))
        ins.ret = t
    else:
        ins.ret = UNIT
    for n, c, t in muts:
        parts.append((n, w.vty(t), ex.term(st.cells[c], st)))
        ins.muts[n] = t
    parts.append(("ok", "bool", st.ok))
    ins.parts = [(a, b) for a, b, c in parts]
    tys = [b for a, b, c in parts]
    terms = [c for a, b, c in parts]
    ins.items = list(ex.ctx.items)
    sig = ", ".join("%s: %s" % (n, t) for n, t, _ in ins.params)
    call = "%s(%s)" % (name, ", ".join(n for n, t, _ in ins.params))
    ins.text = "pub open spec fn %s(%s) -> %s {\n%s    %s\n}\n" % (
        name, sig, "(%s)" % ", ".join(tys) if len(tys) > 1 else tys[0], ex.lets(ins.items), "(%s)" % ", ".join(terms) if len(terms) > 1 else terms[0])
    for i, (what, ty) in enumerate(ins.parts):
        ins.text += "pub open spec fn %s__%s(%s) -> %s { %s }\n" % (name, what, sig, ty, call if len(parts) == 1 else "%s.%d" % (call, i))
    if put is not None:
        n, c, t = next(m for m in muts if m[1] == put.cell)
        w.vty_of["new"] = w.vty(ins.ret)
        s2 = st.copy()
        ex.store(s2, put, V("new", ins.ret))
        x = ex.term(s2.cells[c], s2)
        ins.text += "pub open spec fn %s__put(%s, new: %s) -> %s {\n%s    %s\n}\n" % (name, sig, w.vty(ins.ret), w.vty(t), ex.lets(ex.ctx.items), x)
        del w.vty_of["new"]
    for l in w.loops.values():
        l.setdefault("env", {n: (w.vty_of[n], w.rty_of.get(n)) for n in names})
    for n in names:
        del w.vty_of[n]
    w.out.append(ins.text)
    return ins


def mutable_structs(ix):
    """structs which hold mutable references"""
    out = set()
    for n, d in ix.structs.items():
        if '"mut": true' in str(d["fields"]).replace("'", '"').replace("True", "true"):
            out.add(n)
    return out


# ---------------------------------------------------------------- files
HERE = os.path.dirname(os.path.abspath(__file__))
VERUS = os.path.join(os.path.dirname(HERE), "verus")
_cache = {}


def load():
    if "fns" not in _cache:
        from verus_gen import Index, load_ast
        _cache["ix"] = Index(load_ast())
        _cache["fns"] = mir.parse(mir.dump())
    return _cache["ix"], _cache["fns"]


def world():
    ix, fns = load()
    w = sym.World(ix, fns)
    w.mut_structs = mutable_structs(ix)
    return w


class Gen:
    """one file of obligations"""

    def __init__(self):
        self.w = world()
        self.insts, self.why, self.recs, self.functions = {}, {}, {}, set()
        self.lemmas = []      # (obligation name or None, text)

    def want(self, name, ty, meth, trait=None, targs=None, env=(), free=None):
        w = self.w
        n0, recs0, v0 = len(w.out), set(w.recs), dict(w.vty_of)
        try:
            if free:
                fn, env2 = next((f for f in w.by_last.get(meth, []) if f.name.endswith(free) and f.ret is not None), None), {}
                if fn is None:
                    raise Unsupported("no function " + free)
            else:
                m = w.find_method(trait, meth, ty, targs)
                if not m:
                    f = w.trait_default(trait, meth) if trait else None
                    if f is None:
                        raise Unsupported("no function %s of %s" % (meth, show_ty(ty)))
                    m = (f, {"Self": ty})
                fn, env2 = m
            e = dict(env2)
            for g in w.generics(fn):
                e.setdefault(g, T(g))
            e.update(dict(env))
            w.abstract |= {t[1] for t in e.values() if t[0] == "T" and t[1] in w.generics(fn)}
            self.insts[name] = emit(w, fn, e, name)
            self.recs[name] = [r for r in w.recs if r not in recs0]
            self.functions.add(re.sub(r"<impl at [^>]*>", lambda m: "<%s>" % show_ty(fn.impl["ty"]) if getattr(fn, "impl", None) else m.group(0), fn.name))
            return self.insts[name]
        except (Unsupported, KeyError, IndexError, AttributeError, TypeError, ValueError, StopIteration, RecursionError) as u:
            self.why[name] = "%s: %s" % (type(u).__name__, str(u)[:300])
            del w.out[n0:]
            w.vty_of = v0
            if "uninitialised" not in self.why[name] or getattr(w, "wide", False):
                return None
        w.wide = True
        try:
            return self.want(name, ty, meth, trait, targs, env, free)
        finally:
            w.wide = False

    def define(self, name, params, parts):
        """a function that stands for a choice among translated ones"""
        self.insts[name] = Inst(name, None, {})
        for k, (ty, e) in parts.items():
            self.w.out.append("pub open spec fn %s__%s(%s) -> %s { %s }\n" % (name, k, params, ty, e))

    # -- recursion lemmas: what the code recurses over against what the contract recurses over
    def directive(self, line):
        m = re.match(r"//@(rec|inner) (\w+) (\w+)\((.*)\)$", line.strip())
        return m.groups()

    def rec_lemmas(self, name, outer, inners, rets):
        """outer, inners: (function of the contract, arguments); rets: result types of the contract's functions"""
        ins, w = self.insts[name], self.w
        recs = self.recs[name]
        params = ["%s: %s" % (n, t) for n, t, _ in ins.params]
        pn = [n for n, t, _ in ins.params]
        lets = Lets(ins.items)
        top = [r for r in recs if any(re.search(r"\b%s\(" % r, i[3]) for i in ins.items)]
        if len(top) != 1:
            raise Unsupported("%s: shape of the result (%d sequences)" % (name, len(top)))
        top = top[0]
        out, use = [], []
        for f, args in inners:
            c = [r for r in recs if r != top and w.recs[r]["ret"] == rets[f]]
            if len(c) != 1:
                raise Unsupported("%s: shape of %s (%d sequences)" % (name, f, len(c)))
            r = w.recs[c[0]]
            L = "rec_%s_%s" % (name, f)
            cp = ["%s: %s" % (q, w.vty_of.get(q) or dict((a, b) for a, b, _ in ins.params).get(q)) for q in r["caps"]]
            need = [a for a in re.findall(r"\b[a-z]\w*\b", args) if a in pn and a not in r["caps"]]
            cp += ["%s: %s" % (a, dict((x, y) for x, y, _ in ins.params)[a]) for a in dict.fromkeys(need)]
            ca = [q.split(":")[0] for q in cp]
            call = "%s(s%s)" % (c[0], "".join(", " + q for q in r["caps"]))
            eq = "=~=" if r["ret"].startswith("Seq") else "=="
            out.append("pub proof fn %s(%s)\n    ensures %s %s %s(%s),\n    decreases s.len(),\n{\n    if s.len() > 0 { %s(%s); }\n}\n" % (
                L, ", ".join(["s: Seq<%s>" % r["et"]] + cp), call, eq, f, args, L, ", ".join(["s.drop_first()"] + ca)))
            extra = [q for q in r["caps"] if q not in pn]
            use.append("    assert forall|%s| #[trigger] %s == %s(%s) by { %s(%s); }\n" % (
                ", ".join(["s: Seq<%s>" % r["et"]] + ["%s: %s" % (q, w.vty_of[q]) for q in extra]), call, f, args, L, ", ".join(["s"] + ca)))
        f, args = outer
        r = w.recs[top]
        eq = "=~=" if r["ret"].startswith("Seq") else "=="
        pre = lets.slice(r["caps"], pn)
        call = "%s(s%s)" % (top, "".join(", " + q for q in r["caps"]))
        L = "rec_" + name
        goal = "%s %s %s(%s)" % (call, eq, f, args)
        out.append("pub proof fn %s(%s)\n    ensures ({ %s%s }),\n    decreases s.len(),\n{\n%s    if s.len() > 0 { %s(%s); }\n}\n" % (
            L, ", ".join(params + ["s: Seq<%s>" % r["et"]]), pre.replace("\n", " "), goal, "".join(use), L, ", ".join(pn + ["s.drop_first()"])))
        return "\n".join(out)

    def library(self, path):
        """a file of contracts: spec functions, then obligations; those over what could not be read become undecided"""
        return self.contracts(open(os.path.join(VERUS, path)).read())

    def contracts(self, text):
        und = []
        text = "\n" + text
        # the types a contract looks into are declared whole
        for n in dict.fromkeys(re.findall(r"Any::(\w+)\(", text)):
            if n in self.w.ifc_types:
                self.w.vty(T(n))
        head, *rest = re.split(r"(?m)^(?=(?://@|pub (?:open spec|proof|closed spec) fn))", text)
        rets = {}
        for m in re.finditer(r"spec fn (\w+)\([^{]*?\) -> ([^{]*?)\s*(?:decreases|\{)", text):
            rets[m.group(1)] = m.group(2).strip().rstrip(",")
        dirs, out = {}, []
        for b in rest:
            if b.startswith("//@"):
                k, n, f, a = self.directive(b.split("\n")[0])
                d = dirs.setdefault(n, {"rec": None, "inner": []})
                if k == "rec":
                    d["rec"] = (f, a)
                else:
                    d["inner"].append((f, a))
        lem, bad = {}, {}
        for n, d in dirs.items():
            if n not in self.insts:
                continue
            try:
                lem[n] = self.rec_lemmas(n, d["rec"], d["inner"], rets)
            except (Unsupported, KeyError) as u:
                bad[n] = str(u)
        names = set(self.why)
        for b in rest:
            if b.startswith("//@"):
                continue
            m = re.match(r"pub (?:open |closed )?(spec|proof) fn (\w+)", b)
            n = m.group(2)
            used = set(re.findall(r"\b(\w+?)__(?:ret|ok|put|a\d\w*)\(", b))
            miss = [u for u in used if u not in self.insts]
            why = [self.why.get(u, "no such function") for u in miss] + [bad[r] for r in re.findall(r"\brec_(\w+)\(", b) if r in bad]
            if why:
                und.append((n, why[0]))
                continue
            out.append((n if m.group(1) == "proof" and "\n// ---- obligations" in text[:text.index(b)] else None, b))
        self.lemmas += [(None, x) for x in lem.values()] + out
        self.undecided = getattr(self, "undecided", []) + und
        self.rec_names = getattr(self, "rec_names", set()) | {"rec_" + n for n in lem}
        return und

    def index(self):
        """name -> (text, names it mentions)"""
        if getattr(self, "idx", None) is None:
            self.idx = {}
            for t in self.w.out + [t for n, t in self.lemmas]:
                ns = re.findall(r"(?m)^(?:#.*\n)?(?:pub )?(?:open |broadcast )?(?:spec|proof) fn (\w+)", t)
                words = set(re.findall(r"\w+", t))
                for n in ns:
                    self.idx[n] = (t, words)
        return self.idx

    def reach(self, names):
        idx, got, todo = self.index(), set(), list(names)
        while todo:
            n = todo.pop()
            if n in got or n not in idx:
                continue
            got.add(n)
            todo += [x for x in idx[n][1] if x not in got]
        return got

    # proofs which go with an obligation: what fails there fails the obligation
    parts_of_proof = ("rec_",)

    def alone(self, n):
        """verified in a file of its own"""
        return False

    def obligations(self):
        return [n for n, t in self.lemmas if n]

    def canary(self, n):
        """the obligation's assumptions, from which false must not follow"""
        t = dict((a, b) for a, b in self.lemmas if a)[n]
        m = re.match(r"pub proof fn (\w+)((?:<[^>]*>)?\(.*?\))\n(    requires.*?)?(?=    ensures|\{\n)", t, re.S)
        b = t[t.rindex("\n{\n") + 3:].rstrip()
        assert b.endswith("}")
        return "// ---- unit canary\nproof fn canary_%s%s\n%s{\n%s    assert(false);\n}\n" % (n, m.group(2), m.group(3) or "", b[:-1])

    def text(self, only=None, canary=()):
        w = self.w
        got = self.reach(only if only is not None else self.obligations())
        keep, seen = [], set()
        for t in w.out:
            ns = re.findall(r"(?m)^(?:#.*\n)?(?:pub )?(?:open |broadcast )?(?:spec|proof) fn (\w+)", t)
            if any(n in got for n in ns) and t not in seen:
                seen.add(t)
                keep.append(t)
        mine = set(only) if only is not None else None
        # an obligation of another part is used by its contract, not by its proof
        body = "\n".join(t if n is None or mine is None or n in mine else "#[verifier::external_body]\n" + t for n, t in self.lemmas if
                         any(x in got for x in re.findall(r"(?m)^(?:#.*\n)?(?:pub )?(?:open |broadcast )?(?:spec|proof) fn (\w+)", t)))
        # every object type is a variant of Any; what nobody looks into stays opaque
        var, kinds = [], []
        used = set(re.findall(r"\w+", "\n".join(keep) + body))
        for i, t in enumerate(w.ifc_types):
            kinds.append("pub spec const K_%s: int = %d;" % (t, i + 1))
            tt = T(t)
            v = w.mangle(tt) if not w.erased(tt) else None
            if v and v not in w.decls:
                w.decls[v] = "pub struct %s { pub opaque_: int }" % v
            var.append("%s(%s)" % (t, w.vty(tt)))
        head = "use vstd::prelude::*;\nuse vstd::set::*;\nuse vstd::map::*;\nuse vstd::seq::*;\nverus! {\n" + open(os.path.join(VERUS, "modb.rs")).read()
        out = ["#![allow(warnings)]\n" + head, "// ---- types"] + kinds + ["pub enum Any { %s }" % ", ".join(var),
               "pub open spec fn kind(a: Any) -> int { match a { %s } }" % ", ".join("Any::%s(_) => %d" % (t, i + 1) for i, t in enumerate(w.ifc_types)),
               "pub open spec fn is_kind(k: int) -> bool { 1 <= k <= %d }" % len(w.ifc_types)]
        out += sorted(w.decls.values())
        if "default_of" in w.uninterp:
            out.append("#[verifier::external_body]\npub proof fn ax_default(k: int)\n    ensures kind(default_of(k)) == k,\n{\n}")
        out += sorted(w.uninterp.values())
        out += ["// ---- functions read from MIR"] + keep + ["// ---- contracts", body] + list(canary) + ["} // verus!", "fn main() {}"]
        return "\n".join(out) + "\n"


class Lets:
    def __init__(self, items):
        self.items = items

    def slice(self, names, params):
        """the definitions which these names need"""
        need, out = set(names) - set(params), []
        for i in reversed(self.items):
            if i[1] in need:
                out.append("    let %s: %s = %s;\n" % (i[1], i[2], i[3]))
                need |= set(re.findall(r"\b[a-z]+\d+\b", i[3]))
        return "".join(reversed(out))
