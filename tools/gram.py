"""Partial evaluator: turns the parser combinator expressions and `Display` bodies of /repo into a
small normal form (parser nodes / text segments).  `let`s, helper functions, closures, static
tables and the `VARIANTS`/`from_str` idiom are evaluated away, so the result describes what the
code does and not how it is spelled."""
import re

from rs import *


# ---------------------------------------------------------------- values
class V:
    ty = ("infer",)


class Str(V):
    def __init__(self, s):
        self.s = s
        self.ty = T("String")


class Num(V):
    def __init__(self, n, ty=None, isf=False):
        self.n, self.isf = n, isf
        self.ty = ty or T("f64" if isf else "int")


class Chr(V):
    def __init__(self, c):
        self.c = c
        self.ty = T("char")


class Bool(V):
    def __init__(self, b):
        self.b = b
        self.ty = T("bool")


class Tup(V):
    def __init__(self, vs):
        self.vs = vs
        self.ty = ("tuple", tuple(v.ty for v in vs))


class Arr(V):
    def __init__(self, vs):
        self.vs = vs
        self.ty = T("Vec", vs[0].ty if vs else ("infer",))


class Rec(V):
    """struct or enum value"""

    def __init__(self, ty, variant, fields, kind):
        self.ty, self.variant, self.fields, self.kind = ty, variant, fields, kind


class Sym(V):
    def __init__(self, e, ty):
        self.e, self.ty = e, ty


class Clo(V):
    def __init__(self, params, body, env, ctx):
        self.params, self.body, self.env, self.ctx = params, body, env, ctx


class FnV(V):
    def __init__(self, f, self_ty=None):
        self.f, self.self_ty = f, self_ty  # f: python callable(list of V) -> V


class Ite(V):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.ty = a.ty


class Match(V):
    """value which depends on the variant of `scrut`: arms [(pattern text, V)]"""

    def __init__(self, scrut, arms):
        self.scrut, self.arms = scrut, arms
        self.ty = arms[0][1].ty


class Text(V):
    """a string given by its segments"""

    def __init__(self, segs):
        self.segs = segs
        self.ty = T("String")


class SeqMap(V):
    """iterator: seq value mapped elementwise"""

    def __init__(self, seq, fs, filters=()):
        self.seq, self.fs = seq, fs
        self.ty = T("Iter", ("infer",))


class Opt(V):
    """static Option: cond (verus bool or True/False), value"""

    def __init__(self, cond, v):
        self.cond, self.v = cond, v
        self.ty = T("Option", v.ty if v is not None else ("infer",))


class Range(V):
    def __init__(self, lo, hi, incl):
        self.lo, self.hi, self.incl = lo, hi, incl


class PV(V):
    def __init__(self, p):
        self.p = p
        self.ty = T("Parser", ("infer",))


# ---------------------------------------------------------------- parser nodes
class P:
    min = 0  # least number of elements of a repetition
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self):
        return "P(%s)" % ", ".join("%s=%r" % kv for kv in self.__dict__.items() if kv[0] not in ("env",))


_fresh = [0]


def fresh(base="x"):
    _fresh[0] += 1
    return "%s%d" % (base, _fresh[0])


def seq(items, res):
    """sequence; directly nested sequences are spliced in"""
    out = []
    for n, q in items:
        if q.k == "seq":
            if n is None:
                out += q.items
                continue
            r2 = put(res, n, q.res)
            if r2 is not None:
                res = r2
                out += q.items
                continue
        out.append((n, q))
    return P("seq", items=out, res=res)


def put(v, n, w):
    """v with the variable n replaced by the value w; None if n is used in some other way"""
    if isinstance(v, Sym):
        if v.e == n:
            return w
        import re
        return None if re.search(r"\b%s\b" % n, v.e) else v
    if isinstance(v, (Tup, Arr)):
        r = [put(x, n, w) for x in v.vs]
        return None if None in r else type(v)(r)
    if isinstance(v, Rec):
        r = [(f, put(x, n, w)) for f, x in v.fields]
        return None if None in [x for _, x in r] else Rec(v.ty, v.variant, r, v.kind)
    if isinstance(v, (Str, Num, Chr, Bool)):
        return v
    return None


def p_unit(p):
    """p with its result dropped"""
    return seq([(None, p)], Tup([]))


def names_of(v, out=None):
    """all generated variables in a value"""
    if out is None:
        out = set()
    if isinstance(v, Sym):
        out.add(v.e)
    elif isinstance(v, (Tup, Arr)):
        for x in v.vs:
            names_of(x, out)
    elif isinstance(v, Rec):
        for _, x in v.fields:
            names_of(x, out)
    elif isinstance(v, Opt) and v.v is not None:
        names_of(v.v, out)
    elif isinstance(v, Ite):
        names_of(v.a, out)
        names_of(v.b, out)
    return out


# functions which are used through a contract proved elsewhere (GUID: Kani on the real functions)
OPAQUE = {"decode_base16_to_base64": ("b64_dec", T("Vec", T("u8"))),
          "encode_base16_to_base64": ("b64_enc", T("Vec", T("u8")))}
NAMED = {"p_space_or_comment", "p_single_space_or_comment", "p_comment"}


class Ctx:
    def __init__(self, ix, fn=None, self_ty=None, gen=None, file=None):
        self.ix, self.fn, self.self_ty, self.gen, self.file = ix, fn, self_ty, gen or {}, file


class Gram:
    def __init__(self, ix):
        self.ix = ix
        self.opaque = {}   # name -> (args types, ret type, source)
        self.panics = []   # partial operations met on the way: (where, what, condition)
        self.depth = 0
        self.named = {}

    # ------------------------------------------------------------ helpers
    def lookup_ty(self, t, ctx):
        """apply Self / generics / renames"""
        if t[0] == "T":
            n = t[1]
            if n in self.ix.aliases and not t[2]:
                return self.lookup_ty(self.ix.aliases[n], ctx)
            if n == "Self" and ctx.self_ty:
                return ctx.self_ty
            if not t[2] and n in ctx.gen:
                return ctx.gen[n]
            rn = getattr(self.ix, "renames", {})
            if (n, "meta") in rn and ctx.file and "/meta/" in ctx.file:
                n = rn[(n, "meta")]
            return ("T", n, tuple(self.lookup_ty(a, ctx) for a in t[2]))
        if t[0] == "tuple":
            return ("tuple", tuple(self.lookup_ty(a, ctx) for a in t[1]))
        return t

    def field_ty(self, t, f):
        """type of field f of type t (following Deref is not done: printing uses direct fields)"""
        if t[0] == "tuple":
            return t[1][int(f)]
        if t[0] == "T":
            if t[1] in ("DVec2", "DVec3") and f in ("x", "y", "z"):
                return T("f64")
            s = self.ix.structs.get(t[1])
            if s:
                m = dict(zip([g[0] for g in s["gen"]["ps"]], t[2]))
                for fd in s["fields"]["fs"]:
                    if fd["name"] == f:
                        c = Ctx(self.ix, self_ty=t, gen=m, file=s["file"])
                        return self.lookup_ty(ty(fd["ty"]), c)
        return None

    def deref_field(self, v, f):
        """field access with auto-deref through `impl Deref`"""
        ft = self.field_ty(v.ty, f)
        if ft is not None:
            return v, ft
        fn = self.ix.impl_fn("Deref", v.ty, "deref")
        if fn:
            inner = self.call_fn(fn[0], [v], fn[1], v.ty)
            return self.deref_field(inner, f)
        raise Unsupported("field %s of %s" % (f, show_ty(v.ty)))

    # ------------------------------------------------------------ calls
    def call_fn(self, fn, args, gen=None, self_ty=None):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion in " + fn.qname)
        try:
            env = {}
            ctx = Ctx(self.ix, fn, self_ty or fn.self_ty, dict(gen or {}), fn.file)
            a = list(args)
            if fn.recv:
                env["self"] = a.pop(0)
            if len(a) != len(fn.params):
                raise Unsupported("arity of " + fn.qname)
            for (p, t, k, _), v in zip(fn.params, a):
                if not self.bind(p, v, env, ctx):
                    raise Unsupported("refutable parameter in " + fn.qname)
            r = self.block(fn.body, env, ctx)
            rt = fn.ret
            for gn in fn.gen:
                if gn not in ctx.gen:
                    rt = subst(rt, {gn: ("infer",)})
            rt = self.lookup_ty(rt, ctx)
            if rt[0] == "T" and rt[1] == "Parser":
                r = self.as_parser(r, ctx)
                self.set_out(r, rt[2][0])
                r = PV(r)
            return r
        finally:
            self.depth -= 1

    def call(self, f, args, ctx):
        if isinstance(f, FnV):
            return f.f(args)
        if isinstance(f, Clo):
            env = dict(f.env)
            if len(f.params) != len(args):
                raise Unsupported("closure arity")
            for p, v in zip(f.params, args):
                if not self.bind(p, v, env, f.ctx):
                    raise Unsupported("refutable closure parameter")
            return self.expr(f.body, env, f.ctx)
        if isinstance(f, Ite):
            return Ite(f.c, self.call(f.a, args, ctx), self.call(f.b, args, ctx))
        raise Unsupported("call of %s" % type(f).__name__)

    # ------------------------------------------------------------ patterns
    def bind(self, p, v, env, ctx):
        k = p["k"]
        if k == "ident":
            if p.get("sub"):
                raise Unsupported("@-pattern")
            n = p["id"]
            # constant-like enum variants are paths, not idents, in this code base
            env[n] = v
            return True
        if k == "wild":
            return True
        if k == "ref":
            return self.bind(p["p"], v, env, ctx)
        if k == "typed":
            t = self.lookup_ty(ty(p["ty"]), ctx)
            self.annotate(v, t)
            return self.bind(p["p"], v, env, ctx)
        if k == "tuple":
            if isinstance(v, Sym) and v.ty[0] == "tuple":
                v = Tup([Sym("%s.%d" % (v.e, i), t) for i, t in enumerate(v.ty[1])])
            if not isinstance(v, Tup) or len(v.vs) != len(p["ps"]):
                raise Unsupported("tuple pattern on %s" % type(v).__name__)
            return all([self.bind(a, b, env, ctx) for a, b in zip(p["ps"], v.vs)])
        if k == "slice" and isinstance(v, Arr):
            if len(v.vs) != len(p["ps"]):
                return False
            return all([self.bind(a, b, env, ctx) for a, b in zip(p["ps"], v.vs)])
        if k in ("tstruct", "struct", "path") and isinstance(v, Rec):
            name = last(p["p"])
            vn = v.variant or v.ty[1]
            if name == "Self":
                name = ctx.self_ty[1]
            if name != vn:
                return False
            if k == "tstruct":
                return all([self.bind(a, b[1], env, ctx) for a, b in zip(p["ps"], v.fields)])
            if k == "struct":
                d = dict(v.fields)
                return all([self.bind(b, d[a], env, ctx) for a, b in p["fs"]])
            return True
        if k == "lit":
            lv = p["v"]
            if isinstance(v, Str) and lv["k"] == "str":
                return v.s == lv["v"]
            if isinstance(v, Chr) and lv["k"] == "char":
                return v.c == lv["v"]
            if isinstance(v, Bool) and lv["k"] == "bool":
                return v.b == lv["v"]
            if isinstance(v, Num) and lv["k"] == "int":
                return v.n == int(lv["v"])
            raise Unsupported("literal pattern")
        if k == "or":
            for q in p["ps"]:
                if self.bind(q, v, env, ctx):
                    return True
            return False
        raise Unsupported("pattern %s on %s" % (k, type(v).__name__))

    def annotate(self, v, t):
        if isinstance(v, Sym):
            v.ty = merge_ty(v.ty, t)
            src = getattr(v, "src", None)
            if src is not None:
                self.set_out(src, t)
        elif isinstance(v, Tup) and t[0] == "tuple":
            for a, b in zip(v.vs, t[1]):
                self.annotate(a, b)

    # ------------------------------------------------------------ blocks / statements
    def block(self, b, env, ctx):
        env = dict(env)
        lets = self.stmts(b["stmts"], env, ctx)
        return lets

    def stmts(self, ss, env, ctx):
        res = Tup([])
        for i, s in enumerate(ss):
            k = s["k"]
            if k == "item":
                it = s["item"]
                if it["k"] == "fn":
                    fn = Fn(it, ctx.file, "", None, local=True)
                    env[it["sig"]["name"]] = FnV(lambda a, fn=fn: self.call_fn(fn, a, ctx.gen, ctx.self_ty))
                elif it["k"] == "const":
                    env[it["name"]] = self.expr(it["e"], env, ctx)
                elif it["k"] != "use":
                    raise Unsupported("local item")
                continue
            if k == "let":
                if s["else"] is not None or s["init"] is None:
                    raise Unsupported("let-else / uninitialised let")
                v = self.expr(s["init"], env, ctx)
                if not self.bind(s["pat"], v, env, ctx):
                    raise Unsupported("refutable let")
                continue
            e = s["e"]
            is_last = i == len(ss) - 1
            if e["k"] == "return":
                return self.expr(e["e"], env, ctx) if e["e"] else Tup([])
            if e["k"] == "assign":
                if e["l"]["k"] != "path" or len(e["l"]["p"]) != 1:
                    raise Unsupported("assignment target")
                n = e["l"]["p"][0]["id"]
                if n not in env:
                    raise Unsupported("assignment to " + n)
                env[n] = self.expr(e["r"], env, ctx)
                continue
            if e["k"] == "for":
                it = self.expr(e["e"], env, ctx)
                if not isinstance(it, Arr):
                    raise Unsupported("loop over a dynamic value")
                for v in it.vs:
                    sub = dict(env)
                    self.bind(e["pat"], v, sub, ctx)
                    self.stmts(e["body"]["stmts"], sub, ctx)
                    for n in env:
                        env[n] = sub[n]
                continue
            v = self.expr(e, env, ctx)
            if is_last and not s["semi"]:
                res = v
        return res

    # ------------------------------------------------------------ expressions
    def expr(self, e, env, ctx):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if not m:
            raise Unsupported("expression %s" % k + (" " + e.get("s", "") if k == "other" else ""))
        return m(e, env, ctx)

    def e_lit(self, e, env, ctx):
        l = e["v"]
        if l["k"] == "str":
            return Str(l["v"])
        if l["k"] == "char":
            return Chr(l["v"])
        if l["k"] == "int":
            return Num(int(l["v"]))
        if l["k"] == "float":
            return Num(float(l["v"]), isf=True)
        if l["k"] == "bool":
            return Bool(l["v"])
        raise Unsupported("literal")

    def e_block(self, e, env, ctx):
        return self.block(e, env, ctx)

    def e_ref(self, e, env, ctx):
        return self.expr(e["e"], env, ctx)

    def e_tuple(self, e, env, ctx):
        return Tup([self.expr(x, env, ctx) for x in e["es"]])

    def e_array(self, e, env, ctx):
        return Arr([self.expr(x, env, ctx) for x in e["es"]])

    def e_closure(self, e, env, ctx):
        return Clo(e["ins"], e["body"], dict(env), ctx)

    def e_range(self, e, env, ctx):
        f = lambda x: None if x is None else self.expr(x, env, ctx).n
        return Range(f(e["lo"]), f(e["hi"]), e["incl"])

    def e_field(self, e, env, ctx):
        v = self.expr(e["e"], env, ctx)
        return self.field(v, e["f"])

    def field(self, v, f):
        if isinstance(v, Tup):
            return v.vs[int(f)]
        if isinstance(v, Rec):
            d = dict(v.fields)
            if f in d:
                return d[f]
        if isinstance(v, Ite):
            return Ite(v.c, self.field(v.a, f), self.field(v.b, f))
        if isinstance(v, Sym):
            w, ft = self.deref_field(v, f)
            return Sym("%s.%s" % (w.e, vfield(w.ty, f, self.ix)), ft)
        raise Unsupported("field %s of %s" % (f, type(v).__name__))

    def e_un(self, e, env, ctx):
        v = self.expr(e["e"], env, ctx)
        if e["op"] == "*":
            return v
        if e["op"] == "!":
            if isinstance(v, Bool):
                return Bool(not v.b)
            if isinstance(v, Sym):
                return Sym("!(%s)" % v.e, T("bool"))
        if e["op"] == "-" and isinstance(v, Num):
            return Num(-v.n, isf=v.isf)
        raise Unsupported("unary " + e["op"])

    def e_bin(self, e, env, ctx):
        op = e["op"]
        a = self.expr(e["l"], env, ctx)
        b = self.expr(e["r"], env, ctx)
        if isinstance(a, Bool) and isinstance(b, Bool) and op in ("&&", "||"):
            return Bool((a.b and b.b) if op == "&&" else (a.b or b.b))
        if op in ("==", "!=") and isinstance(a, (Str, Chr, Bool)) and type(a) is type(b):
            x = (a.s if isinstance(a, Str) else a.c if isinstance(a, Chr) else a.b)
            y = (b.s if isinstance(b, Str) else b.c if isinstance(b, Chr) else b.b)
            return Bool((x == y) == (op == "=="))
        if op in ("==", "!="):
            if T("f64") in (a.ty, b.ty):
                f = a if isinstance(b, Num) else b
                n = b if isinstance(b, Num) else a
                if isinstance(n, Num) and n.n == 0:
                    return Sym("%sf_is_zero(%s)" % ("!" if op == "!=" else "", self.rexpr(f)), T("bool"))
                raise Unsupported("float comparison")
        ra, rb = self.rexpr(a), self.rexpr(b)
        if op in ("&&", "||"):
            return Sym("(%s %s %s)" % (ra, op, rb), T("bool"))
        if op in ("==", "!="):
            if a.ty in (T("char"), T("int"), T("usize"), T("bool")) or b.ty in (T("char"), T("int")):
                return Sym("(%s %s %s)" % (ra, op, rb), T("bool"))
        ints = (T("int"), T("usize"), T("char"))
        if op in ("<", "<=", ">", ">=") and a.ty in ints and b.ty in ints:
            return Sym("(%s %s %s)" % (ra, op, rb), T("bool"))
        raise Unsupported("operator %s on %s" % (op, show_ty(a.ty)))

    def e_if(self, e, env, ctx):
        if e["c"]["k"] == "letcond":
            raise Unsupported("if let")
        c = self.cond(e["c"], env, ctx)
        if isinstance(c, Bool):
            b = e["t"] if c.b else e["e"]
            return self.expr(b, env, ctx) if b else Tup([])
        if e["e"] is None:
            raise Unsupported("if without else")
        return Ite(self.rexpr(c), self.expr(e["t"], env, ctx), self.expr(e["e"], env, ctx))

    def cond(self, c, env, ctx):
        return self.expr(c, env, ctx)

    def e_match(self, e, env, ctx):
        v = self.expr(e["e"], env, ctx)
        if isinstance(v, (Str, Chr, Num, Bool, Rec, Tup)):
            for a in e["arms"]:
                if a["guard"] is not None:
                    raise Unsupported("match guard")
                sub = dict(env)
                if self.bind(a["pat"], v, sub, ctx):
                    return self.expr(a["body"], sub, ctx)
            raise Unsupported("no matching arm")
        if isinstance(v, Sym):
            return Match(v, self.sym_arms(v, e, env, ctx, lambda b, s: self.expr(b, s, ctx)))
        raise Unsupported("match on " + type(v).__name__)

    def sym_arms(self, v, e, env, ctx, go):
        """-> [(verus pattern, result)] for a symbolic enum value"""
        en = self.ix.enums.get(v.ty[1]) if v.ty[0] == "T" else None
        if en is None:
            raise Unsupported("match on " + show_ty(v.ty))
        out = []
        gm = dict(zip([g[0] for g in en["gen"]["ps"]], v.ty[2]))
        done = set()
        for a in e["arms"]:
            if a["guard"] is not None:
                raise Unsupported("match guard")
            ps = a["pat"]["ps"] if a["pat"]["k"] == "or" else [a["pat"]]
            for p in ps:
                while p["k"] == "ref":
                    p = p["p"]
                targets = []
                if p["k"] in ("wild",) or (p["k"] == "ident" and p["id"] not in [x["name"] for x in en["vars"]]):
                    targets = [x for x in en["vars"] if x["name"] not in done]
                else:
                    nm = p["id"] if p["k"] == "ident" else last(p["p"])
                    targets = [x for x in en["vars"] if x["name"] == nm and nm not in done]
                for var in targets:
                    done.add(var["name"])
                    sub = dict(env)
                    binds = []
                    vals = []
                    for fd in var["fields"]["fs"]:
                        n = fresh("v")
                        c = Ctx(self.ix, self_ty=v.ty, gen=gm, file=en["file"])
                        vals.append((fd["name"], Sym(n, self.lookup_ty(ty(fd["ty"]), c))))
                    rec = Rec(v.ty, var["name"], vals, var["fields"]["kind"])
                    if p["k"] == "ident" and p["id"] != var["name"]:
                        sub[p["id"]] = v
                    else:
                        if p["k"] not in ("wild",) and p["k"] != "ident":
                            if not self.bind(p, rec, sub, ctx):
                                raise Unsupported("nested pattern")
                    out.append((self.pat_text(rec), go(a["body"], sub)))
        return out

    def pat_text(self, rec):
        n = "%s::%s" % (rec.ty[1], rec.variant)
        if rec.kind == "unit":
            return n
        if rec.kind == "tuple":
            return "%s(%s)" % (n, ", ".join(v.e for _, v in rec.fields))
        return "%s { %s }" % (n, ", ".join("%s: %s" % (f, v.e) for f, v in rec.fields))

    def e_matches(self, e, env, ctx):
        raise Unsupported("matches!")

    def e_try(self, e, env, ctx):
        return self.expr(e["e"], env, ctx)

    def e_cast(self, e, env, ctx):
        v = self.expr(e["e"], env, ctx)
        t = self.lookup_ty(ty(e["ty"]), ctx)
        if t[0] == "T" and t[1] == "dyn IfcType":
            if v.ty[0] != "T":
                raise Unsupported("cast to dyn IfcType")
            return Rec(T("dyn IfcType"), v.ty[1], [("0", v)], "tuple")
        if t[0] == "T" and t[1] in ("u8", "u16", "u32", "usize", "u64", "char") and isinstance(v, Sym):
            if t[1] == "u8" and v.ty not in (T("u8"),):
                return Sym("cast_u8(%s)" % v.e, T("u8"))
            bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}
            if t[1] in bits and v.ty[0] == "T" and v.ty[1] in bits:
                if bits[v.ty[1]] <= bits[t[1]]:
                    return Sym(v.e, t)
                return Sym("((%s) as nat %% 0x%x as nat) as nat" % (v.e, 1 << bits[t[1]]), t)
        raise Unsupported("cast to " + show_ty(t))

    def e_path(self, e, env, ctx):
        p = e["p"]
        if len(p) == 1:
            n = p[0]["id"]
            if n in env:
                return env[n]
        return self.path_val(e, ctx)

    # the type a path's first segments denote
    def path_ty(self, e, ctx):
        if e.get("q"):
            return self.lookup_ty(ty(e["q"]), ctx)
        p = e["p"]
        if len(p) < 2:
            return None
        seg = p[-2]
        n = seg["id"]
        if not (n[0].isupper()):
            return None
        args = tuple(self.lookup_ty(ty(a), ctx) for a in seg["args"])
        if n == "Self" and ctx.self_ty:
            return ctx.self_ty
        if n in ctx.gen:
            return ctx.gen[n]
        t = self.lookup_ty(("T", n, args), ctx)
        d = self.ix.structs.get(t[1]) or self.ix.enums.get(t[1])
        if d and not t[2]:
            t = ("T", t[1], tuple(("infer",) for _ in d["gen"]["ps"]))
        return t

    def path_val(self, e, ctx):
        p = e["p"]
        n = last(p)
        t = self.path_ty(e, ctx)
        if t is None:
            return self.free_val(n, e, ctx)
        # enum variant / associated const / associated function
        en = self.ix.enums.get(t[1]) if t[0] == "T" else None
        if en:
            for var in en["vars"]:
                if var["name"] == n:
                    k = var["fields"]["kind"]
                    if k == "unit":
                        return Rec(t, n, [], "unit")
                    return FnV(lambda a, t=t, n=n, k=k: Rec(t, n, [(str(i), x) for i, x in enumerate(a)], k))
        if n == "VARIANTS":
            c = self.ix.consts.get((t[1], n))
            if c:
                return self.expr(c[0][0]["e"], {}, Ctx(self.ix, self_ty=t, file=c[0][1]))
            if en:
                der, names = self.ix.strum_names(t[1])
                if "VariantNames" in der:
                    return Arr([Str(s) for _, s in names])
        c = self.ix.consts.get((t[1], n)) if t[0] == "T" else None
        if c:
            return self.expr(c[0][0]["e"], {}, Ctx(self.ix, self_ty=t, file=c[0][1]))
        return FnV(lambda a, t=t, n=n: self.assoc(t, n, a, ctx))

    def assoc(self, t, n, args, ctx):
        """call of T::n(args)"""
        if n == "parse" and not args:
            r = self.ix.impl_fn("IFCParse", t, "parse")
            if r or (t[0] == "T" and t[1] in getattr(ctx, "gen", {}).values()) or t[0] == "T" and t[1] in self.typarams(ctx):
                return PV(P("call", t=t))
            fs = self.ix.methods.get((t[1], "parse"))
            if fs:
                return self.call_fn(fs[0], [], {}, t)
            raise Unsupported("%s::parse" % show_ty(t))
        if n == "parse_any" and not args:
            tr = [f for f in self.ix.methods.get(("trait IFCParse", "parse_any"), [])]
            if not tr:
                raise Unsupported("parse_any")
            return self.call_fn(tr[0], [], {}, t)
        if n == "fallback" and not args:
            return PV(P("fallback", t=t))
        if n == "from_str" and len(args) == 1 and isinstance(args[0], Str):
            r = self.ix.impl_fn("FromStr", t, "from_str")
            if r:
                return self.call_fn(r[0], args, r[1], t)
            if t[1] in self.ix.enums:
                der, names = self.ix.strum_names(t[1])
                if "EnumString" in der:
                    for var, s in names:
                        if s == args[0].s:
                            return Rec(T("Result", t), "Ok", [("0", Rec(t, var, [], "unit"))], "tuple")
                    return Rec(T("Result", t), "Err", [("0", Tup([]))], "tuple")
        if t[1] in ("Result", "Option") and n in ("Ok", "Err", "Some"):
            return Rec(t, n, [("0", args[0])], "tuple")
        if t[1] == "ToString" and n == "to_string":
            return self.to_string(args[0], ctx)
        if t[1] == "Display" and n == "fmt":
            return self.show_into(args[0], args[1])
        if t[1] in ("String", "str", "ToOwned") and n in ("from", "to_owned", "new", "into", "default"):
            return args[0] if args else Str("")
        if t[1] in ("Vec",) and n == "new":
            return Arr([])
        if t[1] in ("DVec2", "DVec3") and n in ("from", "new"):
            vs = args[0].vs if n == "from" and isinstance(args[0], Tup) else args
            fs = list(zip("xyz", vs))
            return Rec(t, None, fs, "named")
        if t[1] in ("DateTime",) and n == "from_timestamp":
            if isinstance(args[1], Num) and args[1].n == 0:
                return Sym("dt_from_ts(%s)" % self.rexpr(args[0]), T("Option", T("DateTime", ("infer",))))
        if t[1] in ("DateTime",) and n == "parse_from_rfc3339":
            return Sym("dt_rfc3339(%s)" % self.rexpr(args[0]), T("Result", T("DateTime", ("infer",))))
        if t[1] == "Into" and n == "into":
            return args[0]
        if t[1] == "Box" and n == "new":
            return args[0]
        if n == "default" and not args:
            return self.default(t)
        if t[1] == "Uuid" and n == "from_bytes":
            return Sym("uuid_of(%s)" % self.rexpr(args[0]), T("Uuid"))
        # From impls
        if n == "from" and len(args) == 1:
            r = self.from_impl(t, args[0], ctx)
            if r is not None:
                return r
        fs = self.ix.methods.get((t[1], n), []) if t[0] == "T" else []
        fs = [f for f in fs if f.trait is None] or fs
        if len(fs) >= 1:
            f = fs[0]
            if f.trait is not None and len(fs) > 1:
                raise Unsupported("ambiguous %s::%s" % (show_ty(t), n))
            gen = {}
            if f.impl:
                unify(f.self_ty, t, f.impl["gnames"], gen)
            return self.call_fn(f, args, gen, t)
        # trait default methods
        for it in self.ix.traits.values():
            for f in self.ix.methods.get(("trait " + it["name"], n), []):
                if self.ix.find_impl(it["name"], t):
                    return self.call_fn(f, args, {}, t)
        raise Unsupported("%s::%s" % (show_ty(t), n))

    def default(self, t):
        """the derived `Default`"""
        if t[0] == "T":
            if t[1] in ("String", "str"):
                return Str("")
            if t[1] == "Option":
                return Rec(t, "None", [], "unit")
            if t[1] == "Vec":
                return Arr([])
            s = self.ix.structs.get(t[1])
            if s and any(n == "derive" and "Default" in a for n, a in s["attrs"]):
                fs = [(f["name"], self.default(self.field_ty(t, f["name"]))) for f in s["fields"]["fs"]]
                return Rec(t, None, fs, s["fields"]["kind"])
        raise Unsupported("default of " + show_ty(t))

    def typarams(self, ctx):
        r = set()
        if ctx.fn is not None:
            r |= set(ctx.fn.gen)
            if ctx.fn.impl and "gnames" in ctx.fn.impl:
                r |= set(ctx.fn.impl["gnames"])
        for v in ctx.gen.values():
            if v[0] == "T" and v[1] in getattr(self, "tyvars", ()):
                r.add(v[1])
        r |= set(getattr(self, "tyvars", ()))
        return r

    def from_impl(self, t, v, ctx):
        cands = []
        for it, st, gen, f in self.ix.impls.get("From", []):
            m = {}
            if not unify(st, t, gen, m):
                continue
            a = self.lookup_ty(ty(it["trait"][-1]["args"][0]), Ctx(self.ix, self_ty=t, file=f))
            if a == st:
                continue
            exact = 0
            if a[0] == "T" and a[1] in gen and not a[2]:
                bs = next((g[1] for g in it["gen"]["ps"] if g[0] == a[1]), [])
                bn = [last(b) for b in bs]
                if "AsRef" in bn and v.ty not in (T("String"), T("str"), ("infer",)):
                    continue
                if a[1] in [x[1] for x in t[2] if x[0] == "T"]:
                    continue
                exact = 1
            elif not unify(a, v.ty, gen, dict(m)):
                continue
            else:
                exact = 2
            for fn in self.ix.methods.get((st[1], "from"), []):
                if fn.impl is it:
                    cands.append((exact, fn, m))
        if not cands:
            return None
        cands.sort(key=lambda c: -c[0])
        if len(cands) > 1 and cands[0][0] == cands[1][0]:
            raise Unsupported("ambiguous From for %s from %s" % (show_ty(t), show_ty(v.ty)))
        return self.call_fn(cands[0][1], [v], cands[0][2], t)

    def free_val(self, n, e, ctx):
        if n in ("any", "float", "dec_int", "dec_uint", "multispace1", "multispace0", "space0", "space1", "fail",
                 "digit0", "digit1", "rest", "eof", "alpha1", "alphanumeric1", "line_ending", "empty"):
            return PV(self.builtin(n))
        if n in COMBS:
            return FnV(lambda a, n=n: self.comb(n, a, ctx))
        if n == "Self" and ctx.self_ty:
            return self.ctor(ctx.self_ty)
        if n in ("Some", "Ok", "Err"):
            return FnV(lambda a, n=n: Rec(T("Option" if n == "Some" else "Result", a[0].ty), n, [("0", a[0])], "tuple"))
        if n == "None":
            return Rec(T("Option", ("infer",)), "None", [], "unit")
        if n == "drop":
            return FnV(lambda a: Tup([]))
        if n == "PhantomData":
            return Tup([])
        t = self.lookup_ty(T(n), ctx)
        if t[1] in self.ix.structs:
            s = self.ix.structs[t[1]]
            return self.ctor(("T", t[1], tuple(("infer",) for _ in s["gen"]["ps"])))
        for en in self.ix.enums.values():
            if False:
                return None
        fs = self.ix.free.get(n, [])
        if len(fs) > 1:
            same = [f for f in fs if f.file == ctx.file]
            fs = same or fs
        if len(fs) == 1:
            f = fs[0]
            if f.name in OPAQUE:
                on, ot = OPAQUE[f.name]
                return FnV(lambda a, on=on, ot=ot: Sym("%s(%s)" % (on, ", ".join(self.rexpr(x) for x in a)), ot))
            if f.name in NAMED:
                return FnV(lambda a, f=f: PV(P("named", fn=f)))
            return FnV(lambda a, f=f: self.call_fn(f, a, {}, None))
        cs = self.ix.consts.get(n)
        if cs:
            c = [x for x in cs if x[1] == ctx.file] or cs
            if len(c) == 1:
                return self.expr(c[0][0]["e"], {}, Ctx(self.ix, file=c[0][1]))
        raise Unsupported("name %s" % n)

    def ctor(self, t):
        s = self.ix.structs.get(t[1])
        if not s:
            raise Unsupported("constructor of " + show_ty(t))
        k = s["fields"]["kind"]
        if k == "unit":
            return Rec(t, None, [], "unit")
        if k == "tuple":
            return FnV(lambda a: self.mkrec(t, None, [(str(i), x) for i, x in enumerate(a)], "tuple"))
        raise Unsupported("constructor of " + show_ty(t))

    def mark_into(self, v):
        """`x.into()`: converted when the type it must have is known"""
        if isinstance(v, Sym):
            w = Sym(v.e, v.ty)
            w.__dict__.update(v.__dict__)
            w.into = True
            return w
        return v

    def coerce(self, v, t):
        if getattr(v, "into", False) and v.ty[0] == "infer" and getattr(v, "src", None) is not None:
            v.ty = self.out_ty(v.src)
        if getattr(v, "into", False) and v.ty[0] == "T" and v.ty[1] not in self.tyvars and v.ty[:2] != t[:2]:
            r = self.from_impl(t, v, None)
            if r is not None:
                return r
        return v

    def mkrec(self, t, variant, fields, kind):
        fields = list(fields)
        for i, (f, v) in enumerate(fields):
            ft = self.field_ty(t, f) if variant is None else None
            if ft is not None:
                v = self.coerce(v, ft)
                fields[i] = (f, v)
                self.annotate(v, ft)
        return Rec(t, variant, fields, kind)

    def e_struct(self, e, env, ctx):
        if e["rest"] is not None:
            raise Unsupported("functional update")
        p = e["p"]
        n = last(p)
        if len(p) >= 2 and p[-2]["id"][0].isupper():
            t = self.path_ty(e, ctx)
            return Rec(t, n, [(f, self.expr(x, env, ctx)) for f, x in e["fs"]], "named")
        t = ctx.self_ty if n == "Self" else self.lookup_ty(T(n), ctx)
        s = self.ix.structs.get(t[1])
        if s and not t[2] and s["gen"]["ps"]:
            t = ("T", t[1], tuple(("infer",) for _ in s["gen"]["ps"]))
        return self.mkrec(t, None, [(f, self.expr(x, env, ctx)) for f, x in e["fs"]], "named")

    def e_call(self, e, env, ctx):
        f = self.expr(e["f"], env, ctx)
        args = [self.expr(a, env, ctx) for a in e["args"]]
        return self.call(f, args, ctx)

    # ------------------------------------------------------------ macros
    def e_macro(self, e, env, ctx):
        n = e["name"]
        if n in ("write", "writeln") and "args" in e:
            f = self.expr(e["args"][0][1], env, ctx)
            segs = self.fmt(e["args"][1:], env, ctx) if len(e["args"]) > 1 else []
            if n == "writeln":
                segs = segs + [("lit", "\n")]
            if not isinstance(f, Out):
                raise Unsupported("write! into " + type(f).__name__)
            return Wr(segs)
        if n == "format" and "args" in e:
            return Text(self.fmt(e["args"], env, ctx))
        if n == "vec" and "args" in e:
            return Arr([self.expr(a[1], env, ctx) for a in e["args"]])
        if n in ("panic", "unreachable", "todo", "unimplemented"):
            raise PanicPath("%s! at line %s" % (n, e["line"]))
        raise Unsupported("macro %s!" % n)

    def fmt(self, args, env, ctx):
        if args[0][1]["k"] != "lit":
            raise Unsupported("format string")
        s = args[0][1]["v"]["v"]
        pos = [self.expr(a[1], env, ctx) for a in args[1:] if a[0] is None]
        named = {a[0]: self.expr(a[1], env, ctx) for a in args[1:] if a[0] is not None}
        order = [(a[0], None) for a in args[1:]]
        segs, lit, i, nxt = [], "", 0, 0
        while i < len(s):
            c = s[i]
            if c == "{" and s[i:i + 2] == "{{" or c == "}" and s[i:i + 2] == "}}":
                lit += c
                i += 2
                continue
            if c == "{":
                j = s.index("}", i)
                spec = s[i + 1:j]
                i = j + 1
                if lit:
                    segs.append(("lit", lit))
                    lit = ""
                name, _, f = spec.partition(":")
                if name == "":
                    v = pos[nxt]
                    nxt += 1
                elif name.isdigit():
                    v = pos[int(name)]
                elif name in named:
                    v = named[name]
                elif name in env:
                    v = env[name]
                else:
                    raise Unsupported("format argument " + name)
                if f:
                    segs += self.show_spec(v, f, pos, named)
                else:
                    segs += self.show(v)
                continue
            lit += c
            i += 1
        if lit:
            segs.append(("lit", lit))
        return segs

    def show_spec(self, v, f, pos, named):
        import re
        m = re.fullmatch(r"\.(\d+|\w+\$|\*)E", f)
        if m and v.ty == T("f64"):
            n = m.group(1)
            if n.endswith("$"):
                x = n[:-1]
                pv = pos[int(x)] if x.isdigit() else named[x]
                n = pv.n
            if int(n) == 14:
                return [("txt", "f_sci14(%s)" % self.rexpr(v))]
            raise Unsupported("precision %s" % n)
        raise Unsupported("format spec " + f)

    def show(self, v):
        """text of Display of a value, as segments"""
        if isinstance(v, Str):
            return [("lit", v.s)] if v.s else []
        if isinstance(v, Chr):
            return [("lit", v.c)]
        if isinstance(v, Text):
            return v.segs
        if isinstance(v, Num) and not v.isf:
            return [("lit", str(v.n))]
        if isinstance(v, Ite):
            return [("ite", v.c, self.show(v.a), self.show(v.b))]
        if isinstance(v, Match):
            return [("match", self.rexpr(v.scrut), [(p, self.show(x)) for p, x in v.arms])]
        if isinstance(v, Rec) and v.ty[0] == "T":
            return [("show", self.rexpr(v), v.ty)]
        if isinstance(v, Opt):
            raise Unsupported("display of option")
        if isinstance(v, Sym):
            t = v.ty
            if t in (T("String"), T("str"), T("char")):
                return [("txt", v.e if t != T("char") else "seq![%s]" % v.e)]
            if t == T("usize"):
                return [("txt", "dec_nat(%s)" % v.e)]
            if t in (T("i64"), T("i32")):
                return [("txt", "dec_int(%s)" % v.e)]
            if t == T("f64"):
                return [("txt", "f_dec(%s)" % v.e)]
            if t[0] == "T":
                if t[1] in self.ix.enums and not self.ix.find_impl("Display", t) and not self.ix.find_impl("IFCParse", t):
                    der, names = self.ix.strum_names(t[1])
                    if "Display" in der:
                        return [("match", v.e, [("%s::%s" % (t[1], a), [("lit", s)]) for a, s in names])]
                return [("show", v.e, t)]
        raise Unsupported("display of %s %s" % (type(v).__name__, show_ty(v.ty)))

    def to_string(self, v, ctx):
        return Text(self.show(v))

    def show_into(self, v, f):
        return Wr(self.show(v))

    # ------------------------------------------------------------ seq!
    def e_seq(self, e, env, ctx):
        items = []
        fields = []
        for name, x in e["fs"]:
            p = self.as_parser(self.expr(x, env, ctx), ctx)
            if name == "_":
                items.append((None, p))
            else:
                n = fresh("f")
                s = Sym(n, ("infer",))
                s.src = p
                items.append((n, p))
                fields.append((name if name is not None else str(len(fields)), s))
        if e["p"] is None:
            res = Tup([s for _, s in fields])
            return PV(seq(items, res))
        n = last(e["p"])
        t = ctx.self_ty if n == "Self" else self.lookup_ty(T(n), ctx)
        st = self.ix.structs.get(t[1])
        if not st:
            raise Unsupported("seq! of " + n)
        if not t[2] and st["gen"]["ps"]:
            t = ("T", t[1], tuple(("infer",) for _ in st["gen"]["ps"]))
        return PV(seq(items, self.mkrec(t, None, fields, "named" if e["delim"] == "{" else "tuple")))

    # ------------------------------------------------------------ parsers
    def as_parser(self, v, ctx):
        if isinstance(v, PV):
            return v.p
        if isinstance(v, Str):
            return P("lit", s=v.s)
        if isinstance(v, Chr):
            return P("char", c=v.c)
        if isinstance(v, Tup):
            items, syms = [], []
            for x in v.vs:
                p = self.as_parser(x, ctx)
                n = fresh("t")
                s = Sym(n, ("infer",))
                s.src = p
                items.append((n, p))
                syms.append(s)
            return seq(items, Tup(syms))
        if isinstance(v, FnV):
            raise Unsupported("function as a parser")
        raise Unsupported("%s as a parser" % type(v).__name__)

    def builtin(self, n):
        if n in ("any", "float", "multispace1", "multispace0", "fail"):
            return P(n)
        if n in ("dec_int", "dec_uint"):
            return P(n, t=None)
        raise Unsupported("parser " + n)

    def comb(self, n, a, ctx):
        pp = lambda v: self.as_parser(v, ctx)

        def keep(i, ps):
            items = []
            x = fresh("x")
            s = Sym(x, ("infer",))
            s.src = ps[i]
            for j, p in enumerate(ps):
                items.append((x if j == i else None, p))
            return PV(seq(items, s))
        if n == "delimited":
            return keep(1, [pp(a[0]), pp(a[1]), pp(a[2])])
        if n == "preceded":
            return keep(1, [pp(a[0]), pp(a[1])])
        if n == "terminated":
            return keep(0, [pp(a[0]), pp(a[1])])
        if n == "separated_pair":
            ps = [pp(x) for x in a]
            x, y = fresh("x"), fresh("y")
            sx, sy = Sym(x, ("infer",)), Sym(y, ("infer",))
            sx.src, sy.src = ps[0], ps[2]
            return PV(seq([(x, ps[0]), (None, ps[1]), (y, ps[2])], Tup([sx, sy])))
        if n == "alt":
            vs = a[0].vs if isinstance(a[0], (Tup, Arr)) else None
            if vs is None:
                raise Unsupported("alt argument")
            ps = []
            for v in vs:
                p = pp(v)
                if p.k == "alt":
                    ps += p.ps
                else:
                    ps.append(p)
            return PV(P("alt", ps=ps))
        if n == "opt":
            return PV(P("opt", p=pp(a[0])))
        if n == "peek":
            return PV(P("peek", p=pp(a[0])))
        if n == "not":
            return PV(P("not", p=pp(a[0])))
        if n in ("repeat_till", "repeat", "separated"):
            if not isinstance(a[0], Range) or a[0].hi is not None:
                raise Unsupported("repetition range")
            lo = a[0].lo or 0
            if n == "repeat_till":
                if lo > 1:
                    raise Unsupported("repetition range")
                return PV(P("till", p=pp(a[1]), e=pp(a[2]), acc=None, min=lo))
            if n == "repeat":
                return PV(P("repeat", p=pp(a[1]), acc=None, min=lo))
            return PV(P("separated", p=pp(a[1]), s=pp(a[2]), acc=None, min=lo))
        if n in ("take_while", "take_till"):
            r = a[0]
            if isinstance(r, Num):
                lo, hi = r.n, r.n
            elif isinstance(r, Range):
                lo = r.lo or 0
                hi = None if r.hi is None else (r.hi if r.incl else r.hi - 1)
            else:
                raise Unsupported("take_while range")
            c = fresh("c")
            pred = self.char_pred(a[1], Sym(c, T("char")), ctx)
            if n == "take_till":
                pred = "!(%s)" % pred
            return PV(P("takewhile", lo=lo, hi=hi, c=c, pred=pred))
        if n in ("none_of", "one_of"):
            c = fresh("c")
            pred = self.char_pred(a[0], Sym(c, T("char")), ctx)
            return PV(P("charif", c=c, pred="!(%s)" % pred if n == "none_of" else pred))
        if n == "take":
            raise Unsupported("take")
        raise Unsupported("combinator " + n)

    def char_pred(self, f, c, ctx):
        """winnow's ContainsToken"""
        if isinstance(f, Chr):
            return "%s == %s" % (c.e, chr_lit(f.c))
        if isinstance(f, (Arr, Tup)):
            return "(" + " || ".join(self.char_pred(x, c, ctx) for x in f.vs) + ")"
        if isinstance(f, Range):
            raise Unsupported("char range")
        v = self.call(f, [c], ctx)
        return self.rexpr(v)

    def unfn(self, f):
        return f

    def p_map(self, p, f, ctx):
        x = fresh("m")
        s = Sym(x, self.out_ty(p))
        s.src = p
        arg = self.expand(p, s)
        r = self.call(f, [arg], ctx)
        return self.remap(p, x, s, r)

    def expand(self, p, s):
        """destructure the result of a seq so that closures see its parts"""
        if p.k == "seq" and isinstance(p.res, (Tup, Sym, Rec, Str, Num, Chr)):
            return p.res
        if p.k in ("till",):
            a, b = Sym(s.e + ".0", ("infer",)), Sym(s.e + ".1", ("infer",))
            a.src = AccRef(p)
            return Tup([a, b])
        return s

    def remap(self, p, x, s, r):
        if p.k == "seq" and isinstance(p.res, (Tup, Sym, Rec, Str, Num, Chr)):
            return PV(seq(p.items, r))
        return PV(seq([(x, p)], r))

    def out_ty(self, p):
        if p.k == "call":
            return p.t
        if p.k in ("any", "charif", "char"):
            return T("char")
        if p.k in ("lit", "takewhile", "take", "multispace1", "multispace0"):
            return T("String")
        if p.k == "float":
            return T("f64")
        if p.k == "dec_int":
            return T("i64")
        if p.k == "dec_uint":
            return T("usize")
        if p.k == "seq":
            return p.res.ty
        if p.k == "opt":
            return T("Option", self.out_ty(p.p))
        if p.k == "fallback":
            return T("OptionalParameter", p.t)
        if p.k == "verify_map":
            return p.r.ty[2][0] if p.r.ty[0] == "T" and p.r.ty[2] else ("infer",)
        if p.k in ("peek",):
            return self.out_ty(p.p)
        if p.k == "alt":
            for q in p.ps:
                t = self.out_ty(q)
                if t[0] != "infer":
                    return t
        return ("infer",)

    def set_out(self, p, t):
        """propagate an expected result type"""
        if isinstance(p, AccRef):
            p = p.p
            if p.acc is None:
                p.acc = t
            self.set_elem(p, t)
            return
        if t[0] == "infer":
            return
        if p.k == "seq":
            self.annotate(p.res, t)
            if isinstance(p.res, Rec):
                p.res.ty = merge_ty(p.res.ty, t)
        elif p.k == "alt":
            for q in p.ps:
                self.set_out(q, t)
        elif p.k in ("repeat", "separated"):
            if p.acc is None:
                p.acc = t
            self.set_elem(p, t)
        elif p.k == "till" and t[0] == "tuple":
            if p.acc is None:
                p.acc = t[1][0]
            self.set_elem(p, t[1][0])
        elif p.k == "call":
            p.t = merge_ty(p.t, t)
        elif p.k in ("dec_int", "dec_uint"):
            p.t = t
        elif p.k == "opt" and t[1] == "Option":
            self.set_out(p.p, t[2][0])

    def set_elem(self, p, t):
        if t[0] == "T" and t[1] == "Vec" and t[2]:
            self.set_out(p.p, t[2][0])
        if t[0] == "T" and t[1] == "BTreeMap" and len(t[2]) == 2:
            self.set_out(p.p, ("tuple", t[2]))

    # ------------------------------------------------------------ method calls
    def e_mcall(self, e, env, ctx):
        v = self.expr(e["recv"], env, ctx)
        args = [self.expr(a, env, ctx) for a in e["args"]]
        return self.method(v, e["m"], args, e, ctx)

    def method(self, v, m, args, e, ctx):
        if isinstance(v, Ite):
            return Ite(v.c, self.method(v.a, m, args, e, ctx), self.method(v.b, m, args, e, ctx))
        if isinstance(v, Out):
            if m in ("write_str", "write_char"):
                return Wr(self.show(args[0]))
            raise Unsupported("Formatter::" + m)
        if isinstance(v, Wr):
            raise Unsupported("method %s on a write result" % m)
        # parsers
        if m in ("map", "value", "void", "take", "recognize", "verify_map", "parse_to", "by_ref", "verify", "try_map") and (
                isinstance(v, (PV, Str, Chr)) or (isinstance(v, Tup) and m != "map") or
                (isinstance(v, Tup) and m == "map")):
            p = self.as_parser(v, ctx)
            if m == "by_ref":
                return v
            if m == "map":
                return self.p_map(p, args[0], ctx)
            if m == "value":
                return PV(seq([(None, p)], args[0]))
            if m == "void":
                return PV(p_unit(p))
            if m in ("take", "recognize"):
                return PV(P("take", p=p))
            if m == "verify_map":
                x = fresh("m")
                s = Sym(x, self.out_ty(p))
                s.src = p
                r = self.call(args[0], [self.expand(p, s)], ctx)
                q = p if self.expand(p, s) is s else None
                if q is None:
                    if isinstance(p.res, Sym):
                        return PV(P("verify_map", items=p.items, r=r))
                    raise Unsupported("verify_map over a compound result")
                return PV(P("verify_map", items=[(x, p)], r=r))
            raise Unsupported("Parser::" + m)
        if m == "display_chain":
            raise Unsupported(m)
        # results
        if isinstance(v, Rec) and v.variant in ("Ok", "Err", "Some", "None"):
            if m in ("unwrap", "expect"):
                if v.variant in ("Ok", "Some"):
                    return v.fields[0][1]
                raise PanicPath("%s on %s at line %s" % (m, v.variant, e.get("line")))
            if m in ("is_ok", "is_some"):
                return Bool(v.variant in ("Ok", "Some"))
            if m == "ok" and v.variant == "Ok":
                return Rec(T("Option", v.fields[0][1].ty), "Some", v.fields, "tuple")
        if m in ("clone", "to_owned", "as_str", "as_ref", "into_iter", "iter", "by_ref", "copied", "cloned", "borrow",
                 "as_slice", "into_boxed_str", "deref", "to_vec") and not args:
            if m == "to_owned" or m not in ("deref",):
                return v
        if isinstance(v, Arr):
            if m == "map":
                return Arr([self.call(args[0], [x], ctx) for x in v.vs])
            if m == "try_into":
                return Rec(T("Result", v.ty), "Ok", [("0", v)], "tuple")
            if m == "contains" and len(args) == 1:
                if isinstance(args[0], Sym):
                    return Sym("(" + (" || ".join("%s == %s" % (args[0].e, self.rexpr(x)) for x in v.vs) or "false") + ")",
                               T("bool"))
            if m == "len":
                return Num(len(v.vs))
            if m == "filter":
                r = []
                for x in v.vs:
                    b = self.call(args[0], [x], ctx)
                    if not isinstance(b, Bool):
                        raise Unsupported("dynamic filter")
                    if b.b:
                        r.append(x)
                return Arr(r)
            if m == "rev":
                return Arr(v.vs[::-1])
            if m in ("collect",):
                return v
            if m == "nth" and all(isinstance(x, Chr) for x in v.vs):
                return Sym("seq_nth(%s, %s)" % (str_lit("".join(x.c for x in v.vs)), self.rexpr(args[0])), T("Option", T("char")))
            if m == "join":
                return Text(join_static([self.show(x) for x in v.vs], self.show(args[0])))
        if isinstance(v, Str):
            if m == "contains" and isinstance(args[0], Sym) and args[0].ty == T("char"):
                return Sym("str_has(%s, %s)" % (str_lit(v.s), args[0].e), T("bool"))
            if m == "to_string":
                return v
            if m in ("is_empty",):
                return Bool(v.s == "")
            if m == "find" and isinstance(args[0], Sym) and args[0].ty == T("char"):
                return Sym("str_find(%s, %s)" % (str_lit(v.s), args[0].e), T("Option", T("usize")))
            if m == "chars":
                return Arr([Chr(c) for c in v.s])
        if isinstance(v, Chr) and m in ("is_alphanumeric",):
            return Bool(v.c.isalnum())
        if isinstance(v, Opt):
            if m in ("unwrap_or_default",):
                return self.ite(v.cond, v.v, Str(""))
            if m in ("unwrap_or",):
                return self.ite(v.cond, v.v, args[0])
        if m == "then_some" and v.ty == T("bool"):
            return Opt(v, args[0])
        if m == "then" and v.ty == T("bool"):
            return Opt(v, self.call(args[0], [], ctx))
        if isinstance(v, SeqMap):
            if m in ("into_iter", "iter"):
                return v
            if m == "collect":
                return self.seqmap(v)
            if m == "map":
                return SeqMap(v.seq, v.fs + [args[0]])
            if m == "join":
                return self.join(v, args[0], ctx)
        if isinstance(v, Text):
            if m in ("to_string", "as_str"):
                return v
            if m == "chars":
                return Sym(self.text_expr(v.segs), T("Vec", T("char")))
        if isinstance(v, Sym):
            r = self.sym_method(v, m, args, e, ctx)
            if r is not None:
                return r
        if m == "to_string" and not args:
            return self.to_string(v, ctx)
        if m == "fmt" and len(args) == 1:
            return Wr(self.show(v))
        if m == "into" and not args:
            return self.mark_into(v)
        # methods of the crate
        t = v.ty
        while True:
            if t[0] == "T":
                fs = [f for f in self.ix.methods.get((t[1], m), []) if f.recv]
                fs = [f for f in fs if unify(f.self_ty, t, f.impl["gnames"], {})]
                if len(fs) == 1:
                    f = fs[0]
                    gen = {}
                    unify(f.self_ty, t, f.impl["gnames"], gen)
                    return self.call_fn(f, [v] + args, gen, t)
                if len(fs) > 1:
                    raise Unsupported("ambiguous method %s" % m)
                fn = self.ix.impl_fn("Deref", t, "deref")
                if fn:
                    v = self.call_fn(fn[0], [v], fn[1], t)
                    t = v.ty
                    if isinstance(v, Sym):
                        r = self.sym_method(v, m, args, e, ctx)
                        if r is not None:
                            return r
                    continue
            break
        raise Unsupported("method %s on %s %s" % (m, type(v).__name__, show_ty(v.ty)))

    def seqmap(self, v):
        n = fresh("e")
        el = v.seq.ty[2][0] if v.seq.ty[0] == "T" and v.seq.ty[2] else ("infer",)
        x = Sym(n, el)
        n0 = len(self.panics)
        for f in v.fs:
            x = self.call(f, [x], Ctx(self.ix))
        if len(self.panics) > n0 and el[0] != "infer":   # must hold for each element
            i = fresh("i")
            self.panics[n0:] = [(a, b, "(forall|%s: int| 0 <= %s < %s.len() ==> %s)" % (
                i, i, v.seq.e, re.sub(r"\b%s\b" % n, "#[trigger] %s[%s]" % (v.seq.e, i), c, count=1) if c.count(n) == 1 else re.sub(r"\b%s\b" % n, "%s[%s]" % (v.seq.e, i), c)), d)
                for a, b, c, d in self.panics[n0:]]
        if x.ty[0] == "infer" or el[0] == "infer":
            raise Unsupported("collect of unknown elements")
        return Sym("seq_map(%s, |%s: %s| %s)" % (v.seq.e, n, vty(el), self.rexpr(x)),
                   T("String") if x.ty == T("char") else T("Vec", x.ty))

    def ite(self, c, a, b):
        if isinstance(c, Bool):
            return a if c.b else b
        return Ite(self.rexpr(c), a, b)

    def sym_method(self, v, m, args, e, ctx):
        t = v.ty
        if t == T("char"):
            if m == "is_alphanumeric":
                return Sym("ch_alnum(%s)" % v.e, T("bool"))
            if m == "is_ascii_digit":
                return Sym("('0' <= %s <= '9')" % v.e, T("bool"))
        if t == T("f64"):
            if m == "fract":
                return Sym("f_fract(%s)" % v.e, T("f64"))
        if t in (T("String"), T("str")):
            if m == "replace" and len(args) == 2:
                a = args[0]
                a = Str(a.c) if isinstance(a, Chr) else a
                if isinstance(a, Str) and isinstance(args[1], Str):
                    return Sym("str_replace(%s, %s, %s)" % (v.e, str_lit(a.s), str_lit(args[1].s)), t)
            if m == "trim" and not args:
                return Sym("str_trim(%s)" % v.e, t)
            if m == "is_empty":
                return Sym("(%s.len() == 0)" % v.e, T("bool"))
            if m in ("to_string", "into"):
                return v
            if m == "chars" and not args:
                return Sym(v.e, T("Vec", T("char")))
        if t[0] == "T" and t[1] == "Vec":
            if m == "is_empty":
                return Sym("(%s.len() == 0)" % v.e, T("bool"))
            if m == "map":
                return SeqMap(v, [args[0]])
            if m == "count" and not args:
                return Sym("%s.len()" % v.e, T("usize"))
            if m == "filter_map":
                n = fresh("c")
                el = v.ty[2][0] if v.ty[2] else ("infer",)
                r = self.call(args[0], [Sym(n, el)], ctx)
                if r.ty[0] != "T" or r.ty[1] != "Option" or el[0] == "infer":
                    raise Unsupported("filter_map")
                return Sym("seq_filter_map(%s, |%s: %s| %s)" % (v.e, n, vty(el), self.rexpr(r)), T("Vec", r.ty[2][0]))
            if m == "try_into" and not args:
                return Sym(v.e, T("Result", v.ty))
            if m == "join":
                return self.join(SeqMap(v, []), args[0], ctx)
            if m == "filter":
                n = fresh("c")
                el = Sym(n, t[2][0] if t[2] else ("infer",))
                c = self.call(args[0], [el], ctx)
                if el.ty[0] == "infer":
                    raise Unsupported("filter of unknown elements")
                return Sym("seq_filter(%s, |%s: %s| %s)" % (v.e, n, vty(el.ty), self.rexpr(c)), t)
            if m == "collect":
                return v
        if t[0] == "T" and t[1] == "DateTime":
            if m == "timestamp":
                return Sym("dt_ts(%s)" % v.e, T("i64"))
            if m == "format" and isinstance(args[0], Str):
                if args[0].s == "%Y-%m-%dT%H:%M:%S":
                    return Sym("dt_iso(%s)" % v.e, T("String"))
                raise Unsupported("date format " + args[0].s)
            if m == "into":
                return self.mark_into(v)
        if t[0] == "T" and t[1] == "Option":
            if m == "map":
                n = fresh("o")
                r = self.call(args[0], [Sym(n, t[2][0])], ctx)
                return Sym("(match %s { Some(%s) => Some(%s), None => None })" % (v.e, n, self.rexpr(r)), T("Option", r.ty))
            if m in ("unwrap", "expect"):
                self.panics.append((ctx.file, e.get("line"), "%s.is_some()" % v.e, v.e))
                return Sym("%s.unwrap()" % v.e, t[2][0])
        if t[0] == "T" and t[1] == "Result":
            if m == "ok":
                return Sym(v.e, T("Option", t[2][0]))
            if m == "or_else":
                r = self.call(args[0], [Tup([])], ctx)
                n = fresh("o")
                return Sym("(match %s { Some(%s) => Some(%s), None => %s })" % (v.e, n, n, self.rexpr(r)), t)
            if m in ("unwrap", "expect"):
                if e["recv"]["k"] == "mcall" and e["recv"]["m"] == "try_into":
                    self.panics.append((ctx.file, e.get("line"), "%s.len() == 16" % v.e, v.e))
                    return Sym(v.e, t[2][0])
                self.panics.append((ctx.file, e.get("line"), "%s.is_some()" % v.e, v.e))
                return Sym("%s.unwrap()" % v.e, t[2][0])
        if t[0] == "T" and t[1] == "Uuid":
            if m in ("into_bytes",):
                return Sym("uuid_bytes(%s)" % v.e, T("Vec", T("u8")))
            raise Unsupported("uuid")
        return None

    def join(self, v, sep, ctx):
        t = v.seq.ty
        el = t[2][0] if t[0] == "T" and t[1] == "Vec" and t[2] else ("infer",)
        n = fresh("e")
        x = Sym(n, el)
        for f in v.fs:
            x = self.call(f, [x], ctx)
        return Text([("join", v.seq.e, n, el, self.show(x), self.show(sep))])

    # ------------------------------------------------------------ display
    def display(self, t):
        """segments which `Display for t` writes for the value `self`"""
        r = self.ix.impl_fn("Display", t, "fmt")
        if not r:
            if t[1] in self.ix.enums:
                der, names = self.ix.strum_names(t[1])
                if "Display" in der:
                    return [("match", "self", [("%s::%s" % (t[1], a), [("lit", s)]) for a, s in names])]
            raise Unsupported("no Display for " + show_ty(t))
        fn, gen = r
        return self.fmt_body(fn, gen, t)

    def fmt_body(self, fn, gen, t):
        ctx = Ctx(self.ix, fn, t, gen, fn.file)
        env = {"self": Sym("self", t)}
        pat = fn.params[0][0]
        out = Out()
        self.bind(pat, out, env, ctx)
        return self.wr_stmts(fn.body["stmts"], env, ctx)

    def wr_stmts(self, ss, env, ctx):
        segs = []
        env = dict(env)
        for i, s in enumerate(ss):
            if s["k"] in ("let", "item"):
                self.stmts([s], env, ctx)
                continue
            segs += self.wr(s["e"], env, ctx)
        return segs

    def wr(self, e, env, ctx):
        k = e["k"]
        if k == "try" or k == "return":
            return self.wr(e["e"], env, ctx)
        if k == "call" and e["f"]["k"] == "path" and last(e["f"]["p"]) == "Ok":
            return []
        if k == "block":
            return self.wr_stmts(e["stmts"], env, ctx)
        if k == "match":
            v = self.expr(e["e"], env, ctx)
            if isinstance(v, Sym):
                arms = self.sym_arms(v, e, env, ctx, lambda b, s: self.wr(b, s, ctx))
                return [("match", v.e, arms)]
            raise Unsupported("match in fmt")
        if k == "if":
            c = self.cond(e["c"], env, ctx)
            if isinstance(c, Bool):
                return self.wr(e["t"] if c.b else e["e"], env, ctx)
            return [("ite", self.rexpr(c), self.wr(e["t"], env, ctx), self.wr(e["e"], env, ctx) if e["e"] else [])]
        if k == "for":
            it = self.expr(e["e"], env, ctx)
            if isinstance(it, Sym) and it.ty[0] == "T" and it.ty[1] in ("Vec", "BTreeMap"):
                n = fresh("e")
                el = it.ty[2][0] if it.ty[1] == "Vec" else ("tuple", it.ty[2])
                if el[0] == "tuple":
                    x = Tup([Sym("%s.%d" % (n, i), tt) for i, tt in enumerate(el[1])])
                else:
                    x = Sym(n, el)
                sub = dict(env)
                self.bind(e["pat"], x, sub, ctx)
                return [("join", it.e, n, el, self.wr_stmts(e["body"]["stmts"], sub, ctx), [], it.ty[1])]
            raise Unsupported("loop in fmt")
        v = self.expr(e, env, ctx)
        if isinstance(v, Wr):
            return v.segs
        if isinstance(v, Ite) and isinstance(v.a, Wr):
            return [("ite", v.c, v.a.segs, v.b.segs)]
        if isinstance(v, Tup) and not v.vs:
            return []
        raise Unsupported("statement in fmt: " + k)

    # ------------------------------------------------------------ rendering of values
    def rexpr(self, v):
        if isinstance(v, Sym):
            return v.e
        if isinstance(v, Str):
            return str_lit(v.s)
        if isinstance(v, Chr):
            return chr_lit(v.c)
        if isinstance(v, Num):
            if v.isf:
                raise Unsupported("float constant")
            return str(v.n)
        if isinstance(v, Bool):
            return "true" if v.b else "false"
        if isinstance(v, Tup):
            return "()" if not v.vs else "(%s)" % ", ".join(self.rexpr(x) for x in v.vs)
        if isinstance(v, Arr):
            return "seq![%s]" % ", ".join(self.rexpr(x) for x in v.vs)
        if isinstance(v, Text):
            return self.text_expr(v.segs)
        if isinstance(v, Ite):
            return "(if %s { %s } else { %s })" % (v.c, self.rexpr(v.a), self.rexpr(v.b))
        if isinstance(v, SeqMap):
            return self.rexpr(self.seqmap(v))
        if isinstance(v, Match):
            return "(match %s { %s })" % (v.scrut.e, ", ".join("%s => %s" % (p, self.rexpr(x)) for p, x in v.arms))
        if isinstance(v, Opt):
            return "(if %s { Some(%s) } else { None })" % (self.rexpr(v.cond), self.rexpr(v.v))
        if isinstance(v, Rec):
            if v.variant in ("Some", "None", "Ok", "Err") and v.ty[1] in ("Option", "Result"):
                if v.variant in ("None", "Err"):
                    return "None"
                return "Some(%s)" % self.rexpr(v.fields[0][1])
            if v.ty[1] == "dyn IfcType":
                return "AnyIfc::%s(%s)" % (v.variant, self.rexpr(v.fields[0][1]))
            if v.ty[1] == "TypedId":
                n = "TypedId"
                return "TypedId { id: %s }" % self.rexpr(dict(v.fields)["id"])
            n = v.ty[1] + ("::" + v.variant if v.variant else "")
            if v.kind == "unit":
                return n
            if v.kind == "tuple":
                return "%s(%s)" % (n, ", ".join(self.rexpr(x) for _, x in v.fields))
            return "%s { %s }" % (n, ", ".join("%s: %s" % (f, self.rexpr(x)) for f, x in v.fields))
        raise Unsupported("value %s" % type(v).__name__)

    def text_expr(self, segs):
        out = []
        for s in segs:
            if s[0] == "lit":
                out.append(str_lit(s[1]))
            elif s[0] == "txt":
                out.append(s[1])
            elif s[0] == "ite":
                out.append("(if %s { %s } else { %s })" % (s[1], self.text_expr(s[2]), self.text_expr(s[3])))
            else:
                raise Unsupported("text segment " + s[0])
        if not out:
            return "Seq::<char>::empty()"
        return out[0] if len(out) == 1 else "(" + " + ".join(out) + ")"


class AccRef:
    def __init__(self, p):
        self.p = p


class Out(V):
    pass


class Wr(V):
    def __init__(self, segs):
        self.segs = segs


COMBS = {"delimited", "preceded", "terminated", "separated_pair", "alt", "opt", "peek", "not", "repeat_till", "repeat",
         "separated", "take_while", "take_till", "none_of", "one_of"}


def join_static(parts, sep):
    r = []
    for i, p in enumerate(parts):
        if i:
            r += sep
        r += p
    return r


def merge_ty(a, b):
    if a[0] == "infer":
        return b
    if b[0] == "infer":
        return a
    if a[0] == "T" and b[0] == "T" and a[1] == b[1] and len(a[2]) == len(b[2]):
        return ("T", a[1], tuple(merge_ty(x, y) for x, y in zip(a[2], b[2])))
    if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
        return ("tuple", tuple(merge_ty(x, y) for x, y in zip(a[1], b[1])))
    return a


def rust_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'


def str_lit(s):
    if s == "":
        return "Seq::<char>::empty()"
    return rust_str(s) + "@"


def chr_lit(c):
    return {"'": "'\\''", "\\": "'\\\\'", "\n": "'\\n'", "\t": "'\\t'", "\r": "'\\r'"}.get(c, "'%s'" % c)


def vfield(t, f, ix):
    return f


def vty(t):
    """verus spec type"""
    if t[0] == "tuple":
        return "(%s)" % ", ".join(vty(x) for x in t[1]) if len(t[1]) != 1 else "(%s,)" % vty(t[1][0])
    if t[0] == "T":
        n = t[1]
        if n in ("String", "str"):
            return "Txt"
        if n in ("usize", "u64", "u8", "u32"):
            return "nat"
        if n in ("i64", "i32", "int"):
            return "int"
        if n == "f64":
            return "F64"
        if n in ("bool", "char"):
            return n
        if n == "Vec":
            return "Seq<%s>" % vty(t[2][0])
        if n == "Option":
            return "Option<%s>" % vty(t[2][0])
        if n == "BTreeMap":
            return "Seq<(%s, %s)>" % (vty(t[2][0]), vty(t[2][1]))
        if n == "DateTime":
            return "DateTime"
        if n == "TypedId":
            return "TypedId"
        if n.startswith("dyn "):
            return "AnyIfc"
        if n == "Uuid":
            return "Uuid"
        return n + ("<%s>" % ", ".join(vty(x) for x in t[2]) if t[2] else "")
    raise Unsupported("type " + show_ty(t))
