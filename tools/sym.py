"""Translates functions, given as rustc MIR (tools/mir.py), into Verus spec functions.

A function becomes one total spec function of its arguments: its result, the final contents of what it borrowed mutably, and
whether it returned (did not panic). Every branch is executed and the results are merged; loops and iterator pipelines become
recursive functions over sequences. Calls of the crate's own functions are executed in place, except those under contract."""
import re

import mir
import rs
from rs import T, UNIT, Unsupported, show_ty, subst, unify

INTS = {"usize": (0, 2**64 - 1), "u64": (0, 2**64 - 1), "u32": (0, 2**32 - 1), "u16": (0, 65535), "u8": (0, 255),
        "isize": (-2**63, 2**63 - 1), "i64": (-2**63, 2**63 - 1), "i32": (-2**31, 2**31 - 1), "i16": (-32768, 32767), "i8": (-128, 127)}
OPT = lambda t: T("Option", t)
BOOL, INT, TEXT, F64, ANY = T("bool"), T("usize"), T("str"), T("f64"), T("dyn IfcType")


# ---------------------------------------------------------------- values
class Val:
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(repr(self))

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(repr(x) for x in self.__dict__.values()))


class V(Val):
    def __init__(self, term, ty):
        self.term, self.ty = term, ty


class Agg(Val):
    """struct, tuple, array (variant None) or enum value"""

    def __init__(self, ty, variant, fields):
        self.ty, self.variant, self.fields = ty, variant, tuple(fields)


class Clo(Val):
    """closure or function item"""

    def __init__(self, span, fields, fn, env):
        self.span, self.fields, self.fn, self.env = span, tuple(fields), fn, tuple(sorted(env.items()))
        self.ty = ("closure", span)


class Ref(Val):
    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)
        self.ty = ("ref",)


class Cond(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    @property
    def ty(self):
        t = self.a.ty
        return self.b.ty if t[0] == "infer" or isinstance(self.a, Opaque) else t


class Pipe(Val):
    """lazy iterator: elements of the sequence `src`, through `ops`"""

    def __init__(self, src, ops=()):
        self.src, self.ops = src, tuple(ops)
        self.ty = T("Iter", elem(src.ty))


class Opaque(Val):
    """a value which no contract looks at (error values, formatter state)"""

    def __init__(self, ty):
        self.ty = ty


class Disc(Val):
    def __init__(self, of):
        self.of = of
        self.ty = INT


def some(v):
    return Agg(OPT(v.ty), "Some", (v,))


def none(t):
    return Agg(OPT(t), "None", ())


def unit():
    return Agg(UNIT, None, ())


def elem(t):
    if t[0] == "T" and t[1] in ("Vec", "Iter", "IntoIter", "HashSet", "Option") and t[2]:
        return t[2][0]
    if t[0] == "T" and t[1] in ("HashMap", "BTreeMap"):
        return ("tuple", t[2][:2])
    return ("infer",)


def conj(xs):
    xs = [x for x in dict.fromkeys(xs) if x != "true"]
    if "false" in xs:
        return "false"
    return " && ".join("(%s)" % x if not simple(x) else x for x in xs) or "true"


def disj(xs):
    xs = [x for x in dict.fromkeys(xs) if x != "false"]
    if "true" in xs:
        return "true"
    return " || ".join("(%s)" % x if not simple(x) else x for x in xs) or "false"


def simple(x):
    if x.startswith("(") and x.endswith(")"):
        d = 0
        for i, ch in enumerate(x):
            d += (ch == "(") - (ch == ")")
            if d == 0:
                return i == len(x) - 1
    return re.fullmatch(r"!?[\w.>-]+|[\w:]+\([\w, .]*\)", x) is not None


def neg(x):
    if x == "true":
        return "false"
    if x == "false":
        return "true"
    if x.startswith("!") and simple(x[1:]):
        return x[1:]
    return "!" + x if simple(x) and not x.startswith("!") else "!(%s)" % x


class State:
    def __init__(self):
        self.cells, self.ok, self.pc = {}, "true", ()

    def copy(self):
        s = State()
        s.cells, s.ok, s.pc = dict(self.cells), self.ok, self.pc
        return s


class Ctx:
    def __init__(self, parent=None):
        self.items, self.memo, self.parent = [], {}, parent

    def find(self, term):
        c = self
        while c:
            if term in c.memo:
                return c.memo[term]
            c = c.parent
        return None


# ---------------------------------------------------------------- the crate
class World:
    def __init__(self, ix, fns, abstract=("T", "RELATING", "RELATED", "S", "R", "OBJ")):
        self.ix, self.fns = ix, fns
        self.abstract = set(abstract)
        self.vty_of = {}        # spec variable -> verus type
        self.rty_of = {}        # spec variable -> type
        self.loops = {}         # functions over sequences which carry a state
        self.out = []           # emitted spec functions
        self.decls = {}         # verus type name -> declaration
        self.uninterp = {}      # name -> declaration
        self.dyn = {}           # (trait, method) of dyn IfcType -> (spec function, verus type, type)
        self.n = 0
        self.impl_cache = {}
        self.by_last = {}
        self.impls = []         # (file, span, self type, trait path or None, generics, derived, {method: Fn})
        self.inst = {}
        self.recs = {}          # recursive functions over sequences
        self.whole = False      # states of loops aren't split below stored objects
        self.ifc_types = sorted({st[1] for it, st, gen, f in ix.impls.get("IfcType", []) if st[0] == "T" and not gen})
        self._impl_table()

    def under_contract(self, fn):
        return False

    # -- impls
    def _impl_table(self):
        src, tab = {}, {}
        for name, fn in self.fns.items():
            if fn.ret is None:
                continue
            m = re.match(r"(.*?)<impl at ([^:]*):(\d+):(\d+): (\d+):(\d+)>::([^:]+)$", name)
            if not m:
                continue
            mod, p, l, c, l2, c2, meth = m.groups()
            key = (p, l, c, l2, c2)
            if key not in tab:
                if p not in src:
                    try:
                        src[p] = open(p).read().split("\n")
                    except OSError:
                        src[p] = []
                try:
                    tab[key] = self._header(src[p], p, int(l) - 1, int(c) - 1, int(l2) - 1, int(c2) - 1)
                except Unsupported:
                    tab[key] = None
            if tab[key]:
                tab[key]["fns"][meth] = fn
                fn.impl = tab[key]
        self.impls = [x for x in tab.values() if x]
        for name, fn in self.fns.items():
            fn.name = name
            self.by_last.setdefault(name.rsplit("::", 1)[-1], []).append(fn)

    def _header(self, lines, p, l, c, l2, c2):
        meta = "/meta/" in p
        text = lines[l][c:] if l < len(lines) else ""

        def fix(t):
            return self.ren(t, meta)
        if text.startswith("impl"):
            h = lines[l][c:c2] if l == l2 else "\n".join([lines[l][c:]] + lines[l + 1:l2] + [lines[l2][:c2]])
            h = re.sub(r"\s+", " ", h).strip()
            h = h.split(" where ")[0].rstrip("{ ")
            t = mir.Toks(h)
            t.want("impl")
            gen = []
            if t.peek() == "<":
                t.next()
                d = 1
                first = True
                while d:
                    x = t.next()
                    if x == "<":
                        d += 1
                    elif x == ">":
                        d -= 1
                    elif d == 1 and first and re.match(r"[A-Za-z]", x) and x != "const":
                        gen.append(x)
                        first = False
                    if d == 1 and x == ",":
                        first = True
                    elif x == ":":
                        first = False
            if t.eat("!"):
                pass
            a = mir.p_type(t)
            if t.eat("for"):
                st = mir.p_type(t)
                tr = (a[1], a[2]) if a[0] == "T" else (str(a), ())
            else:
                st, tr = a, None
            return dict(file=p, ty=fix(mir.strip(st)), trait=tr and (tr[0], tuple(fix(mir.strip(x)) for x in tr[1])), gen=gen, derived=False, fns={})
        # derive: the next struct or enum
        name = text[:c2 - c] if l == l2 else text.strip()
        for k in range(l, min(l + 40, len(lines))):
            m = re.search(r"\b(?:struct|enum)\s+(\w+)\s*(?:<([^>{]*)>)?", lines[k])
            if m:
                gs = [g.split(":")[0].strip() for g in (m.group(2) or "").split(",") if g.strip() and not g.strip().startswith("'")]
                gen = [g.removeprefix("const ") for g in gs]
                return dict(file=p, ty=fix(("T", m.group(1), tuple(T(g) for g in gen))), trait=(name, ()), gen=gen, derived=True, fns={})
        return None

    def ren(self, t, meta):
        if t[0] == "T":
            n = t[1]
            if meta and n in mir.DUP:
                n = "Header" + n
            return ("T", n, tuple(self.ren(x, meta) for x in t[2]))
        if t[0] == "tuple":
            return ("tuple", tuple(self.ren(x, meta) for x in t[1]))
        return t

    def is_var(self, t):
        return t[0] == "T" and t[1] in self.abstract and not t[2]

    def find_method(self, trait, name, t, targs=None):
        """crate method `name` of type t (in trait, or inherent) -> (Fn, env)"""
        best = None
        for i in self.impls:
            if name not in i["fns"]:
                continue
            if trait is not None:
                if i["derived"]:
                    if i["trait"][0] != trait:
                        continue
                elif not i["trait"] or i["trait"][0] != trait:
                    continue
            elif i["trait"] and not (i["derived"] and i["trait"][0] == "IfcVerify"):
                continue
            m = {}
            if not unify(i["ty"], t, i["gen"], m):
                continue
            if targs and i["trait"] and i["trait"][1] and len(i["trait"][1]) == len(targs):
                if not all(unify(a, b, i["gen"], m) for a, b in zip(i["trait"][1], targs)):
                    continue
            generic = i["ty"][0] == "T" and i["ty"][1] in i["gen"]
            score = (0 if generic else 1, -sum(1 for a in (i["trait"][1] if i["trait"] else ()) if a[0] == "T" and a[1] in i["gen"]))
            if best is None or score > best[0]:
                best = (score, i["fns"][name], m)
        return best and (best[1], best[2])

    def trait_default(self, trait, name):
        for f in self.by_last.get(name, []):
            segs = f.name.split("::")
            if len(segs) >= 2 and segs[-2] == trait and "<impl" not in f.name and f.ret is not None:
                return f
        return None

    def trait_params(self, trait):
        tr = self.ix.traits.get(trait)
        return [g[0] for g in tr["gen"]["ps"] if not g[0].startswith("'")] if tr else []

    def generics(self, fn):
        """declared type parameters of a function"""
        n = fn.name.rsplit("::", 1)[-1]
        if getattr(fn, "gens", None) is None:
            c = []
            if getattr(fn, "impl", None):
                st = fn.impl["ty"]
                tr = fn.impl["trait"][0] if fn.impl["trait"] and not fn.impl["derived"] else None
                c = [f for f in self.ix.methods.get((st[1] if st[0] == "T" else "?", n), []) if f.trait == tr]
                same = [f for f in c if fn.impl["file"].endswith(f.file)]
                if len(same) > 1:
                    same = [f for f in same if [mir.strip(x) for x in [f.self_ty]] == [st]] or same
                c = same or c
            else:
                segs = fn.name.split("::")
                c = [f for f in self.ix.free.get(n, []) if f.mod.split("::")[-1] == segs[-2]] if len(segs) > 1 else []
                if not c and len(segs) > 1:
                    tr = self.ix.traits.get(segs[-2])
                    if tr:
                        for it in tr["items"]:
                            if it["k"] == "fn" and it["sig"]["name"] == n:
                                fn.gens = [g[0] for g in it["sig"]["gen"]["ps"] if not g[0].startswith("'")]
            if getattr(fn, "gens", None) is None:
                fn.gens = [g for g in (c[0].gen if c else []) if not g.startswith("'")]
        return fn.gens

    # -- types
    def var(self, p, t):
        n = self.fresh(p, self.vty(t))
        self.rty_of[n] = t
        return V(n, t)

    def fresh(self, p="v", vty=None):
        self.n += 1
        n = "%s%d" % (p, self.n)
        if vty:
            self.vty_of[n] = vty
        return n

    def fields(self, t, variant=None):
        """[(name, type)] of a struct or variant, type parameters replaced"""
        if t[0] == "tuple":
            return [(str(i), x) for i, x in enumerate(t[1])]
        if t[0] != "T":
            raise Unsupported("fields of %s" % (t,))
        n = t[1]
        if n == "Option":
            return [("0", t[2][0])] if variant == "Some" else []
        if n == "Result":
            return [("0", t[2][0] if variant == "Ok" else (t[2][1] if len(t[2]) > 1 else T("Error")))]
        if n == "ControlFlow":
            return [("0", t[2][1] if variant == "Continue" and len(t[2]) > 1 else (UNIT if variant == "Continue" else t[2][0]))]
        if n in ("DVec3", "DVec2"):
            return [(x, F64) for x in "xyz"[:int(n[-1])]]
        d = self.ix.structs.get(n) if variant is None else self.ix.enums.get(n)
        if d is None:
            raise Unsupported("fields of " + show_ty(t))
        gs = [g[0] for g in d["gen"]["ps"] if not g[0].startswith("'")]
        m = dict(zip(gs, t[2]))
        fs = d["fields"]["fs"] if variant is None else next(v for v in d["vars"] if v["name"] == variant)["fields"]["fs"]
        meta = "/meta/" in d["file"]
        return [(f["name"], subst(self.ren(rs.ty(f["ty"], t), meta), m)) for f in fs]

    def variants(self, t):
        n = t[1]
        if n == "Option":
            return ["None", "Some"]
        if n == "Result":
            return ["Ok", "Err"]
        if n == "ControlFlow":
            return ["Continue", "Break"]
        if n == "Ordering":
            return ["Less", "Equal", "Greater"]
        if n in self.ix.enums:
            return [v["name"] for v in self.ix.enums[n]["vars"]]
        raise Unsupported("variants of " + show_ty(t))

    def is_struct(self, t):
        return t[0] == "tuple" or (t[0] == "T" and (t[1] in self.ix.structs or t[1] in ("DVec2", "DVec3")))

    def is_enum(self, t):
        return t[0] == "T" and (t[1] in self.ix.enums or t[1] in ("Option", "Result", "ControlFlow", "Ordering"))

    def real_fields(self, t):
        return [(i, n, ft) for i, (n, ft) in enumerate(self.fields(t)) if not (ft[0] == "T" and ft[1] == "PhantomData")]

    def erased(self, t):
        """the one field of a newtype"""
        if t[0] == "T" and t[1] in self.ix.structs:
            r = self.real_fields(t)
            if len(r) == 1:
                return r[0]
        return None

    def vty(self, t):
        t = mir.strip(t)
        if t[0] == "tuple":
            if not t[1]:
                return "()"
            return "(%s)" % ", ".join(self.vty(x) for x in t[1]) if len(t[1]) > 1 else self.vty(t[1][0])
        if t[0] != "T":
            raise Unsupported("type %s" % (t,))
        n, a = t[1], t[2]
        if n in INTS or n == "TypeId":
            return "int"
        if n in ("bool", "char"):
            return n
        if n == "f64":
            return "F64"
        if n in ("String", "str"):
            return "Txt"
        if n in ("Vec", "Iter"):
            return "Seq<%s>" % self.vty(a[0])
        if n == "Option":
            return "Option<%s>" % self.vty(a[0])
        if n == "Result":
            return "Result<%s, ()>" % self.vty(a[0])
        if n == "HashSet":
            return "Set<%s>" % self.vty(a[0])
        if n in ("HashMap", "BTreeMap"):
            return "Map<%s, %s>" % (self.vty(a[0]), self.vty(a[1]))
        if n in ("dyn IfcType", "dyn Structure", "dyn TransformableType") or self.is_var(t):
            return "Any"
        if n in ("Error", "PhantomData", "Infallible"):
            return "()"
        if n in self.ix.structs:
            r = self.real_fields(t)
            if not r:
                return "()"
            if len(r) == 1:
                return self.vty(r[0][2])
        m = self.mangle(t)
        if m not in self.decls:
            self.decls[m] = ""
            self.decls[m] = self.declare(t, m)
        return m

    def mangle(self, t):
        return re.sub(r"\W+", "_", show_ty(t)).strip("_")

    def declare(self, t, m):
        if t[1] in self.ix.structs or t[1] in ("DVec2", "DVec3"):
            return "pub struct %s { %s }" % (m, ", ".join("pub %s: %s" % (self.fname(n), self.vty(ft)) for i, n, ft in self.real_fields(t)))
        if self.is_enum(t):
            vs = []
            for v in self.variants(t):
                fs = self.fields(t, v) if t[1] in self.ix.enums or t[1] == "ControlFlow" else []
                if fs and fs[0][0] != "0":
                    vs.append("%s { %s }" % (v, ", ".join("%s: %s" % (self.fname(n), self.vty(x)) for n, x in fs)))
                else:
                    vs.append("%s(%s)" % (v, ", ".join(self.vty(x) for _, x in fs)) if fs else v)
            return "pub enum %s { %s }" % (m, ", ".join(vs))
        return "pub struct %s { pub opaque_: int }" % m

    def fname(self, n):
        return "f" + n if n.isdigit() else n.removeprefix("r#") + "_" if n in ("type", "r#type", "self", "proof", "spec") else n

    def kind(self, t):
        t = mir.strip(t)
        if self.is_var(t):
            return "k" + t[1]
        if t[0] == "T" and t[1] in self.ifc_types:
            return "K_" + t[1]
        raise Unsupported("kind of " + show_ty(t))

    def ufn(self, name, args, ret):
        """uninterpreted function"""
        self.uninterp.setdefault(name, "pub uninterp spec fn %s(%s) -> %s;" % (name, ", ".join("x%d: %s" % (i, a) for i, a in enumerate(args)), ret))
        return name
