"""C12: what building a model preserves.  Validity of a value in a model follows its Rust type: a number designates an
existing object of the right kind.  Every builder function gets one theorem from that: valid arguments and a sound model
give a sound model and valid results, without a panic.  Loops and pipelines get their inductive lemmas from the same rule."""
import json
import os
import re

import mir
import modb
import sym
import symex
from modb import ANY, Gen, Id
from rs import T, UNIT, Unsupported, show_ty, subst
from sym import Agg, Opaque, Pipe, V

MAP = "Map<int, Any>"
HERE = os.path.dirname(os.path.abspath(__file__))
HOSTS = ("Site", "Building", "Storey", "OpeningElement", "Wall", "Slab")
NEEDED = ("GeometricRepresentationSubContext",)
TRIVIAL = ("String", "str", "f64", "bool", "char", "TypeId", "DVec2", "DVec3", "PhantomData", "Error", "Infallible", "Formatter")


STEP_INS = """pub proof fn lem_ins_N(m: Map<int, Any>, v: VT)
    ensures
        kd(m, fresh(m)) == -1,
        kd(ins(m, Any::N(v)), fresh(m)) == K_N,
        ins(m, Any::N(v)).dom().contains(fresh(m)),
        ins(m, Any::N(v))[fresh(m)] == Any::N(v),
        grows(m, ins(m, Any::N(v))),
        sound(m) && R ==> sound(ins(m, Any::N(v))),
        placed(m) && (P) ==> placed(ins(m, Any::N(v))),
{
    reveal(refs_any);
    reveal(placed_any);
    lem_ins(m, Any::N(v));
}
"""
STEP_UPD = """pub proof fn lem_upd_N(m: Map<int, Any>, k: int, v: VT)
    ensures
        upd(m, k, Any::N(v))[k] == Any::N(v),
        upd(m, k, Any::N(v)).dom().contains(k),
        kd(upd(m, k, Any::N(v)), k) == K_N,
        kd(m, k) == K_N ==> grows(m, upd(m, k, Any::N(v))),
        kd(m, k) == K_N && sound(m) && R ==> sound(upd(m, k, Any::N(v))),
        kd(m, k) == K_N && placed(m) && (P) ==> placed(upd(m, k, Any::N(v))),
{
    reveal(refs_any);
    reveal(placed_any);
    lem_upd(m, k, Any::N(v));
}
"""
STEP_GET = """pub proof fn lem_get_N(m: Map<int, Any>, k: int)
    ensures
        kd(m, k) == K_N ==> m.dom().contains(k) && kind(m[k]) == K_N && m[k] is N,
        sound(m) && kd(m, k) == K_N ==> R2,
        placed(m) && kd(m, k) == K_N ==> P2,
{
    reveal(refs_any);
    reveal(placed_any);
    reveal(sound);
    reveal(placed);
}
"""


class Build(Gen):
    id, start = "c12", "    lem_empty();\n"

    def __init__(self):
        super().__init__()
        w = self.w
        w.whole = True
        w.under_contract = self.contract
        w.use = self.use
        self.named, self.ups = {}, []      # type -> predicate
        self.tab = json.load(open(os.path.join(HERE, "refs.json")))
        self.steps_, self.made = set(), {}
        self.scope = []
        self.lems = {}           # loop -> (text of its lemma, how to call it)
        self.undecided = []
        self.entities()
        for b in open(os.path.join(modb.VERUS, "build.rs")).read().split("\n\n"):
            m = re.search(r"(?m)^pub (?:open |broadcast )?(spec|proof) fn (\w+)", b)
            if m and m.group(1) == "spec":
                w.out.append(b + "\n")
            elif m:
                self.lemmas.append((m.group(2), b + "\n"))

    parts_of_proof = ("rec_", "lem_loop", "lem_each", "lem_pipe", "lem_first", "lem_ok_")

    def alone(self, n):
        return n.startswith(self.id + "_")

    # -------------------------------------------------------- calls under contract
    def contract(self, fn):
        if fn.name.endswith("parser::string::translate_decode"):
            return True
        i = getattr(fn, "impl", None)
        n = fn.name.rsplit("::", 1)[-1]
        if not i or i["ty"][0] != "T":
            return False
        return (i["ty"][1], n) in (("DataMap", "insert_new"), ("DataMap", "id_of"))

    def use(self, ex, fn, env, args, st):
        n, w = fn.name.rsplit("::", 1)[-1], self.w
        if n == "insert_new":
            m = ex.term(ex.load(st, args[0]), st)
            a = ex.toany(ex.deep(args[1], st), st)
            v = ex.deep(args[1], st)
            t = v.ty if not isinstance(v, sym.Cond) else ex.find_enum(v)
            k = ex.e("fresh(%s)" % m, T("TypedId", t))
            ex.store(st, args[0], ex.e("ins(%s, %s)" % (m, a), T("DataMap")))
            return k
        if n == "id_of":
            m = ex.term(ex.deep(args[0], st), st)
            t = env["T"]
            return Pipe(ex.e("ids_of(%s, %s)" % (m, w.kind(t)), T("Iter", T("TypedId", t))))
        if n == "translate_decode":
            w.ufn("decoded", ["Txt"], "Txt")
            return ex.e("decoded(%s)" % ex.term(ex.deep(args[0], st), st), T("String"))
        raise Unsupported("contract of " + fn.name)

    # -------------------------------------------------------- validity by type
    def generic(self, t):
        if t[0] == "T":
            return self.w.is_var(t) or any(self.generic(x) for x in t[2])
        return t[0] == "tuple" and any(self.generic(x) for x in t[1])

    def valid(self, t, e, m):
        """what it means for a value e of type t to be valid in the model m; None: nothing"""
        w = self.w
        t = mir.strip(t)
        if t[0] == "tuple":
            return all_of([self.valid(x, "%s.%d" % (e, i) if len(t[1]) > 1 else e, m) for i, x in enumerate(t[1])])
        if t[0] != "T":
            return None
        n, a = t[1], t[2]
        if n in TRIVIAL or n in sym.INTS:
            return None
        if w.is_var(t):
            return "refs_any(%s, %s) && kind(%s) == k%s" % (e, m, e, n)
        if n.startswith("dyn "):
            return "refs_any(%s, %s)" % (e, m)
        if n == "TypedId":
            if w.is_var(a[0]) or a[0][0] == "T" and a[0][1] in w.ifc_types:
                return "kd(%s, %s) == %s" % (m, e, w.kind(a[0]))
            return None
        if n == "Id":
            return "kd(%s, %s) != -1" % (m, e)
        if n == "DataMap" or n == "BTreeMap" and w.vty(t) == MAP:
            return "%s == %s && sound(%s)" % (e, m, m)
        if n in ("Vec", "Iter", "IntoIter"):
            k = mir.strip(a[0])
            if k[0] == "T" and k[1] == "TypedId" and (w.is_var(k[2][0]) or k[2][0][1] in w.ifc_types):
                return "all_kd(%s, %s, %s)" % (e, w.kind(k[2][0]), m)
            if k == Id:
                return "all_in(%s, %s)" % (e, m)
        if w.is_struct(t) and n in w.ix.structs and n not in w.ifc_types:
            r = w.erased(t)
            if r:
                return self.valid(r[2], e, m)
        if self.generic(t):
            return self.expand(t, e, m)
        f = self.name(t)
        return f and "%s(%s, %s)" % (f, e, m)

    def name(self, t):
        w = self.w
        if t not in self.named:
            self.named[t] = "in_" + w.mangle(t)        # recursive types
            if t[1] in w.ifc_types:
                x = self.named[t] = "refs_" + t[1] if any(True for r in self.tab.get(t[1], ())) else None
                return x
            try:
                x = self.expand(t, "v", "m")
            except Unsupported:
                del self.named[t]
                raise
            if x is None:
                self.named[t] = None
            else:
                f, vt = self.named[t], w.vty(t)
                self.w.out.append("pub open spec fn %s(v: %s, m: %s) -> bool {\n    %s\n}\n" % (f, vt, MAP, x))
                if self.map_of(t, "v") is None:
                    self.mono(f, vt)
        return self.named[t]

    def mono(self, f, vt):
        """what is valid in a model stays so in a larger one"""
        self.lemmas.append(("grow_" + f, "pub proof fn grow_%s(v: %s, m: %s, m2: %s)\n    requires grows(m, m2), %s(v, m),\n    ensures %s(v, m2),\n{\n    lem_grown(m, m2);\n}\n" % (f, vt, MAP, MAP, f, f)))
        self.ups.append(f)
        self.lemmas.append((None, "pub broadcast proof fn up_%s(v: %s, m: %s, m2: %s)\n    requires #[trigger] grew(m, m2), #[trigger] %s(v, m),\n    ensures %s(v, m2),\n{\n    reveal(grew);\n    grow_%s(v, m, m2);\n}\n" % (f, vt, MAP, MAP, f, f, f)))

    def expand(self, t, e, m):
        w, n, a = self.w, t[1], t[2]
        if n in ("Vec", "Iter", "IntoIter"):
            x = self.valid(a[0], e + "[i]", m)
            return x and "(forall|i: int| 0 <= i < #[trigger] %s.len() ==> %s)" % (e, x) if False else x and "(forall|i: int| 0 <= i < %s.len() ==> ({ let x = #[trigger] %s[i]; %s }))" % (e, e, self.valid(a[0], "x", m))
        if n == "HashSet":
            x = self.valid(a[0], "x", m)
            return x and "(forall|x: %s| #[trigger] %s.contains(x) ==> %s)" % (w.vty(a[0]), e, x)
        if n in ("HashMap", "BTreeMap"):
            x = all_of([self.valid(a[0], "x", m), self.valid(a[1], e + "[x]", m)])
            return x and "(forall|x: %s| #[trigger] %s.dom().contains(x) ==> %s)" % (w.vty(a[0]), e, x)
        if n == "Option":
            x = self.valid(a[0], e + "->Some_0", m)
            return x and "(%s is Some ==> %s)" % (e, par(x))
        if n == "Result":
            x = self.valid(a[0], e + "->Ok_0", m)
            return x and "(%s is Ok ==> %s)" % (e, par(x))
        if n in ("Box", "Rc", "Arc"):
            return self.valid(a[0], e, m)
        if n in w.ix.enums:
            out = []
            for v in w.variants(t):
                for i, (fn_, ft) in enumerate(w.fields(t, v)):
                    x = self.valid(ft, "%s->%s_%s" % (e, v, fn_), m)
                    out.append(x and "(%s is %s ==> %s)" % (e, v, par(x)))
            return all_of(out)
        if n in w.ix.structs:
            out = [self.valid(ft, "%s.%s" % (e, w.fname(fn_)), m) for i, fn_, ft in w.real_fields(t)]
            if n == "IfcProjectBuilder":
                out += ["placed(%s)" % m, "has(%s, K_GeometricRepresentationSubContext)" % m]
            return all_of(out)
        return None

    def map_of(self, t, e):
        """where a value holds the model"""
        w = self.w
        t = mir.strip(t)
        if t[0] == "T" and (t[1] == "DataMap" or t[1] == "BTreeMap" and w.vty(t) == MAP):
            return e
        if t[0] == "tuple":
            for i, x in enumerate(t[1]):
                r = self.map_of(x, "%s.%d" % (e, i))
                if r:
                    return r
        if t[0] == "T" and t[1] in w.ix.structs and t[1] not in w.ifc_types and not w.is_var(t):
            er = w.erased(t)
            for i, n, ft in w.real_fields(t):
                r = self.map_of(ft, e if er else "%s.%s" % (e, w.fname(n)))
                if r:
                    return r
        return None

    def mentions(self, t, n, seen=()):
        w, t = self.w, mir.strip(t)
        if t[0] == "tuple":
            return any(self.mentions(x, n, seen) for x in t[1])
        if t[0] != "T" or t in seen or t[1] in w.ifc_types:
            return False
        return t[1] == n or any(self.mentions(x, n, seen) for x in t[2]) or t[1] in w.ix.structs and not w.is_var(t) and any(
            self.mentions(ft, n, seen + (t,)) for _, _, ft in w.real_fields(t))

    # -------------------------------------------------------- objects
    def entities(self):
        w = self.w
        arms, lem = [], []
        for n in w.ifc_types:
            rows = self.tab.get(n)
            arms.append("Any::%s(v) => %s" % (n, "refs_%s(v, m)" % n if rows else "true"))
            if not rows:
                continue
            vt = w.vty(T(n))
            w.out.append("pub open spec fn refs_%s(v: %s, m: %s) -> bool {\n    %s\n}\n" % (n, vt, MAP, "\n    && ".join(self.row(n, r) for r in rows)))
            self.mono("refs_" + n, vt)
            lem.append("Any::%s(v) => { grow_refs_%s(v, m, m2); }" % (n, n))
        w.out.append("#[verifier::opaque]\npub open spec fn refs_any(a: Any, m: %s) -> bool { match a { %s } }\n" % (MAP, ", ".join(arms)))
        self.lemmas.append(("grow_any", "pub proof fn grow_any(a: Any, m: %s, m2: %s)\n    requires grows(m, m2), refs_any(a, m),\n    ensures refs_any(a, m2),\n{\n    reveal(refs_any);\n    match a { %s _ => {} }\n}\n" % (MAP, MAP, " ".join(lem))))
        host = []
        for n in HOSTS:
            p = w.fields(T(n))
            e = self.product(n)
            host.append("Any::%s(v) => %s is Custom && kd(m, %s->Custom_0) == K_LocalPlacement" % (n, e, e))
        w.out.append("#[verifier::opaque]\npub open spec fn placed_any(a: Any, m: %s) -> bool { match a { %s, _ => true } }\n" % (MAP, ", ".join(host)))
        self.lemmas.append(("grow_placed", "pub proof fn grow_placed(a: Any, m: %s, m2: %s)\n    requires grows(m, m2), placed_any(a, m),\n    ensures placed_any(a, m2),\n{\n    reveal(placed_any);\n    lem_grown(m, m2);\n}\n" % (MAP, MAP)))

    def step_lemmas(self, n):
        """adding, changing and reading an object of type n"""
        if n in self.steps_:
            return
        self.steps_.add(n)
        vt = self.w.vty(T(n))
        r = "refs_%s(v, m)" % n if self.tab.get(n) else "true"
        p = "%s is Custom && kd(m, %s->Custom_0) == K_LocalPlacement" % (self.product(n), self.product(n)) if n in HOSTS else "true"
        d = dict(N=n, VT=vt, R=r, P=p, R2=r.replace("v,", "m[k]->%s_0," % n), P2=p.replace("v.", "m[k]->%s_0." % n))
        for f, t in (("ins", STEP_INS), ("upd", STEP_UPD), ("get", STEP_GET)):
            for k, x in d.items():
                t = re.sub(r"\b%s\b" % k, lambda m_: x, t.replace("_N(", "_%s(" % n).replace("::N(", "::%s(" % n).replace("K_N", "K_" + n).replace("is N,", "is %s," % n))
            self.lemmas.append(("lem_%s_%s" % (f, n), t))
        self.idx = None

    def product(self, n, v="v"):
        """term of an object's placement"""
        w = self.w

        def find(t, e):
            for i, f, ft in w.real_fields(t):
                g = e if w.erased(t) else "%s.%s" % (e, w.fname(f))
                if f == "object_placement":
                    return g
                if ft[0] == "T" and ft[1] in w.ix.structs and ft[1] not in ("IfcList",) and w.is_struct(ft):
                    r = find(ft, g)
                    if r:
                        return r
        return find(T(n), v)

    def row(self, n, r):
        import targets
        e, pre, lst = targets.places(self.w, n, r["path"]), "", False
        for s in r["steps"]:
            if s == "opt":
                pre += "%s is Custom ==> " % e
                e = "%s->Custom_0" % e
            elif s == "idor":
                pre += "%s is Id ==> " % e
                e = "%s->Id_0" % e
            else:
                lst = True
        ks = ["K_" + k for k in r["kinds"]]
        if lst and not ks:
            return "(%sall_in(%s, m))" % (pre, e)
        if lst and len(ks) == 1:
            return "(%sall_kd(%s, %s, m))" % (pre, e, ks[0])
        if lst:
            return "(%sforall|i: int| 0 <= i < %s.len() ==> ({ let k = kd(m, #[trigger] %s[i]); %s }))" % (pre, e, e, " || ".join("k == " + k for k in ks))
        if not ks:
            return "(%skd(m, %s) != -1)" % (pre, e)
        return "(%s{ let k = kd(m, %s); %s })" % (pre, e, " || ".join("k == " + k for k in ks))

    # -------------------------------------------------------- hints: what each step of a body preserves
    def hints(self, items, m0, total, extra=""):
        """proof text of the definitions, with the lemma of each step"""
        out, local = [], set()
        self.scope.append(local)
        maps = [m0] if m0 else []
        self.bases = list(maps)
        text = " ".join(i[3] for i in items)
        for it in items:
            _, n, vt, term = it
            m = re.fullmatch(r"Any::(\w+)\((.*)\)", term)
            if m:
                self.made[n] = m.groups()
                local.add(n)
            out.append("    let %s: %s = %s;\n" % (n, vt, term))
            out += self.hint(n, term, maps, total)
            if vt == MAP:
                maps.append(n)
            m = re.fullmatch(r"(.*)\[([^\[\]]*)\]", term) if vt == "Any" else None
            if m:
                for x in dict.fromkeys(re.findall(r"\b%s->(\w+)_0\b" % n, text + " " + extra)):
                    self.step_lemmas(x)
                    out.append("    lem_get_%s(%s, %s);\n" % (x, m.group(1), m.group(2)))
        self.scope.pop()
        return "".join(out)

    def object(self, n):
        """type and value of an object made here, or by the surrounding code"""
        x = self.made.get(n)
        return x and (x if n in self.scope[-1] else (x[0], "%s->%s_0" % (n, x[0])))

    def hint(self, n, term, maps, total):
        w, out = self.w, []
        m = re.fullmatch(r"ins\((.*), ([\w.>-]+)\)", term)
        if m:
            x = self.object(m.group(2))
            if x:
                self.step_lemmas(x[0])
            out.append("    lem_ins_%s(%s, %s);\n" % (x[0], m.group(1), x[1]) if x else "    lem_ins(%s, %s);\n" % m.groups())
            if x and x[0] in NEEDED:
                out.append("    lem_has(%s, K_%s, fresh(%s));\n" % (term, x[0], m.group(1)))
        m = re.fullmatch(r"upd\((.*), ([^,]*), ([\w.]+)\)", term)
        if m:
            x = self.object(m.group(3))
            if x:
                self.step_lemmas(x[0])
            out.append("    lem_upd_%s(%s, %s, %s);\n" % (x[0], m.group(1), m.group(2), x[1]) if x else "    lem_upd(%s, %s, %s);\n" % m.groups())
        m = re.fullmatch(r"ids_of\((.*)\)", term)
        if m:
            out.append("    lem_ids(%s);\n" % m.group(1))
        for f in ("set_order", "key_order", "value_order", "map_order"):
            for a in calls(term, f):
                out.append("    lem_%s(%s);\n" % (f, a))
        for f in re.findall(r"\b((?:loop|each|pipe|first)\w*\d+)\(", term):
            if f not in w.loops:
                continue
            for a in calls(term, f):
                bases = list(self.bases)
                r = self.loop_lemma(f, total)
                self.bases = bases
                if r:
                    out += ["    lem_grew(%s, %s);\n" % (b, maps[-1]) for b in bases if b != maps[-1]]
                if r == "map":
                    out.append("    lem_%s(%s);\n" % (f, a))
                elif r:
                    for x in dict.fromkeys(maps[:1] + maps[-1:]):
                        out.append("    lem_%s(%s, %s);\n" % (f, a, x))
                d = w.loops[f]
                if d["kind"] in ("loop", "each") and term.startswith(f + "("):
                    off = 1 if d["kind"] == "loop" else 0
                    m2 = self.model([("%s.%d" % (n, i + off), w.vty(t), t) for i, (_, _, t) in enumerate(d["vs"])])
                    if m2:
                        self.bases.append(m2)
                        maps.append(m2)
        for f in re.findall(r"==> (ok_(?:pipe|pred)\d+)\(", term):
            bases = list(self.bases)
            r = self.ok_lemma(f, total)
            self.bases = bases
            if r:
                out += ["    lem_grew(%s, %s);\n" % (b, maps[-1]) for b in bases if b != maps[-1]]
                b = re.fullmatch(r"forall\|i: int\| 0 <= i < (.*)\.len\(\) ==> %s\(#\[trigger\] (.*)\[i\](.*)\)" % f, term)
                if b:
                    for x in dict.fromkeys(maps[:1] + maps[-1:]):
                        out.append("    lem_%s(%s%s%s);\n" % (f, b.group(1), b.group(3), ", " + x if r != "map" else ""))
        return out

    def state(self, d, accs):
        """parameters of a loop: [(name, verus type, type)]"""
        w = self.w
        r = [(n, w.vty(t), t) for k, n, t in d.get("vs", ())] if accs else []
        return r + [self.captured(d, c) for c in d["caps"]]

    def captured(self, d, c):
        vt, t = d["env"][c] if c in d["env"] else (self.w.vty_of[c], self.w.rty_of.get(c))
        return c, vt, None if c in self.made else t

    def model(self, ps):
        for n, vt, t in ps:
            if t is not None:
                m = self.map_of(t, n)
                if m:
                    return m
        return None

    def conds(self, ps, m):
        return [x for x in (self.valid(t, n, m) for n, vt, t in ps if t is not None) if x]

    def loop_lemma(self, f, total):
        """-> 'map' (the model is among the arguments), 'm' (one more argument) or None (nothing to say)"""
        if (f, total) in self.lems:
            return self.lems[f, total]
        w, d = self.w, self.w.loops[f]
        self.lems[f, total] = None
        ps = self.state(d, True)
        m = self.model(ps)
        mm = m or "m_"
        et = T("Vec", d["et"])
        pre = [self.valid(et, "s", mm)] + self.conds(ps, mm) + self.given(d["caps"], mm) + (["placed(%s)" % mm] if self.placing else [])
        pre = [x for x in pre if x] + ([] if m else ["sound(m_)"])
        args = ["s"] + [n for n, _, _ in ps]
        call = "%s(%s)" % (f, ", ".join(args))
        k = d["kind"]
        sig = ["s: " + w.vty(et)] + ["%s: %s" % (n, vt) for n, vt, t in ps] + ([] if m else ["m_: " + MAP])
        la = args + ([] if m else ["m_"])
        lets = d["body"]
        inner, hints = re.findall(r"    let (\w+): (.*?) = (.*);\n", lets), []
        assert len(inner) == lets.count("\n"), f
        hints = self.hints([("let",) + x for x in inner], mm, total, " ".join(str(x) for k, x in d.items() if k != "env"))
        if k in ("loop", "each"):
            off = 1 if k == "loop" else 0
            nv = len(d["vs"])
            if nv == 0 and k == "each":
                ok, post, m2 = "r", [], mm
                if not total:
                    return None
            else:
                ok = "r.%d" % (nv + off)
                rs = [("r.%d" % (i + off), w.vty(t), t) for i, (_, n, t) in enumerate(d["vs"])]
                m2 = self.model(rs) or mm
                post = self.conds(rs, m2) + (["grows(%s, %s)" % (mm, m2), "sound(%s)" % m2] if m2 != mm else [])
                if m2 != mm and self.placing:
                    post.append("placed(%s)" % m2)
                # numbers without a type, made from elements with one
                kt = mir.strip(d["et"])
                kt = kt[2][0] if kt[0] == "T" and kt[1] in ("IdOr", "TypedId") else kt
                if kt[0] == "T" and (w.is_var(kt) or kt[1] in w.ifc_types):
                    for (n, _, t), (e, _, _) in zip(ps, rs):
                        if t is not None and mir.strip(t) in (T("Vec", Id), T("Iter", Id)):
                            post.append("(all_kd(%s, %s, %s) ==> all_kd(%s, %s, %s))" % (n, w.kind(kt), mm, e, w.kind(kt), m2))
                post += self.more(f, d, ps, rs, mm, m2)
            goal = all_of([ok] + post) if total else "(%s ==> %s)" % (ok, par(all_of(post))) if post else None
            if goal is None:
                return None
            br = ""
            for c, b in d["branches"]:
                if b[0] == "rec":
                    nx = ["s.drop_first()"] + list(b[1]) + list(d["caps"])
                    nps = [(e, vt, t) for e, (n, vt, t) in zip(list(b[1]) + list(d["caps"]), ps)]
                    rest = [] if m else ["m_"]
                    nm = self.model(nps)
                    up = "lem_grew(%s, %s); " % (mm, nm) if nm and nm != mm else ""
                    s = "lem_%s(%s);" % (f, ", ".join(nx + rest))
                    br += ("    if %s { %s }\n" % (c, up + s) if c != "true" else "    %s\n" % (up + s))
                    # what was valid before the step still is
            body = "    if %s && s.len() > 0 {\n    let %s: %s = s.first();\n    assert(s[0] == s.first());\n%s%s    }\n" % (all_of(pre) or "true", d["x"], w.vty(d["et"]), hints, br)
            body = self.unfold(f, d) + body
            if m2 != mm:
                body += "    let r = %s;\n    lem_grew(%s, %s);\n" % (call, mm, m2)
            text = "pub proof fn lem_%s(%s)\n    ensures (%s) ==> ({ let r = %s; %s }),\n    decreases s.len(),\n{\n    broadcast use grown;\n%s}\n" % (f, ", ".join(sig), all_of(pre) or "true", call, goal, body)
        elif k == "pipe" and d["val"] == "seq![%s]" % d["x"] and not lets:
            text = "pub proof fn lem_%s(s: %s)\n    ensures %s(s) == s,\n    decreases s.len(),\n{\n    if s.len() > 0 { lem_%s(s.drop_first()); }\n    assert(%s(s) =~= s);\n}\n" % (f, w.vty(et), f, f, f)
            self.lemmas.append((None, text))
            self.lems[f, total] = "map"
            return "map"
        elif k == "pipe":
            post = self.valid(T("Vec", d["rt"]), "r", mm)
            if not post:
                return None
            body = "    if %s && s.len() > 0 {\n    let %s: %s = s.first();\n    assert(s[0] == s.first());\n%s    lem_%s(%s);\n    }\n" % (
                all_of(pre) or "true", d["x"], w.vty(d["et"]), hints, f, ", ".join(["s.drop_first()"] + la[1:]))
            text = "pub proof fn lem_%s(%s)\n    ensures (%s) ==> ({ let r = %s; %s }),\n    decreases s.len(),\n{\n    broadcast use grown;\n%s}\n" % (f, ", ".join(sig), all_of(pre) or "true", call, post, body)
        elif k == "first":
            post = self.valid(T("Option", d["rt"]), "r", mm)
            okp = "ok_%s(%s)" % (f, ", ".join(args)) if d["ok"] != "true" and total else None
            goal = all_of([post, okp])
            if not goal:
                return None
            body = "    if %s && s.len() > 0 {\n    let %s: %s = s.first();\n    assert(s[0] == s.first());\n%s    lem_%s(%s);\n    }\n" % (
                all_of(pre) or "true", d["x"], w.vty(d["et"]), hints, f, ", ".join(["s.drop_first()"] + la[1:]))
            text = "pub proof fn lem_%s(%s)\n    ensures (%s) ==> ({ let r = %s; %s }),\n    decreases s.len(),\n{\n    broadcast use grown;\n%s}\n" % (f, ", ".join(sig), all_of(pre) or "true", call, goal, body)
        else:
            return None
        self.lemmas.append((None, text))
        self.lems[f, total] = "map" if m else "m"
        return self.lems[f, total]

    def more(self, f, d, ps, rs, m, m2):
        """further facts about a loop"""
        return []

    def unfold(self, f, d):
        return ""

    def ok_lemma(self, okf, total):
        """every element of a valid sequence can be handled"""
        if not total:
            return None
        if (okf, total) in self.lems:
            return self.lems[okf, total]
        w, f = self.w, okf[3:]
        d = w.loops.get(f)
        self.lems[okf, total] = None
        if d is None or d["et"][0] == "infer":
            return None
        caps = self.caps_of(okf, d)
        ps = [self.captured(d, c) for c in caps]
        m = self.model(ps)
        mm = m or "m_"
        pre = [x for x in [self.valid(d["et"], "s[i]", mm)] if x]
        cp = self.conds(ps, mm) + self.given(caps, mm) + (["placed(%s)" % mm] if self.placing else []) + ([] if m else ["sound(m_)"])
        inner = re.findall(r"    let (\w+): (.*?) = (.*);\n", d["body"])
        hints = self.hints([("let",) + x for x in inner], mm, total, " ".join(str(x) for k, x in d.items() if k != "env"))
        seq = self.valid(T("Vec", d["et"]), "s", mm)
        sig = ["s: " + w.vty(T("Vec", d["et"]))] + ["%s: %s" % (n, vt) for n, vt, t in ps] + ([] if m else ["m_: " + MAP])
        cond = all_of([seq] + cp)
        text = "pub proof fn lem_%s(%s)\n    ensures (%s) ==> (forall|i: int| 0 <= i < s.len() ==> %s(#[trigger] s[i]%s)),\n{\n    broadcast use grown;\n    if %s {\n    assert forall|i: int| 0 <= i < s.len() implies %s(#[trigger] s[i]%s) by {\n    let %s: %s = s[i];\n%s    }\n    }\n}\n" % (
            okf, ", ".join(sig), cond, okf, "".join(", " + c for c in caps), cond, okf, "".join(", " + c for c in caps), d["x"], w.vty(d["et"]), hints)
        self.lemmas.append((None, text))
        self.lems[okf, total] = "map" if m else "m"
        return self.lems[okf, total]

    def given(self, caps, m):
        """objects made before the loop"""
        out = []
        for c in caps:
            x = self.made.get(c)
            if x:
                out += ["%s is %s" % (c, x[0]), self.valid(T(x[0]), "%s->%s_0" % (c, x[0]), m)]
        return [x for x in out if x]

    def caps_of(self, okf, d):
        for t in self.w.out:
            m = re.match(r"pub open spec fn %s\((.*?)\) -> bool" % okf, t)
            if m:
                return [c for c in re.findall(r"(?:^|, )(\w+): ", m.group(1)) if c not in (d["x"], "s")]
        return d["caps"]

    # -------------------------------------------------------- the theorem of a function
    def theorem(self, name, total=True, extra=(), placed=False):
        ins, w = self.insts[name], self.w
        self.placing = any(self.mentions(t, "IfcProjectBuilder") for t in [t for _, _, t in ins.params if t] + [ins.ret])
        self.placing |= placed
        m0 = self.model(ins.params)
        # a function which makes a model: its arguments refer to nothing
        start = self.start if not m0 else ""
        m0 = m0 or "Map::<int, Any>::empty()"
        pre = ["is_kind(%s)" % n for n, vt, t in ins.params if t is None and vt == "int"] + self.conds(ins.params, m0) + list(extra)
        if placed:
            pre.append("placed(%s)" % m0)
        if self.placing:
            for n, vt, t in [p for p in ins.params if p[2]]:
                t = mir.strip(t)
                if t[0] == "T" and t[1] in HOSTS:
                    pre.append("(%s is Custom && kd(%s, %s->Custom_0) == K_LocalPlacement)" % (self.product(t[1], n), m0, self.product(t[1], n)))
        args = ", ".join(n for n, _, _ in ins.params)
        res = []
        tys = dict(ins.muts)
        for i, (what, vt) in enumerate(ins.parts[:-1]):
            t = ins.ret if what == "ret" else tys[what]
            res.append(("r.%d" % i if len(ins.parts) > 1 else "r", vt, t))
        ok = "r.%d" % (len(ins.parts) - 1) if len(ins.parts) > 1 else "r"
        m1 = None
        for e, vt, t in [x for x, p in zip(res, ins.parts) if p[0] != "ret"] + [x for x, p in zip(res, ins.parts) if p[0] == "ret"]:
            m1 = self.map_of(t, e)
            if m1:
                break
        m1 = m1 or m0
        post = self.conds(res, m1) + (["grows(%s, %s)" % (m0, m1), "sound(%s)" % m1] if m0 and m1 != m0 else [])
        shown = m1 == m0 and ins.parts[0][1] == "Txt" and any("show_IFC(" in i[3] for i in ins.items)
        if shown:
            post.append("exists|ifc: IFC| %s == #[trigger] show_IFC(ifc) && sound(ifc.data) && grows(%s, ifc.data)" % (res[0][0], m0))
        self.printed = next((c for i in ins.items for c in calls(i[3], "show_IFC") if re.fullmatch(r"\w+", c)), None) if shown else None
        pre2, post2, end = self.says(name, m0, m1, res)
        if self.printed:
            v = self.printed
            end = "    let r = %s(%s);\n    assert(%s == show_IFC(%s));\n    assert(sound(%s.data));\n    lem_grew(%s, %s.data);\n" % (name, args, res[0][0], v, v, m0, v) + end
        pre, post = pre + pre2, post + post2
        goal = [ok] + post if total else ["%s ==> %s" % (ok, par(p)) for p in post]
        goal = [g for g in goal if g]
        sig = ", ".join("%s: %s" % (n, vt) for n, vt, _ in ins.params)
        req = "    requires %s,\n" % ",\n        ".join(pre) if pre else ""
        text = "pub proof fn %s_%s(%s)\n%s    ensures\n        ({ let r = %s(%s);\n        %s }),\n{\n    broadcast use grown;\n%s%s%s%s}\n" % (
            self.id, name, sig, req, name, args, "\n        ".join("&&& " + g for g in goal), start, self.hints(ins.items, m0, total),
            "    let r = %s(%s);\n%s" % (name, args, "".join("    lem_grew(%s, %s);\n" % (b, m1) for b in self.bases)) if m0 and m1 != m0 else "", end)
        self.lemmas.append((self.id + "_" + name, text))
        self.idx = None
        return text

    def says(self, name, m0, m1, res):
        """further preconditions and postconditions of a function, and hints for the latter"""
        return [], [], ""

    def reach(self, names):
        got = super().reach(names)
        return super().reach(list(names) + ["up_" + f for f in self.seen(names)]) if "grow_any" in got or "up_kd" in got or any(n.startswith(self.id + "_") for n in names) else got

    def seen(self, names):
        """predicates which these obligations mention, not counting the one over all types"""
        idx, got, todo = self.index(), set(), list(names)
        while todo:
            n = todo.pop()
            if n in got or n not in idx or n in ("refs_any", "grow_any") or n.startswith(("up_", "grow_")):
                continue
            got.add(n)
            todo += [x for x in idx[n][1] if x not in got]
        return ["kd", "all_kd", "all_in", "has"] + [f for f in self.ups if f in got]

    def text(self, only=None, canary=()):
        t = super().text(only, canary)
        return t.replace("broadcast use grown;", "broadcast use {%s};" % ", ".join("up_" + f for f in self.seen(only if only is not None else self.obligations())))


def calls(term, f):
    """argument texts of the calls of f"""
    out = []
    for m in re.finditer(r"\b%s\(" % f, term):
        d, i = 1, m.end()
        while d and i < len(term):
            d += (term[i] == "(") - (term[i] == ")")
            i += 1
        out.append(term[m.end():i - 1])
    return out


def par(x):
    return x if sym.simple(x) else "(%s)" % x


def all_of(xs):
    xs = [x for x in xs if x]
    return " && ".join(par(x) for x in xs) or None
