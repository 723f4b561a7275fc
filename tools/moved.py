"""C18: moving an element.  Each function which transforms an object replaces every representation of its shape, in order, by one
which shows the former one under its name by an operator made of the given translation and axes; nothing else changes (verus/moved.rs)."""
import re

import mir
import shape
from rs import T, Unsupported
from valid import MAP, calls

ZERO = "DVec3 { x: fl_0_0(), y: fl_0_0(), z: fl_0_0() }"


class Moved(shape.Shape):
    id = "c18"

    def obligations(self):
        got = self.reach([n for n, t in self.lemmas if n and n.startswith("c18_")])
        return [n for n, t in self.lemmas if n and n in got and n.startswith("c18_")]

    def hints(self, items, m0, total, extra="", back=False):
        out = []
        for _, n, vt, term in items:
            out.append("    let %s: %s = %s;\n" % (n, vt, term))
            m = re.fullmatch(r"ins\((.*), ([\w.>-]+)\)", term)
            if m:
                out.append("    lem_at(%s, %s);\n" % m.groups() + ("    lem_back(%s, %s);\n" % m.groups() if back else ""))
            m = re.fullmatch(r"upd\((.*), (\w+)\)", term)
            if m:
                out.append("    lem_put(%s, %s);\n" % m.groups())
            m = re.fullmatch(r"(.*)\[([^\[\]]*)\]", term) if vt == "Any" else None
            if m:
                out.append("    assert(%s.dom().contains(%s) ==> at(%s, %s, %s));\n" % (m.group(1), m.group(2), m.group(1), m.group(2), n))
            for f in re.findall(r"\b((?:loop|each|pipe|first)\w*\d+)\(", term):
                if f in self.w.loops:
                    for a in calls(term, f):
                        if self.loop_lemma(f, total):
                            out.append("    lem_%s(%s);\n" % (f, a))
        return "".join(out)

    def inlined(self, term, lets, never):
        """a term without the body's names"""
        for _ in range(200):
            m = next((x for x in re.findall(r"\b[A-Za-z_]\w*\b", term) if x in lets), None)
            if m is None:
                break
            term = re.sub(r"\b%s\b" % m, lambda _: lets[m], term)
        if any(re.search(r"\b%s\b" % x, term) for x in never):
            raise Unsupported("changes from representation to representation")
        return term

    def field(self, lets, kind, name):
        """the field of the object of this kind which a round makes"""
        got = [re.search(r"\b%s: (\w+(?:\([^()]*\))?|%s)(?=[,} ])" % (name, r"DVec3 \{[^{}]*\}"), t) for t in lets.values() if t.startswith(kind + " {")]
        got = {g.group(1) for g in got if g}
        if len(got) != 1:
            raise Unsupported("no %s of one %s" % (name, kind))
        return got.pop()

    def loop_lemma(self, f, total):
        if f in self.lems:
            return self.lems[f]
        w, d = self.w, self.w.loops[f]
        if d["kind"] != "each" and d["kind"] != "loop" or len(d["vs"]) != 2:
            return None
        self.lems[f] = None
        off = 1 if d["kind"] == "loop" else 0
        mi = next((i for i, v in enumerate(d["vs"]) if w.vty(v[2]) in (MAP, "IFC")), None)
        li = next((i for i, v in enumerate(d["vs"]) if w.vty(v[2]) == "Seq<int>"), None)
        if mi is None or li is None or w.vty(d["et"]) != "int":
            return None
        M, L = d["vs"][mi][1], d["vs"][li][1]
        D = ".data" if w.vty(d["vs"][mi][2]) == "IFC" else ""
        ps = self.state(d, True)
        args = ["s"] + [n for n, _, _ in ps]
        sig = ", ".join(["s: Seq<int>"] + ["%s: %s" % (n, vt) for n, vt, t in ps])
        call = "%s(%s)" % (f, ", ".join(args))
        inner = re.findall(r"    let (\w+): (.*?) = (.*);\n", d["body"])
        lets = {y[0]: y[2] for y in inner}
        never = [d["x"], M, L]
        pts = {t for t in lets.values() if t.startswith("Any::Point3D(")}
        if len(pts) != 1:
            raise Unsupported("no point of origin")
        o = self.inlined(pts.pop()[len("Any::Point3D("):-1], lets, never)
        t = self.inlined(self.field(lets, "MappedItem", "target"), lets, never)
        c = self.inlined(self.field(lets, "ShapeRepresentation", "context_of_items"), lets, never)
        rec = [b for cnd, b in d["branches"]]
        if len(rec) != 1 or rec[0][0] != "rec":
            raise Unsupported("a loop which is left")
        nm, nl, nok = rec[0][1][mi], rec[0][1][li], rec[0][2]
        cm, cl, cok = ["%s.%d" % (call, i + off) for i in (mi, li, 2)]
        cm += D
        rest = "%s(%s)" % (f, ", ".join(["s.drop_first()"] + list(rec[0][1]) + list(d["caps"])))
        post = ["forall|k: int, a: Any| #[trigger] at(%s%s, k, a) ==> at(%s, k, a)" % (M, D, cm),
                "%s ==> added(%s, %s, %s, s, %s, %s, %s)" % (cok, cm, cl, L, o, t, c)]
        body = "    if s.len() > 0 {\n    let %s: int = s.first();\n    assert(s[0] == s.first());\n%s    lem_%s;\n" % (d["x"], self.hints([("let",) + y for y in inner], M, total), rest)
        body += "    if %s {\n    assert(%s && %s.%d);\n    assert(%s =~= %s + seq![%s.last()]);\n    assert(moved(%s%s, %s.last(), s[0], %s, %s, %s));\n    lem_added(%s%s, %s.%d%s, %s.last(), %s, s, %s.%d, %s, %s, %s);\n    }\n    } else { assert(%s.%d =~= %s); }\n" % (
            cok, nok, rest, 2 + off, nl, L, nl, nm, D, nl, o, t, c, nm, D, rest, mi + off, D, nl, L, rest, li + off, o, t, c, call, li + off, L)
        self.lemmas.append((None, "pub proof fn lem_%s(%s)\n    ensures %s,\n    decreases s.len(),\n{\n%s}\n" % (f, sig, ",\n        ".join(post), body)))
        self.lems[f] = (o, t, c, li + off)
        return self.lems[f]

    def theorem(self, name, total=True, extra=(), placed=False):
        ins, w = self.insts[name], self.w
        self.name_all(ins)
        m0 = self.model(ins.params)
        args = ", ".join(n for n, _, _ in ins.params)
        sig = ", ".join("%s: %s" % (n, vt) for n, vt, _ in ins.params)
        res = [("r.%d" % i, what) for i, (what, vt) in enumerate(ins.parts[:-1])] if len(ins.parts) > 1 else []
        ok = "r.%d" % (len(ins.parts) - 1)
        tys = dict(ins.muts)
        m1 = next(g for g in (self.map_of(ins.ret if what == "ret" else tys[what], e) for e, what in res) if g)
        what = next(n for n, vt, t in ins.params if t is not None and mir.strip(t)[0:2] == ("T", "TypedId") and mir.strip(t)[2][0][1] in w.ifc_types and self.find(mir.strip(t)[2][0], "x", "representation")[0] and n.split("_")[0] != "a1")
        kd = next(mir.strip(t)[2][0] for n, vt, t in ins.params if n == what)
        rep = self.find(kd, "%s[%s]->%s_0" % (m0, what, w.vty(kd)), "representation")[0]
        prm = next(n for n, vt, t in ins.params if vt == "TransformParameter")
        o = next((n for n, vt, t in ins.params if vt == "DVec3" and "_" not in n), ZERO)
        self.ins = ins
        ctx = self.own("sub_context")
        p = rep + "->Custom_0"
        steps = self.hints(ins.items, m0, total, back=True)
        it = {i[1]: i[3] for i in ins.items}
        es = [(n, t.split("(")[0]) for n, t in it.items() if self.lems.get(t.split("(")[0])]
        if len(es) != 1:
            raise Unsupported("no loop over the representations")
        n, f = es[0]
        d = w.loops[f]
        a = dict(zip(["s"] + [x[0] for x in self.state(d, True)], parts(calls(it[n], f)[0])))
        lo, lt, lc, li = self.lems[f]
        put = lambda e: re.sub(r"\b(\w+)\b", lambda m: a.get(m.group(1), m.group(1)), e)
        lo, lt, lc = put(lo), put(lt), put(lc)
        mi = next(i for i, v in enumerate(d["vs"]) if w.vty(v[2]) in (MAP, "IFC")) + (d["kind"] == "loop")
        M2 = "%s.%d%s" % (n, mi, "" if w.vty(d["vs"][mi - (d["kind"] == "loop")][2]) == MAP else ".data")
        me = "pub proof fn c18_%s(%s)\n    ensures\n        ({ let r = %s(%s);\n        %s ==> {\n        if %s is Custom { shape_moved(%s, %s, %s, %s, %s, %s) } else { %s == %s }\n        } }),\n{\n%s%s    let r = %s(%s);\n    if %s && %s is Custom {\n" % (
            name, sig, name, args, ok, rep, m0, m1, p, prm, o, ctx, m1, m0, shape.USES, steps, name, args, ok, rep)
        me += "    let m2 = %s;\n    let p_ = %s;\n    assert(%s == upd(m2, p_, %s[p_]));\n    assert(at(m2, p_, %s[p_]));\n    assert(grown(m2, %s));\n    assert(kept(%s, %s, p_));\n" % (M2, p, m1, m1, m0, m1, m0, m1)
        me += "    assert(operates(m2, %s, %s));\n    lem_operates(m2, %s, %s, %s);\n    assert(%s.%d =~= %s[p_]->ProductDefinitionShape_0.representations);\n    lem_from_none(m2, %s.%d, %s, %s[p_]->ProductDefinitionShape_0.representations, %s, %s, %s);\n    lem_all_moved(m2, %s, %s.%d, %s[p_]->ProductDefinitionShape_0.representations, %s, %s, %s);\n    assert(operates(%s, %s, %s));\n    }\n}\n" % (
            lt, prm, m1, lt, prm, n, li, m1, n, li, put(d["vs"][li - (d["kind"] == "loop")][1]), m0, lo, lt, lc, m1, n, li, m0, lo, lt, lc, m1, lt, prm)
        self.lemmas.append(("c18_" + name, me))
        self.idx = None
        return me


def parts(s):
    out = []
    while s:
        x = shape.first_arg(s)
        out.append(x.strip())
        s = s[len(x) + 1:].strip()
    return out
