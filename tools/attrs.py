"""C16: constructors and setters.  For each of them (tools/attrs.json): every attribute of the result is the one which the
function's table row asks for -- an argument stored as it is, a former value kept, nothing -- and the model is unchanged but for
the objects which were handed over by value."""
import json
import os
import re

import mir
import valid
from rs import T, Unsupported
from valid import par

HERE = os.path.dirname(os.path.abspath(__file__))


class Attrs(valid.Build):
    id = "c16"

    def alone(self, n):
        return False

    # -------------------------------------------------------- attributes
    def leaves(self, t, path=""):
        """the attributes of a type: [(name, place in the Verus value, type)]"""
        w, t = self.w, mir.strip(t)
        e = w.erased(t)
        if e:
            ft = mir.strip(e[2])
            if ft[0] == "T" and ft[1] in w.ix.structs and w.is_struct(ft) and not self.atom(ft):
                return self.leaves(ft, path)
            return [(w.fname(e[1]), path, ft)]
        out = []
        for i, f, ft in w.real_fields(t):
            p, s = path + "." + w.fname(f), mir.strip(ft)
            if s[0] == "T" and s[1] in w.ix.structs and w.is_struct(s) and not self.atom(s):
                out += self.leaves(s, p) if not w.erased(s) else [(w.fname(f), p, s)]
            else:
                out.append((w.fname(f), p, s))
        return out

    def atom(self, t):
        return t[1] in ("IfcList", "DVec2", "DVec3", "TypedId", "Id", "StringPrimitive", "RealPrimitive", "IntegerPrimitive", "BoolPrimitive", "IfcGloballyUniqueId", "Uuid", "IfcDuration", "IfcTimestamp")

    def target(self, t):
        t = mir.strip(t)
        return t[2][0] if t[0] == "T" and t[1] in ("TypedId", "OptionalParameter", "IfcList", "Option", "IdOr", "Vec", "Iter", "HashSet") and t[2] else None

    # -------------------------------------------------------- an argument under an attribute
    def stored(self, lt, e, at, a):
        """that the attribute e of type lt holds the argument a of type at; updates the model reached"""
        w = self.w
        lt, at = mir.strip(lt), mir.strip(at)
        lv, av = w.vty(lt), w.vty(at)
        if self.m and lt[0] == "T" and lt[1] == "IdOr" and at[0] == "T" and at[1] == "IdOr":
            return "%s is Id && %s" % (e, self.stored(T("TypedId", self.target(lt)), e + "->Id_0", at, a))
        if lv == av:
            return "%s %s %s" % (e, "=~=" if lv.startswith("Seq<") else "==", a)
        if lt[0] == "T" and lt[1] == "OptionalParameter":
            x = self.target(lt)
            if at[0] == "T" and at[1] == "Option":
                return "(if %s is Some { %s is Custom && %s } else { %s is Omitted })" % (a, e, self.stored(x, e + "->Custom_0", self.target(at), a + "->Some_0"), e)
            return "%s is Custom && %s" % (e, self.stored(x, e + "->Custom_0", at, a))
        if at[0] == "T" and at[1] == "IdOr" and lv == "int":
            n = self.target(at)[1]
            v = "%s->Custom_0" % a
            if n not in w.ifc_types and not w.is_var(self.target(at)):
                raise Unsupported("object of type " + n)
            obj = "Any::%s(%s)" % (n, v) if n in w.ifc_types else v
            m = self.m
            self.m = "(if %s is Id { %s } else { ins(%s, %s) })" % (a, m, m, obj)
            return "(if %s is Id { %s == %s->Id_0 } else { %s == fresh(%s) })" % (a, e, a, e, m)
        if lt[0] == "T" and lt[1] == "IdOr" and av == "int":
            return "%s is Id && %s->Id_0 == %s" % (e, e, a)
        if lv == "int" and at[0] == "T" and at[1] in w.ifc_types:
            m, self.m = self.m, "ins(%s, Any::%s(%s))" % (self.m, at[1], a)
            return "%s == fresh(%s)" % (e, m)
        r = w.erased(lt)
        if r:
            return self.stored(r[2], e, at, a)
        fs = w.real_fields(lt) if w.is_struct(lt) else []
        if len(fs) == 1:
            return self.stored(fs[0][2], e + "." + w.fname(fs[0][1]), at, a)
        raise Unsupported("%s under %s" % (av, lv))

    def arg(self, k):
        """the argument that a rule names: position, positions within tuples"""
        p = k.split(".")
        n, vt, t = self.ps["a" + p[0]]
        t = mir.strip(t)
        e = n
        for i in p[1:]:
            t, e = mir.strip(t[1][int(i)]), "%s.%s" % (e, i)
        return t, e

    def rule(self, rule, lt, new, old):
        w = self.w
        if rule == "keep":
            return "%s == %s" % (new, old)
        if rule == "omitted":
            return "%s is Omitted" % new
        if rule == "inherited":
            return "%s is Inherited" % new
        if rule == "empty":
            return "%s.len() == 0" % new
        if rule == "any":
            return None
        op, _, k = rule.partition(":")
        if op == "is":
            vs = k.split("/")
            return " && ".join("%s%s is %s" % (new, "".join("->%s_0" % x for x in vs[:i]), v) for i, v in enumerate(vs))
        if op == "same":
            return "%s == %s.%s" % (new, self.res, k)
        if op == "bool":
            t, a = self.arg(k)
            return "if %s { %s is True } else { %s is False }" % (a, new, new)
        if op == "new":
            t, a = self.arg(k)
            return self.stored(lt, new, t, a)
        if op == "text":
            # a text of the host language: escapes are translated as everywhere else
            t, a = self.arg(k)
            self.w.ufn("decoded", ["Txt"], "Txt")
            return "if %s is Some { %s is Custom && %s->Custom_0 == decoded(%s->Some_0) } else { %s is Omitted }" % (a, new, new, a, new)
        if op == "point":
            # the coordinates handed over, as a new point
            t, a = self.arg(k)
            n = "Point" + t[1][-2:]
            w.vty(T(n))
            m, self.m = self.m, "ins(%s, Any::%s(%s))" % (self.m, n, self.build(T(n), a))
            return "%s == fresh(%s)" % (new, m)
        if op == "set":
            return "%s == %s" % (new, k)
        if op == "in":
            return "%s == %s" % (new, k)
        t, a = self.arg(k)
        if op == "arg":
            return self.stored(lt, new, t, a)
        if op == "seq":
            x, y = self.target(lt), self.target(t)
            return "%s.len() == %s.len() && forall|i: int| 0 <= i < %s.len() ==> %s" % (new, a, a, self.stored(x, "#[trigger] %s[i]" % new, y, a + "[i]"))
        if op == "push":
            x = mir.strip(lt)
            if x[0] == "T" and x[1] == "OptionalParameter":
                x = self.target(x)
                was = "(if %s is Custom { %s->Custom_0 } else { %s })" % (old, old, self.none(x))
                self.pre.append("!(%s is Inherited)" % old)
                return "%s is Custom && %s" % (new, self.pushed(x, new + "->Custom_0", was, t, a))
            return self.pushed(x, new, old, t, a)
        raise Unsupported("rule " + rule)

    def build(self, t, a):
        r = self.w.erased(t)
        if not r:
            raise Unsupported("%s of coordinates" % (t,))
        return a

    def none(self, t):
        t = mir.strip(t)
        r = self.w.erased(t)
        return self.none(r[2]) if r and t[1] != "IfcList" else "Seq::<%s>::empty()" % self.w.vty(self.elem(t))

    def elem(self, t):
        t = mir.strip(t)
        if t[0] == "T" and t[1] in ("IfcList", "Vec"):
            return t[2][0]
        r = self.w.erased(t)
        if r:
            return self.elem(r[2])
        raise Unsupported("not a list: %s" % (t,))

    def pushed(self, lt, new, old, t, a):
        return "%s.len() == %s.len() + 1 && %s.take(%s.len() as int) =~= %s && %s" % (new, old, new, old, old, self.stored(self.elem(lt), new + ".last()", t, a))

    def whole_lists(self, name):
        """lists handed on element by element are the same lists"""
        out = ""
        if not re.search(r"\b(pipe|loop|rec|each|first)\w*\d+\(", "".join(self.new)):
            return out
        idx = self.index()
        for n in sorted(self.reach([name])):
            t = idx[n][0]
            m = re.search(r"pub open spec fn step_%s\((\w+): (\w+)\) -> Seq<\2> \{\s*seq!\[\1\]\s*\}" % n, idx.get("step_" + n, ("",))[0]) if n.startswith("pipe") else None
            if m:
                self.lemmas.append((None, "pub proof fn lem_%s(s: Seq<%s>)\n    ensures %s(s) =~= s,\n    decreases s.len(),\n{\n    if s.len() > 0 { lem_%s(s.drop_first()); assert(s =~= seq![s.first()] + s.drop_first()); }\n}\n" % (n, m.group(2), n, n)))
                out += "    assert forall|s: Seq<%s>| #[trigger] %s(s) =~= s by { lem_%s(s); }\n" % (m.group(2), n, n)
            elif "decreases" in t and re.search(r"fn (pipe|loop)\w*%s" % "", t) and not n.startswith(("ids_", "lem_")):
                raise Unsupported("repetition " + n)
        return out

    # -------------------------------------------------------- one function
    def attribute_theorem(self, name, rules, on="ret", order=()):
        ins, w = self.insts[name], self.w
        self.ps = {n: (n, vt, t) for n, vt, t in ins.params}
        self.pre = ["is_kind(%s)" % n for n, vt, t in ins.params if t is None and vt == "int"]
        args = ", ".join(n for n, _, _ in ins.params)
        tys = dict(ins.muts)
        many = len(ins.parts) > 1
        place = {p[0]: ("r.%d" % i if many else "r") for i, p in enumerate(ins.parts)}
        res, rt = place[on], mir.strip(ins.ret if on == "ret" else tys[on])
        self.res = res
        mod = next((n for n, vt, t in ins.params if vt == "IFC"), None)
        self.m = m0 = mod + ".data" if mod else None
        goal = [place["ok"]]
        keeping = [n for n, vt, t in ins.params if t is not None and w.vty(t) == w.vty(rt)]
        ls = self.leaves(rt)
        for n, p, lt in sorted(ls, key=lambda l: (order.index(l[1][1:] or l[0]) if (l[1][1:] or l[0]) in order else -1)):
            rule = rules.get(p[1:] or n)
            if rule is None:
                raise Unsupported("no row for attribute %s of %s" % (p[1:] or n, name))
            goal.append(self.rule(rule, lt, res + p, keeping[0] + p if keeping else None))
        for k in set(rules) - {p[1:] or n for n, p, lt in ls}:
            raise Unsupported("no attribute %s of %s" % (k, name))
        if mod:
            goal.append("%s.data == %s" % (place[mod], self.m))
        steps = self.whole_lists(name)
        sig = ", ".join("%s: %s" % (n, vt) for n, vt, _ in ins.params)
        req = "    requires %s,\n" % ",\n        ".join(self.pre) if self.pre else ""
        text = "pub proof fn c16_%s(%s)\n%s    ensures\n        ({ let r = %s(%s);\n        %s }),\n{\n    reveal(fresh);\n    reveal(ins);\n%s}\n" % (
            name, sig, req, name, args, "\n        ".join("&&& " + par(g) for g in goal if g), steps)
        self.lemmas.append(("c16_" + name, text))
        self.idx = None
        return text


def table():
    return json.load(open(os.path.join(HERE, "attrs.json")))


def fill(g, tab):
    for x in tab:
        n0, l0 = x["name"], len(g.lemmas)
        o0 = len(g.w.out)
        if g.want(n0, T(x["ty"]), x["fn"], x["trait"], env={k: T(v) for k, v in x["env"].items()}) is None:
            g.undecided.append(("c16_" + n0, g.why[n0]))
            continue
        g.new = g.w.out[o0:]
        try:
            g.attribute_theorem(n0, x["into"], x.get("on", "ret"), x.get("order", ()))
        except (Unsupported, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as u:
            del g.lemmas[l0:]
            g.undecided.append(("c16_" + n0, "%s: %s" % (type(u).__name__, str(u)[:300])))
    return g
