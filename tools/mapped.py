"""C17: reading geometry.  Each function which resolves the references of a geometric object (mappings, points, items, shapes, ...)
yields exactly what the attributes designate (verus/mapped.rs), and doesn't panic where they designate objects of their kinds."""
import os
import re

import modb
from rs import T, Unsupported

# name, type, function, trait, type arguments, what is assumed of v in the model m, what is returned
TABLE = [
    ("Axis2D_mappings", "Axis2D", "mappings", 1, (), "p_axis2(v, m)", "s_axis2(v, m)"),
    ("Axis3D_mappings", "Axis3D", "mappings", 1, (), "p_axis3(v, m)", "s_axis3(v, m)"),
    ("AxisMappings_map_2d", "AxisMappings", "map_2d", 0, (), "p_axis2(v, m)", "AxisMappings::D2(s_axis2(v, m))"),
    ("AxisMappings_map_3d", "AxisMappings", "map_3d", 0, (), "p_axis3(v, m)", "AxisMappings::D3(s_axis3(v, m))"),
    ("RectangleProfileDef_mappings", "RectangleProfileDef", "mappings", 1, (), "p_rect(v, m)", "s_rect(v, m)"),
    ("ArbitraryClosedProfileDef_mappings", "ArbitraryClosedProfileDef", "mappings", 1, (), "p_curve(m, v.outer_curve)", "s_arb(v, m)"),
    ("ExtrudedAreaSolid_mappings", "ExtrudedAreaSolid", "mappings", 1, (), "p_solid(v, m)", "s_solid(v, m)"),
    ("Transform3DBase_mappings", "Transform3DBase", "mappings", 1, (), "p_base(v, m)", "s_base(v, m)"),
    ("CartesianTransformationOperator3D_mappings", "CartesianTransformationOperator3D", "mappings", 1, (), "p_base(v, m)", "s_base(v, m)"),
    ("CartesianTransformationOperator3DnonUniform_mappings", "CartesianTransformationOperator3DnonUniform", "mappings", 1, (), "p_base(v.base, m)", "s_non(v, m)"),
    ("MappedItem_mappings", "MappedItem", "mappings", 1, (), "p_item(v, m)", "s_item(v, m)"),
    ("PolyLine_points", "PolyLine", "points", 0, (), "p_line(v, m)", "s_line(v, m)"),
    ("ShapeRepresentation_items", "ShapeRepresentation", "items", 0, (), "present(v.items, m)", "shape_items(v.items, m)"),
    ("ShapeRepresentation_items_of", "ShapeRepresentation", "items_of", 0, (), "present(v.items, m)", "items_of_kind(v.items, m, kS)"),
    ("ShapeRepresentation_parent_context", "ShapeRepresentation", "parent_context", 0, (), "p_context(m, v.context_of_items)", "s_context(m, v.context_of_items)"),
    ("Product_shapes", "Product", "shapes", 0, (), "p_shapes(v, m)", "s_shapes(v, m)"),
    ("Product_direction", "Product", "direction", 0, (), "p_shapes(v, m), p_all(s_shapes(v, m), m)", "dir_all(s_shapes(v, m), m)"),
    ("Product_local_placement", "Product", "local_placement", 0, (), "p_place(v, m)", "s_place(v, m)"),
]

# a repetition over S elements with results R is one of these: assumption, value
PIPES = {
    ("DVec2", "Seq<DVec2>"): ("true", "s"),
    ("DVec3", "Seq<DVec3>"): ("true", "s"),
    ("int", "Seq<DVec2>"): ("all_are(s, M, K_Point2D)", "points2(s, M)"),
    ("int", "Seq<DVec3>"): ("all_are(s, M, K_Point3D)", "points3(s, M)"),
    ("int", "Seq<ShapeItemEnum>"): ("present(s, M)", "shape_items(s, M)"),
    ("int", "Seq<ShapeRepresentation>"): ("all_are(s, M, K_ShapeRepresentation)", "shape_reps(s, M)"),
    ("int", "Seq<Any>"): ("present(s, M)", "items_of_kind(s, M, kS)"),
}


class Mapped(modb.Gen):
    parts_of_proof = ("lem_pipe", "lem_first")

    def repetition(self, f, before, params):
        """the lemma of one repetition; the statement which uses it"""
        w, r = self.w, self.w.recs[f]
        fn = next(t for t in w.out if re.search(r"spec fn %s\(" % f, t))
        ret, et, caps = r["ret"], r["et"], [(c, w.vty_of.get(c) or params[c]) for c in r["caps"]]
        M = next((c + ".data" for c, t in caps if t == "IFC"), None) or next((c for c, t in caps if t == "Map<int, Any>"), "M")
        if r["kind"] == "pipe" and (et, ret) in PIPES:
            pre, val = PIPES[et, ret]
        elif r["kind"] == "first" and ret == "Option<DVec3>" and et == "int":
            pre, val = ("p_deep(s, M)", "dir_deep(s, M)") if re.search(r"\bfirst(?!%s\b)\d+\(" % f[5:], fn) else ("p_flat(s, M)", "dir_flat(s, M)")
        elif r["kind"] == "first" and ret == "Option<DVec3>" and et == "ShapeRepresentation":
            pre, val = "p_all(s, M)", "dir_all(s, M)"
        else:
            raise Unsupported("repetition over %s -> %s" % (et, ret))
        if "M" in re.findall(r"\w+", (pre + val).replace("M", M) if M != "M" else pre + val) or ("kS" in val and "kS" not in r["caps"]):
            raise Unsupported("repetition without the model")
        pre, val = re.sub(r"\bM\b", M, pre), re.sub(r"\bM\b", M, val)
        params = ["s: Seq<%s>" % et] + ["%s: %s" % c for c in caps]
        call = "%s(%s)" % (f, ", ".join(["s"] + r["caps"]))
        rest = ", ".join(["s.drop_first()"] + r["caps"])
        goal = ["%s == %s" % (call, val)] if r["kind"] == "first" else ["%s =~= %s" % (call, val)]
        if r["kind"] == "first" and r["ok"]:
            goal.append("ok_" + call)
        here = "" if r["kind"] == "first" or val.startswith("items_of") else "assert(%s =~= seq![%s[0]] + %s);" % (val, val, re.sub(r"\bs\b", "s.drop_first()", val))
        was = "assert(%s);" % re.sub(r"\bs\b", "s.drop_first()", pre)
        first = "let x = s[0]; assert(s.first() == x);"
        if et == "int" and M != "M":
            first += " assert(%s.contains_key(s[0])); assert(kind(%s[s[0]]) == kind(%s[x]));" % (M, M, M)
        text = "pub proof fn lem_%s(%s)\n    requires %s,\n    ensures %s,\n    decreases s.len(),\n{\n%s    if s.len() > 0 { %s %s lem_%s(%s); %s }\n}\n" % (
            f, ", ".join(params), pre, ", ".join(goal), "".join(before), first, was, f, rest, here)
        use = "    assert forall|%s| %s implies %s by { lem_%s(%s); }\n" % (
            ", ".join(params), pre, " && ".join([goal[0].replace(call, "#[trigger] " + call, 1)] + goal[1:]), f, ", ".join(["s"] + r["caps"]))
        return text, use

    def row(self, name, pre, post):
        ins = self.insts[name]
        vs = [n for n, vt, t in ins.params if vt not in ("IFC", "int")]
        ms = [n for n, vt, t in ins.params if vt == "IFC"]
        if len(vs) != 1 or len(ms) != 1:
            raise Unsupported("arguments")
        sub = lambda x: re.sub(r"\bm\b", ms[0] + ".data", re.sub(r"\bv\b", vs[0], x))
        lems, uses = [], []
        for f in self.recs[name]:
            t, u = self.repetition(f, list(uses), {n: vt for n, vt, _ in ins.params})
            lems.append(t)
            uses.append(u)
        args = ", ".join(n for n, _, _ in ins.params)
        sig = ", ".join("%s: %s" % (n, vt) for n, vt, _ in ins.params)
        eq = "=~=" if dict((p[0], p[1]) for p in ins.parts)["ret"].startswith("Seq<") else "=="
        text = "pub proof fn c17_%s(%s)\n    requires %s,\n    ensures %s__ok(%s), %s__ret(%s) %s %s,\n{\n%s}\n" % (
            name, sig, sub(pre), name, args, name, args, eq, sub(post), "".join(uses))
        self.lemmas += [(None, t) for t in lems] + [("c17_" + name, text)]
        self.idx = None


def generate(rows=None):
    g = Mapped()
    g.undecided = getattr(g, "undecided", [])
    for n, ty, fn, tr, targs, pre, post in rows or TABLE:
        if g.want(n, T(ty), fn, "IfcMappedType" if tr else None, targs or None) is None:
            g.undecided.append(("c17_" + n, g.why[n]))
    lib = open(os.path.join(modb.VERUS, "mapped.rs")).read()
    for n in sorted(set(re.findall(r"(?:->|: |K_)(\w+?)(?:_0)?\b", lib))):
        if n in g.w.ifc_types:
            g.w.vty(T(n))
    n0 = len(g.undecided)
    g.library("mapped.rs")
    missing = g.undecided[n0:]
    del g.undecided[n0:]
    for n, ty, fn, tr, targs, pre, post in rows or TABLE:
        if n in g.insts:
            l0 = len(g.lemmas)
            try:
                if missing:
                    raise Unsupported("contract: %s" % (missing[0],))
                g.row(n, pre, post)
            except (Unsupported, KeyError, IndexError, StopIteration) as u:
                del g.lemmas[l0:]
                g.undecided.append(("c17_" + n, "%s: %s" % (type(u).__name__, str(u)[:300])))
    return g
