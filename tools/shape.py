"""C15: where the builders put an element and what it looks like.  For each function which makes one: the objects reached
from the element in the finished model, down to the numbers, are those which its arguments ask for; no other object changes."""
import os
import re

import mir
import modb
import targets
import valid
from rs import T, Unsupported
from valid import MAP, calls

LOOK = {"LAYER": ("MaterialLayer", "layer_thickness"), "LAYERS": ("MaterialLayerSet", "material_layers"), "SETOF": ("MaterialLayerSetUsage", "spatial_element_structure"),
        "RELATED": ("RelAssociatesMaterial", "rel_associates", "related_objects"), "RELATIVE": ("LocalPlacement", "relative_placement"),
        "RELTO": ("LocalPlacement", "placement_rel_to"), "LOCATION": ("Axis3D", "location"), "LOCALZ": ("Axis3D", "local_z"), "LOCALX": ("Axis3D", "local_x"),
        "POINT3": ("Point3D",), "ITEMS": ("ShapeRepresentation", "items"), "REPRS": ("ProductDefinitionShape", "representations"),
        "CONTEXT": ("ShapeRepresentation", "context_of_items"), "REPRID": ("ShapeRepresentation", "representation_identifier"),
        "REPRTYPE": ("ShapeRepresentation", "representation_type"), "POSITION": ("ExtrudedAreaSolid", "position"), "DEPTH": ("ExtrudedAreaSolid", "depth"),
        "DIRECTION": ("ExtrudedAreaSolid", "extruded_direction"), "DIR3": ("Direction3D",), "AREA": ("ExtrudedAreaSolid", "swept_area"),
        "RPOSITION": ("RectangleProfileDef", "position"), "LOCATION2": ("Axis2D", "location"), "RTYPE": ("RectangleProfileDef", "profile_type"),
        "XDIM": ("RectangleProfileDef", "x_dim"), "YDIM": ("RectangleProfileDef", "y_dim"), "LOCALX2": ("Axis2D", "local_x"), "POINT2": ("Point2D",),
        "CURVE": ("ArbitraryClosedProfileDef", "outer_curve"), "POINTS": ("IndexedPolyCurve", "points"), "ATYPE": ("ArbitraryClosedProfileDef", "profile_type"),
        "SEGMENTS": ("IndexedPolyCurve", "segments"), "COORDS2": ("PointList2D", "coord_list"), "COORDS3": ("PointList3D", "coord_list")}

AXIOMS = """#[verifier::external_body]
pub broadcast proof fn ax_half(x: F64)
    ensures #[trigger] f_mul(x, fl_0_5()) == half(x),
{
}
#[verifier::external_body]
pub broadcast proof fn ax_half2(x: F64)
    ensures #[trigger] f_mul(fl_0_5(), x) == half(x),
{
}
#[verifier::external_body]
pub broadcast proof fn ax_half3(x: F64)
    ensures #[trigger] f_div(x, fl_2_0()) == half(x),
{
}
#[verifier::external_body]
pub broadcast proof fn ax_once(x: F64)
    ensures #[trigger] f_mul(fl_1_0(), x) == x,
{
}
#[verifier::external_body]
pub broadcast proof fn ax_once2(x: F64)
    ensures #[trigger] f_mul(x, fl_1_0()) == x,
{
}
#[verifier::external_body]
pub broadcast proof fn ax_equal(x: F64)
    ensures #[trigger] equal(x, x),
{
}
#[verifier::external_body]
pub broadcast proof fn ax_plus(x: F64)
    ensures #[trigger] equal(f_add(x, fl_0_0()), x),
{
}
#[verifier::external_body]
pub broadcast proof fn ax_plus2(x: F64)
    ensures #[trigger] equal(f_add(fl_0_0(), x), x),
{
}
"""
USES = "    broadcast use {ax_half, ax_half2, ax_half3, ax_once, ax_once2, ax_equal, ax_plus, ax_plus2};\n"

Z0 = "DVec3 { x: fl_0_0(), y: fl_0_0(), z: fl_0_0() }"
Z = "DVec3_normalize(DVec3 { x: fl_0_0(), y: fl_0_0(), z: fl_1_0() })"
Y = "DVec3_normalize(DVec3 { x: fl_0_0(), y: fl_1_0(), z: fl_0_0() })"
FLAT = "polygon2(M, b, {coords})"
FREE = "polygon3(M, b, {coords})"
SLAB = "polygon3(M, b, seq![DVec3 { x: {start}.x, y: {start}.y, z: {height} }, DVec3 { x: {start}.x, y: {start}.y, z: fl_0_0() }, DVec3 { x: {end}.x, y: {end}.y, z: fl_0_0() }, DVec3 { x: {end}.x, y: {end}.y, z: {height} }])"
AT = "same_place(P, {placement})"
HERE_ = "same_place(P, %s)" % Z0
NORM = "DVec3_normalize({direction})"

# function -> what it makes, relative to what, where, how deep, which area, which way (None: not said)
S, W, L = "IfcStoreyBuilder_", "IfcWallBuilder_", "IfcSlabBuilder_"
MADE = {
    S + "vertical_wall": ("Wall", "storey", AT, "{height}", "rectangle(M, b, {length}, THICK)", Z),
    S + "vertical_arbitrary_wall": ("Wall", "storey", AT, "THICK", "polygon3(M, b, upright({coords}))", Y),
    S + "arbitrary_wall": ("Wall", "storey", AT, "THICK", FREE, NORM),
    S + "horizontal_arbitrary_slab": ("Slab", "storey", AT, "THICK", FLAT, Z),
    S + "vertical_slab": ("Slab", "storey", AT, "THICK", SLAB, None),
    S + "arbitrary_slab": ("Slab", "storey", AT, "THICK", FREE, NORM),
    S + "horizontal_arbitrary_roof": ("Roof", "storey", AT, "THICK", FLAT, Z),
    S + "vertical_shading_device": ("ShadingDevice", "storey", AT, "THICK", "rectangle(M, b, {length}, {height})", Z),
    S + "space": ("Space", "storey", AT, "{height}", FLAT, Z),
    S + "rect_window": ("Window", "opening", AT, "{height}", "rectangle(M, b, {width}, NUMBER)", "TOWARDS"),
    S + "horizontal_arbitrary_window": ("Window", "opening", HERE_, "NUMBER", FLAT, Z),
    S + "arbitrary_window": ("Window", "opening", HERE_, "NUMBER", FREE, "DVec3_normalize(VECTOR)"),
    W + "vertical_opening": ("OpeningElement", "wall", AT, "{height}", "rectangle(M, b, {length}, THICK)", Z),
    W + "opening": ("OpeningElement", "wall", AT, "{height}", "rectangle(M, b, {length}, THICK)", NORM),
    W + "wall_window": ("Window", "opening", AT, "{height}", "rectangle(M, b, {width}, THICK)", "TOWARDS"),
    W + "window_with_opening": ("Window", "made", HERE_, "{height}", "rectangle(M, b, {width}, THICK)", "TOWARDS",
                                ("OpeningElement", "wall", AT, "{height}", "rectangle(M, b, {width}, THICK)", Z)),
    L + "rect_opening": ("OpeningElement", "slab", AT, "THICK", "rectangle(M, b, {length}, {height})", None),
    L + "horizontal_arbitrary_opening": ("OpeningElement", "slab", HERE_, "THICK", FLAT, Z),
    L + "arbitrary_opening": ("OpeningElement", "slab", HERE_, "THICK", FREE, None),
    L + "slab_window": ("Window", "opening", AT, "THICK", "rectangle(M, b, {width}, {height})", None),
    L + "horizontal_arbitrary_slab_window": ("Window", "opening", HERE_, "THICK", FLAT, Z),
    L + "arbitrary_slab_window": ("Window", "opening", HERE_, "THICK", FREE, None),
    L + "window_with_opening": ("Window", "made", HERE_, "THICK", "rectangle(M, b, {width}, {height})", None,
                                ("OpeningElement", "slab", AT, "THICK", "rectangle(M, b, {width}, {height})", None)),
    L + "horizontal_arbitrary_window_with_opening": ("Window", "made", HERE_, "THICK", FLAT, Z, ("OpeningElement", "slab", HERE_, "THICK", FLAT, Z)),
    L + "arbitrary_window_with_opening": ("Window", "made", HERE_, "THICK", FREE, None, ("OpeningElement", "slab", HERE_, "THICK", FREE, None)),
    "IfcProjectBuilder_new_site": ("Site", None, "same_place(P, VECTOR)", None),
    "IfcSiteBuilder_new_building": ("Building", "site", "same_place(P, VECTOR)", None),
    "IfcBuildingBuilder_new_storey": ("Storey", "building", "equal(P.z, NUMBER)", None),
    S + "roof": ("Roof", "given"),
    S + "shading_device": ("ShadingDevice", "given"),
}


class Shape(valid.Build):
    id = "c15"

    def __init__(self):
        super().__init__()
        w = self.w
        for n, a in (("f_mul", 2), ("f_div", 2), ("f_add", 2), ("half", 1), ("fl_0_0", 0), ("fl_0_5", 0), ("fl_1_0", 0), ("fl_2_0", 0)):
            w.ufn(n, ["F64"] * a, "F64")
        w.ufn("equal", ["F64", "F64"], "bool")
        for n in set(x[0] for x in LOOK.values()) | {"RelAssociatesMaterial"}:
            w.vty(T(n))
        for n in ("DVec2", "DVec3"):
            w.vty(T(n))
        w.ufn("f_sum", ["Seq<F64>"], "F64")
        w.ufn("DVec3_normalize", ["DVec3"], "DVec3")
        w.ufn("decoded", ["Txt"], "Txt")
        for f, field, like in (("placement_of", "object_placement", "Id"), ("shape_of", "representation", "ProductDefinitionShape"), ("name_of", "name", "String")):
            arms, ty = [], None
            for n in w.ifc_types:
                e, t = self.find(T(n), "v", field)
                if e and field == "name" and ".root." not in e:
                    continue
                if e and (ty is None or w.vty(t) == ty):
                    ty = w.vty(t)
                    arms.append("Any::%s(v) => %s" % (n, e))
            w.out.append("pub open spec fn %s(a: Any) -> %s { match a { %s, _ => arbitrary() } }\n" % (f, ty, ", ".join(arms)))
        for b in self.look(open(os.path.join(modb.VERUS, "shape.rs")).read()).split("\n\n"):
            m = re.search(r"(?m)^pub (?:open |broadcast )?(spec|proof) fn (\w+)", b)
            if m and m.group(1) == "spec":
                w.out.append(b + "\n")
            elif m:
                self.lemmas.append((m.group(2), b + "\n"))
        for b in re.split(r"(?m)^(?=#\[)", AXIOMS):
            if b:
                self.lemmas.append((None, b))

    parts_of_proof = ("rec_", "lem_loop", "lem_each", "lem_pipe", "lem_first")

    def reach(self, names):
        return modb.Gen.reach(self, names)

    def text(self, only=None, canary=()):
        return modb.Gen.text(self, only, canary)

    def obligations(self):
        got = self.reach([n for n, t in self.lemmas if n and (n.startswith("c15_") or n.startswith("c12_"))])
        return [n for n, t in self.lemmas if n and n in got]

    def find(self, t, e, field):
        """term and type of a field of an object"""
        w = self.w
        for i, f, ft in w.real_fields(t):
            g = e if w.erased(t) else "%s.%s" % (e, w.fname(f))
            if f == field:
                return g, ft
            if ft[0] == "T" and ft[1] in w.ix.structs and ft[1] not in ("IfcList",) and w.is_struct(ft):
                r = self.find(ft, g, field)
                if r[0]:
                    return r
        return None, None

    def look(self, text):
        """resolves the names of fields"""
        for k, (n, *path) in LOOK.items():
            at = targets.places(self.w, n, path)
            if not path and self.w.vty(T(n)) not in ("DVec2", "DVec3"):
                raise Unsupported("%s is more than its coordinates" % n)
            while True:
                m = re.search(r"\b%s\(" % k, text)
                if not m:
                    break
                a = calls(text[m.start():], k)[0]
                text = text[:m.start()] + re.sub(r"^v\b", lambda _: a, at) + text[m.end() + len(a) + 1:]
        return text

    # -------------------------------------------------------- steps
    def hints(self, items, m0, total, extra=""):
        out = []
        for _, n, vt, term in items:
            out.append("    let %s: %s = %s;\n" % (n, vt, term))
            m = re.fullmatch(r"ins\((.*), ([\w.>-]+)\)", term)
            if m:
                out.append("    lem_at(%s, %s);\n" % m.groups())
            if term.startswith("upd("):
                raise Unsupported("an object is changed")
            for a in calls(term, "map_order"):
                out.append("    lem_map_order(%s);\n" % a)
            m = re.fullmatch(r"(.*)\[([^\[\]]*)\]", term) if vt == "Any" else None
            if m:
                out.append("    assert(%s.dom().contains(%s) ==> at(%s, %s, %s));\n" % (m.group(1), m.group(2), m.group(1), m.group(2), n))
            for f in re.findall(r"\b((?:loop|each|pipe|first)\w*\d+)\(", term):
                if f in self.w.loops:
                    for a in calls(term, f):
                        if self.loop_lemma(f, total):
                            out.append("    lem_%s(%s);\n" % (f, a))
        return "".join(out)

    def loop_lemma(self, f, total):
        if f in self.lems:
            return self.lems[f]
        w, d = self.w, self.w.loops[f]
        self.lems[f] = None
        k, x = d["kind"], d["x"]
        ps = self.state(d, True)
        et = T("Vec", d["et"])
        sig = ", ".join(["s: " + w.vty(et)] + ["%s: %s" % (n, vt) for n, vt, t in ps])
        args = ["s"] + [n for n, _, _ in ps]
        call = "%s(%s)" % (f, ", ".join(args))
        lets = d["body"]
        inner = re.findall(r"    let (\w+): (.*?) = (.*);\n", lets)
        rest = ", ".join(["s.drop_first()"] + args[1:])
        first = "    let %s: %s = s.first();\n    assert(s[0] == s.first());\n" % (x, w.vty(d["et"]))
        here = "let %s = s[i]; " % x + "".join("let %s: %s = %s; " % y for y in inner)
        if k in ("loop", "each"):
            off = 1 if k == "loop" else 0
            m, at = None, None
            for i, (_, n, t) in enumerate(d["vs"]):
                g = self.map_of(t, n)
                if g:
                    m, at = g, re.sub(r"^%s\b" % n, "%s.%d" % (call, i + off), g)
            if not m:
                return None
            br = "".join("    if %s { lem_%s(%s); }\n" % (c, f, ", ".join(["s.drop_first()"] + list(b[1]) + list(d["caps"]))) for c, b in d["branches"] if b[0] == "rec")
            post = "forall|k: int, a: Any| #[trigger] at(%s, k, a) ==> at(%s, k, a)" % (m, at)
            body = "    if s.len() > 0 {\n%s%s%s    }\n" % (first, self.hints([("let",) + y for y in inner], m, total), br)
        elif k == "pipe":
            v = dict((y[0], y[2]) for y in inner).get(d["val"], d["val"])
            m = re.fullmatch(r"seq!\[(.*)\]", v)
            if not m:
                return None
            post = "%s.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] %s[i] == ({ %s%s }))" % (call, call, here, m.group(1))
            body = "    if s.len() > 0 {\n%s    lem_%s(%s);\n    assert forall|i: int| 0 < i < s.len() implies #[trigger] %s[i] == %s(%s)[i - 1] && s[i] == s.drop_first()[i - 1] by {}\n    }\n" % (
                first, f, rest, call, f, rest)
        elif k == "first":
            post = "%s is Some ==> (exists|i: int| 0 <= i < s.len() && ({ let x_ = #[trigger] s[i]; %s%s && %s->Some_0 == %s }))" % (call, here, d["cond"], call, d["val"])
            body = "    if s.len() > 0 {\n%s%s    if !(%s) {\n    lem_%s(%s);\n    if %s is Some {\n    let j = choose|i: int| 0 <= i < s.drop_first().len() && ({ let x_ = #[trigger] s.drop_first()[i]; %s%s && %s->Some_0 == %s });\n    assert(s[j + 1] == s.drop_first()[j]);\n    }\n    }\n    }\n" % (
                first, "".join("    let %s: %s = %s;\n" % y for y in inner), d["cond"], f, rest, call, here.replace("s[i]", "s.drop_first()[i]"), d["cond"], call, d["val"])
        else:
            return None
        self.lemmas.append((None, "pub proof fn lem_%s(%s)\n    ensures %s,\n    decreases s.len(),\n{\n%s}\n" % (f, sig, post, body)))
        self.lems[f] = True
        return True

    # -------------------------------------------------------- theorems
    def name_all(self, ins):
        """every statement about all elements of a sequence gets a name, so that the solver sees the same one everywhere"""
        w, old = self.w, ins.text
        for i, (how, n, vt, term) in enumerate(ins.items):
            m = re.fullmatch(r"forall\|i: int\| 0 <= i < (.*)\.len\(\) ==> (\w+)\(#\[trigger\] (.*)\[i\](, .*)?\)", term)
            d = m and w.loops.get(re.sub("^ok_", "", m.group(2)))
            if not d or m.group(1) != m.group(3):
                continue
            f, caps = m.group(2), [self.captured(d, c) for c in self.caps_of(m.group(2), d)]
            if "every_" + f not in self.lems:
                self.lems["every_" + f] = True
                w.out.append("pub open spec fn every_%s(s: %s%s) -> bool {\n    forall|i: int| 0 <= i < s.len() ==> %s(#[trigger] s[i]%s)\n}\n" % (
                    f, w.vty(T("Vec", d["et"])), "".join(", %s: %s" % (c, v) for c, v, _ in caps), f, "".join(", " + c for c, _, _ in caps)))
            new = "every_%s(%s%s)" % (f, m.group(1), m.group(4) or "")
            ins.text = ins.text.replace(" = %s;\n" % term, " = %s;\n" % new)
            ins.items[i] = (how, n, vt, new)
        w.out[w.out.index(old)] = ins.text
        self.idx = None

    def theorem(self, name, total=True, extra=(), placed=False):
        ins, w = self.insts[name], self.w
        self.name_all(ins)
        row = MADE[name]
        m0 = self.model(ins.params)
        args = ", ".join(n for n, _, _ in ins.params)
        sig = ", ".join("%s: %s" % (n, vt) for n, vt, _ in ins.params)
        many = len(ins.parts) > 1
        res = [("r.%d" % i if many else "r", what) for i, (what, vt) in enumerate(ins.parts[:-1])]
        ok = "r.%d" % (len(ins.parts) - 1) if many else "r"
        tys = dict(ins.muts)
        m1 = next(g for g in (self.map_of(ins.ret if what == "ret" else tys[what], e) for e, what in sorted(res, key=lambda x: x[1] == "ret")) if g)
        me = self.designated(ins.ret, next(e for e, what in res if what == "ret"), row[0])
        if me is None:
            raise Unsupported("no number of the %s made" % row[0])
        it = {i[1]: i[3] for i in ins.items}
        new = {}
        for n, t in it.items():
            m = re.fullmatch(r"ins\((.*), (\w+)\)", t)
            a = m and re.match(r"Any::(\w+)\(", it.get(m.group(2), ""))
            if a:
                new.setdefault(a.group(1), []).append(next((k for k, x in it.items() if x == "fresh(%s)" % m.group(1)), "fresh(%s)" % m.group(1)))
        self.new, self.it, self.ins = new, it, ins
        facts, end = ["(forall|k: int, x: Any| #[trigger] at(%s, k, x) ==> at(%s, k, x))" % (m0, m1)], []
        # what the result says, step by step
        last = re.findall(r"\bv\d+\b", ins.text.rsplit("\n}", 1)[0].rsplit("\n", 1)[-1].rsplit(", ", 1)[-1]) if many else []
        end += ["    assert(%s);\n" % x for x in last if any(i[1] == x and i[2] == "bool" for i in ins.items)]
        for n, t in it.items():
            m = re.fullmatch(r"f_sum\((\w+)\)", t)
            a = m and re.match(r"pipe\w*\(", it.get(m.group(1), ""))
            if a:
                s = calls(it[m.group(1)], it[m.group(1)].split("(")[0])[0]
                s = first_arg(s)
                b = self.w.loops[it[m.group(1)].split("(")[0]]
                base = re.search(r": Any = (.*)\[%s\];" % b["x"], b["body"])
                if base:
                    # the map may be one of the loop's captured values
                    okv = next((y for y, x in it.items() if "every_ok_%s(" % it[m.group(1)].split("(")[0] in x), None)
                    end.append("    if %s {\n    assert forall|i: int| 0 <= i < %s.len() implies at(%s, %s[i], #[trigger] %s[%s[i]]) by {\n%s    }\n    assert(%s =~= thicknesses(%s, %s));\n    }\n" % (
                        okv or "true", s, base.group(1), s, base.group(1), s, "", m.group(1), m1, s))
        wit = None
        if row[1] == "given":
            v = next(n for n, vt, t in ins.params if t is not None and mir.strip(t) == T(row[0]))
            facts.append("at(%s, %s, Any::%s(%s))" % (m1, me, row[0], v))
        elif len(row) > 6:
            o = row[6]
            if len(new.get(o[0], [])) != 1:
                raise Unsupported("no number of the %s made" % o[0])
            wit = new[o[0]][0]
            f1, e1 = self.made_like(o, "o", None, m0, m1)
            f2, e2 = self.made_like(row, me, "o", m0, m1)
            facts += f1 + f2
            end += ["    assert(%s);\n" % f for f in e1 + e2]
        else:
            f, e = self.made_like(row, me, None, m0, m1)
            facts += f
            end += ["    assert(%s);\n" % x for x in e]
        if row[1] != "given" and name.split("_")[-1] != "":
            n = [n for n, vt, t in ins.params if vt == "Txt"]
            if len(n) == 1:
                facts.append("name_of(%s[%s]) is Custom && name_of(%s[%s])->Custom_0 == decoded(%s)" % (m1, me, m1, me, n[0]))
        if wit:
            p = "made_%s(%s, o)" % (name, args)
            w.out.append("/// o: the opening made on the way\npub open spec fn made_%s(%s, o: int) -> bool {\n    let r = %s(%s);\n    %s\n}\n" % (name, sig, name, args, "\n    && ".join("(%s)" % f for f in facts)))
            end = ["    let o: int = %s;\n" % wit] + end + ["    assert(%s);\n" % f for f in facts] + ["    assert(%s);\n" % p]
            goal = ["(exists|o: int| #[trigger] %s)" % p]
        else:
            end += ["    assert(%s);\n" % f for f in facts]
            goal = facts
        text = "pub proof fn c15_%s(%s)\n    ensures\n        ({ let r = %s(%s);\n        %s ==> {\n        %s\n        } }),\n{\n%s%s    let r = %s(%s);\n    if %s {\n%s    }\n}\n" % (
            name, sig, name, args, ok, "\n        ".join("&&& " + f for f in goal), USES, self.hints(ins.items, m0, True), name, args, ok, "".join(end))
        self.lemmas.append(("c15_" + name, text))
        self.idx = None
        return text

    def arg(self, what):
        """term of an argument"""
        for n, vt, t in self.ins.params:
            s = mir.strip(t) if t is not None else None
            if s is None or s[0] != "T":
                continue
            if what == "VECTOR" and s == T("DVec3") or what == "NUMBER" and s == T("f64") or what == "TOWARDS" and s == T("Direction3D") or what == "USAGE" and s == T("TypedId", T("MaterialLayerSetUsage")) \
                    or what == "OPENING" and s == T("TypedId", T("OpeningElement")):
                return n
            if s[1].endswith("Parameter") and what in dict(self.w.fields(s)):
                return n if self.w.erased(s) else "%s.%s" % (n, self.w.fname(what))
        raise Unsupported("no argument for " + what)

    def own(self, suffix):
        for n, vt, t in self.ins.params:
            if re.search(r"(^|_)%s$" % suffix, n) and vt == "int":
                return n
        raise Unsupported("nothing is called " + suffix)

    def made_like(self, row, e, opening, m0, m1):
        """facts about the object e, and what is asserted to find them"""
        put = lambda x: re.sub(r"\{(\w+)\}", lambda m: self.arg(m.group(1)), re.sub(r"\b(VECTOR|NUMBER|TOWARDS)\b", lambda m: self.arg(m.group(1)), re.sub(r"\bM\b", lambda _: m1, x)))
        what, host, where, depth = row[:4]
        facts = ["%s[%s] is %s" % (m1, e, what)]
        hid = None
        if host is None:
            facts.append("located_alone(%s, %s)" % (m1, e))
        else:
            hid = opening or {"storey": lambda: self.own("storey"), "building": lambda: self.own("building"), "site": lambda: self.own("site"), "wall": lambda: self.own("wall_id"),
                              "slab": lambda: self.own("slab_id"), "opening": lambda: self.arg("OPENING")}[host]()
            facts.append("located(%s, %s, %s)" % (m1, e, hid))
        facts.append(put(re.sub(r"\bP\b", lambda _: "position(%s, %s)" % (m1, e), where)))
        if depth is None:
            return facts, []
        area, way = row[4], row[5]
        ctx = self.own("sub_context")
        inner = "extruded(%s, %s, %s, b, %s) && %s%s" % (m1, e, ctx, put(depth), put(area), " && towards(%s, b, %s)" % (m1, put(way)) if way else "")
        trig, us = "extruded(%s, %s, %s, b, %s)" % (m1, e, ctx, put(depth)), [None]
        var = "b: int"
        if "THICK" in inner:
            if not any(t.startswith("f_sum(") for t in self.it.values()):
                raise Unsupported("no sum of thicknesses")
            try:
                u = self.arg("USAGE")
            except Unsupported:
                u = "u"
                k = "wall" if any(n.endswith("_wall_id") for n, _, _ in self.ins.params) else "slab"
                books = next((n for n, vt, t in self.ins.params if t is not None and mir.strip(t) == T("IfcProjectBuilder")), None)
                if books is None:
                    raise Unsupported("no books")
                made = "made_of(%s.material_to_%s, %s, u)" % (books, k, self.own(k + "_id"))
                inner = made + " && " + inner
                trig = made + ", " + trig
                var = "u: int, b: int"
                deep = {"Option<int>": "->Some_0", "Option<Option<int>>": "->Some_0->Some_0"}
                us = [n + deep[x[2]] for n, t in self.it.items() if re.match(r"first\w*\(", t) for x in self.ins.items if x[1] == n and x[2] in deep]
                if not us:
                    raise Unsupported("no material is looked up")
            inner, trig = [x.replace("THICK", "thickness(%s, %s)" % (m1, u)) for x in (inner, trig)]
        facts.append("(exists|%s| #![trigger %s] %s)" % (var, trig, inner))
        bs = self.new.get("ExtrudedAreaSolid", [])
        if not bs:
            raise Unsupported("nothing is extruded")
        sub = lambda x, b, u: re.sub(r"\bu\b", lambda _: u or "u", re.sub(r"\bb\b", lambda _: b, x))
        show = "%s" % " || ".join("shown(%s, %s, %s, %s, %d)" % (m1, e, ctx, b, i) for b in bs for i in (0, 1, 2))
        alts = ["(%s)" % sub(inner, b, u) for b in bs for u in us]
        return facts, [show, " || ".join(alts)]

    def designated(self, t, e, kind):
        w, t = self.w, mir.strip(t)
        if t == T("TypedId", T(kind)):
            return e
        if t[0] == "T" and t[1] in w.ix.structs and t[1] not in w.ifc_types and not w.erased(t):
            for i, n, ft in w.real_fields(t):
                if mir.strip(ft) == T("TypedId", T(kind)):
                    return "%s.%s" % (e, w.fname(n))
        return None


def first_arg(s):
    d = 0
    for i, c in enumerate(s):
        d += (c in "([{<") - (c in ")]}")
        if c == ">" and s[i - 1] != "-":
            d -= 1
        if c == "," and d == 0:
            return s[:i]
    return s
