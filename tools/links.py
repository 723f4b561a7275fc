"""C14: which relations the builders leave behind.  For each builder: what it has on its books; registering an element adds
exactly its own relations to the books, closing the builder moves exactly the books into the model, nothing else relates."""
import os
import re

import mir
import modb
import targets
import valid
from rs import T, Unsupported
from valid import MAP, all_of, calls, par

# kind of relation -> (number, relating attribute, related attribute, is the latter a list)
RELS = {
    "RelContainedInSpatialStructure": (1, ["relating_structure"], ["related_elements"], True),
    "RelAggregates": (2, ["relating_object"], ["related_objects"], True),
    "RelDefinesByType": (3, ["relating_type"], ["related_objects"], True),
    "RelAssociatesMaterial": (4, ["relating_material"], ["rel_associates", "related_objects"], True),
    "RelVoidsElement": (5, ["relating_building_element"], ["related_opening_element"], False),
    "RelFillsElement": (6, ["relating_opening_element"], ["related_building_element"], False),
    "RelDefinesByProperties": (7, ["relating_property_definition"], ["related_objects"], True),
    "RelDeclares": (8, ["relating_context"], ["related_definitions"], True),
}
OWN = {"IfcProjectBuilder": ("Project", "Site"), "IfcSiteBuilder": ("Site", "Building"), "IfcBuildingBuilder": ("Building", "Storey"),
       "IfcStoreyBuilder": ("Storey", "Space")}
ELEMENTS = ("Wall", "Slab", "Roof", "Window", "ShadingDevice", "Door")
TYPES = ("WallType", "SlabType", "RoofType", "WindowType", "ShadingDeviceType", "SpaceType", "DoorType")
MATERIALS = ("MaterialConstituentSet", "MaterialLayerSetUsage", "MaterialLayerSet", "Material")
HOLDERS = ("IfcWallBuilder", "IfcSlabBuilder")
# what a function makes: the relations of this object are added to the books
MAKES = [(r"IfcStoreyBuilder_(vertical_wall|vertical_arbitrary_wall|arbitrary_wall)$", "Wall"),
         (r"IfcStoreyBuilder_(vertical_slab|horizontal_arbitrary_slab|arbitrary_slab)$", "Slab"),
         (r"IfcStoreyBuilder_(horizontal_arbitrary_roof|roof)$", "Roof"),
         (r"IfcStoreyBuilder_(vertical_shading_device|shading_device)$", "ShadingDevice"),
         (r"IfcStoreyBuilder_space$", "Space"),
         (r"(IfcStoreyBuilder|IfcWallBuilder|IfcSlabBuilder)_(\w*_)?window(_with_opening)?$", "Window"),
         (r"Ifc(Wall|Slab)Builder_(\w+_)?opening$", "OpeningElement"),
         (r"IfcStoreyBuilder_(wall|slab|roof|shading_device)_type$", "type"),
         (r"IfcProjectBuilder_new_site$", "Site"),
         (r"IfcSiteBuilder_new_building$", "Building"),
         (r"IfcBuildingBuilder_new_storey$", "Storey")]
CLOSES = {"IfcSiteBuilder_drop": "IfcSiteBuilder", "IfcBuildingBuilder_drop": "IfcBuildingBuilder", "IfcStoreyBuilder_drop": "IfcStoreyBuilder",
          "IfcProjectBuilder_build": "IfcProjectBuilder"}
SAME = "(forall|q: int, x: int, y: int| #[trigger] linked(%s, q, x, y) <==> linked(%s, q, x, y)%s)"

LINK = """pub proof fn lem_link_N(m: Map<int, Any>, v: VT)
    ensures forall|q: int, x: int, y: int| #[trigger] linked(ins(m, Any::N(v)), q, x, y) <==> linked(m, q, x, y) || (BOND),
{
    reveal(bonded);
    lem_linked(m, Any::N(v));
}
"""
RELINK = """pub proof fn lem_relink_N(m: Map<int, Any>, k: int, v: VT)
    ensures kd(m, k) == K_N ==> forall|q: int, x: int, y: int| #[trigger] linked(upd(m, k, Any::N(v)), q, x, y) <==> linked(m, q, x, y),
{
    reveal(bonded);
    if kd(m, k) == K_N { lem_relinked(m, k, Any::N(v)); }
}
"""


class Links(valid.Build):
    id, start = "c14", "    lem_empty();\n    lem_unlinked();\n"

    def __init__(self):
        super().__init__()
        w = self.w
        self.linking, self.bonds = set(), {}
        arms = []
        for n, (q, a, b, lst) in RELS.items():
            if n not in w.ifc_types:
                continue
            w.vty(T(n))
            ea, eb = targets.places(w, n, a), targets.places(w, n, b)
            self.bonds[n] = "q == %d && x == %s && %s" % (q, ea, "%s.contains(y)" % eb if lst else "y == " + eb)
            self.bonds_at = None
            arms.append("Any::%s(v) => %s" % (n, self.bonds[n]))
            if q == 4:
                w.out.append("pub open spec fn relating(v: %s) -> int { %s }\n" % (w.vty(T(n)), ea))
                w.out.append("pub open spec fn related(v: %s) -> Seq<int> { %s }\n" % (w.vty(T(n)), eb))
        w.out.append("/// the relation a is of kind q and relates x and y\n#[verifier::opaque]\npub open spec fn bonded(a: Any, q: int, x: int, y: int) -> bool { match a { %s, _ => false } }\n" % ", ".join(arms))
        for b in open(os.path.join(modb.VERUS, "links.rs")).read().split("\n\n"):
            m = re.search(r"(?m)^pub (?:open |broadcast )?(spec|proof) fn (\w+)", b)
            if m and m.group(1) == "spec":
                w.out.append(b + "\n")
            elif m:
                self.lemmas.append((m.group(2), b + "\n"))
        self.books = {t: self.book(t) for t in OWN}

    # -------------------------------------------------------- the books of a builder
    def book(self, t):
        """own number, [(field, its Verus type)] and what they say"""
        w, own, fs, say, mats = self.w, None, [], [], []
        part = OWN[t][1]
        for i, f, ft in w.real_fields(T(t)):
            n = w.fname(f)
            k = self.shape(ft)
            if ft == T("TypedId", T(OWN[t][0])):
                own = n
            elif k and k[0] == "set" and k[1] == part:
                say.append("q == 2 && x == OWN && %s.contains(y)" % n)
            elif k and k[0] == "set" and k[1] in ELEMENTS:
                say.append("q == 1 && x == OWN && %s.contains(y)" % n)
            elif k and k[0] == "groups" and k[1] in TYPES:
                say.append("q == 3 && %s.dom().contains(x) && %s[x].contains(y)" % (n, n))
            elif k and k[0] == "map" and k[1] == "OpeningElement" and k[2] in ("Wall", "Slab"):
                say.append("q == 5 && %s.dom().contains(y) && %s[y] == x" % (n, n))
            elif k and k[0] == "map" and k[1] == "OpeningElement":
                say.append("q == 6 && %s.dom().contains(x) && %s[x] == y" % (n, n))
            elif k and k[0] == "rels":
                say.append("q == 4 && of_material(%s, x, y)" % n)
                mats.append(n)
            else:
                continue
            fs.append((n, w.vty(ft)))
        if own is None or not say:
            raise Unsupported("no books of " + t)
        fs = [(own, "int")] + [x for x in fs if x[0] != own]
        w.out.append("/// what %s has on its books\npub open spec fn book_%s(%s, q: int, x: int, y: int) -> bool {\n    %s\n}\n" % (
            t, t, ", ".join("%s: %s" % f for f in fs), "\n    || ".join(par(s.replace("OWN", own)) for s in say)))
        return own, [f for f, _ in fs], mats

    def shape(self, t):
        t = mir.strip(t)

        def typed(x):
            x = mir.strip(x)
            return x[2][0][1] if x[0] == "T" and x[1] == "TypedId" and x[2][0][0] == "T" else None
        if t[0] != "T":
            return None
        if t[1] in ("HashSet", "BTreeSet", "Vec") and typed(t[2][0]):
            return "set", typed(t[2][0])
        if t[1] in ("HashMap", "BTreeMap") and len(t[2]) > 1:
            k, v = mir.strip(t[2][0]), mir.strip(t[2][1])
            if typed(k) and v == T("RelAssociatesMaterial"):
                return "rels", typed(k)
            if typed(k) and typed(v):
                return "map", typed(k), typed(v)
            if typed(k) and self.shape(v) and self.shape(v)[0] == "set":
                return "groups", typed(k), self.shape(v)[1]
        return None

    # -------------------------------------------------------- steps
    def link(self, n, how):
        if (n, how) in self.linking:
            return
        self.linking.add((n, how))
        t = (LINK if how == "link" else RELINK).replace("_N(", "_%s(" % n).replace("::N(", "::%s(" % n).replace("K_N", "K_" + n)
        t = re.sub(r"\bVT\b", lambda m: self.w.vty(T(n)), t).replace("(BOND)", "(%s)" % self.bonds.get(n, "false"))
        self.lemmas.append(("lem_%s_%s" % (how, n), t))
        self.idx = None

    def hint(self, n, term, maps, total):
        out = super().hint(n, term, maps, total)
        m = re.fullmatch(r"ins\((.*), ([\w.>-]+)\)", term)
        if m:
            x = self.object(m.group(2))
            if not x:
                raise Unsupported("an object of any type is added")
            self.link(x[0], "link")
            out.append("    lem_link_%s(%s, %s);\n" % (x[0], m.group(1), x[1]))
        m = re.fullmatch(r"upd\((.*), ([^,]*), ([\w.]+)\)", term)
        if m:
            x = self.object(m.group(3))
            if not x or x[0] in RELS:
                raise Unsupported("a relation is changed")
            self.link(x[0], "relink")
            out.append("    lem_relink_%s(%s, %s, %s);\n" % (x[0], m.group(1), m.group(2), x[1]))
        for m in re.finditer(r"([\w.<>:()]+)\.push\((\w+)\)", term):
            if self.w.vty_of.get(n, "Seq<int>") == "Seq<int>" and self.ints(n, term):
                out.append("    lem_push(%s, %s);\n" % m.groups())
        if "Seq::<int>::empty()" in term:
            out.append("    lem_none(Seq::<int>::empty());\n")
        if term.startswith("set_order(") and self.vt(n) == "Seq<int>":
            out.append("    lem_members(%s);\n" % calls(term, "set_order")[0])
        if term.startswith("map_order("):
            k = {"Seq<(int, Set<int>)>": "groups", "Seq<(int, int)>": "pairs"}.get(self.vt(n))
            if k:
                out.append("    lem_%s(%s);\n" % (k, calls(term, "map_order")[0]))
        if term.startswith("value_order(") and self.vt(n) == "Seq<RelAssociatesMaterial>":
            out.append("    lem_bonds(%s);\n" % calls(term, "value_order")[0])
        if term.startswith("enumerated("):
            out.append("    lem_enumerated(%s);\n" % calls(term, "enumerated")[0])
        m = re.fullmatch(r"(\w+) \+ (\w+)", term)
        if m and self.vt(n) == "Seq<RelAssociatesMaterial>":
            out.append("    lem_joined(%s, %s);\n" % m.groups())
        return out

    def hints(self, items, m0, total, extra=""):
        self.vts = dict(getattr(self, "vts", {}), **{i[1]: i[2] for i in items})
        return super().hints(items, m0, total, extra)

    def vt(self, n):
        return self.vts.get(n)

    def ints(self, n, term):
        return self.vt(n) == "Seq<int>"

    # -------------------------------------------------------- loops
    def inserts(self, f, seen=()):
        """types of the objects which a loop adds"""
        d = self.w.loops.get(f)
        if d is None or f in seen:
            return set()
        text = d["body"] + str(d["branches"] if "branches" in d else "") + str(d.get("val", ""))
        got = set(re.findall(r"Any::(\w+)\(", text)) if "ins(" in text else set()
        for g in re.findall(r"\b(?:ok_)?((?:loop|each|pipe|first|pred)\w*\d+)\(", text):
            got |= self.inserts(g, seen + (f,))
        return got

    def relates(self, et, s):
        """what a loop over elements of type et relates, s the elements"""
        t, e = mir.strip(et), s
        if t == T("RelAssociatesMaterial"):
            return "in_bonds(%s, q, x, y)" % e, None
        if t[0] == "tuple" and len(t[1]) == 2 and t[1][0][0] == "T" and t[1][0][1] in ("usize", "u64", "i32"):
            t, e = mir.strip(t[1][1]), "tails(%s)" % e
        if t[0] == "tuple" and len(t[1]) == 2:
            k = self.shape(T("HashMap", *t[1]))
            if k and k[0] == "groups":
                return "q == 3 && in_groups(%s, x, y)" % e, e
            if k and k[0] == "map" and k[1] == "OpeningElement":
                return ("q == 5 && in_pairs(%s, y, x)" if k[2] in ("Wall", "Slab") else "q == 6 && in_pairs(%s, x, y)") % e, e
        return None

    def more(self, f, d, ps, rs, m, m2):
        out = []
        if m2 != m:
            if self.inserts(f) & set(RELS):
                r = self.relates(d["et"], "s")
                if r:
                    out.append(SAME % (m2, m, " || " + r[0]))
            else:
                out.append(SAME % (m2, m, ""))
        k = mir.strip(d["et"])
        if k == modb.Id or k[0] == "T" and k[1] == "TypedId":
            for (n, _, t), (e, _, _) in zip(ps, rs):
                t = mir.strip(t) if t is not None else ("",)
                if t[0] == "T" and t[1] in RELS and RELS[t[1]][3]:
                    a, b = targets.places(self.w, t[1], RELS[t[1]][1]), targets.places(self.w, t[1], RELS[t[1]][2])
                    put = lambda x, v: re.sub(r"^v\b", lambda _: v, x)
                    out.append("%s == %s" % (put(a, e), put(a, n)))
                    out.append("(forall|y: int| #[trigger] %s.contains(y) <==> %s.contains(y) || s.contains(y))" % (put(b, e), put(b, n)))
        return out

    def unfold(self, f, d):
        k, out = mir.strip(d["et"]), ""
        if k == modb.Id or k[0] == "T" and k[1] == "TypedId":
            out += "    lem_parts(s);\n    lem_none(s);\n"
        r = self.relates(d["et"], "s")
        if r and r[0].startswith("in_bonds"):
            out += "    reveal(bonded);\n"
        if r and r[1] and r[1].startswith("tails("):
            out += "    lem_tails(s);\n"
        return out

    # -------------------------------------------------------- theorems
    def builders(self, t, e, seen=()):
        """[(builder, term of a field)] inside a value e of type t"""
        w, t = self.w, mir.strip(t)
        if t[0] == "tuple":
            return [x for i, y in enumerate(t[1]) for x in self.builders(y, "%s.%d" % (e, i) if len(t[1]) > 1 else e, seen)]
        if t[0] != "T" or t in seen or t[1] not in w.ix.structs or t[1] in w.ifc_types or w.is_var(t):
            return []
        out = [(t[1], lambda f, e=e: "%s.%s" % (e, f), e)] if t[1] in OWN else []
        er = w.erased(t)
        for i, n, ft in w.real_fields(t):
            out += self.builders(ft, e if er else "%s.%s" % (e, w.fname(n)), seen + (t,))
        return out

    def arguments(self, params):
        """the same for the arguments, whose fields may be parameters of their own"""
        out = {}
        for n, vt, t in params:
            if t is not None:
                for b, f, _ in self.builders(t, n):
                    out.setdefault(b, f)
        names = [n for n, _, _ in params]
        for b, (own, fs, mats) in self.books.items():
            for n in names:
                if n.endswith("_" + own) and b not in out:
                    p = n[:-len(own)]
                    if all(p + f in names for f in fs):
                        out[b] = lambda f, p=p: p + f
        return out

    def call(self, b, f, tail="q, x, y"):
        own, fs, mats = self.books[b]
        return "book_%s(%s, %s)" % (b, ", ".join(f(x) for x in fs), tail)

    def designated(self, t, e, kind):
        """term of the number of an object of a kind in a value"""
        w, t = self.w, mir.strip(t)
        if t == T("TypedId", T(kind)):
            return e
        if t[0] == "T" and t[1] in w.ix.structs and t[1] not in w.ifc_types and not w.erased(t):
            for i, n, ft in w.real_fields(t):
                if mir.strip(ft) == T("TypedId", T(kind)):
                    return "%s.%s" % (e, w.fname(n))
        return None

    def says(self, name, m0, m1, res):
        ins, w = self.insts[name], self.w
        args = self.arguments(ins.params)
        pre, post, end = [], [], ""
        for b, f in args.items():
            pre += ["filed(%s)" % f(n) for n in self.books[b][2]]
        # what is added: to the books of a builder, and to the model
        add = {b: [] for b in OWN}
        kept = {b: [] for b in OWN}      # what of the books stays, where not all does
        model, wit = "", None
        ps = {}
        for n, vt, t in ins.params:
            t = t and mir.strip(t)
            if t and t[0] == "T" and t[1] == "TypedId" and t[2][0][0] == "T":
                ps.setdefault(t[2][0][1], n)
        makes = next((k for r, k in MAKES if re.match(r, name)), None)
        ret = res[0][0] if ins.parts[0][0] == "ret" else None
        if makes:
            if makes == "type":
                makes = mir.strip(ins.ret)[2][0][1]
            me = self.designated(ins.ret, ret, makes)
            if me is None:
                raise Unsupported("no number of the %s made" % makes)
            post += ["kd(%s, %s) == -1" % (m0, me), "kd(%s, %s) == K_%s" % (m1, me, makes)]
            own = lambda b: args[b](self.books[b][0])
            for b, (o, part) in OWN.items():
                if part == makes:
                    add[b].append("q == 2 && x == %s && y == %s" % (own(b), me))
            if makes in ELEMENTS:
                add["IfcStoreyBuilder"].append("q == 1 && x == %s && y == %s" % (own("IfcStoreyBuilder"), me))
            if makes in TYPES:
                pass
            elif makes + "Type" in TYPES:
                add["IfcStoreyBuilder"].append("q == 3 && x == %s && y == %s" % (ps[makes + "Type"], me))
            for k in MATERIALS:
                if k in ps:
                    add["IfcProjectBuilder"].append("q == 4 && x == %s && y == %s" % (ps[k], me))
            host = next((ps2 for ps2 in (n for n, _, _ in ins.params) if ps2.endswith(("_wall_id", "_slab_id"))), None)
            if makes == "OpeningElement":
                add["IfcStoreyBuilder"].append("q == 5 && x == %s && y == %s" % (host, me))
            if makes == "Window":
                o = ps.get("OpeningElement")
                if o is None:
                    o = wit = "o"
                    add["IfcStoreyBuilder"].append("q == 5 && x == %s && y == o" % host)
                else:
                    kept["IfcStoreyBuilder"].append("!(q == 6 && x == %s)" % o)
                add["IfcStoreyBuilder"].append("q == 6 && x == %s && y == %s" % (o, me))
        if name in CLOSES:
            model = " || " + self.call(CLOSES[name], args[CLOSES[name]])
        if name == "IfcStoreyBuilder_relate_properties_object":
            n = [n for n, _, _ in ins.params if re.fullmatch(r"a\d+", n)]
            model = " || q == 7 && x == %s && y == %s" % (ps["PropertySet"], next(i for i in n if i != ps["PropertySet"]))
        if name == "IfcWallPropertiesBuilder_drop":
            wit = "p"
            model = " || q == 7 && x == p && y == %s" % next(n for n, _, _ in ins.params if n.endswith("_wall_id"))
        facts = []
        found = [(b, f, e) for e, vt, t in res for b, f, e in self.builders(t, e)]
        for b, f, e in found:
            own, fs, mats = self.books[b]
            new = (OWN[b][0] == makes)
            was = "" if new or b not in args else self.call(b, args[b])
            if kept[b] and was:
                was = "%s && %s" % (was, " && ".join(kept[b]))
            alts = [par(x) for x in ([was] if was else []) + ([] if new else add[b])]
            facts.append("(forall|q: int, x: int, y: int| #[trigger] %s <==> %s)" % (self.call(b, f), " || ".join(alts) or "false"))
            if b in args and not new:
                post.append("%s == %s" % (f(own), args[b](own)))
            post += ["filed(%s)" % f(n) for n in mats]
        if m1 != m0:
            facts.append(SAME % (m1, m0, model))
        elif name == "IfcProjectBuilder_build":
            if self.printed:
                end += "    assert(%s);\n" % (SAME % (self.printed + ".data", m0, model))
            facts.append("(exists|ifc: IFC| %s == #[trigger] show_IFC(ifc) && %s)" % (ret, SAME % ("ifc.data", m0, model)))
        if wit:
            # the number of the object made on the way
            mine = {"o": "OpeningElement", "p": "PropertySet"}[wit]
            it = {i[1]: i[3] for i in ins.items}
            base = next((m.group(1) for t in it.values() for m in [re.fullmatch(r"ins\((.*), (\w+)\)", t)] if m and it.get(m.group(2), "").startswith("Any::%s(" % mine)), None)
            num = next((n for n, t in it.items() if t == "fresh(%s)" % base), None)
            if num is None:
                raise Unsupported("no number of the %s made" % mine)
            sig = ", ".join("%s: %s" % (n, vt) for n, vt, _ in ins.params)
            al = ", ".join(n for n, _, _ in ins.params)
            facts = ["kd(%s, %s) == K_%s" % (m1, wit, mine), "kd(%s, %s) == -1" % (m0, wit)] + facts
            w.out.append("/// %s: the number of the %s made on the way\npub open spec fn on_the_way_%s(%s, %s: int) -> bool {\n    let r = %s(%s);\n    %s\n}\n" % (
                wit, mine, name, sig, wit, name, al, "\n    && ".join(facts)))
            end = "".join("    assert(%s);\n" % f.replace("\n", " ") for f in facts)
            end = "    let %s: int = %s;\n%s    assert(on_the_way_%s(%s, %s));\n" % (wit, num, end, name, al, wit)
            facts = ["exists|%s: int| #[trigger] on_the_way_%s(%s, %s)" % (wit, name, al, wit)]
        return pre, post + facts, end
