"""Writes tools/attrs.json: constructors and setters, and what each attribute of their result is to be."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(100000)
if os.path.exists('/tmp/b2.py') and '-c' in sys.argv:
    exec(open('/tmp/b2.py').read())
import mir, attrs
from rs import T
from targets import implementors, bounds, variants, ranging
g = attrs.Attrs(); w = g.w
impls = implementors(w)
TR = [k for k in impls if k.endswith("Builder")]
cand = []
for i in w.impls:
    if i["derived"] or i["ty"][0] != "T" or i["trait"]: continue
    for n, f in sorted(i["fns"].items()):
        if f.ret is None or not f.params or "test" in f.name or "ifc_builder" in f.name or "parser" in f.name: continue
        ty = i["ty"][1]
        if ty in ("DataMap", "IFC", "IfcExtractor", "IdOr", "TypedId", "AxisMappings", "TransformParameter"): continue
        try: gens = ranging(w, f)
        except AttributeError: cand.append((ty, n, None, {})); continue
        for v in variants(gens, bounds(w, i, n), impls):
            cand.append((ty, n, None, {a: b for a, b in v if b}))
for fs in w.by_last.values():
    for f in fs:
        segs = f.name.split("::")
        if len(segs) >= 2 and segs[-2] in TR and "<impl" not in f.name and f.ret is not None and not segs[-1].endswith("_mut"):
            for t in sorted(impls[segs[-2]]):
                cand.append((t, segs[-1], segs[-2], {"T": "T"} if segs[-2] == "RelAssociatesBuilder" else {}))
# not constructors or setters, or with postconditions of their own (C12, C15)
SKIP = re.compile(r"^(LocalPlacement_new_relative|PolyLine_points|PolyLine_from|UnitAssigment_new|ShapeRepresentation_(items|items_of|parent_context)|Product_(direction|local_placement|shapes)|RelAssociatesMaterial_is_related_to|ProductDefinitionShape_new_\w*shape|IfcGloballyUniqueId_.*)")
# attribute -> rule, where the name doesn't say it; * stands for any function of the type
HAND = {
    "Organization_new": {"id": "text:1", "description": "text:3"},
    "SiUnit_new": {"dimensions": "inherited"},
    "GeometricRepresentationContext_new": {"context_identifier": "is:Custom/Body", "context_type": "is:Custom"},
    "MaterialLayer_new": {"is_ventilated": "bool:2"}, "MaterialProperties_properties": {"properties": "push:2"},
    "OwnerHistory_owning_user": {"owning_user": "arg:2", "last_modifying_user": "same:owning_user"},
    "OwnerHistory_owning_application": {"owning_application": "arg:2", "last_modifying_application": "same:owning_application"},
    "Material_new": {"material": "arg:1"}, "MaterialLayerSet_name": {"layer_set_name": "arg:2"},
    "Axis2D_new": {"location": "point:1"}, "Axis3D_new": {"location": "point:1"},
    "LocalPlacement_relative_to": {"placement_rel_to": "arg:2"},
    "IndexedPolyCurve_new": {"points": "new:1"},
    "CartesianTransformationOperator3DnonUniform_new": {"axis_x": "arg:2.0", "axis_y": "arg:2.1", "axis_z": "arg:2.2", "scale": "arg:3.0", "scale_y": "arg:3.1", "scale_z": "arg:3.2"},
    "Transform3DBase_new": {"axis_x": "arg:2.0", "axis_y": "arg:2.1", "axis_z": "arg:2.2"},
    "CartesianTransformationOperator3D_new": {"axis_x": "arg:2.0", "axis_y": "arg:2.1", "axis_z": "arg:2.2"},
    "GeometricRepresentationSubContext_derive": {"parent_context": "arg:1", "context_identifier": "is:Custom/Body", "context_type": "is:Custom", "coord_space_dimension": "inherited", "precision": "inherited",
                                                 "world_coord_system": "inherited", "true_north": "inherited"},
    "ShapeRepresentation_new": {"context_of_items": "arg:1", "representation_identifier": "arg:2", "representation_type": "arg:3"},
    "RelAggregates_new": {"relating_object": "arg:2", "related_objects": "arg:3"},
    "RelAssociatesMaterial_new": {"relating_material": "arg:2"},
    "RelContainedInSpatialStructure_relate_structure": {"related_elements": "push:2"},
    "RelDeclares_new": {"relating_context": "arg:2"}, "RelDeclares_relate_definition": {"related_definitions": "push:2"},
    "RelDefinesByProperties_new": {"relating_property_definition": "arg:2"}, "RelDefinesByProperties_relate_obj": {"related_objects": "push:2"},
    "RelDefinesByType_relate_obj": {"related_objects": "push:2"},
    "RelFillsElement_new": {"related_building_element": "arg:3"}, "RelVoidsElement_new": {"related_opening_element": "arg:3"},
    "Project_add_context": {"representation_context": "push:2"}, "Project_unit_assignment": {"units_in_context": "arg:2"},
    "RelAssociatesMaterial_relate_push": {"related_objects": "push:2"}, "RelAssociatesMaterial_relate_obj": {"related_objects": "push:2"},
}
# order in which the objects handed over by value are stored, where it isn't that of the attributes
BASE = ["axis_x", "axis_y", "local_origin", "axis_z"]
ORDER = {}
out, todo = [], []
for ty, n, tr, env in cand:
    name = "_".join([ty, n] + sorted(env.values()))
    if tr == "RelAssociatesBuilder": name = name.replace("_T", "")
    if SKIP.match(name) or any(x["name"] == name for x in out): continue
    r = g.want(name, T(ty), n, tr, env={k: T(v) for k, v in env.items()})
    if r is None:
        todo.append((name, g.why[name])); continue
    m = w.find_method(tr, n, T(ty)); fn = m[0] if m else w.trait_default(tr, n)
    nm = {int(b): a for a, b in re.findall(r"debug (\w+) => _(\d+);", fn.text)}
    on = "ret" if w.vty(r.ret) != "()" else "a1"
    rt = mir.strip(r.ret if on == "ret" else dict(r.muts)["a1"])
    ls = g.leaves(rt)
    ps = [(a, b, nm.get(int(a[1:]))) for a, b, t in r.params if re.match(r"a\d+$", a) and b != "IFC"]
    names = {p[1:] or l for l, p, t in ls}
    keeping = [p for p in ps if p[1] == w.vty(rt)]
    hand = HAND.get(name) or HAND.get("%s_%s" % (ty, n)) or HAND.get("*_" + n) or {}
    into, used = {}, set()
    for l, p, t in ls:
        k = p[1:] or l
        opt = mir.strip(t)[0] == "T" and mir.strip(t)[1] == "OptionalParameter"
        rule = hand.get(k) or hand.get(l)
        if rule is None and keeping:
            x = [q for q in ps if q not in keeping]
            lname = l.removesuffix("_")
            if len(x) == 1 and (n == lname and True):
                rule = ("push:" if re.search(r"add_", n) else "arg:") + x[0][0][1:]
            elif len(x) == 1 and n.startswith("add_") and re.fullmatch("(material_)?" + n[4:] + "e?s", lname):
                rule = "push:" + x[0][0][1:]
            else: rule = "keep"
        elif rule is None:
            for q in ps:
                if q[2] == l.removesuffix("_") or q[2] == l: rule = "arg:" + q[0][1:]
                elif k.startswith(str(q[2]) + ".") : rule = "in:%s.%s" % (q[0], k[len(q[2]) + 1:])
            if rule is None:
                rule = "any" if l == "global_id" else "omitted" if opt else "empty" if w.vty(t).startswith("Seq<") else "?"
        into[k] = rule
        m2 = re.match(r"(?:arg|push|point|seq|new|bool|text):(\d+)|in:a(\d+)", rule)
        if m2: used.add(m2.group(1) or m2.group(2))
    left = [q for q in ps if q not in keeping and q[0][1:] not in used]
    if "?" in into.values() or left or (keeping and not used):
        todo.append((name, [q for q in ps], {k: v for k, v in into.items()}, [(p, w.vty(t)) for l, p, t in ls])); continue
    x = {"name": name, "ty": ty, "fn": n, "trait": tr, "env": env, "into": into}
    if on != "ret": x["on"] = on
    out.append(x)
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "attrs.json"), "w"), indent=0)
print(len(out), "rows;", len(todo), "open")
for t in todo: print(*[str(x)[:600] for x in t])
