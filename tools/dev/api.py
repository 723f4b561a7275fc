"""Writes tools/api.json: the functions which build models, with the types their parameters range over."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(100000)
if os.path.exists('/tmp/b2.py') and '-c' in sys.argv:
    exec(open('/tmp/b2.py').read())
import itertools
import mir, valid
from rs import T
SKIP = re.compile(r"^(check_\w+|verify_id_types|mappings|fmt|clone|from_str|parse|shape|get_ifc|get_id|ifc|sub_context|from|main|downcast_\w*|assert_\w+|dim|slab|wall|window|opening|opening_thickness|window_thickness|slab_direction|wall_direction|calculate_material_layer_set_thickness|builder_transform|related_type|type_relation)$")
g = valid.Build(); w = g.w
from targets import implementors, bounds, variants, ranging
impls = implementors(w)
# wider in the types than what the attribute of the relation admits
NOT = re.compile(r"^(RelFillsElement_new_(Roof|ShadingDevice|Space|Storey|Site)|RelVoidsElement_new_(Door|Roof|ShadingDevice|Space|Storey|Site)|PolyLine_(points|from.*)|ShapeRepresentation_items.*|Product_.*|AxisMappings_.*)$")
# these panic by design: an inherited list can't be added to; an opening asks for the material layers of its host
PARTIAL = r"IfcWallBuilder_opening$|_(add_role|add_address)$|_(vertical_opening|rect_opening|arbitrary_opening|horizontal_arbitrary_opening|wall_window|slab_window|window_with_opening|arbitrary_window_with_opening|horizontal_arbitrary_window_with_opening|arbitrary_slab_window|horizontal_arbitrary_slab_window)$"
out = []
for i in w.impls:
    if i["derived"] or i["ty"][0] != "T" or "impl_test" in str(i): continue
    ty = i["ty"][1]
    for n, f in sorted(i["fns"].items()):
        if SKIP.match(n) and not (n == "from" and ty == "PolyLine") and not (n == "opening" and ty == "IfcWallBuilder") or f.ret is None or "test" in f.name: continue
        ps = str(f.params) + " " + str(f.ret)
        build = "ifc_builder" in f.name
        if not build and not re.search(r"IFC\b", str(f.params)): continue
        if ty in ("DataMap", "IFC", "IfcExtractor"): continue
        if i["trait"] and i["trait"][0] in ("IFCParse", "Display", "From", "Into", "IfcVerify", "FromStr", "Debug", "Deref", "DerefMut", "Default"): continue
        gens = ranging(w, f)
        for v in variants(gens, bounds(w, i, n), impls):
            env = {a: b for a, b in v if b}
            out.append({"ty": ty, "fn": n, "trait": i["trait"][0] if i["trait"] else None, "env": env})
for tr, meths in (("ContextBuilder", ("add_context", "unit_assignment")), ("ProductBuilder", ("object_placement", "representation")), ("RelAssociatesBuilder", ("relate_push", "relate_obj")), ("RootBuilder", ("owner_history",))):
    for t in sorted(impls[tr]):
        for n in meths:
            out.append({"ty": t, "fn": n, "trait": tr, "env": {"T": "T"} if tr == "RelAssociatesBuilder" else {}})
for t in sorted(impls["TransformableType"]):
    out.append({"ty": "IfcStoreyBuilder", "fn": "transform", "trait": None, "env": {"T": t}})
out = [o for o in out if not (o["fn"] == "transform" and o["ty"] == "IfcStoreyBuilder" and not o["env"])]
uniq = []
for o in out:
    if o not in uniq: uniq.append(o)
for o in uniq:
    o["name"] = "_".join([o["ty"], o["fn"]] + sorted(o["env"].values()))
    o["total"] = True
for o in uniq:
    if o["ty"] == "IfcWallPropertiesBuilder":
        o["args"] = ["Wall", "IfcWallBuilder"]
    if o["ty"] == "IdOr":
        o["args"] = ["T"]
WIDE = {o["fn"] + o["ty"] for o in uniq if NOT.match(o["name"])}
uniq = [o for o in uniq if not NOT.match(o["name"])]
got = []
for o in uniq:
    o["name"] = o["name"].replace("_T", "") if o["trait"] == "RelAssociatesBuilder" else o["name"]
    if o["env"] and o["fn"] + o["ty"] not in WIDE and o["ty"] != "IfcStoreyBuilder" and o["trait"] != "RelAssociatesBuilder":
        o = dict(o, env={}, over=True, name=o["ty"] + "_" + o["fn"])
    if o["fn"] == "new_relative":
        o["placed"] = True
    if re.search(PARTIAL, o["name"]):
        o["total"] = False
    if o not in got:
        got.append(o)
uniq = got
json.dump(uniq, open(sys.argv[1], "w"), indent=0)
print(len(uniq))
for o in uniq: print(o["name"], o["trait"], o["env"])
