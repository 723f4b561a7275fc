"""Which functions the contracts over MIR are about."""
import itertools
import json
import os

from modb import ANY, Gen, Id
from rs import T, UNIT, Unsupported

DM, IFC, EX = T("DataMap"), T("IFC"), T("IfcExtractor")


def store():
    g = Gen()
    g.want("default", DM, "default", "Default")
    for n in ("insert_new", "insert", "insert_if_not_exists", "remove", "get", "get_untyped", "try_get_untyped", "get_mut", "contains", "find_all_of_type", "id_of"):
        g.want(n, DM, n, env={"impl Into<Id>": Id})
    g.want("from", DM, "from", "From", env={"I": T("Vec", ("tuple", (Id, ANY)))})
    g.library("store.rs")
    return g


TYPE_OF = """// ---- obligations
pub proof fn c13_type_of_WALL(ifc: IFC, id: int)
    ensures ({
        let r = w_type(entries(ifc.data), id);
        let o = ifc.data[r->Some_0.1.relating_type];
        &&& type_of_WALL__ok(ifc, id) ==> r is Some && o is WALLType && type_of_WALL__ret(ifc, id) == o->WALLType_0
        &&& r is Some && ifc.data.dom().contains(r->Some_0.1.relating_type) && o is WALLType ==> type_of_WALL__ok(ifc, id)
    }),
{
    rec_type_of_WALL(ifc, id, entries(ifc.data));
}

//@rec type_of_WALL w_type(s, a2)
"""

TYPED = ("Wall", "Slab", "Roof", "Window", "Door")


def extract():
    g = Gen()
    for n in ("projects", "relations_of", "contained_structures", "related_type", "related_voids", "related_materials", "related_constiuents"):
        g.want(n, EX, n)
    for t in TYPED:
        g.want("type_of_" + t, EX, "related_type", "TypeRelation", (T(t), T(t + "Type")))
    g.library("extract.rs")
    for t in TYPED:
        g.contracts(TYPE_OF.replace("WALL", t))
    return g



def places(w, n, path):
    """Verus path of a field, through newtypes"""
    t, e = T(n), "v"
    for f in path:
        r = w.erased(t)
        ft = dict(w.fields(t))[f]
        if not r:
            e += "." + w.fname(f)
        t = ft
    return e


def admits(w, n, r):
    """what table row r says of an object v of type n in the model ifc"""
    e, pre, q = places(w, n, r["path"]), "", 0
    for s in r["steps"]:
        if s == "opt":
            pre += "%s is Custom ==> " % e
            e = "%s->Custom_0" % e
        elif s == "idor":
            pre += "%s is Id ==> " % e
            e = "%s->Id_0" % e
        else:
            pre += "forall|i: int| 0 <= i < %s.len() ==> " % e
            e = "#[trigger] %s[i]" % e
    return "(%s{ let k = designated(ifc, %s); %s })" % (pre, e, " || ".join("k == K_" + k for k in r["kinds"] + ["Dummy"]))


REF = """// ---- obligations
pub proof fn c09_NAME(v: VTY, ifc: IFC)
    ensures verify_NAME__ok(v, ifc), verify_NAME__ret(v, ifc) is Ok <==> refs_NAME(v, ifc),
{
}
"""

REF_LIB = """
/// kind of the object which the number stands for; -1: there is none
pub open spec fn designated(ifc: IFC, id: int) -> int {
    if ifc.data.dom().contains(id) { kind(ifc.data[id]) } else { -1 }
}
"""

REF_ANY = """pub open spec fn refs_any(a: Any, ifc: IFC) -> bool { match a { ARMS } }

/// no object refers to a missing object or to one of a kind which the attribute doesn't admit
pub open spec fn closed(ifc: IFC) -> bool { forall|k: int| #[trigger] ifc.data.dom().contains(k) ==> refs_any(ifc.data[k], ifc) }

// ---- obligations
pub proof fn c09_any(a: Any, ifc: IFC)
    ensures verify_any__ok(a, ifc), verify_any__ret(a, ifc) is Ok <==> refs_any(a, ifc),
{
    match a { LEMS }
}

pub proof fn c09_from_str(t: Txt)
    ensures
        from_str__ok(t),
        from_str__ret(t) is Ok <==> parsed_IFC(t) is Some && closed(parsed_IFC(t)->Some_0),
        from_str__ret(t) is Ok ==> from_str__ret(t)->Ok_0 == parsed_IFC(t)->Some_0,
{
    let ifc = parsed_IFC(t)->Some_0;
    lem_entries(ifc.data);
    assert forall|a: Any| #[trigger] verify_any__ok(a, ifc) by { c09_any(a, ifc); }
    assert forall|a: Any| (#[trigger] verify_any__ret(a, ifc) is Ok) == refs_any(a, ifc) by { c09_any(a, ifc); }
    if from_str__ret(t) is Ok {
        assert forall|k: int| #[trigger] ifc.data.dom().contains(k) implies refs_any(ifc.data[k], ifc) by {
            let i = choose|i: int| 0 <= i < entries(ifc.data).len() && entries(ifc.data)[i] == (k, ifc.data[k]);
        }
    }
}
"""


def refs():
    g = Gen()
    w = g.w
    tab = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refs.json")))
    w.dyn[("IfcVerify", "verify_id_types")] = ("verify_any", "Result<(), ()>", T("Result", UNIT, T("Error")))
    g.contracts(REF_LIB)
    arms, lems, und = [], [], []
    for n in w.ifc_types:
        name = "verify_" + n
        g.want(name, T(n), "verify_id_types", "IfcVerify")
        rows = [r for r in tab.get(n, ()) if r["kinds"]]
        try:
            vt = w.vty(T(n))
            if n not in tab:
                # a type which the table doesn't know yet
                rows, tab[n] = [], None
            spec = "pub open spec fn refs_%s(v: %s, ifc: IFC) -> bool {\n    %s\n}\n" % (n, vt, "\n    && ".join(admits(w, n, r) for r in rows) or ("true" if tab[n] is not None else "verify_%s__ret(v, ifc) is Ok" % n))
        except (KeyError, Unsupported) as u:
            g.why[name] = "the table of references doesn't fit the type: %s" % u
            g.insts.pop(name, None)
            spec = ""
        g.contracts(spec + REF.replace("NAME", n).replace("VTY", vt))
        if name not in g.insts:
            und.append(n)
        arms.append("Any::%s(v) => refs_%s(v, ifc)" % (n, n))
        lems.append("Any::%s(v) => c09_%s(v, ifc)," % (n, n))
    if und:
        g.why["verify_any"] = "not read: " + ", ".join(und)
    else:
        g.define("verify_any", "a: Any, ifc: IFC", {"ret": ("Result<(), ()>", "match a { %s }" % ", ".join("Any::%s(v) => verify_%s__ret(v, ifc)" % (n, n) for n in w.ifc_types)),
                                                 "ok": ("bool", "match a { %s }" % ", ".join("Any::%s(v) => verify_%s__ok(v, ifc)" % (n, n) for n in w.ifc_types))})
    g.want("from_str", IFC, "from_str", "FromStr")
    g.contracts(REF_ANY.replace("ARMS", ", ".join(arms)).replace("LEMS", " ".join(lems)))
    return g


def implementors(w):
    """trait -> the entity types which implement it"""
    got = {}
    for i in w.impls:
        if i["trait"] and i["ty"][0] == "T" and i["ty"][1] in w.ifc_types:
            got.setdefault(i["trait"][0], set()).add(i["ty"][1])
    for tr, l in w.ix.impls.items():
        for it, st, gen, f in l:
            if st[0] == "T" and st[1] in w.ifc_types:
                got.setdefault(tr, set()).add(st[1])
    return got


def bounds(w, i, name):
    """traits which a function asks of its type parameters"""
    b = {}
    tr = i["trait"][0] if i["trait"] else None
    for f in w.ix.methods.get((i["ty"][1], name), []):
        if f.trait == tr or tr and not f.trait:
            for g, bs in [x[:2] for x in f.d["sig"]["gen"]["ps"]]:
                b.setdefault(g, []).extend(x["id"] for y in bs for x in y[-1:] if isinstance(x, dict))
    return b


def ranging(w, fn):
    """type parameters of a function, declared and anonymous"""
    import modb
    return w.generics(fn) + sorted(v[1] for k, v in modb.impl_env(w, fn).items() if k[5:].isalnum() and v[1] == k[5:].upper())


def variants(gens, b, impls):
    """the types which each parameter ranges over: [[(parameter, type or None: any)]]"""
    opts = []
    for x in gens:
        c = None
        for y in b.get(x) or [t for t in impls if t.upper() == x]:
            if y in impls and y != "IfcType":
                c = impls[y] if c is None else c & impls[y]
        opts.append([(x, t) for t in sorted(c)] if c else [(x, None)])
    return itertools.product(*opts)


def ranged(w, api):
    """the functions of the table, their parameters ranging over what the current bounds admit"""
    impls, out = implementors(w), []
    tab = {}
    for i in w.impls:
        if i["ty"][0] == "T":
            for n in i["fns"]:
                tab.setdefault((i["ty"][1], n, i["trait"][0] if i["trait"] else None), i)
    for x in api:
        i = tab.get((x["ty"], x["fn"], x["trait"]))
        if x.get("over") and i:
            for v in variants(ranging(w, i["fns"][x["fn"]]), bounds(w, i, x["fn"]), impls):
                env = {a: b for a, b in v if b}
                out.append(dict(x, env=env, name="_".join([x["name"]] + sorted(env.values()))))
        else:
            out.append(x)
    return out


def theorems(g, api):
    for x in api:
        n0, l0 = x["name"], len(g.lemmas)
        ty = ("T", x["ty"], tuple(T(a) for a in x.get("args", ())))
        if g.want(n0, ty, x["fn"], x["trait"], env={k: T(v) for k, v in x["env"].items()}) is None:
            g.undecided.append((g.id + "_" + n0, g.why[n0]))
            continue
        try:
            g.theorem(n0, x["total"], placed=x.get("placed", False))
        except (Unsupported, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as u:
            del g.lemmas[l0:]
            g.undecided.append((g.id + "_" + n0, "%s: %s" % (type(u).__name__, str(u)[:300])))
    return g


def api():
    return json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json")))


def tied(g):
    for n in ("insert_new", "id_of"):
        g.want(n, DM, n, env={"impl Into<Id>": Id})
    g.library("tie.rs")
    return g


def build():
    """one theorem for each function which builds part of a model (tools/api.json)"""
    import valid
    g = tied(valid.Build())
    return theorems(g, ranged(g.w, api()))


def links():
    """one theorem for each function of the builders of a project's parts"""
    import links as k
    g = tied(k.Links())
    return theorems(g, [x for x in api() if x["ty"] in tuple(k.OWN) + k.HOLDERS + ("IfcWallPropertiesBuilder", "IfcPropertySetBuilder")])


def shape():
    """one theorem for each function which makes an element"""
    import shape as k
    g = tied(k.Shape())
    return theorems(g, [x for x in api() if x["name"] in k.MADE])


def attrs():
    """one theorem for each constructor and setter (tools/attrs.json)"""
    import attrs as k
    return k.fill(tied(k.Attrs()), k.table())


def mapped():
    """one theorem for each function which resolves the references of a geometric object"""
    import mapped as k
    return k.generate()


MOVES = [dict(name="IfcStoreyBuilder_transform_" + t, ty="IfcStoreyBuilder", fn="transform", trait=None, env={"T": t}, total=False)
         for t in ("Door", "OpeningElement", "Roof", "ShadingDevice", "Slab", "Wall", "Window")] + \
        [dict(name="%s_builder_transform_%s" % (b, t), ty=b, fn="builder_transform", trait="IfcBuilderTransform", env={"T": t, "impl Into<DVec3> + Copy": "DVec3"}, total=False)
         for b, e in (("IfcWallBuilder", "Wall"), ("IfcSlabBuilder", "Slab")) for t in (e, "OpeningElement", "Window")]


def moved():
    """one theorem for each function which moves an object"""
    import moved as k
    g = tied(k.Moved())
    g.library("moved.rs")
    return theorems(g, MOVES)


ALL = ("store", "extract", "refs", "build", "links", "shape", "attrs", "mapped", "moved")
