"""Writes replay/src/setters.rs: one call of each constructor and setter of tools/attrs.json, and what its attributes are to be."""
import json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, ".."))
sys.setrecursionlimit(100000)
if os.path.exists('/tmp/b2.py') and '-c' in sys.argv:
    exec(open('/tmp/b2.py').read())
import mir, attrs
from rs import T
g = attrs.Attrs(); w = g.w
fz = json.load(open(os.path.join(H, "..", "frozen.json")))
ANY = {"RelDeclares": "Wall", "RelDefinesByProperties": "Wall", "RelDefinesByType": "Wall", "RelAssociatesMaterial": "Wall"}
VAR = {"SET": "PropertySet", "OBJ": "Wall", "T": "Wall"}


def order(t, path=""):
    """attributes in the order of the text"""
    t = mir.strip(t)
    out = []
    fs = {w.fname(f): ft for i, f, ft in w.real_fields(t)}
    for f in re.findall(r"x\.(\w+)\.sh\(", fz[t[1]][2]):
        s = mir.strip(fs[f])
        e = w.erased(t)
        p = (path + "." if path else "") + f
        if s[0] == "T" and s[1] in w.ix.structs and w.is_struct(s) and not g.atom(s) and s[1] in fz and ".sh(" in fz[s[1]][2]:
            out += order(s, path if e else p)
        else:
            out.append(p)
    return out


def enum(n):
    e = w.ix.enums[n]
    vs = [v[0] if isinstance(v, (tuple, list)) else v for v in (e.variants if hasattr(e, "variants") else e)]
    return vs


def maker(t):
    t = mir.strip(t)
    if t[0] == "tuple":
        return None
    n = t[1]
    if n in ("StringPrimitive", "String", "str"): return "text(g)"
    if n in ("f64", "RealPrimitive", "F64"): return "real(g)"
    if n == "bool": return "yes(g)"
    if n in ("i64", "IntegerPrimitive"): return "int(g)"
    if n == "Id": return "id(g)"
    if n == "IfcTimestamp": return 'value::<IfcTimestamp>(&["1454575675", "0", "86400"], g)'
    if n == "IfcValue": return 'value::<IfcValue>(&["IFCLABEL(\'abc\')", "IFCREAL(2.5)", "IFCIDENTIFIER(\'x\')"], g)'
    if n == "TypedId":
        return "typed::<%s>(g)" % VAR.get(t[2][0][1], t[2][0][1])
    if n == "IdOr":
        x = VAR.get(t[2][0][1], t[2][0][1])
        return 'idor::<%s>("%s", g)' % (x, x)
    if n == "Option":
        return "option(|g| %s, g)" % maker(t[2][0])
    if n in ("Iter", "Vec"):
        x = mir.strip(t[2][0])
        if x[1] in ("IfcDVec2", "IfcDVec3"): return "coords%s(g)" % x[1][-1]
        return "list(|g| %s, g)" % maker(t[2][0])
    if n in w.ifc_types:
        return 'entity::<%s>("%s", g)' % (n, n)
    if n in w.ix.enums or n in fz:
        toks = [".%s." % x for x in re.findall(r'lit\("\."@, lit\("(\w+)"@, lit\("\."@', fz[n][2])]
        if not toks and n in LITS: toks = LITS[n]
        if toks:
            return "value::<%s>(&[%s], g)" % (n, ", ".join(json.dumps(x) for x in sorted(set(toks))[:40]))
    raise KeyError("maker of %s: %s" % (n, fz.get(n, ["", "", ""])[2][:200]))


LITS = {"DimensionCount": ["3", "2"], "RepresentationIdentifier": ["'Body'", "'Axis'", "'FootPrint'"], "RepresentationType": ["'SweptSolid'", "'Brep'", "'MappedRepresentation'"]}
rows, bad = [], []
for x in attrs.table():
    try:
        # of inner types only within the objects
        if x["ty"] in ("Transform3DBase", "Root", "ExtendedPropertyBase", "PropertyBase", "MaterialProperties"):
            continue
        if any(r.startswith("in:") for r in x["into"].values()):
            continue
        r = g.want(x["name"], T(x["ty"]), x["fn"], x["trait"], env={k: T(v) for k, v in x["env"].items()})
        on = x.get("on", "ret")
        rt = mir.strip(r.ret if on == "ret" else dict(r.muts)["a1"])
        o = order(rt)
        ls = [p[1:] or l for l, p, t in g.leaves(rt)]
        assert sorted(o) == sorted(ls), (o, ls)
        lets, args, self_ = [], [], None
        ps = [p for p in r.params if p[2] is not None]
        for n, vt, t in ps:
            t = mir.strip(t)
            if vt == "IFC":
                args.append("&mut ifc"); continue
            if self_ is None and n == "a1" and w.vty(t) == w.vty(rt):
                self_ = t[1]; continue
            if t[0] == "tuple":
                for i, y in enumerate(t[1]):
                    lets.append("let (v%s_%d, w%s_%d) = %s;" % (n[1:], i, n[1:], i, maker(y)))
                args.append("(%s)" % ", ".join("v%s_%d" % (n[1:], i) for i in range(len(t[1]))))
                continue
            lets.append("let (v%s, w%s) = %s;" % (n[1:], n[1:], maker(t)))
            args.append("v" + n[1:] + (".into_iter()" if t[1] == "Iter" else ""))
        # in the order of the text; what was handed over is moved into the one attribute that holds it
        want = []
        for p in o:
            rule = x["into"][p]
            op, _, k = rule.partition(":")
            k = k.replace(".", "_")
            want.append('("%s", %s)' % (p.split(".")[-1], {"keep": "W::Keep", "omitted": 'W::Is("$".to_string())', "inherited": 'W::Is("*".to_string())', "empty": 'W::Is("()".to_string())',
                                                         "any": "W::Any", "is": "W::Given"}.get(op) or {"arg": "w" + k, "new": "w" + k, "bool": "w" + k, "text": "w" + k, "point": "w" + k, "push": "W::Push(Box::new(w%s))" % k,
                                                                                                   "same": "W::Same(%d)" % (o.index(rule.partition(":")[2]) if op == "same" else 0)}[op]))
        mod = "&mut ifc" in args
        body = []
        if mod: body.append("let (mut ifc, was) = (model(), model());")
        body += lets
        call = "%s(%s)" % (x["fn"], ", ".join(args))
        if self_:
            body.append('let (%sx, t) = object::<%s>("%s", g);' % ("mut " if on != "ret" else "", self_, self_))
            body.append("let y = x.%s;" % call if on == "ret" else "x.%s; let y = x;" % call)
        else:
            # an iterator of places is given as a list
            body.append("let y = %s::%s;" % (x["ty"], call))
        body.append("verify(%s, &y.to_string(), vec![%s], %s)" % ("Some(&t)" if self_ else "None", ", ".join(want), "Some((&was, &ifc))" if mod else "None"))
        rows.append('        ("%s", |g| {\n            %s\n        }),\n' % (x["name"], "\n            ".join(body)))
    except (KeyError, AssertionError, AttributeError) as e:
        bad.append((x["name"], type(e).__name__, str(e)[:300]))
open(os.path.join(H, "..", "..", "replay", "src", "setters.rs"), "w").write('''//! One call of each constructor and setter (written once by tools/dev/mkreplay.py from the table of the contracts).
#![allow(unused_variables)]
use crate::made::*;
use crate::util::Rng;
use ifc_rs::prelude::*;

type Call = fn(&mut Rng) -> Result<(), String>;

pub fn rows() -> Vec<(&'static str, Call)> {
    vec![
%s    ]
}
''' % "".join(rows))
print(len(rows), "calls;", len(bad), "left out")
for b in bad: print(*b)
