"""Wrote tools/refs.json once: which objects each reference of each entity may designate, read off the field
types (TypedId<T>, IdOr<T>) and the kinds declared on untyped ones.  Reviewed by hand, then frozen."""
import json
import os
import sys

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
import modb
import rs
from rs import T


def ref(t):
    """(form, kinds): form is the list of steps from the field to the number"""
    n = t[1] if t[0] == "T" else None
    if n == "Id":
        return [], None
    if n == "TypedId":
        return [], [t[2][0][1]]
    if n == "IdOr":
        return ["idor"], [t[2][0][1]]
    if n in ("OptionalParameter", "IfcList"):
        r = ref(t[2][0])
        return r and (["opt" if n[0] == "O" else "list"] + r[0], r[1])
    return None


def walk(w, n, path, out, seen=()):
    for f in w.ix.structs[n]["fields"]["fs"]:
        t = rs.ty(f["ty"], T(n))
        p = path + [f["name"]]
        r = ref(t)
        if r:
            kinds = r[1] or [x.strip() for a, v in f["attrs"] if a == "ifc_types" for x in v.split(",") if x.strip()]
            out.append({"path": p, "steps": r[0], "kinds": kinds})
        elif t[0] == "T" and t[1] in w.ix.structs and not t[2] and w.ix.structs[t[1]]["fields"]["kind"] == "named":
            walk(w, t[1], p, out)


if __name__ == "__main__":
    w = modb.world()
    tab = {}
    for n in w.ifc_types:
        out = []
        d = w.ix.structs[n]
        if d["fields"]["kind"] == "named":
            walk(w, n, [], out)
        tab[n] = out
    for n, o in tab.items():
        for r in o:
            if not r["kinds"]:
                print("undeclared", n, r)
    json.dump(tab, open(os.path.join(D, "refs.json"), "w"), indent=0)
