"""Writes replay/schema.json: the canonical STEP text of every type, as the tree printed it when the
file was written (committed; the checks never regenerate it).  The replay programs draw objects from it."""
import json
import sys
from verus_gen import *

LEAF = {"StringPrimitive": "str", "IfcGloballyUniqueId": "guid", "RealPrimitive": "real",
        "IntegerPrimitive": "int", "IfcTimestamp": "ts", "Id": "id", "Dummy": "dummy"}


class S:
    def __init__(self, em):
        self.em = em
        self.bad = []
        self.kinds = None

    def attr(self, n, e):
        """admissible kinds declared for field e of n"""
        m = re.match(r"self\.(\w+)$", e)
        st = self.em.ix.structs.get(n)
        if not m or not st:
            return None
        for f in st["fields"]["fs"]:
            if f["name"] == m.group(1):
                return [x.strip() for a, v in f["attrs"] if a == "ifc_types" for x in v.split(",") if x.strip()] or None

    def ty(self, t, env, depth=0):
        t = subst(t, env)
        n = t[1]
        if n == "Id":
            return {"ref": self.kinds} if self.kinds else {"leaf": "id"}
        if n in LEAF:
            return {"leaf": LEAF[n]}
        if n in ("IfcDVec2", "IfcDVec3"):
            r = []
            for i in range(int(n[-1])):
                r += [{"leaf": "real"}, {"lit": ","}]
            return {"seq": [{"lit": "("}] + r[:-1] + [{"lit": ")"}]}
        if n == "TypedId":
            return {"ref": [t[2][0][1]]}
        if n == "IdOr":
            inner = t[2][0]
            if inner[1] in self.em.entities:
                return {"ref": [inner[1]]}
            return {"alt": [{"ref": [inner[1]]}, self.ty(inner, env, depth + 1)]}
        if n in ("f64", "f32"):
            return {"leaf": "real"}
        if n in ("usize", "u64", "u32", "i64", "i32"):
            return {"leaf": "int" if n[0] == "i" else "nat"}
        ti = self.em.types[n]
        e = dict(zip([g for g in ti.gen], t[2]))
        return self.segs(ti.segs, e, depth + 1, n)

    def segs(self, segs, env, depth, n):
        out = []
        for s in segs:
            if s[0] == "lit":
                if out and "lit" in out[-1]:
                    out[-1]["lit"] += s[1]
                else:
                    out.append({"lit": s[1]})
            elif s[0] == "txt" and s[1].startswith("dec_"):
                out.append({"leaf": "int"})
            elif s[0] == "txt" and s[1].startswith("f_dec"):
                out.append({"leaf": "real"})
            elif s[0] == "ite" and s[1].startswith("f_is_zero"):
                pass
            elif s[0] == "show":
                self.kinds = self.attr(n, s[1]) or self.kinds
                out.append(self.ty(s[2], env, depth))
                if s[1].startswith("self."):
                    self.kinds = None
            elif s[0] == "match":
                out.append({"alt": [self.segs(x, env, depth, n) for _, x in s[2]]})
            elif s[0] == "join":
                out.append({"list": self.segs(s[4], env, depth, n), "sep": self.segs(s[5], env, depth, n).get("lit", "")})
            else:
                self.bad.append((n, str(s)[:200]))
                out.append({"leaf": "?"})
        return out[0] if len(out) == 1 else {"seq": out}


def subst(t, env):
    if t[0] == "T":
        if t[1] in env and not t[2]:
            return env[t[1]]
        return ("T", t[1], tuple(subst(x, env) for x in t[2]))
    return t


if __name__ == "__main__":
    em = build(Index(load_ast()))
    s = S(em)
    out = {}
    for n in em.any_alts:
        if n != "Dummy":
            out[n] = s.ty(T(n), {})
    enums = {}
    for n, t in em.types.items():
        if t.kind == "ifc" and t.segs and len(t.segs) == 1 and t.segs[0][0] == "match" and all(all(y[0] == "lit" for y in x) for _, x in t.segs[0][2]):
            enums[n] = ["".join(y[1] for y in x) for _, x in t.segs[0][2]]
    json.dump({"entities": out, "enums": enums}, open(sys.argv[1], "w"), indent=0, sort_keys=True)
    print(len(out), len(enums), s.bad)
