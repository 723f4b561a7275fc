"""Index over the syntax trees which tools/extract dumps from /repo: types, impls, functions."""
import json, os, subprocess, sys, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


class Unsupported(Exception):
    """the extraction met a construct outside the translated subset"""
    pass


class PanicPath(Unsupported):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def build_extractor():
    d = os.path.join(HERE, "extract")
    t = os.path.join(BUILD, "extract")
    exe = os.path.join(t, "debug", "extract")
    src = [os.path.join(d, "src/main.rs"), os.path.join(d, "Cargo.toml")]
    if os.path.exists(exe) and all(os.path.getmtime(exe) > os.path.getmtime(s) for s in src):
        return exe
    os.makedirs(t, exist_ok=True)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--target-dir", t], cwd=d, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("cannot build the extractor:\n" + r.stdout)
    return exe


def load_ast():
    exe = build_extractor()
    files = sorted(glob.glob(os.path.join(REPO, "ifc_rs/src/**/*.rs"), recursive=True))
    out = subprocess.run([exe] + files, stdout=subprocess.PIPE, text=True, check=True).stdout
    d = json.loads(out)
    return {os.path.relpath(f, REPO): v for f, v in d.items()}


# ---------------------------------------------------------------- types
# a type is a tuple: ('T', name, args) | ('tuple', types) | ('fn',) | ('infer',)
UNIT = ("tuple", ())


def T(name, *args):
    return ("T", name, tuple(args))


def last(p):
    return p[-1]["id"]


def ty(t, self_ty=None):
    """syntax type -> type tuple; references and lifetimes are dropped"""
    if t is None:
        return UNIT
    k = t["k"]
    if k == "ref":
        return ty(t["t"], self_ty)
    if k == "tuple":
        return ("tuple", tuple(ty(x, self_ty) for x in t["ts"]))
    if k in ("array", "slice"):
        return T("Vec", ty(t["t"], self_ty))
    if k == "dyn":
        return T("dyn " + last(t["b"][0]))
    if k == "impl":
        for b in t["b"]:
            seg = b[-1]
            if seg["id"] in ("IFCParser", "Parser"):
                a = [ty(x, self_ty) for x in seg["args"]]
                return T("Parser", a[0] if seg["id"] == "IFCParser" else a[1])
            if seg["id"] in ("Iterator", "IntoIterator", "ExactSizeIterator", "DoubleEndedIterator"):
                for a in seg["args"]:
                    if a["k"] == "assoc" and a["name"] == "Item":
                        return T("Iter", ty(a["ty"], self_ty))
            if seg["id"] in ("Into", "AsRef"):
                return T("impl " + seg["id"], ty(seg["args"][0], self_ty))
            if seg["id"] in ("FnOnce", "FnMut", "Fn"):
                return ("fn", json.dumps(seg["args"]))
        return T("impl " + last(t["b"][0]))
    if k == "infer":
        return ("infer",)
    if k == "path":
        if t.get("q"):
            return T("<%s>::%s" % (show_ty(ty(t["q"], self_ty)), last(t["p"])))
        seg = t["p"][-1]
        n = seg["id"]
        if n == "Self" and self_ty is not None and len(t["p"]) == 1:
            return self_ty
        args = tuple(ty(a, self_ty) for a in seg["args"] if a["k"] not in ("const",))
        if n in ("Box", "Rc", "Arc") and len(args) == 1:
            return args[0]
        if n == "Result" and args:
            return T("Result", args[0])
        return ("T", n, args)
    return T("?" + json.dumps(t))


def show_ty(t):
    if t[0] == "T":
        return t[1] + ("<%s>" % ", ".join(map(show_ty, t[2])) if t[2] else "")
    if t[0] == "tuple":
        return "(%s)" % ", ".join(map(show_ty, t[1]))
    return t[0]


def subst(t, m):
    if t[0] == "T":
        if not t[2] and t[1] in m:
            return m[t[1]]
        return ("T", t[1], tuple(subst(x, m) for x in t[2]))
    if t[0] == "tuple":
        return ("tuple", tuple(subst(x, m) for x in t[1]))
    return t


def unify(pat, t, vars, m):
    """match type `t` against `pat` whose names in `vars` are variables; extends m; -> bool"""
    if pat[0] == "T" and pat[1] in vars and not pat[2]:
        if pat[1] in m:
            return m[pat[1]] == t or m[pat[1]][0] == "infer" or t[0] == "infer"
        m[pat[1]] = t
        return True
    if t[0] == "infer" or pat[0] == "infer":
        return True
    if pat[0] != t[0]:
        return False
    if pat[0] == "T":
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(a, b, vars, m) for a, b in zip(pat[2], t[2]))
    if pat[0] == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, vars, m) for a, b in zip(pat[1], t[1]))
    return True


def is_test(it):
    for n, a in it.get("attrs", []):
        if n == "test" or (n == "cfg" and a.replace(" ", "") in ("test", "kani")):
            return True
    return False


class Fn:
    def __init__(self, d, file, mod, self_ty=None, impl=None, trait=None, local=False):
        self.d, self.file, self.mod, self.self_ty, self.impl, self.trait = d, file, mod, self_ty, impl, trait
        self.name = d["sig"]["name"]
        self.body = d["body"]
        self.line = d.get("line")
        self.gen = [g[0] for g in d["sig"]["gen"]["ps"]]
        self.genb = {g[0]: [b[-1]["id"] for b in g[1]] for g in d["sig"]["gen"]["ps"]}
        self.genb_full = {g[0]: g[1] for g in d["sig"]["gen"]["ps"]}
        for w in d["sig"]["gen"]["wh"]:
            if w[0].get("k") == "path":
                n = last(w[0]["p"])
                self.genb.setdefault(n, []).extend(b[-1]["id"] for b in w[1])
                self.genb_full.setdefault(n, []).extend(w[1])
        self.ret = ty(d["sig"]["ret"], self_ty)
        self.params = []  # (pattern, type, kind)  kind: '', 'ref', 'mut'
        self.recv = None
        for a in d["sig"]["ins"]:
            if a["k"] == "self":
                self.recv = "mut" if (a["ref"] and a["mut"]) else ("ref" if a["ref"] else "own")
            else:
                k = ""
                if a["ty"]["k"] == "ref":
                    k = "mut" if a["ty"]["mut"] else "ref"
                self.params.append((a["pat"], ty(a["ty"], self_ty), k, a["ty"]))

    @property
    def qname(self):
        return (show_ty(self.self_ty) + "::" if self.self_ty else "") + self.name

    def where(self):
        return "%s:%s" % (self.file, self.line)


class Index:
    def __init__(self, asts):
        self.structs = {}
        self.enums = {}
        self.consts = {}
        self.free = {}       # name -> [Fn]
        self.methods = {}    # (type name, fn name) -> [Fn]   (inherent and trait impls)
        self.impls = {}      # trait name -> [(impl dict, self type, generics, file)]
        self.traits = {}
        self.aliases = {}
        self.errors = {}
        self.files = asts
        for f, v in asts.items():
            if "error" in v:
                self.errors[f] = v["error"]
                continue
            self._items(v["items"], f, f.replace("ifc_rs/src/", "").replace("/mod.rs", "").replace(".rs", "").replace("/", "::"))

    def _items(self, items, f, mod):
        for it in items:
            if is_test(it):
                continue
            k = it["k"]
            if k == "mod":
                if it["items"] is not None:
                    self._items(it["items"], f, mod + "::" + it["name"])
            elif k in ("struct", "enum"):
                tab = self.structs if k == "struct" else self.enums
                it["file"] = f
                it["mod"] = mod
                if it["name"] in self.structs or it["name"] in self.enums:
                    # same name in two modules: the second one found gets a qualified name
                    prev = self.structs.get(it["name"]) or self.enums.get(it["name"])
                    a, b = (prev, it)
                    if "meta" in prev["mod"]:
                        a, b = it, prev
                    b_name = "Header" + b["name"]
                    self.renames = getattr(self, "renames", {})
                    self.renames[(b["name"], b["mod"].split("::")[0])] = b_name
                    for t in (self.structs, self.enums):
                        t.pop(it["name"], None)
                    tab[a["name"]] = a
                    tab[b_name] = b
                else:
                    tab[it["name"]] = it
            elif k == "const":
                self.consts.setdefault(it["name"], []).append((it, f))
            elif k == "type":
                if not it["gen"]["ps"]:
                    self.aliases[it["name"]] = ty(it["ty"])
            elif k == "fn":
                self.free.setdefault(it["sig"]["name"], []).append(Fn(it, f, mod))
            elif k == "impl":
                st = ty(it["ty"])
                tr = last(it["trait"]) if it["trait"] else None
                gen = [g[0] for g in it["gen"]["ps"]]
                it["gnames"] = gen
                it["file"] = f
                if tr:
                    self.impls.setdefault(tr, []).append((it, st, gen, f))
                for i in it["items"]:
                    if is_test(i):
                        continue
                    if i["k"] == "fn":
                        fn = Fn(i, f, mod, st, it, tr)
                        key = (st[1] if st[0] == "T" else "?", fn.name)
                        self.methods.setdefault(key, []).append(fn)
                    elif i["k"] == "const":
                        self.consts.setdefault((st[1], i["name"]), []).append((i, f))
            elif k == "trait":
                it["file"] = f
                self.traits[it["name"]] = it
                for i in it["items"]:
                    if i["k"] == "fn" and i["body"] is not None:
                        self.methods.setdefault(("trait " + it["name"], i["sig"]["name"]), []).append(
                            Fn(i, f, mod, None, it, it["name"]))

    def find_impl(self, trait, t):
        """-> (impl, substitution, Fn table) for type t"""
        for it, st, gen, f in self.impls.get(trait, []):
            m = {}
            if unify(st, t, gen, m):
                return it, m, f
        return None

    def impl_fn(self, trait, t, name):
        for it, st, gen, f in self.impls.get(trait, []):
            m = {}
            if unify(st, t, gen, m):
                for fn in self.methods.get((st[1], name), []):
                    if fn.impl is it:
                        return fn, m
        return None

    def strum_names(self, ename):
        """EnumString/VariantNames/Display derive: variant -> text"""
        e = self.enums[ename]
        derives = [x.strip().split("::")[-1].strip() for n, a in e["attrs"] if n == "derive" for x in a.split(",")]
        allstrum = " ".join(a for n, a in e["attrs"] if n == "strum")
        if allstrum:
            raise Unsupported("strum attributes on enum %s: %s" % (ename, allstrum))
        out = []
        for v in e["vars"]:
            a = " ".join(a for n, a in v["attrs"] if n == "strum")
            s = v["name"]
            if a:
                import re
                m = re.fullmatch(r'\s*(to_string|serialize)\s*=\s*"((?:[^"\\]|\\.)*)"\s*,?\s*', a)
                if not m:
                    raise Unsupported("strum attribute %s" % a)
                s = m.group(2).encode().decode("unicode_escape") if "\\" in m.group(2) else m.group(2)
            if v["fields"]["fs"]:
                raise Unsupported("strum enum with fields " + ename)
            out.append((v["name"], s))
        return derives, out
