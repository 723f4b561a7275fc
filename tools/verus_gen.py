"""Assembles the Verus file with the grammar contracts."""
import json
import os
import re
import sys
from grammar import *

HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.join(os.path.dirname(HERE), "verus")


def build(ix):
    em = Emit(ix)
    em.wf_override = {}
    em.custom_rt = {}
    em.first_extra = {}
    em.entities = set()
    em.tops = set()
    em.collect()
    em.cur_gen = []
    # entity types: the alternatives of the data section
    dm = em.types.get("DataMap")
    em.any_alts = []

    def find_alt(p):
        if p.k == "alt":
            r = [q.res.variant for q in p.ps if q.k == "seq" and isinstance(q.res, Rec) and q.res.ty == T("dyn IfcType")]
            if r:
                em.any_alts = r
                em.any_p = p
        for a in ("p", "e", "s"):
            q = getattr(p, a, None)
            if isinstance(q, P):
                find_alt(q)
        for q in getattr(p, "ps", []):
            find_alt(q)
        for _, q in getattr(p, "items", []):
            find_alt(q)
    if dm and dm.p:
        find_alt(dm.p)
    em.entities = set(em.any_alts)
    em.tops = TOPS
    return em


TOPS = {"DataMap", "Header", "Footer", "IFC"}      # the file and its parts
SH = re.compile(r"#\[verifier::opaque\]\nspec fn sh_(\w+)(<.*?>)?\(x: (.*?), k: Txt\) -> Txt \{ (.*) \}$", re.S)


def frozen():
    """the written forms which the IFC schema demands: keyword, attributes and their order, tokens (committed)"""
    p = os.path.join(HERE, "frozen.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def spec_body(units, n):
    for u in units:
        if u.name == n:
            for t in u.spec:
                m = SH.match(t)
                if m:
                    return m.group(4)


JOIN = re.compile(r"spec fn (\w+_join\d+)(<.*?>)?\(s: Seq<(.*?)>, k: Txt\) -> Txt\n    decreases s\.len\(\),\n\{\n(.*)\}\n", re.S)


def tidy_join(b):
    return re.sub(r"\be\d+\b", "e", b.strip())


def unit_joins(units, n):
    for u in units:
        if u.name == n:
            return {m.group(1): tidy_join(m.group(4)) for m in (JOIN.match(h) for h in u.helpers) if m}
    return {}


def canon(b):
    """binders numbered in the order of their occurrence"""
    seen = {}
    return re.sub(r"\b([a-z])\d+\b", lambda m: seen.setdefault(m.group(0), "%s_%d" % (m.group(1), len(seen))), b)


def form_lemma(n, ge, ty, body, now, joins, cur):
    """-> (items of its own, the lemma): the written form equals the frozen one; lists: by induction"""
    gi = "::" + re.sub(r": \w+", "", ge) if ge else ""
    fz = lambda b: re.sub(r"\b(%s_join\d+)\b" % n, r"fz_\1", b)
    items, all_ = [], sorted(joins)
    strs = lambda *b: "".join("    reveal_strlit(%s);\n" % a for a in sorted(set(re.findall(r'"(?:[^"\\]|\\.)*"(?=@)', " ".join(b)))))
    for j in all_:
        g, el, b = joins[j]
        items.append("spec fn fz_%s%s(s: Seq<%s>, k: Txt) -> Txt\n    decreases s.len(),\n{\n    %s\n}\n" % (j, g, el, fz(b)))
    done = []
    order = sorted(all_, key=lambda j: len(re.findall(r"\b%s_join\d+\b" % n, joins[j][2].replace(j, ""))))
    for j in order:
        g, el, b = joins[j]
        same = cur.get(j) == b
        pre = "".join("    fzl_%s%s();\n" % (x, gi) for x in done)
        items.append("""proof fn fzi_%s%s(s: Seq<%s>, k: Txt)
    ensures %s%s(s, k) == fz_%s%s(s, k),
    decreases s.len(),
{
%s    if s.len() > 0 {
        fzi_%s%s(s.drop_first(), k);
%s    }
}
""" % (j, g, el, j, gi, j, gi, pre + ("" if same else strs(b, cur.get(j) or "") + "    reveal(lit);\n"), j, gi,
            "" if same else "        assert(%s%s(s, k) =~= fz_%s%s(s, k));\n" % (j, gi, j, gi)))
        items.append("""proof fn fzl_%s%s()
    ensures forall|s: Seq<%s>, k: Txt| #[trigger] %s%s(s, k) == fz_%s%s(s, k),
{
    assert forall|s: Seq<%s>, k: Txt| #[trigger] %s%s(s, k) == fz_%s%s(s, k) by { fzi_%s%s(s, k); }
}
""" % (j, g, el, j, gi, j, gi, el, j, gi, j, gi, j, gi))
        done.append(j)
    L = ["reveal(sh_%s);" % n] + ["fzl_%s%s();" % (x, gi) for x in done]
    if canon(body) != canon(now or ""):
        L += strs(body, now or "").split("\n")[:-1]
        L.append("reveal(lit);")
        L.append("assert(sh_%s(x, k) =~= %s);" % (n, fz(body)))
    return items, """proof fn form_%s%s(x: %s, k: Txt)
    ensures sh_%s(x, k) == (%s),
{
    %s
}""" % (n, ge, ty, n, fz(body), "\n    ".join(L))


PAIR = r'"((?:[^"\\]|\\.)*)"@, "((?:[^"\\]|\\.)*)"@\)'


def lemma_text(em):
    """the written form of a text, and that it is read back: from the chains of replacements in the code"""
    ti = em.types["StringPrimitive"]
    sh = em.sh_expr(ti.segs, "k", "StringPrimitive")
    ps, _ = em.pe(ti.p, "t", "StringPrimitive", True)
    enc, dec = re.findall(PAIR, sh), re.findall(PAIR, ps)
    ch = lambda a: "'\\''" if a == "'" else "'%s'" % a
    L = ["let s = x.0;", "let cd = |c: char| code(c);", "let all = all_coded();", "l_code_ok();",
         "let d_0 = Set::<char>::empty();", "l_en_none(s, cd, d_0);", "reveal_strlit(\"'\");"]
    for a in sorted({a for a, _ in enc} | {b for _, b in dec}):
        L.append('reveal_strlit("%s");' % a)
    E = list(L)
    for i, (a, w) in enumerate(enc):
        E.append('assert(all.contains(%s) && cd(%s) == "%s"@);' % (ch(a), ch(a), w))
        E.append('l_enc(s, cd, all, d_%d, %s, "%s"@, "%s"@);' % (i, ch(a), a, w))
        E.append("let d_%d = d_%d.insert(%s);" % (i + 1, i, ch(a)))
    E.append("assert(d_%d =~= all);" % len(enc))
    E.append("assert(en(s, cd, all) == written(s));")
    D = L[:]
    D.append("let e_0 = all;")
    for i, (w, a) in enumerate(dec):
        D.append('assert(all.contains(%s) && cd(%s) == "%s"@);' % (ch(a), ch(a), w))
        D.append('l_dec(s, cd, all, e_%d, %s, "%s"@, "%s"@);' % (i, ch(a), a, w))
        D.append("let e_%d = e_%d.remove(%s);" % (i + 1, i, ch(a)))
    D.append("l_en_none(s, cd, e_%d);" % len(dec))
    D.append("l_en_not(s, cd, all, '\\'');")
    D.append("assert(en(s, cd, all) == written(s));")
    D += ["let t1 = lit(\"'\"@, k);", "l_head(\"'\"@, k);", "l_text_all(written(s), t1);", "l_lit(\"'\"@, lit(written(s), t1));", "l_lit(\"'\"@, k);"]
    return ["""proof fn l_text_form(x: StringPrimitive, k: Txt)
    ensures sh_StringPrimitive(x, k) == lit("'"@, lit(written(x.0), lit("'"@, k))),
{
    reveal(sh_StringPrimitive);
    %s
}""" % "\n    ".join(E), """proof fn l_text_back(x: StringPrimitive, k: Txt)
    requires no_esc(x.0),
    ensures ps_StringPrimitive(lit("'"@, lit(written(x.0), lit("'"@, k)))) == Some((x, k)),
{
    reveal(ps_StringPrimitive);
    %s
}""" % "\n    ".join(D)]


def rt_text(pr):
    pr.o("reveal(wf_StringPrimitive);")
    pr.o("l_text_form(self, k);")
    pr.o("l_text_back(self, k);")


LIBS = {"Dummy": "dummy.rs", "StringPrimitive": "strings.rs", "IfcGloballyUniqueId": "guid.rs", "DataMap": "datamap.rs", "Header": "header.rs"}


def rt_dummy(pr):
    for l in ("reveal(ps_Dummy);", "reveal(sh_Dummy);", "reveal(wf_Dummy);", "l_dummy(self.s, k);"):
        pr.o(l)


def rt_guid(pr):
    pr.o("l_guid(self, k);")


HEADER = "#![allow(unused)]\nuse vstd::prelude::*;\nuse vstd::seq_lib::*;\nfn main() {}\nverus! {\n"


class Item:
    """a declaration, function or impl block of the Verus text"""

    def __init__(self, text, trusted, own=True):
        self.text, self.trusted = text, trusted
        self.unit = None
        m = re.search(r"(?:fn|struct|enum) (\w+)", text)
        i = re.search(r"impl[^{]*? for (\w+)|impl (\w+)", text.split("\n", 1)[0])
        self.name = (i.group(1) or i.group(2)) if i else m.group(1)
        self.kind = "impl" if i else "decl" if re.match(r"(struct|enum)", text) else "proof" if "proof fn" in text else "spec"
        self.w = re.findall(r"[A-Za-z_]\w*", text)
        self.tw = set(re.findall(r"[A-Za-z_]\w*", trusted))
        self.w = set(self.w)
        self.opaque = text.startswith("#[verifier::opaque]")


def strip_body(t):
    """a lemma which is verified in another part: contract only"""
    out, mode = [], None
    for l in t.split("\n"):
        if mode == "body":
            if l == "}":
                out.append(empty)
                mode = None
            continue
        if l.startswith("proof fn "):
            empty = "{ arbitrary() }" if "-> (" in l else "{ }"
            if out and out[-1] == "#[verifier::external_body]":
                out.pop()
            out.append("#[verifier::external_body]")
            mode = "sig"
        if mode == "sig" and l.startswith("{"):
            if l == "{":
                mode = "body"
            else:
                out.append(empty)
                mode = None
            continue
        out.append(l)
    return "\n".join(out)


def uninterp(t):
    """an opaque function which isn't revealed"""
    m = re.match(r"#\[verifier::opaque\]\n(spec fn .*?-> .*?) \{", t, re.S)
    return "uninterp " + m.group(1) + ";"


class Unit:
    """what is emitted for one type (or one group of lemmas): the obligations of its proof functions"""

    def __init__(self, name):
        self.name = name
        self.spec, self.impls, self.helpers = [], [], []
        self.proofs = []           # free proof fns

    def items(self, want=None):
        """want: the names of the proof functions to verify; the others are only used"""
        if not hasattr(self, "_items"):
            out = []
            for t in self.helpers + self.spec + self.proofs:
                if "proof fn" in t:
                    n = re.search(r"proof fn (\w+)", t).group(1)
                    out.append(Item(t if want is None or want(n) else strip_body(t), strip_body(t)))
                elif re.match(r"\s*(#\[|spec fn|enum|struct|impl)", t):
                    out.append(Item(t, uninterp(t) if t.startswith("#[verifier::opaque]") else t))
                else:
                    raise Unsupported("item " + t[:60])
            for im in self.impls:
                out.append(Item(render([], [im], True, want), render([], [im], False)))
            for i in out:
                i.unit = self.name
            self._items = out
        return self._items

    def obligations(self):
        """names of the functions with something to prove"""
        out = []
        for i in self.items():
            if i.kind == "proof" and i.text != i.trusted:
                out.append(i.name)
            if i.kind == "impl":
                for m in re.finditer(r"(#\[verifier::external_body\]\s+)?proof fn (\w+)", i.text):
                    if not m.group(1):
                        out.append("%s::%s" % (i.name, m.group(2)))
        return out

    def size(self):
        return sum(len(i.text) for i in self.items() if i.kind in ("impl", "proof"))


def library(name):
    t = open(os.path.join(VER, name)).read()
    return t


def lib_items(name):
    """the functions of a hand written file of lemmas"""
    out, cur = [], []
    for l in library(name).split("\n"):
        if re.match(r"//", l):
            continue
        cur.append(l)
        if l == "}" or re.match(r"\{.*\}$", l) or re.match(r"(pub )?(uninterp )?spec fn .*[;}]$", l):
            out.append("\n".join(cur))
            cur = []
    return out


def trust_lib(t):
    return strip_body(t)


PART_HINTS = {"IfcGloballyUniqueId": ("l_guid_decode_all();", "l_guid_encode(x.0);")}


def seqs_of(p, seen=None):
    """the sequences within a parser"""
    seen = set() if seen is None else seen
    if id(p) in seen:
        return
    seen.add(id(p))
    if p.k in ("seq", "verify_map"):
        yield p
        for _, q in p.items:
            yield from seqs_of(q, seen)
    for a in ("p", "s", "end", "t"):
        q = getattr(p, a, None)
        if isinstance(q, P):
            yield from seqs_of(q, seen)
    for q in getattr(p, "ps", None) or ():
        yield from seqs_of(q, seen)


def partial_ops(em, n):
    """one obligation for each partial operation (unwrap, expect, ...) which reading or printing a value may reach: its
    argument satisfies the operation's precondition"""
    ti = em.types[n]
    out = []
    hint = PART_HINTS.get(n, ("", ""))
    for i, (f, line, cond, _) in enumerate(ti.panics):
        words = set(re.findall(r"\w+", cond))
        s = next((s for s in seqs_of(ti.p) if any(v in words for v, _ in s.items)), None)
        if s is None:
            em.part_unsup.append("partial operation at %s:%s" % (f, line))
            continue
        saved, em.lits = em.lits, set()
        e = em.seq_expr(s, "t", "pt_" + n, final=lambda r: "Some((%s, %s))" % (cond, r), cond=cond)
        em.lits = saved
        out.append("""/// %s:%s doesn't panic
proof fn c10_part_%s_%d%s(t: Txt)
    ensures (match %s { Some((c, _)) => c, None => true }),
{
    l_take_all();
    %s
}
""" % (f, line, n, i, em.ge(), e, hint[0]))
    for i, (f, line, cond, _) in enumerate(ti.show_panics):
        out.append("""/// %s:%s doesn't panic
proof fn part_%s_%d%s(x: %s)
    ensures %s,
{
    %s
}
""" % (f, line, n, i, em.ge(), vty(ti.st), re.sub(r"\bself\b", "x", cond), hint[1]))
    return out


def forms(em, units, names):
    """the units with the lemmas about written forms"""
    fr = frozen()
    for n in sorted(names):
        ge, ty, body, joins = fr[n]
        if n in em.types:
            x = Unit("form_" + n)
            x.helpers, form = form_lemma(n, ge, ty, body, spec_body(units, n), joins, unit_joins(units, n))
            x.proofs = [form]
            units.append(x)
        else:
            em.unsup.append(("form_" + n, "the type %s doesn't exist any more" % n))


def emit(em):
    """-> units in order"""
    units = []
    em.custom_rt["Dummy"] = rt_dummy
    em.wf_override["Dummy"] = "dummy_ok(self.s) && okc(self.s[0]) && self.s[0] != '$' && self.s[0] != '*' && self.s[0] != '#'"
    em.custom_rt["IfcGloballyUniqueId"] = rt_guid
    em.custom_rt["StringPrimitive"] = rt_text
    em.wf_override["StringPrimitive"] = "no_esc(self.0)"
    names = [n for n, t in em.types.items() if t.kind == "ifc" and not t.why and n not in TOPS]
    for n in names:
        em.decl(n)
    em.decl("OptionalParameter")
    em.cur_gen = []
    ws = Unit("space")
    for f in ("p_comment", "p_single_space_or_comment", "p_space_or_comment"):
        em.emit_named(f)
    em.named_seen = len(em.helpers)
    ws.helpers = list(em.helpers) + em.named_eat_out
    em.units = units
    units.append(ws)
    for n in names:
        h0 = len(em.helpers)
        u = Unit(n)
        try:
            u.spec, u.impls = em.emit_type(n)
        except Unsupported as e:
            em.unsup.append((n, str(e)))
            continue
        em.part_unsup = getattr(em, "part_unsup", [])
        u.helpers = em.helpers[h0:]
        u.proofs += partial_ops(em, n)
        if n in LIBS:
            u.helpers += lib_items(LIBS[n])
        if n == "StringPrimitive":
            u.helpers += lemma_text(em)
        units.append(u)
    forms(em, units, [n for n in frozen() if n not in TOPS])
    # the objects of the data section
    h0 = len(em.helpers)
    u = Unit("AnyIfc")
    em.any_pairs = []
    try:
        head, lemmas = em.emit_any()
        u.helpers = em.helpers[h0:]
        u.spec = head
        units.append(u)
        for name, l in lemmas:
            x = Unit(name)
            x.proofs = [l]
            units.append(x)
    except Unsupported as e:
        em.unsup.append(("AnyIfc", str(e)))
    # the file and its parts
    for n in ("DataMap", "Header", "Footer", "IFC"):
        if n not in em.types or em.types[n].why:
            continue
        h0 = len(em.helpers)
        u = Unit(n)
        try:
            em.decl(n)
            u.spec, u.impls = em.emit_type(n)
        except Unsupported as e:
            em.unsup.append((n, str(e)))
            continue
        u.helpers = em.helpers[h0:]
        u.proofs += partial_ops(em, n)
        if n in LIBS:
            u.helpers += lib_items(LIBS[n])
        units.append(u)
    forms(em, units, [n for n in frozen() if n in TOPS])
    return units


class Book:
    """all items, and which part verifies what"""

    def __init__(self, em, units, want=None):
        for u in units:
            u.items(want)
        self.units = {u.name: u for u in units}
        self.items = [Item(d, d) for d in em.out]
        for i in self.items:
            i.unit = "decl"
        for u in units:
            self.items += u.items()
        self.defs = {}
        for i in self.items:
            self.defs.setdefault(i.name, []).append(i)
        self.pre = library("prelude.rs")
        self.space = library("space.rs")
        self.prew = set(re.findall(r"[A-Za-z_]\w*", self.space))

    def part(self, own):
        """Verus file which verifies the units `own`; what they use is included with its contracts only"""
        own = set(own)
        mine = [i for i in self.items if i.unit in own]
        reveals = set()
        for i in mine:
            reveals.update(re.findall(r"reveal\((\w+)\)", i.text))
        need = {}
        todo = [(i, True) for i in mine]
        for w in self.prew | set(re.findall(r"[A-Za-z_]\w*", self.pre)):
            todo += [(i, False) for i in self.defs.get(w, ())]
        while todo:
            i, full = todo.pop()
            full = full or i.opaque and i.name in reveals
            if id(i) in need:
                continue
            need[id(i)] = full
            for w in (i.w if full else i.tw):
                for j in self.defs.get(w, ()):
                    if id(j) not in need:
                        todo.append((j, j.unit in own))
        base = "space" in own
        out = [HEADER, self.pre if base else trust_lib(self.pre)]
        for i in self.items:
            if id(i) in need:
                out.append("// ---- unit %s" % i.unit)
                out.append(i.text if need[id(i)] else i.trusted)
        out.append("// ---- unit space")
        out.append(self.space if base else trust_lib(self.space))
        out.append("} // verus!\n")
        return "\n".join(out)


if __name__ == "__main__":
    import subprocess
    import concurrent.futures as cf
    import time
    em = build(Index(load_ast()))
    units = emit(em)
    print("unsupported:", em.unsup)
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    only = sys.argv[2:]
    names = [u.name for u in units]
    book = Book(em, units)
    if only:
        parts = [[n] for n in only]
    else:
        k = 24
        sized = sorted(units, key=lambda u: -u.size())
        parts = [[] for _ in range(k)]
        load = [0] * k
        for u in sized:
            i = load.index(min(load))
            parts[i].append(u.name)
            load[i] += u.size() + 2000

    def run(i):
        f = os.path.join(d, "p%d.rs" % i)
        open(f, "w").write(book.part(parts[i]))
        t = time.time()
        try:
            r = subprocess.run(["verus", f, "--multiple-errors", "3", "--num-threads", "1"], env=dict(os.environ, RUST_MIN_STACK="400000000"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            o = r.stdout
        except subprocess.TimeoutExpired:
            o = "TIMEOUT"
        open(f + ".out", "w").write(o)
        m = re.search(r"verification results.*", o)
        return i, time.time() - t, m.group(0) if m else o[:300]
    with cf.ThreadPoolExecutor(8) as ex:
        for i, t, m in ex.map(run, range(len(parts))):
            print(i, "%.0fs" % t, m, parts[i] if "0 errors" not in m else "", flush=True)
