"""Emits Verus: for every printed/parsed type of /repo the printer (sh) and the parser (ps) as they are in
the code, the contracts of verus/prelude.rs on them, and a proof script for each obligation."""
import re
from gram import *

TOK = re.compile(r"[A-Za-z0-9_]+|.", re.S)
OKC_BAD = set(" \t\n\r/,)")

WS = {"p_space_or_comment", "p_single_space_or_comment", "p_comment"}


def toks(s):
    return TOK.findall(s)


def subst_e(e, old, new):
    return re.sub(r"\b%s\b" % re.escape(old), lambda m: new, e)


def seg_subst(segs, old, new):
    out = []
    f = lambda e: subst_e(e, old, new)
    for s in segs:
        k = s[0]
        if k == "lit":
            out.append(s)
        elif k == "txt":
            out.append(("txt", f(s[1])))
        elif k == "show":
            out.append(("show", f(s[1]), s[2]))
        elif k == "match":
            out.append(("match", f(s[1]), [(p, seg_subst(x, old, new)) for p, x in s[2]]))
        elif k == "ite":
            out.append(("ite", f(s[1]), seg_subst(s[2], old, new), seg_subst(s[3], old, new)))
        elif k == "raw":
            out.append(s)
        elif k == "join":
            out.append(("join", f(s[1]), s[2], s[3], seg_subst(s[4], old, new), seg_subst(s[5], old, new)) + tuple(s[6:]))
        else:
            raise Unsupported("segment " + k)
    return out


def norm(segs):
    """merge adjacent literals, then cut them into tokens"""
    out = []
    buf = ""
    for s in list(segs) + [None]:
        if s is not None and s[0] == "lit":
            buf += s[1]
            continue
        if s is not None and s[0] == "txt" and s[1].endswith('"@') and False:
            continue
        if buf:
            out += [("lit", x) for x in toks(buf)]
            buf = ""
        if s is None:
            break
        if s[0] == "match":
            s = ("match", s[1], [(p, norm(x)) for p, x in s[2]])
        elif s[0] == "ite":
            s = ("ite", s[1], norm(s[2]), norm(s[3]))
        elif s[0] == "join":
            s = ("join", s[1], s[2], s[3], norm(s[4]), norm(s[5])) + tuple(s[6:])
        out.append(s)
    return out


def has_infer(t):
    return t[0] == "infer" or t[0] == "T" and any(has_infer(x) for x in t[2]) or t[0] == "tuple" and any(has_infer(x) for x in t[1])


class TypeInfo:
    pass


class Emit:
    def __init__(self, ix):
        self.ix = ix
        self.g = Gram(ix)
        self.helpers = []          # emitted helper spec fns (text)
        self.types = {}            # name -> TypeInfo
        self.structs_done = set()
        self.order = []
        self.unsup = []            # (what, why)
        self.out = []
        self.nh = 0
        self.lits = set()
        self.named_done = {}
        self.keep = []
        self.named_p, self.named_eats, self.named_eat_out = {}, set(), []
        self.loops = {}            # id(P) -> (fn name, generics)

    # ------------------------------------------------------------ collection
    def collect(self):
        for it, st, gen, f in self.ix.impls["IFCParse"]:
            if st[0] != "T":
                continue
            self.get(st[1])
        # types which are only printed / only used by name
        return self

    def get(self, name):
        if name in self.types:
            return self.types[name]
        ti = TypeInfo()
        ti.name = name
        ti.p = ti.segs = None
        ti.why = None
        ti.panics, ti.show_panics = [], []
        self.types[name] = ti
        r = None
        for it, st, gen, f in self.ix.impls["IFCParse"]:
            if st[0] == "T" and st[1] == name:
                r = (it, st, gen, f)
        if r is None:
            ti.kind = "plain"
            return ti
        it, st, gen, f = r
        ti.kind = "ifc"
        ti.file, ti.st, ti.gen = f, st, gen
        ti.line = it.get("line")
        self.g.tyvars = set(gen)
        n0 = n1 = len(self.g.panics)
        try:
            fn, m = self.ix.impl_fn("IFCParse", st, "parse")
            ti.p = self.g.call_fn(fn, [], {}, st).p
            self.g.set_out(ti.p, st)
            fb = self.ix.impl_fn("IFCParse", st, "fallback")
            ti.fb = self.g.call_fn(fb[0], [], {}, st).p if fb else P("fail")
            n1 = len(self.g.panics)
            ti.segs = norm(self.expand(self.g.display(st)))
            ti.panics, ti.show_panics = self.g.panics[n0:n1], self.g.panics[n1:]
            del self.g.panics[n0:]
        except Unsupported as e:
            ti.why = str(e)
            self.unsup.append((name, str(e)))
        finally:
            self.g.tyvars = set()
        return ti

    def expand(self, segs):
        """values of types which aren't parsed on their own are written in place"""
        out = []
        for s in segs:
            if s[0] == "show" and s[2][1] not in self.g.tyvars and not s[2][1].startswith("dyn ") and \
                    not self.ix.find_impl("IFCParse", s[2]):
                out += self.expand(seg_subst(self.g.display(s[2]), "self", s[1]))
            elif s[0] == "match":
                out.append(("match", s[1], [(p, self.expand(x)) for p, x in s[2]]))
            elif s[0] == "ite":
                out.append(("ite", s[1], self.expand(s[2]), self.expand(s[3])))
            elif s[0] == "join":
                out.append(("join", s[1], s[2], s[3], self.expand(s[4]), self.expand(s[5])) + tuple(s[6:]))
            else:
                out.append(s)
        return out

    # ------------------------------------------------------------ printers
    def strlit(self, s):
        self.lits.add(s)
        return str_lit(s)

    def sh_expr(self, segs, k, tag):
        """verus expression: text of segs followed by k"""
        if not segs:
            return k
        s, rest = segs[0], segs[1:]
        if s[0] in ("match", "ite", "join") and rest:
            n = "k%d" % len(rest)
            tail = self.sh_expr(rest, k, tag)
            return "({ let %s = %s; %s })" % (n, tail, self.sh_expr([s], n, tag))
        r = self.sh_expr(rest, k, tag)
        if s[0] == "lit":
            return "lit(%s, %s)" % (self.strlit(s[1]), r)
        if s[0] == "txt":
            return "lit(%s, %s)" % (s[1], r)
        if s[0] == "show":
            return "%s.sh(%s)" % (s[1], r)
        if s[0] == "match":
            return "(match %s { %s })" % (s[1], ", ".join("%s => %s" % (p, self.sh_expr(x, r, tag)) for p, x in s[2]))
        if s[0] == "ite":
            return "(if %s { %s } else { %s })" % (s[1], self.sh_expr(s[2], r, tag), self.sh_expr(s[3], r, tag))
        if s[0] == "join":
            fn = self.join_fn(s, tag)
            return "%s(%s, %s)" % (fn, s[1], r)
        if s[0] == "raw":
            return s[1].replace("@K", r)
        raise Unsupported("segment " + s[0])

    def join_fn(self, s, tag):
        key = ("join", tag, repr(s[2:]))
        if key in self.loops:
            return self.loops[key]
        _, e, n, el, elem, sep = s[:6]
        self.nh += 1
        name = "%s_join%d" % (tag, len([1 for k in self.loops if k[:2] == ("join", tag)]))
        self.loops[key] = name
        ge = ""
        if self.cur_gen:
            ge = "<%s>" % ", ".join("%s: Ifc" % x for x in self.cur_gen)
        one = self.sh_expr(elem, "r", tag)
        if sep:
            r = "if s.len() == 1 { k } else { %s }" % self.sh_expr(sep, "%s(s.drop_first(), k)" % name, tag)
        else:
            r = "%s(s.drop_first(), k)" % name
        self.helpers.append("""spec fn %s%s(s: Seq<%s>, k: Txt) -> Txt
    decreases s.len(),
{
    if s.len() == 0 { k } else { let %s = s[0]; let r = %s; %s }
}
""" % (name, ge, vty(el), n, r, one))
        return name

    # ------------------------------------------------------------ parsers
    # pe(p, t) -> (verus expression of type Option<Txt> or Option<(V, Txt)>, has value)
    def pe(self, p, t, tag, want=True):
        k = p.k
        if k == "lit":
            e = self.p_toks(p.s, t)
            return ("(match %s { Some(r) => Some((%s, r)), None => None })" % (e, self.strlit(p.s)), True) if want else (e, False)
        if k == "char":
            e = self.p_toks(p.c, t)
            return ("(match %s { Some(r) => Some((%s, r)), None => None })" % (e, chr_lit(p.c)), True) if want else (e, False)
        if k == "call":
            if p.t[0] != "T":
                raise Unsupported("parser of " + show_ty(p.t))
            return "%s::ps(%s)" % (self.tpath(p.t), t), True
        if k == "named":
            return "%s(%s)" % (self.named(p.fn), t), True
        if k == "any":
            return "p_any(%s)" % t, True
        if k in ("multispace1", "multispace0"):
            return "p_%s(%s)" % (k, t), True
        if k == "float":
            return "f_parse(%s)" % t, True
        if k == "dec_uint":
            return "p_uint(%s, %s)" % (t, self.uint_max(p.t)), True
        if k == "dec_int":
            return "p_int(%s, %s)" % (t, self.int_max(p.t)), True
        if k == "fail":
            return "None", True
        if k == "fallback":
            return "%s::fb(%s)" % (self.tpath(p.t), t), True
        if k == "takewhile":
            return "take_while(%s, %d, %s, |%s: char| %s)" % (t, p.lo, "None" if p.hi is None else "Some(%d)" % p.hi, p.c, p.pred), True
        if k == "charif":
            return "(if %s.len() > 0 && ({ let %s = %s[0]; %s }) { Some((%s[0], %s.skip(1))) } else { None })" % (t, p.c, t, p.pred, t, t), True
        if k == "not":
            e, v = self.pe(p.p, t, tag)
            return "(match %s { Some(_) => None, None => Some(((), %s)) })" % (e, t), True
        if k == "peek":
            e, v = self.pe(p.p, t, tag, True)
            return "(match %s { Some((v, _)) => Some((v, %s)), None => None })" % (e, t), True
        if k == "opt":
            e, v = self.pe(p.p, t, tag, True)
            return "(match %s { Some((v, r)) => Some((Some(v), r)), None => Some((None, %s)) })" % (e, t), True
        if k == "take":
            e, v = self.pe(p.p, t, tag, True)
            return "(match %s { Some((_, r)) => Some((taken(%s, r), r)), None => None })" % (e, t), True
        if k == "verify_map":
            return self.seq_expr(p, t, tag, final=lambda cur: "(match %s { Some(w) => Some((w, %s)), None => None })" % (self.g.rexpr(p.r), cur)), True
        if k == "alt" and p is getattr(self, "any_p", None):
            return "AnyIfc::ps(%s)" % t, True
        if k == "alt":
            e = "None"
            parts = []
            bf = self.branches(p, tag)
            for i, q in enumerate(p.ps):
                parts.append("%s%s(%s)" % (bf[i], self.gi(), t) if bf else self.pe(q, t, tag, True)[0])
            e = parts[-1]
            for x in parts[-2::-1]:
                e = "(match %s { Some(x) => Some(x), None => %s })" % (x, e)
            return e, True
        if k == "seq":
            return self.seq_expr(p, t, tag), True
        if k in ("till", "repeat", "separated"):
            f = "%s(%s)" % (self.loop_fn(p, tag), t)
            if p.min and k == "till":
                return "%s_min(%s)" % (p.fname, t), True
            return ("at_least(%s, %d)" % (f, p.min) if p.min else f), True
        raise Unsupported("parser node " + k)

    def branches(self, p, tag):
        """the alternatives of a long `alt` become functions of their own"""
        if len(p.ps) <= 4 or p is getattr(self, "any_p", None):
            return None
        key = ("branches", id(p))
        if key not in self.loops:
            self.loops[key] = None
            t = next((x for x in (self.g.out_ty(q) for q in p.ps) if not has_infer(x)), None)
            if t is not None:
                self.keep.append(p)
                n = len([1 for k, v in self.loops.items() if k[0] == "branches" and v and re.fullmatch(re.escape(tag) + r"_b\d+_0", v[0])])
                names = []
                for i, q in enumerate(p.ps):
                    nm = "%s_b%d_%d" % (tag, n, i)
                    e, _ = self.pe(q, "t", nm, True)
                    self.helpers.append("#[verifier::opaque]\nspec fn %s%s(t: Txt) -> Option<(%s, Txt)> { %s }\n" % (nm, self.ge(), vty(t), e))
                    names.append(nm)
                self.loops[key] = names
        return self.loops[key]

    def uint_max(self, t):
        if t is None or t in (T("usize"), T("u64")):
            return "MAXU()"
        m = {"u32": "0xffff_ffff", "u16": "0xffff"}.get(t[1] if t[0] == "T" else None)
        if m:
            return m
        raise Unsupported("dec_uint of " + show_ty(t))

    def int_max(self, t):
        if t is None or t == T("i64"):
            return "MAXI()"
        if t == T("i32"):
            return "0x7fff_ffff"
        raise Unsupported("dec_int of " + show_ty(t))

    def p_toks(self, s, t):
        ts = toks(s)
        if not ts:
            return "Some(%s)" % t
        e = "p_lit(%s, %s)" % (self.strlit(ts[0]), t)
        for x in ts[1:]:
            e = "(match %s { Some(r) => p_lit(%s, r), None => None })" % (e, self.strlit(x))
        return e

    def seq_expr(self, p, t, tag, final=None, cond=None):
        out = []
        close = 0
        cur = t
        i = 0
        flat = []
        used = set(re.findall(r"\w+", cond or self.g.rexpr(p.r if p.k == "verify_map" else p.res)))
        for n, q in p.items:
            if n not in used:
                n = None
            if q.k in ("lit", "char"):
                s = q.s if q.k == "lit" else q.c
                ts = toks(s)
                for x in ts:
                    flat.append((None, P("tok", s=x)))
                if n and n in used:
                    flat.append((n, P("const", v=self.strlit(s) if q.k == "lit" else chr_lit(s))))
            else:
                flat.append((n, q))
        for n, q in flat:
            i += 1
            r = "r%d_%s" % (i, t if re.fullmatch(r"\w+", t) else "t")
            if q.k == "tok":
                out.append("match p_lit(%s, %s) { None => None, Some(%s) => " % (self.strlit(q.s), cur, r))
                close += 1
                cur = r
            elif q.k == "const":
                out.append("{ let %s = %s; " % (n, q.v))
                close += 1
            else:
                e, hasv = self.pe(q, cur, tag, n is not None)
                if hasv:
                    out.append("match %s { None => None, Some((%s, %s)) => " % (e, n or "_", r))
                else:
                    out.append("match %s { None => None, Some(%s) => " % (e, r))
                close += 1
                cur = r
        out.append(final(cur) if final else "Some((%s, %s))" % (self.g.rexpr(p.res), cur))
        return "(" + "".join(out) + " }" * close + ")"

    def tpath(self, t):
        n = vty(t)
        return n.replace("<", "::<", 1) if "<" in n else n

    def named(self, fn):
        if fn.name not in self.named_done:
            self.named_done[fn.name] = True
            p = self.g.call_fn(fn, [], {}, None).p
            self.g.set_out(p, fn.ret[2][0] if fn.ret[1] == "Parser" else fn.ret)
            self.named_p[fn.name] = p
            gen, self.cur_gen = self.cur_gen, []
            e, _ = self.pe(p, "t", fn.name, True)
            self.cur_gen = gen
            self.helpers.append("#[verifier::opaque]\nspec fn %s(t: Txt) -> Option<((), Txt)> {\n    %s\n}\n" % (fn.name, e))
        return fn.name

    def acc(self, p):
        """(element type, accumulator kind)"""
        t = p.acc
        if t is None:
            t = ("infer",)
        if t[0] == "T" and t[1] == "Vec":
            el = t[2][0]
            if el[0] == "infer":
                el = self.g.out_ty(p.p)
            return el, "Seq"
        if t[0] == "T" and t[1] == "String":
            o = self.g.out_ty(p.p)
            if p.p.k == "alt":
                o = next((x for x in (self.g.out_ty(q) for q in p.p.ps) if x[0] != "infer"), o)
            return o, "Str"
        if t[0] == "T" and t[1] == "BTreeMap":
            return ("tuple", t[2]), "Map"
        raise Unsupported("accumulator " + show_ty(t))

    def loop_fn(self, p, tag):
        key = ("loop", id(p))
        if key in self.loops:
            return self.loops[key]
        name = "%s_loop%d" % (tag, len([1 for k, v in self.loops.items() if k[0] == "loop" and re.fullmatch(re.escape(tag) + r"_loop\d+", v)]))
        self.loops[key] = name
        self.keep.append(p)
        p.fname = name
        el, kind = self.acc(p)
        if el[0] == "infer" or (el[0] == "T" and any(x[0] == "infer" for x in el[2])):
            # results which are dropped
            if p.k == "till" and p.p.k in ("named", "any", "alt"):
                el = ("tuple", ()) if p.p.k == "named" else T("char")
            else:
                raise Unsupported("element type of a repetition")
        p.el, p.kind = el, kind
        ge = gi = ""
        if self.cur_gen:
            ge = "<%s>" % ", ".join("%s: Ifc" % x for x in self.cur_gen)
            gi = "::<%s>" % ", ".join(self.cur_gen)
        if kind == "Str":
            at, empty = "Txt", "Seq::<char>::empty()"
            one = "seq![v]" if el == T("char") else "v"
        elif kind == "Map":
            at, empty = "Seq<%s>" % vty(el), "Seq::<%s>::empty()" % vty(el)
            one = "seq![v]"
        else:
            at, empty = "Seq<%s>" % vty(el), "Seq::<%s>::empty()" % vty(el)
            one = "seq![v]"
        pe, _ = self.pe(p.p, "t", name + "_i", True)
        rec = "%s%s" % (name, gi)
        plus = "bm_first(v, vs)" if kind == "Map" else "%s + vs" % one
        if kind == "Map":
            self.map_key(el)
        if p.k == "till":
            ee, _ = self.pe(p.e, "t", name + "_e", True)
            et = ("tuple", ())
            ee = "(match %s { Some((_, r)) => Some(((), r)), None => None })" % ee
            body = """match %s { Some((e, r)) => Some(((%s, e), r)), None => match %s {
        None => None,
        Some((v, r)) => if r.len() < t.len() { match %s(r) { Some(((vs, e), r2)) => Some(((%s, e), r2)), None => None } } else { None }
    } }""" % (ee, empty, pe, rec, plus)
            rt = "Option<((%s, %s), Txt)>" % (at, vty(et))
        elif kind == "Map":
            raise Unsupported("map read by " + p.k)
        elif p.k == "repeat":
            body = """match %s { None => Some((%s, t)),
        Some((v, r)) => if r.len() < t.len() { match %s(r) { Some((vs, r2)) => Some((%s + vs, r2)), None => None } } else { None }
    }""" % (pe, empty, rec, one)
            rt = "Option<(%s, Txt)>" % at
        else:
            # separated: sep then element; a separator without element is given back
            se, _ = self.pe(p.s, "t", name + "_s", True)
            pe2, _ = self.pe(p.p, "r0", name + "_i", True)
            if big_element(p):
                self.helpers.append("spec fn %s_i%s(t: Txt) -> Option<(%s, Txt)> {\n    %s\n}\n" % (name, ge, vty(el), pe))
                pe, pe2 = ("%s_i%s(%s)" % (name, gi, x) for x in ("t", "r0"))
            self.helpers.append("""spec fn %s_more%s(t: Txt) -> Option<(%s, Txt)>
    decreases t.len(),
{
    match %s { None => Some((%s, t)), Some((_, r0)) => if r0.len() < t.len() {
        match %s { None => Some((%s, t)), Some((v, r)) => if r.len() <= r0.len() {
            match %s_more%s(r) { Some((vs, r2)) => Some((%s + vs, r2)), None => None } } else { None } } } else { None }
    }
}
""" % (name, ge, at, se, empty, pe2, empty, name, gi, one))
            body = """match %s { None => Some((%s, t)),
        Some((v, r)) => match %s_more%s(r) { Some((vs, r2)) => Some((%s + vs, r2)), None => None }
    }""" % (pe, empty, name, gi, one)
            rt = "Option<(%s, Txt)>" % at
        self.helpers.append("spec fn %s%s(t: Txt) -> %s\n    decreases t.len(),\n{\n    %s\n}\n" % (name, ge, rt, body))
        if p.min and p.k == "till":
            self.helpers.append("""spec fn %s_min%s(t: Txt) -> %s {
    match %s { None => None, Some((v, r)) => match %s(r) { Some(((vs, e), r2)) => Some(((%s, e), r2)), None => None } }
}
""" % (name, ge, rt, pe, rec, plus))
        return name

    def map_key(self, el):
        """maps are modelled as sequences in ascending order of their keys"""
        s = self.ix.structs.get(el[1][0][1])
        ok = s and s["fields"]["kind"] == "tuple" and len(s["fields"]["fs"]) == 1 and self.g.field_ty(el[1][0], "0") == T("usize")
        if not ok or not {"Ord", "PartialOrd", "Eq", "PartialEq"} <= {x.strip().split("::")[-1].strip() for n, a in s["attrs"] if n == "derive" for x in a.split(",")}:
            raise Unsupported("order of the keys " + show_ty(el[1][0]))

    # ------------------------------------------------------------ type declarations
    def decl(self, name):
        if name in self.structs_done:
            return
        self.structs_done.add(name)
        s = self.ix.structs.get(name)
        if s:
            gps = [g[0] for g in s["gen"]["ps"]]
            if name == "TypedId":
                gps = []
            t = ("T", name, tuple(T(x) for x in gps))
            fs = []
            for f in s["fields"]["fs"]:
                ft = self.g.field_ty(t, f["name"])
                if ft[1] == "PhantomData":
                    continue
                self.need(ft, gps)
                fs.append((f["name"], vty(ft)))
            ge = "<%s>" % ", ".join(gps) if gps else ""
            k = s["fields"]["kind"]
            if k == "unit":
                self.out.append("struct %s;" % name)
            elif k == "tuple":
                self.out.append("struct %s%s(%s);" % (name, ge, ", ".join(x for _, x in fs)))
            else:
                self.out.append("struct %s%s { %s }" % (name, ge, ", ".join("%s: %s" % x for x in fs)))
            return
        e = self.ix.enums.get(name)
        if e:
            gps = [g[0] for g in e["gen"]["ps"]]
            gm = dict((x, T(x)) for x in gps)
            vs = []
            for v in e["vars"]:
                fs = []
                for f in v["fields"]["fs"]:
                    c = Ctx(self.ix, self_ty=("T", name, tuple(T(x) for x in gps)), gen=gm, file=e["file"])
                    ft = self.g.lookup_ty(ty(f["ty"]), c)
                    self.need(ft, gps)
                    fs.append((f["name"], vty(ft)))
                k = v["fields"]["kind"]
                if k == "unit":
                    vs.append(v["name"])
                elif k == "tuple":
                    vs.append("%s(%s)" % (v["name"], ", ".join(x for _, x in fs)))
                else:
                    vs.append("%s { %s }" % (v["name"], ", ".join("%s: %s" % x for x in fs)))
            ge = "<%s>" % ", ".join(gps) if gps else ""
            self.out.append("enum %s%s { %s }" % (name, ge, ", ".join(vs)))
            return
        raise Unsupported("no declaration of " + name)

    def need(self, t, gps=()):
        if t[0] == "tuple":
            for x in t[1]:
                self.need(x, gps)
        if t[0] == "T":
            if t[1] == "TypedId":
                self.decl("TypedId")
                return
            for x in t[2]:
                self.need(x, gps)
            if t[1] in gps or t[1] in ("String", "str", "f64", "usize", "i64", "i32", "bool", "char", "Vec", "Option", "BTreeMap",
                                       "DVec2", "DVec3", "DateTime", "Uuid", "u8", "u32", "int", "Utc", "dyn IfcType"):
                return
            self.decl(t[1])


# ---------------------------------------------------------------- proof scripts
class Seg:
    """state of the printed text while the parser is walked: segments i.. with the names of the texts"""

    def __init__(self, segs, tv):
        self.segs, self.tv = segs, tv      # len(tv) == len(segs) + 1

    def rest(self, n=1):
        return Seg(self.segs[n:], self.tv[n:])


QUOTED = """/// a text between quotes is read back
proof fn LOOP_quoted(s: Txt, k: Txt)
    ensures !(k.len() > 0 && k[0] == '\\'') ==> LOOP(lit(str_replace(s, "'"@, "''"@), lit("'"@, k))) == Some((s, lit("'"@, k))),
    decreases s.len(),
{
    reveal_strlit("'"); reveal_strlit("''"); reveal(lit); reveal(p_lit);
    let r = lit("'"@, k);
    let w = str_replace(s, "'"@, "''"@);
    let t = lit(w, r);
    let q = "'"@;
    assert(q =~= seq!['\\'']);
    if !(k.len() > 0 && k[0] == '\\'') {
        l_quote(t); l_quote(t.skip(1));
        if s.len() == 0 {
            assert(w =~= Seq::<char>::empty());
            assert(t =~= r);
            assert(t.skip(1) =~= k);
            assert(s =~= Seq::<char>::empty());
        } else {
            LOOP_quoted(s.skip(1), k);
            let w1 = str_replace(s.skip(1), "'"@, "''"@);
            assert(s.subrange(0, 1)[0] == s[0]);
            assert(s =~= seq![s[0]] + s.skip(1));
            if s[0] == '\\'' {
                assert(s.subrange(0, 1) =~= q);
                assert(w =~= "''"@ + w1);
                assert(t.skip(1).skip(1) =~= lit(w1, r));
                assert(t[0] == '\\'' && t.skip(1)[0] == t[1] && t[1] == '\\'');
            } else {
                assert(w =~= seq![s[0]] + w1);
                assert(t[0] == s[0]);
                assert(t.skip(1) =~= lit(w1, r));
            }
        }
    }
}
"""


ITEMS = """/// texts between brackets, separated by commas
proof fn LOOP_item(s: Txt, k: Txt)
    ensures (item_chars(s) && k.len() > 0 && (k[0] == ',' || k[0] == ']')) ==> ELEM(lit(s, k)) == Some((s, k)),
    decreases s.len(),
{
    reveal(lit); reveal(item_chars);
    let t = lit(s, k);
    if item_chars(s) && k.len() > 0 && (k[0] == ',' || k[0] == ']') {
        if s.len() == 0 { assert(t =~= k); assert(s =~= Seq::<char>::empty()); }
        else {
            assert(t.skip(1) =~= lit(s.skip(1), k));
            assert(item_chars(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] s.skip(1)[i] != ',' && s.skip(1)[i] != ']' by { assert(s.skip(1)[i] == s[i + 1]); } }
            LOOP_item(s.skip(1), k);
            assert(t[0] == s[0]);
            assert(s =~= seq![s[0]] + s.skip(1));
        }
    }
}
spec fn LOOP_tail(s: Seq<Txt>, k: Txt) -> Txt { if s.len() == 0 { k } else { lit(","@, lit(" "@, JOIN(s, k))) } }
proof fn LOOP_items_more(s: Seq<Txt>, kk: Txt)
    requires forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i]),
    ensures LOOP_more(LOOP_tail(s, lit("]"@, kk))) == Some((s, lit("]"@, kk))),
    decreases s.len(),
{
    reveal_strlit("]"); reveal_strlit(","); reveal_strlit(" ");
    reveal(item_ok);
    let kl = lit("]"@, kk);
    let t = LOOP_tail(s, kl);
    l_head("]"@, kk);
    if s.len() == 0 {
        l_no_lit(","@, "]"@, kk, 0);
        assert(s =~= Seq::<Txt>::empty());
    } else {
        let s1 = s.drop_first();
        let tl = LOOP_tail(s1, kl);
        assert forall|i: int| 0 <= i < s1.len() implies item_ok(#[trigger] s1[i]) by { assert(s1[i] == s[i + 1]); }
        LOOP_items_more(s1, kk);
        l_head(","@, lit(" "@, JOIN(s1, kl)));
        l_lit(","@, lit(" "@, JOIN(s, kl)));
        let w = lit(" "@, s[0]);
        assert(item_ok(s[0]));
        l_item(s[0]);
        assert(JOIN(s, kl) == lit(s[0], tl));
        assert(lit(" "@, lit(s[0], tl)) == lit(w, tl)) by { reveal(lit); assert(lit(" "@, lit(s[0], tl)) =~= lit(w, tl)); }
        LOOP_item(w, tl);
        l_head(w, tl);
        assert(s =~= seq![s[0]] + s1);
    }
}
proof fn LOOP_items(s: Seq<Txt>, kk: Txt)
    requires forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i]),
    ensures LOOP(JOIN(s, lit("]"@, kk))) == Some((read_items(s), lit("]"@, kk))),
{
    reveal_strlit("]"); reveal_strlit(","); reveal_strlit(" ");
    reveal(item_ok); reveal(read_items);
    let kl = lit("]"@, kk);
    l_head("]"@, kk);
    if s.len() == 0 {
        LOOP_item(Seq::<char>::empty(), kl);
        assert(item_chars(Seq::<char>::empty())) by { reveal(item_chars); }
        l_empty(kl);
        l_trim_empty();
        assert(s =~= Seq::<Txt>::empty());
        LOOP_items_more(s, kk);
        assert(seq![Seq::<char>::empty()] + s =~= seq![Seq::<char>::empty()]);
    } else {
        let s1 = s.drop_first();
        let tl = LOOP_tail(s1, kl);
        assert forall|i: int| 0 <= i < s1.len() implies item_ok(#[trigger] s1[i]) by { assert(s1[i] == s[i + 1]); }
        LOOP_items_more(s1, kk);
        l_head(","@, lit(" "@, JOIN(s1, kl)));
        assert(item_ok(s[0]));
        l_item(s[0]);
        assert(JOIN(s, kl) == lit(s[0], tl));
        LOOP_item(s[0], tl);
        assert(s =~= seq![s[0]] + s1);
    }
}
"""


def items_lemma(self, pr, q, seg, st):
    fn = q.fname
    jn = self.join_fn(seg, self.jtag(pr))
    if len(st.segs) < 2 or st.segs[1] != ("lit", "]") or q.p.k != "seq" or len(q.p.items) != 1 or q.p.items[0][1].k != "repeat":
        raise Unsupported("list of items")
    key = ("items", fn)
    if key not in self.loops:
        self.loops[key] = True
        el = self.loop_fn(q.p.items[0][1], fn + "_i")
        self.helpers.append(ITEMS.replace("LOOP", fn).replace("JOIN", jn).replace("ELEM", el))
    pr.o("%s_items(%s, %s); l_nonempty(%s);" % (fn, seg[1], st.tv[2], seg[1]))


class Proof:
    def __init__(self, em, ti, gen):
        self.em, self.ti, self.gen = em, ti, gen
        self.lines = []
        self.n = 0
        self.depth = 0
        self.ind = 2
        self.reveals = set()
        self.gen_bounds = {}

    def o(self, s):
        self.lines.append("    " * self.ind + s)

    def v(self, b="t"):
        self.n += 1
        return "%s_%d" % (b, self.n)

    def start(self, segs, k):
        """name the texts"""
        tv = [None] * len(segs) + [k]
        for i in range(len(segs) - 1, -1, -1):
            n = self.v()
            self.o("let %s = %s;" % (n, self.em.sh_expr([segs[i]], tv[i + 1], self.ti.name)))
            tv[i] = n
        return Seg(segs, tv)

    def splice(self, st, segs):
        """replace the first segment by segs"""
        h = self.start(segs, st.tv[1])
        return Seg(h.segs + st.segs[1:], h.tv[:-1] + st.tv[1:])

    def static(self, st):
        """literal text the rest starts with -> (text, index of the first dynamic segment)"""
        w = ""
        for i, s in enumerate(st.segs):
            if s[0] != "lit":
                return w, i
            w += s[1]
        return w, len(st.segs)

    def prefix(self, st, depth=0):
        """static prefix with concrete shows expanded -> (text, next segment or None)"""
        w = ""
        for s in st.segs:
            if s[0] == "lit":
                w += s[1]
                continue
            if s[0] == "show":
                x = self.display(s)
                if x is not None and depth < 5:
                    w2, nx = self.prefix(Seg(x, [None] * (len(x) + 1)), depth + 1)
                    w += w2
                    if nx == "end":
                        continue
                    return w, nx if w2 or nx is None else s
            return w, s
        return w, "end"

    def display(self, s):
        t = s[2]
        if t[1] in self.gen or t[1].startswith("dyn "):
            return None
        ti = self.em.get(t[1])
        if ti.kind != "ifc" or ti.why or ti.gen and t[1] != "TypedId":
            return None
        self.reveals.update(["sh_" + t[1], "wf_" + t[1]])
        return seg_subst(ti.segs, "self", "(" + s[1] + ")" if not re.fullmatch(r"[\w.]+", s[1]) else s[1])

    def consume(self, st, s):
        """the text must start with s: -> state after s, or None"""
        w, _ = self.static(st)
        if not w.startswith(s):
            return None
        if st.segs[0][1] == s:
            self.o("l_lit(%s, %s);" % (self.em.strlit(s), st.tv[1]))
            return st.rest()
        self.o("reveal(lit);")
        i, left = 0, s
        while left:
            x = st.segs[i][1]
            if left.startswith(x):
                left = left[len(x):]
                i += 1
            else:
                r = x[len(left):]
                n = self.v()
                self.o("let %s = lit(%s, %s);" % (n, self.em.strlit(r), st.tv[i + 1]))
                self.o("assert(%s =~= lit(%s, %s));" % (st.tv[0], self.em.strlit(s), n))
                self.o("l_lit(%s, %s);" % (self.em.strlit(s), n))
                return Seg([("lit", r)] + st.segs[i + 1:], [n] + st.tv[i + 1:])
        self.o("assert(%s =~= lit(%s, %s));" % (st.tv[0], self.em.strlit(s), st.tv[i]))
        self.o("l_lit(%s, %s);" % (self.em.strlit(s), st.tv[i]))
        return st.rest(i)

    # facts about the first character of the text
    def first(self, st):
        if not st.segs:
            return
        s = st.segs[0]
        if s[0] == "lit":
            self.o("l_head(%s, %s);" % (self.em.strlit(s[1]), st.tv[1]))
        if s[0] == "show" and s[2] == T("dyn IfcType"):
            self.o("any_rt(%s, %s);" % (s[1], st.tv[1]))
            return
        if s[0] == "show":
            self.o("%s.first(%s);" % (s[1], st.tv[1]))
            self.o("%s::val(%s);" % (self.em.tpath(s[2]), st.tv[1]))
            t = s[2]
            if t[1] in self.gen:
                for b in self.gen_bounds.get(t[1], ()):
                    self.o("%s.%s(%s);" % (s[1], {"Plain": "plain", "NoHash": "nohash"}[b], st.tv[1]))
            else:
                x = self.display(s)
                if x is not None:
                    pass
        elif s[0] == "txt":
            self.o("l_head(%s, %s);" % (s[1], st.tv[1]))
            self.txt_facts(s[1])
            if not re.match(r"(f_|dec_|str_replace|dt_)", s[1]) and len(st.segs) > 1:
                self.o("ax_alnum(%s[0]);" % s[1])
                self.o("if %s.len() == 0 { l_lit_empty(%s, %s);" % (s[1], s[1], st.tv[1]))
                self.first(st.rest())
                self.o("}")
        elif s[0] == "raw":
            s[2](self, st)
        elif s[0] == "join" and len(st.segs) > 1:
            self.o("if %s.len() == 0 { assert(%s == %s);" % (s[1], st.tv[0], st.tv[1]))
            self.first(st.rest())
            self.o("} else {")
            self.first(self.peel(st))
            self.o("}")

    def txt_facts(self, e):
        m = re.fullmatch(r"(f_dec|f_sci14)\((.*)\)", e)
        if m:
            self.o("ax_f_first(%s);" % m.group(2))
        m = re.fullmatch(r"dec_nat\((.*)\)", e)
        if m:
            self.o("ax_dec(%s, 0);" % m.group(1))
        m = re.fullmatch(r"dec_int\((.*)\)", e)
        if m:
            self.o("ax_dec(0, %s);" % m.group(1))

    # ------------------------------------------------------------ parser walk
    def flat(self, p):
        if p.k in ("seq", "verify_map"):
            out = []
            for n, q in p.items:
                out += self.flat(q)
            return out
        if p.k in ("lit", "char"):
            return [P("tok", s=x) for x in toks(p.s if p.k == "lit" else p.c)]
        if p.k == "take":
            return self.flat(p.p)
        return [p]

    def cases(self, st, k):
        """case split on a match / ite segment; k(state) continues"""
        s = st.segs[0]
        if s[0] == "match":
            self.o("match %s {" % s[1])
            for p, x in s[2]:
                self.ind += 1
                self.o("%s => {" % p)
                self.ind += 1
                k(self.splice(st, x))
                self.ind -= 1
                self.o("},")
                self.ind -= 1
            self.o("}")
        else:
            self.o("if %s {" % s[1])
            self.ind += 1
            m = re.fullmatch(r"\(?([\w.]+)\.len\(\) == 0\)?", s[1])
            if m:
                self.o("assert(%s =~= seq![]);" % m.group(1))
            k(self.splice(st, s[2]))
            self.ind -= 1
            self.o("} else {")
            self.ind += 1
            k(self.splice(st, s[3]))
            self.ind -= 1
            self.o("}")

    def walk(self, items, st, k=None):
        """items: parser items to be matched against st; k(st): continuation"""
        self.depth += 1
        if self.depth > 400:
            raise Unsupported("proof search")
        try:
            self._walk(items, st, k or (lambda st: None))
        finally:
            self.depth -= 1

    def _walk(self, items, st, k):
        while True:
            while st.segs and st.segs[0] == ("lit", ""):
                st = st.rest()
            if not items:
                return k(st)
            q = items[0]
            seg = st.segs[0] if st.segs else None
            if seg is not None and seg[0] in ("match", "ite"):
                self.cases(st, lambda s2: self.walk(items, s2, k))
                return
            if len(st.segs) > 1 and st.segs[1][0] in ("match", "ite") and seg[0] != "lit":
                self.cases(st.rest(), lambda s2: self.walk(items, Seg([seg] + s2.segs, [st.tv[0]] + s2.tv), k))
                return
            if q.k in ("seq", "lit", "char", "verify_map", "take"):
                items = self.flat(q) + items[1:]
                continue
            if q.k == "tok":
                if seg is not None and seg[0] == "show":
                    x = self.display(seg)
                    if x is None:
                        return k(st)
                    st = self.splice(st, x)
                    continue
                n = self.consume(st, q.s)
                if n is None and getattr(self, "mismatch", False):
                    r = self.sim_one([q.s], st, True)
                    self.o("// %s" % r)
                    return
                if n is None:
                    self.o("// the printed text doesn't continue with %s" % rust_str(q.s))
                    return
                st, items = n, items[1:]
                continue
            if q.k == "named":
                ws = ""
                while st.segs and st.segs[0][0] == "lit" and st.segs[0][1] in (" ", "\n", "\t", "\r"):
                    ws += st.segs[0][1]
                    st = st.rest()
                self.first(st)
                if ws and not st.segs:
                    self.o("l_ws_pre(%s, %s); l_ws_total(%s);" % (self.em.strlit(ws), st.tv[0], st.tv[0]))
                    if self.em.is_entity(self.ti.name):
                        st = Seg([], ["ws_of(%s)" % st.tv[0]])
                elif ws:
                    self.o("l_ws_skip(%s, %s);" % (self.em.strlit(ws), st.tv[0]))
                else:
                    self.o("l_ws(%s);" % st.tv[0])
                    if not st.segs:
                        self.o("l_ws_total(%s);" % st.tv[0])
                        if self.em.is_entity(self.ti.name):
                            m = re.fullmatch(r"ws_of\((.*)\)", st.tv[0])
                            if m:
                                self.o("l_ws_idem(%s);" % m.group(1))
                            else:
                                st = Seg([], ["ws_of(%s)" % st.tv[0]])
                items = items[1:]
                continue
            if q.k == "call":
                if seg is not None and seg[0] == "show":
                    w, _ = self.static(st.rest())
                    if seg[2][1] == q.t[1] and w and w[0] not in ",)" and not self.em.is_entity(q.t[1]) and self.display(seg) is not None:
                        # the value isn't followed by `,` or `)`: below the type's contract
                        st = self.splice(st, self.display(seg))
                        self.reveals.update(["ps_" + q.t[1], "wf_" + q.t[1]])
                        items = [self.em.get(q.t[1]).p] + items[1:]
                        continue
                    if seg[2][1] == q.t[1] and q.t[1] in self.em.tops:
                        st = self.call_top(seg, st)
                        items = items[1:]
                        continue
                    if seg[2][1] == q.t[1]:
                        self.first(st.rest())
                        self.o("%s::val(%s);" % (self.em.tpath(seg[2]), st.tv[1]))
                        self.o("%s.rt(%s);" % (seg[1], st.tv[1]))
                        st, items = st.rest(), items[1:]
                        continue
                    x = self.display(seg)
                    if x is not None:
                        st = self.splice(st, x)
                        continue
                ti = self.em.get(q.t[1])
                if q.t[1] in self.gen or ti.kind != "ifc" or ti.why or (ti.gen and q.t[1] != "TypedId"):
                    return
                self.reveals.update(["ps_" + q.t[1], "wf_" + q.t[1]])
                items = [ti.p] + items[1:]
                continue
            if q.k == "alt" and q is getattr(self.em, "any_p", None):
                if seg is None or seg[0] != "show" or seg[2] != T("dyn IfcType"):
                    return
                st = self.call_any(seg, st)
                items = items[1:]
                continue
            if q.k == "alt":
                r = self.alt(q, st, items[1:], k)
                if r is None:
                    return
                st, items = r
                continue
            if q.k == "opt":
                w, nx = self.prefix(st)
                res = self.simulate(q.p, st, w, nx)
                if res == "fail":
                    items = items[1:]
                    continue
                items = [q.p] + items[1:]
                continue
            if seg is not None and seg[0] == "show":
                x = self.display(seg)
                if x is None:
                    return
                st = self.splice(st, x)
                continue
            if q.k == "float" and seg is not None and seg[0] == "txt":
                m = re.fullmatch(r"(f_dec|f_sci14)\((.*)\)", seg[1])
                if not m:
                    return
                w, _ = self.static(st.rest())
                if m.group(1) == "f_dec" and w.startswith("."):
                    s2 = self.consume(st.rest(), ".")
                    self.o("assert(%s =~= seq!['.']);" % self.em.strlit("."))
                    self.first(s2)
                    self.o("ax_f_dec(%s, %s);" % (m.group(2), s2.tv[0]))
                    st, items = s2, items[1:]
                    continue
                self.first(st.rest())
                self.o("ax_%s(%s, %s);" % ("f_dec" if m.group(1) == "f_dec" else "f_sci", m.group(2), st.tv[1]))
                st, items = st.rest(), items[1:]
                continue
            if q.k in ("dec_uint", "dec_int") and seg is not None and seg[0] == "txt":
                m = re.fullmatch(r"(dec_nat|dec_int)\((.*)\)", seg[1])
                if not m:
                    return
                self.first(st.rest())
                if q.k == "dec_uint":
                    self.o("ax_uint(%s, %s, %s);" % (m.group(2), st.tv[1], self.em.uint_max(q.t)))
                else:
                    self.o("ax_int(%s, %s, %s);" % (m.group(2), st.tv[1], self.em.int_max(q.t)))
                st, items = st.rest(), items[1:]
                continue
            if q.k == "takewhile":
                f = "|%s: char| %s" % (q.c, q.pred)
                hi = "None" if q.hi is None else "Some(%d)" % q.hi
                if seg is not None and seg[0] == "txt":
                    self.first(st.rest())
                    if "ch_alnum(" in q.pred:
                        self.o("ax_alnum(%s[0]);" % st.tv[1])
                    self.o("l_take_while(%s, %s, %d, %s, %s);" % (seg[1], st.tv[1], q.lo, hi, f))
                    if q.lo == 0 and st.segs[1:] and st.segs[1][0] == "lit" and st.segs[1][1].isspace():
                        # an empty text: white space in front of it extends to what follows it
                        self.o("if %s.len() == 0 {" % seg[1])
                        ws, s2 = self.skip_ws(st.rest())
                        if s2.segs:
                            if "ch_alnum(" in q.pred:
                                self.o("ax_alnum(%s[0]);" % s2.tv[0])
                            self.o("l_ws(%s); l_ws_skip(%s, %s); l_lit_empty(%s, %s);" % (s2.tv[0], self.em.strlit(ws), s2.tv[0], seg[1], s2.tv[0]))
                            self.o("l_take_while(%s, %s, %d, %s, %s);" % (seg[1], s2.tv[0], q.lo, hi, f))
                        self.o("}")
                    st, items = st.rest(), items[1:]
                    continue
                return
            if q.k == "repeat" and seg is not None and seg[0] == "txt" and re.match(r"str_replace\(", seg[1]):
                st2 = self.consume_quote(q, seg, st)
                if st2 is None:
                    return
                st, items = st2, items[1:]
                continue
            if q.k == "separated" and seg is not None and seg[0] == "join" and norm(seg[5]) == [("lit", ","), ("lit", " ")]:
                self.em.loop_fn(q, self.ti.name)
                self.em.items_lemma(self, q, seg, st)
                st, items = st.rest(), items[1:]
                continue
            if q.k == "till" and seg is not None and seg[0] == "lit" and seg[1].isspace() and \
                    all(self.flat(x) and self.flat(x)[0].k == "named" for x in (q.p, q.e)):
                # white space in front of the first element, or of the end
                fn = self.em.loop_fn(q, self.ti.name)
                t0 = st.tv[0]
                ws, st = self.skip_ws(st)
                if not st.segs:
                    return
                self.o("l_ws(%s); l_ws_skip(%s, %s);" % (st.tv[0], self.em.strlit(ws), st.tv[0]))
                self.o("assert(%s == lit(%s, %s));" % (t0, self.em.strlit(ws), st.tv[0]))
                self.o("l_head(%s, %s);" % (self.em.strlit(ws), st.tv[0]))
                self.eat(q.p, st.tv[0], fn + "_i")
                self.o("assert(%s%s(%s) == %s%s(%s));" % (fn, self.em.gi(), t0, fn, self.em.gi(), st.tv[0]))
                continue
            if q.k in ("till", "separated") and seg is not None and seg[0] == "join":
                self.em.loop_fn(q, self.ti.name)
                self.first(st.rest())
                self.em.join_lemma(self, q, seg, st)
                if q.k == "till":
                    s2 = self.consume_end(q.e, st.rest())
                    if s2 is None:
                        return
                    st, items = s2, items[1:]
                else:
                    st, items = st.rest(), items[1:]
                continue
            return

    def skip_ws(self, st):
        """white space which the parser of seg may have skipped"""
        ws = ""
        while st.segs and st.segs[0][0] == "lit" and st.segs[0][1] in (" ", "\n", "\t", "\r"):
            ws += st.segs[0][1]
            st = st.rest()
        self.first(st)
        return ws, st

    def call_top(self, seg, st):
        """a part of the file: it skips the white space which follows"""
        self.o("%s.rt(%s);" % (seg[1], st.tv[1]))
        ws, st = self.skip_ws(st.rest())
        if not st.segs:
            return Seg([], ["ws_of(%s)" % st.tv[0]])
        self.o("l_ws_skip(%s, %s);" % (self.em.strlit(ws), st.tv[0]) if ws else "l_ws(%s);" % st.tv[0])
        return st

    def call_any(self, seg, st):
        """an object: some types skip the white space which follows"""
        k = st.tv[1]
        self.o("any_rt(%s, %s); any_end(%s, %s);" % (seg[1], k, seg[1], k))
        ws, st = self.skip_ws(st.rest())
        if not st.segs:
            raise Unsupported("end of an object")
        self.o("l_ws(%s);" % st.tv[0])
        if ws:
            self.o("l_ws_skip(%s, %s);" % (self.em.strlit(ws), st.tv[0]))
        return st

    def consume_quote(self, q, seg, st):
        """a text between quotes, quotes within it are written twice"""
        m = re.fullmatch(r"str_replace\((.*), \"'\"@, \"''\"@\)", seg[1])
        s1 = st.rest()
        if not m or not s1.segs or s1.segs[0] != ("lit", "'"):
            return None
        fn = self.em.loop_fn(q, self.ti.name)
        key = ("quoted", fn)
        if key not in self.em.loops:
            self.em.loops[key] = True
            self.em.helpers.append(QUOTED.replace("LOOP", fn))
        self.first(s1.rest())
        self.o("%s_quoted(%s, %s);" % (fn, m.group(1), s1.tv[1]))
        return s1

    def peel(self, st):
        """the first element of a list which isn't empty"""
        _, e, n, el, elem, sep = st.segs[0][:6]
        jn = self.em.join_fn(st.segs[0], self.ti.name)
        x, r = self.v("x"), self.v("t")
        self.o("let %s = %s[0];" % (x, e))
        self.o("let %s = %s;" % (r, "if %s.len() == 1 { %s } else { %s }" % (e, st.tv[1], self.em.sh_expr(sep, "%s(%s.drop_first(), %s)" % (jn, e, st.tv[1]), self.ti.name))
                                 if sep else "%s(%s.drop_first(), %s)" % (jn, e, st.tv[1])))
        s = self.start(seg_subst(elem, n, x), r)
        self.o("assert(%s == %s);" % (s.tv[0], st.tv[0]))
        return s

    def consume_end(self, e, st):
        box = []
        self.walk([e], st, lambda s: box.append(s))
        return box[0] if len(box) == 1 else None

    # -> 'fail' (lemmas emitted), 'maybe'
    def simulate(self, p, st, w=None, nx=None):
        """show that the parser p doesn't accept the text"""
        fl = self.firsts([p])
        if fl is None:
            return "maybe"
        todo = []
        for (ts,) in fl:
            r = self.sim_one(ts, st, False)
            if r != "fail":
                return "maybe"
            todo.append(ts)
        for ts in todo:
            self.sim_one(ts, st, True)
        return "fail"

    def sim_one(self, ts, st, emit):
        lines, n = self.lines, self.n
        if not emit:
            self.lines = []
        try:
            cur = st
            for x in ts:
                d = 0
                while cur.segs and cur.segs[0][0] == "show" and d < 6:
                    y = self.display(cur.segs[0])
                    if y is None or not y or y[0][0] not in ("lit", "show", "txt"):
                        break
                    cur = self.splice(cur, y)
                    d += 1
                if not cur.segs:
                    return "maybe"
                s = cur.segs[0]
                if s[0] != "lit":
                    if self.decides(s, x[0]):
                        self.first(cur)
                        self.o("l_no(%s, %s, 0);" % (self.em.strlit(x), cur.tv[0]))
                        return "fail"
                    return "maybe"
                a = s[1]
                if a == x:
                    self.o("l_lit(%s, %s);" % (self.em.strlit(x), cur.tv[1]))
                    cur = cur.rest()
                    continue
                i = 0
                while i < min(len(a), len(x)) and a[i] == x[i]:
                    i += 1
                if i < len(a) and i < len(x):
                    self.o("l_no_lit(%s, %s, %s, %d);" % (self.em.strlit(x), self.em.strlit(a), cur.tv[1], i))
                    return "fail"
                if i < len(x):
                    nxt = cur.rest()
                    d = 0
                    while nxt.segs and nxt.segs[0][0] == "show" and d < 6:
                        y = self.display(nxt.segs[0])
                        if y is None or not y or y[0][0] not in ("lit", "show", "txt"):
                            break
                        nxt = self.splice(nxt, y)
                        d += 1
                    if not nxt.segs:
                        return "maybe"
                    if nxt.segs[0][0] == "lit":
                        if nxt.segs[0][1][0] == x[i]:
                            return "maybe"
                        self.o("l_head(%s, %s);" % (self.em.strlit(nxt.segs[0][1]), nxt.tv[1]))
                    elif self.decides(nxt.segs[0], x[i]):
                        self.first(nxt)
                    else:
                        return "maybe"
                    self.o("l_no_next(%s, %s, %s);" % (self.em.strlit(x), self.em.strlit(a), cur.tv[1]))
                    return "fail"
                # the printed literal is longer
                rem = a[len(x):]
                nv = self.v("u")
                self.o("let %s = lit(%s, %s); assert(%s =~= %s + %s); l_assoc(%s, %s, %s); l_lit(%s, %s);" % (
                    nv, self.em.strlit(rem), cur.tv[1], self.em.strlit(a), self.em.strlit(x), self.em.strlit(rem),
                    self.em.strlit(x), self.em.strlit(rem), cur.tv[1], self.em.strlit(x), nv))
                cur = Seg([("lit", rem)] + cur.segs[1:], [nv] + cur.tv[1:])
            return "maybe"
        finally:
            if not emit:
                self.lines, self.n = lines, n

    def decides(self, nx, c):
        """can the next segment not start with the character c?"""
        if nx == "end":
            return False
        if nx[0] == "txt" and re.match(r"dec_|f_dec|f_sci", nx[1]):
            return not (c.isdigit() or c == "-")
        if nx[0] == "show":
            t = nx[2]
            if c in OKC_BAD:
                return True
            if t[1] in self.gen:
                b = self.gen_bounds.get(t[1], ())
                return c in "$*" and "Plain" in b or c == "#" and "NoHash" in b
            return True
        return True

    def firsts(self, items, depth=0):
        """token sequences which a parser may start with (None: unknown)"""
        if depth > 6 or not items:
            return None
        p = items[0]
        k = p.k
        if k in ("seq", "lit", "char", "verify_map", "take"):
            return self.firsts(self.flat(p) + items[1:], depth)
        if k == "named":
            return self.firsts(items[1:], depth)
        if k == "tok":
            ts = []
            for q in items:
                if q.k != "tok":
                    break
                ts.append(q.s)
            return [(ts,)]
        if k == "call":
            if p.t[1] in self.gen or p.t[1] not in self.em.types:
                return None
            ti = self.em.get(p.t[1])
            if ti.why or ti.kind != "ifc":
                return None
            self.reveals.add("ps_" + p.t[1])
            return self.firsts([ti.p] + items[1:], depth + 1)
        if k == "alt":
            out = []
            for q in p.ps:
                r = self.firsts([q] + items[1:], depth)
                if r is None:
                    return None
                out += r
            return out
        return None

    def has_call(self, p, t):
        fl = self.flat(p)
        for q in fl:
            if q.k == "named":
                continue
            return q.k == "call" and q.t[1] == t[1]
        return False

    def alt(self, q, st, rest, k):
        seg = st.segs[0] if st.segs else None
        w, nx = self.prefix(st)
        if seg is not None and seg[0] == "show" and not any(self.has_call(b, seg[2]) for b in q.ps):
            x = self.display(seg)
            if x is not None:
                return self.splice(st, x), [q] + rest
        self.first(st)
        # white space in front of a branch
        if any(self.flat(b)[0].k == "named" for b in q.ps if self.flat(b)):
            self.o("l_ws(%s);" % st.tv[0])
        bf = self.em.branches(q, self.ti.name)
        if seg is not None and seg[0] == "join" and any(b.k == "separated" for b in q.ps):
            pl = self.peel(st)
            for b in q.ps:
                if b.k == "separated":
                    return st, [b] + rest
                if self.simulate(b, pl) != "fail":
                    return None
        for i, b in enumerate(q.ps):
            if bf:
                self.reveals.add(bf[i])
            if seg is not None and seg[0] == "show" and self.has_call(b, seg[2]):
                return st, [b] + rest
            if b.k == "fallback":
                return None
            if self.numeric(b):
                if w and not (w[0].isdigit() or w[0] in "+-") or not w and nx not in ("end",) and nx[0] == "show":
                    self.o("ax_num_len(%s, MAXU()); ax_num_len(%s, MAXI());" % (st.tv[0], st.tv[0]))
                    continue
            if self.simulate(b, st, w, nx) == "fail":
                continue
            if w == "" and not (seg is not None and seg[0] == "lit"):
                # undecided branch in front of a dynamic text
                if b is not q.ps[-1]:
                    continue
            return st, [b] + rest
        return None

    def numeric(self, p):
        fl = self.flat(p)
        return bool(fl) and fl[0].k in ("dec_uint", "dec_int", "float")

    # ------------------------------------------------------------ lengths
    def eat(self, p, t, tag, k=None):
        """facts: the remaining text of p at t isn't longer (shorter if something must be read)"""
        em = self.em
        if p.k in ("seq", "verify_map"):
            self.eat_items(self.flat1(p), t, tag, k)
            return
        self.eat_fact(p, t, tag)
        if k:
            e, hasv = em.pe(p, t, tag, True)
            r = self.v("r")
            self.o("match %s { None => {}, Some((_, %s)) => {" % (e, r))
            self.ind += 1
            k(r)
            self.ind -= 1
            self.o("} }")

    def flat1(self, p):
        out = []
        for n, q in p.items:
            if q.k in ("lit", "char"):
                out += [P("tok", s=x) for x in toks(q.s if q.k == "lit" else q.c)]
            else:
                out.append(q)
        return out

    def eat_items(self, items, t, tag, k):
        if not items:
            if k:
                k(t)
            return
        q, rest = items[0], items[1:]
        r = self.v("r")
        if q.k == "tok":
            self.o("l_lit_len(%s, %s);" % (self.em.strlit(q.s), t))
            if rest or k:
                self.o("match p_lit(%s, %s) { None => {}, Some(%s) => {" % (self.em.strlit(q.s), t, r))
                self.ind += 1
                self.eat_items(rest, r, tag, k)
                self.ind -= 1
                self.o("} }")
            return
        self.eat(q, t, tag, None)
        if rest or k:
            e, hasv = self.em.pe(q, t, tag, True)
            self.o("match %s { None => {}, Some((_, %s)) => {" % (e, r))
            self.ind += 1
            self.eat_items(rest, r, tag, k)
            self.ind -= 1
            self.o("} }")

    def eat_fact(self, p, t, tag):
        em = self.em
        k = p.k
        if k == "call":
            self.o("%s::eats(%s);" % (em.tpath(p.t), t))
        elif k == "tok":
            self.o("l_lit_len(%s, %s);" % (em.strlit(p.s), t))
        elif k in ("lit", "char"):
            self.eat_items([P("tok", s=x) for x in toks(p.s if k == "lit" else p.c)], t, tag, None)
        elif k == "named":
            self.o("e_%s(%s);" % (p.fn.name, t))
        elif k in ("dec_uint", "dec_int", "float"):
            self.o("ax_num_len(%s, %s);" % (t, em.uint_max(p.t) if k == "dec_uint" else em.int_max(p.t) if k == "dec_int" else "0"))
        elif k == "takewhile":
            self.o("l_take_while_len(%s, %d, %s, |%s: char| %s);" % (
                t, p.lo, "None" if p.hi is None else "Some(%d)" % p.hi, p.c, p.pred))
        elif k == "multispace1":
            self.o("l_take_while_len(%s, 1, None, |c: char| is_ms(c));" % t)
        elif k == "multispace0":
            self.o("l_take_while_len(%s, 0, None, |c: char| is_ms(c));" % t)
        elif k == "alt" and p is getattr(em, "any_p", None):
            self.o("any_eats(%s);" % t)
        elif k == "alt":
            bf = em.branches(p, tag)
            for i, q in enumerate(p.ps):
                if bf:
                    self.o("e_%s%s(%s);" % (bf[i], em.gi(), t))
                    em.branch_eats(q, bf[i], tag)
                else:
                    self.eat(q, t, tag)
        elif k in ("opt", "peek", "take", "not"):
            self.eat(p.p, t, tag)
        elif k in ("till", "repeat", "separated"):
            fn = em.loop_fn(p, tag)
            self.o("e_%s%s(%s);" % (fn, em.gi(), t))
            em.loop_eats(p, fn, tag)
        elif k in ("any", "charif", "fail", "const"):
            pass
        elif k == "fallback":
            self.o("// fallback of the parameter type")
            self.o("%s::fb_eats(%s);" % (em.tpath(p.t), t))
        else:
            raise Unsupported("eat " + k)


def _gi(self):
    return "::<%s>" % ", ".join(self.cur_gen) if self.cur_gen else ""


def _ge(self):
    return "<%s>" % ", ".join("%s: Ifc" % x for x in self.cur_gen) if self.cur_gen else ""


def strict(p):
    """does the parser consume at least one character?"""
    if p.k in ("lit", "char", "tok", "call", "any", "charif", "multispace1", "dec_uint", "dec_int", "float"):
        return True
    if p.k == "seq":
        return any(strict(q) for _, q in p.items)
    if p.k == "alt":
        return all(strict(q) for q in p.ps)
    if p.k == "take":
        return strict(p.p)
    if p.k == "till":
        return strict(p.e)
    return False


def big_element(p):
    """the element of a list which gets a function and lemmas of its own"""
    return p.k == "separated" and p.p.k == "seq" and len(p.p.items) > 3


def eat_element(self, pr, p, t, fn, k):
    """facts about an element of the repetition p"""
    if not big_element(p):
        pr.eat(p.p, t, fn + "_i", k)
        return
    r = pr.v("r")
    pr.o("e_%s_i%s(%s);" % (fn, self.gi(), t))
    pr.o("match %s_i%s(%s) { None => {}, Some((_, %s)) => {" % (fn, self.gi(), t, r))
    pr.ind += 1
    k(r)
    pr.ind -= 1
    pr.o("} }")


def _loop_eats(self, p, fn, tag):
    """lemma: a repetition never grows the text; obligation (C10): its element consumes something"""
    key = ("eats", fn)
    if key in self.loops:
        return
    self.loops[key] = True
    ti = TypeInfo()
    ti.name = fn
    pr = Proof(self, ti, self.cur_gen)
    pr.ind = 1
    saved, self.lits = self.lits, set()
    gi = self.gi()
    if p.k == "till":
        pr.eat(p.e, "t", fn + "_e")
    ename = "%s_i" % fn

    def rec(f):
        def go(r):
            pr.o("if %s.len() < t.len() { e_%s%s(%s); }" % (r, f, gi, r))
        return go
    if big_element(p):
        pm = Proof(self, ti, self.cur_gen)
        pm.ind = 1
        sv, self.lits = self.lits, set()
        pm.eat(p.p, "t", ename)
        self.helpers.append("""proof fn e_%s_i%s(t: Txt)
    ensures %s_i%s(t) matches Some((_, r)) ==> r.len() %s t.len(),
{
%s%s
}
""" % (fn, self.ge(), fn, gi, "<" if strict(p.p) else "<=", "".join("    reveal_strlit(%s);\n" % rust_str(x) for x in sorted(self.lits)), "\n".join(pm.lines)))
        self.lits = sv
    if p.k == "separated":
        pm = Proof(self, ti, self.cur_gen)
        pm.ind = 1

        def after_sep(r0):
            pm.o("if %s.len() < t.len() {" % r0)
            eat_element(self, pm, p, r0, fn, lambda r: pm.o("if %s.len() <= %s.len() { e_%s_more%s(%s); }" % (r, r0, fn, gi, r)))
            pm.o("}")
        pm.eat(p.s, "t", fn + "_s", after_sep)
        self.helpers.append("""proof fn e_%s_more%s(t: Txt)
    ensures %s_more%s(t) matches Some((_, r)) ==> r.len() <= t.len(),
    decreases t.len(),
{
%s
}
""" % (fn, self.ge(), fn, gi, "\n".join(pm.lines)))
        eat_element(self, pr, p, "t", fn, lambda r: pr.o("e_%s_more%s(%s);" % (fn, gi, r)))
    else:
        pr.eat(p.p, "t", ename, rec(fn))
    rev = "".join("    reveal_strlit(%s);\n" % rust_str(x) for x in sorted(self.lits))
    self.lits = set()
    self.helpers.append("""proof fn e_%s%s(t: Txt)
    ensures %s%s(t) matches Some((_, r)) ==> r.len() %s t.len(),
    decreases t.len(),
{
%s%s
}
""" % (fn, self.ge(), fn, gi, "<" if strict(p) else "<=", rev, "\n".join(pr.lines)))
    # winnow asserts that each round consumes something
    pc = Proof(self, ti, self.cur_gen)
    pc.ind = 1
    if p.k == "separated":
        pc.eat(p.s, "t", fn + "_s", lambda r: pc.o("assert(%s.len() < t.len());" % r))
    else:
        pc.eat(p.p, "t", ename, lambda r: pc.o("assert(%s.len() < t.len());" % r))
    self.helpers.append("""/// C10: winnow's repetition doesn't run into its consistency assertion
proof fn c10_%s%s(t: Txt)
{
%s%s
}
""" % (fn, self.ge(), "".join("    reveal_strlit(%s);\n" % rust_str(x) for x in sorted(self.lits)), "\n".join(pc.lines)))
    self.lits = saved


def _branch_eats(self, q, fn, tag):
    key = ("eats", fn)
    if key in self.loops:
        return
    self.loops[key] = True
    ti = TypeInfo()
    ti.name = fn
    saved, self.lits = self.lits, set()
    pr = Proof(self, ti, self.cur_gen)
    pr.ind = 1
    pr.o("reveal(%s);" % fn)
    pr.eat(q, "t", fn)
    rev = "".join("    reveal_strlit(%s);\n" % rust_str(x) for x in sorted(self.lits))
    self.lits = saved
    self.helpers.append("""proof fn e_%s%s(t: Txt)
    ensures %s%s(t) matches Some((_, r)) ==> r.len() < t.len(),
{
%s%s
}
""" % (fn, self.ge(), fn, self.gi(), rev, "\n".join(pr.lines)))


Emit.gi, Emit.ge, Emit.loop_eats, Emit.branch_eats = _gi, _ge, _loop_eats, _branch_eats


# ---------------------------------------------------------------- well-formed values
STRING_WF = {("ViewDefinition", "name"): "ident_ok(@)", ("ViewDefinition", "items"): "item_ok(@)"}


def wf(self, e, t, gps=(), path=()):
    """values which can be written and read back"""
    if t[0] == "tuple":
        return self.conj([wf(self, "%s.%d" % (e, i), x, gps, path) for i, x in enumerate(t[1])])
    n = t[1]
    if n in gps:
        return "%s.wf()" % e
    if n == "f64":
        return "f_finite(%s) && f_short(%s)" % (e, e)
    if n == "usize":
        return "%s <= MAXU()" % e
    if n == "i64":
        return "-MAXI() - 1 <= %s <= MAXI()" % e
    if n == "i32":
        return "-0x8000_0000 <= %s <= 0x7fff_ffff" % e
    if n in ("String", "str"):
        return self.string_wf(e, path)
    if n in ("bool", "char", "Uuid", "TypedId"):
        return "true" if n != "TypedId" else "%s.wf()" % e
    if n in ("DVec2", "DVec3"):
        return self.conj([wf(self, "%s.%s" % (e, c), T("f64")) for c in ("xy" if n == "DVec2" else "xyz")])
    if n == "DateTime":
        return "dt_ok(%s)" % e
    if n == "Vec":
        i = "i" if not re.search(r"\bi\b", e) else "j"
        e1 = re.sub(r"\(#\[trigger\] (.*?)\)", r"\1", e)
        w = wf(self, "(#[trigger] %s[%s])" % (e1, i), t[2][0], gps, path)
        return "true" if w == "true" else "(forall|%s: int| 0 <= %s < %s.len() ==> %s)" % (i, i, e1, self.trig(w, e1, i))
    if n == "Option":
        return "(%s matches Some(x) ==> %s)" % (e, wf(self, "x", t[2][0], gps, path))
    if n == "BTreeMap":
        return "map_wf(%s)" % e
    if n.startswith("dyn "):
        return "%s.wf()" % e
    if self.ix.find_impl("IFCParse", t):
        return "%s.wf()" % e
    if n in self.ix.structs or n in self.ix.enums:
        return self.wf_body(e, t, path)
    raise Unsupported("well-formedness of " + show_ty(t))


def trig(self, w, e, v="i"):
    # only one trigger mark
    m = "(#[trigger] %s[%s])" % (e, v)
    i = w.find(m)
    if i < 0:
        return w
    return w[:i + len(m)] + w[i + len(m):].replace(m, "%s[%s]" % (e, v))


def conj(self, xs):
    xs = [x for x in xs if x != "true"]
    return " && ".join(xs) if xs else "true"


def wf_body(self, e, t, path=()):
    n = t[1]
    s = self.ix.structs.get(n)
    if s:
        gps = [g[0] for g in s["gen"]["ps"]]
        xs = []
        for f in s["fields"]["fs"]:
            ft = self.g.field_ty(t, f["name"])
            if ft[1] == "PhantomData":
                continue
            xs.append(wf(self, "%s.%s" % (e, f["name"]), ft, gps, path + ((n, f["name"]),)))
        return self.conj(xs)
    en = self.ix.enums[n]
    gps = [g[0] for g in en["gen"]["ps"]]
    gm = dict((x, T(x)) for x in gps)
    arms = []
    for v in en["vars"]:
        fs = []
        for f in v["fields"]["fs"]:
            c = Ctx(self.ix, self_ty=t, gen=gm, file=en["file"])
            fs.append((f["name"], self.g.lookup_ty(ty(f["ty"]), c)))
        k = v["fields"]["kind"]
        if k == "unit":
            arms.append("%s::%s => true" % (n, v["name"]))
        elif k == "tuple":
            arms.append("%s::%s(%s) => %s" % (n, v["name"], ", ".join("v%s" % f for f, _ in fs),
                                              self.conj([wf(self, "v%s" % f, x, gps, path + ((n, v["name"]),)) for f, x in fs])))
        else:
            arms.append("%s::%s { %s } => %s" % (n, v["name"], ", ".join(f for f, _ in fs),
                                                 self.conj([wf(self, f, x, gps, path + ((n, v["name"]),)) for f, x in fs])))
    return "(match %s { %s })" % (e, ", ".join(arms))


def string_wf(self, e, path):
    return STRING_WF.get(path[-1] if path else None, "true").replace("@", e)


Emit.items_lemma = items_lemma
Emit.trig, Emit.conj, Emit.wf_body, Emit.string_wf = trig, conj, wf_body, string_wf

BOUNDS = {"OptionalParameter": {"T": ["Plain"]}, "IdOr": {"T": ["NoHash"]}}
BODY_EXTRA = {"IfcTimestamp": ["ax_dt(self.0);"], "Header": [
    "ax_dt(self.name.timestamp.0);", 'reveal_strlit("Z");', "assert(\"Z\"@ =~= seq!['Z']);",
    "assert forall|i: int| 0 <= i < dt_iso(self.name.timestamp.0).len() implies #[trigger] dt_iso(self.name.timestamp.0)[i] != '\\'' by { "
    "if dt_iso(self.name.timestamp.0)[i] == '\\'' { assert(dt_iso(self.name.timestamp.0).contains('\\'')); } }"]}      # type -> lines at the start of rt


def is_entity(self, name):
    return name in self.entities or name in self.tops


def end_kind(self, p, depth=0):
    """does the parser of an entity skip the white space which follows?"""
    pr = Proof(self, TypeInfo(), [])
    fl = pr.flat(p)
    if not fl:
        return "k"
    q = fl[-1]
    if q.k == "named":
        return "ws"
    if q.k == "call" and depth < 5:
        ti = self.get(q.t[1])
        if ti.kind == "ifc" and not ti.why:
            return self.end_kind(ti.p, depth + 1)
    if q.k == "till":
        return self.end_kind(q.e, depth)
    return "k"


def emit_type(self, name):
    """impl Ifc for the type"""
    ti = self.types[name]
    gen = [] if name == "TypedId" else list(ti.gen)
    self.cur_gen = gen
    bounds = BOUNDS.get(name, {})
    ge = "<%s>" % ", ".join("%s: %s" % (x, (bounds.get(x) or ["Ifc"])[0]) for x in gen) if gen else ""
    t = name + ("<%s>" % ", ".join(gen) if gen else "")
    self.lits = set()
    sh = self.sh_expr(ti.segs, "k", name)
    ps, hasv = self.pe(ti.p, "t", name, True)
    fb, _ = self.pe(ti.fb, "t", name + "_fb", True)
    ent = self.is_entity(name)
    ek = self.end_kind(ti.p) if ent else "k"
    lits0 = set(self.lits)
    st_t = ("T", name, tuple(T(x) for x in gen))
    w = "false" if name == "Comma" else self.wf_override.get(name) or self.wf_body("self", st_t)
    gi = "::<%s>" % ", ".join(gen) if gen else ""
    S = []                     # specification
    for f, sig, body in (("sh", "(x: %s, k: Txt) -> Txt" % t, re.sub(r"\bself\b", "x", sh)),
                         ("ps", "(t: Txt) -> Option<(%s, Txt)>" % t, ps),
                         ("fb", "(t: Txt) -> Option<(OptionalParameter<%s>, Txt)>" % t, fb),
                         ("wf", "(x: %s) -> bool" % t, re.sub(r"\bself\b", "x", w))):
        S.append("#[verifier::opaque]\nspec fn %s_%s%s%s { %s }" % (f, name, ge, sig, body))
    H = ["impl%s Ifc for %s {" % (ge, t)]
    H.append("    spec fn sh(self, k: Txt) -> Txt { sh_%s%s(self, k) }" % (name, gi))
    H.append("    spec fn ps(t: Txt) -> Option<(Self, Txt)> { ps_%s%s(t) }" % (name, gi))
    H.append("    spec fn fb(t: Txt) -> Option<(OptionalParameter<Self>, Txt)> { fb_%s%s(t) }" % (name, gi))
    H.append("    spec fn wf(self) -> bool { wf_%s%s(self) }" % (name, gi))
    H.append("    spec fn fol(k: Txt) -> bool { %s }" % ("true" if ent else "fo(k)"))
    H.append("    spec fn end(k: Txt) -> Txt { %s }" % ("ws_of(k)" if ek == "ws" else "k"))
    fns = []

    def fn(sig, body, lits, own, rev=()):
        b = []
        for r in sorted(set(own) | set(rev)):
            b.append("        reveal(%s);" % r)
        for x in sorted(lits):
            b.append("        reveal_strlit(%s);" % rust_str(x))
        fns.append((sig, b + body))

    def script(f):
        self.lits = set()
        pr = Proof(self, ti, gen)
        pr.gen_bounds = bounds
        f(pr)
        return pr.lines, self.lits, pr.reveals
    sh_, ps_, wf_, fb_ = ["%s_%s" % (x, name) for x in ("sh", "ps", "wf", "fb")]
    # rt
    if name in self.custom_rt:
        body, ls, rv = script(self.custom_rt[name])
    elif len(ti.segs) == 1 and ti.segs[0][0] == "match" and len(ti.segs[0][2]) > 4 and not gen and \
            all(re.fullmatch(r"\w+::\w+", p) for p, _ in ti.segs[0][2]) and ti.segs[0][1] == "self":
        # one lemma per variant
        calls, used = [], set()
        for i, (pat, x) in enumerate(ti.segs[0][2]):
            self.lits = set()
            pr = Proof(self, ti, gen)
            pr.ind = 1
            pr.gen_bounds = bounds
            pr.o("let x = %s;" % pat)
            st = pr.start(x, "k")
            pr.o("assert(x.sh(k) == %s);" % st.tv[0])
            pr.walk([ti.p], st)
            rv = "".join("    reveal(%s);\n" % r for r in sorted(pr.reveals | {sh_, ps_, wf_})) + \
                "".join("    reveal_strlit(%s);\n" % rust_str(z) for z in sorted(self.lits))
            self.helpers.append("""proof fn rt_%s_%d(k: Txt)
    requires %s::fol(k),
    ensures %s::ps(%s.sh(k)) == Some((%s, %s::end(k))),
{
%s%s
}
""" % (name, i, name, name, pat, pat, name, rv, "\n".join(pr.lines)))
            calls.append("            %s => rt_%s_%d(k)," % (pat, name, i))
        body, ls, rv = ["        match self {"] + calls + ["        }"], set(), set()
        fns.append(("rt(self, k: Txt)", body))
        body = None
    else:
        def rt(pr):
            for x in BODY_EXTRA.get(name, ()):
                pr.o(x)
            st = pr.start(ti.segs, "k")
            pr.walk([ti.p], st)
        body, ls, rv = script(rt)
    if body is not None:
        fn("rt(self, k: Txt)", body, ls | lits0, [sh_, ps_, wf_], rv)
    fn("val(k: Txt)", ["        l_ws(k);"] if ek == "ws" else [], set(), [])
    first_lits = {x for x in lits0 if any(q == ("lit", x) for q in self.all_lits(ti.segs))}

    def firstf(pr, m=None):
        def go(st):
            while st.segs and st.segs[0][0] in ("match", "ite"):
                pr.cases(st, go)
                return
            pr.first(st)
            if m and st.segs and st.segs[0][0] == "show" and st.segs[0][2][1] not in gen:
                pr.o("%s.%s(%s);" % (st.segs[0][1], m, st.tv[1]))
            if self.first_extra.get(name):
                pr.o(self.first_extra[name])
        go(pr.start(ti.segs, "k"))
    body, ls, rv = script(firstf)
    fn("first(self, k: Txt)", body, ls | first_lits, [sh_, wf_], rv)
    body, ls, rv = script(lambda pr: pr.eat(ti.p, "t", name))
    fn("eats(t: Txt)", body, ls, [ps_], rv)
    body, ls, rv = script(lambda pr: pr.eat(ti.fb, "t", name + "_fb"))
    fn("fb_eats(t: Txt)", body, ls, [fb_], rv)
    impls = [(H, fns)]
    for tr, m in (("Plain", "plain"), ("NoHash", "nohash")):
        if tr in self.traits_of(name):
            fns = []
            def plain(pr, m=m, tr=tr):
                if "T" in self.starts(name):
                    pr.gen_bounds = {x: list(bounds.get(x, [])) + [tr] for x in gen}
                firstf(pr, m)
            body, ls, rv = script(plain)
            fn("%s(self, k: Txt)" % m, body, ls | first_lits, [sh_, wf_], rv)
            ge2 = ge
            if "T" in self.starts(name) and tr not in sum(bounds.values(), []):
                ge2 = re.sub(r"(\w+: \w+)", r"\1 + " + tr, ge)
            impls.append((["impl%s %s for %s {" % (ge2, tr, t)], fns))
    return S, impls


def render(spec, impls, proofs=True, want=None):
    """text; proofs=False: the contracts are used, they are verified in another part"""
    L = list(spec)
    for H, fns in impls:
        L += H
        for sig, body in fns:
            if proofs and (want is None or want(sig.split("(")[0].split("<")[0])):
                if len(body) > 150:
                    L.append("    #[verifier::rlimit(60)]")
                L.append("    proof fn %s\n    {" % sig)
                L += body
                L.append("    }")
            else:
                L.append("    #[verifier::external_body]\n    proof fn %s { }" % sig)
        L.append("}")
    return "\n".join(L)


def all_lits(self, segs):
    out = []
    for s in segs:
        if s[0] == "match":
            for _, x in s[2]:
                out += self.all_lits(x)
            return out
        if s[0] == "ite":
            out += self.all_lits(s[2]) + self.all_lits(s[3])
            return out
        out.append(s)
        break
    return out


def starts(self, name, depth=0):
    """does the printed value possibly start with $/* , with # ?"""
    ti = self.types.get(name)
    if ti is None or ti.kind != "ifc" or ti.why or depth > 6:
        return {"?"}
    out = set()

    def go(segs):
        if not segs:
            out.add("?")
            return
        s = segs[0]
        if s[0] == "lit":
            out.add(s[1][0])
        elif s[0] == "match":
            for _, x in s[2]:
                go(x + segs[1:])
        elif s[0] == "ite":
            go(s[2] + segs[1:])
            go(s[3] + segs[1:])
        elif s[0] == "show":
            if s[2][1] in ti.gen:
                out.add("T")
            else:
                out.update(self.starts(s[2][1], depth + 1))
        else:
            out.add("x")
    go(ti.segs)
    return out


def traits_of(self, name):
    s = self.starts(name)
    r = []
    if not s & set("$*?"):
        r.append("Plain")
    if not s & set("#?T"):
        r.append("NoHash")
    return r


Emit.is_entity, Emit.end_kind, Emit.emit_type, Emit.all_lits, Emit.starts, Emit.traits_of = \
    is_entity, end_kind, emit_type, all_lits, starts, traits_of


# ---------------------------------------------------------------- repetitions
def raw_tail(self, lits, k):
    e = k
    for x in reversed(lits):
        e = "lit(%s, %s)" % (self.strlit(x), e)
    return e


def join_lemma(self, pr, q, seg, st):
    """lemma: the repetition q reads back what the join prints; emitted once per (loop, literals which follow)"""
    lits = []
    for s in st.segs[1:]:
        if s[0] != "lit":
            break
        lits.append(s[1])
    fn = q.fname
    key = ("joinlemma", fn, tuple(lits))
    jn = self.join_fn(seg, self.jtag(pr))
    is_map = len(seg) > 6 and seg[6] == "BTreeMap"
    if key not in self.loops:
        name = "%s_rt%d" % (fn, len([1 for x in self.loops if x[:2] == ("joinlemma", fn)]))
        self.loops[key] = name
        self.join_lemma_text(pr, q, seg, lits, name, jn, fn)
    name = self.loops[key]
    tail = st.tv[1 + len(lits)]
    arg = seg[1]
    pr.o("%s%s(%s, %s);" % (name, self.gi(), arg, tail))


def jtag(self, pr):
    return pr.ti.name


def separated_lemma_text(self, pr0, q, seg, lits, name, jn, fn):
    saved, self.lits = self.lits, set()
    _, e, n, el, elem, sep = seg[:6]
    if not sep or any(x[0] != "lit" for x in sep) or not lits:
        raise Unsupported("list")
    gi, ge = self.gi(), self.ge()
    K = raw_tail(self, lits, "kk")
    wfel = wf(self, "s[i]", el, self.cur_gen)
    tail = "%s_tail" % name
    big = big_element(q)
    if big:
        self.lits = set()
        pr = Proof(self, pr0.ti, self.cur_gen)
        pr.gen_bounds = pr0.gen_bounds
        pr.ind = 1
        pr.o("let %s = s[0];" % n)
        ends = [chr_lit(x[0]) for x in (lits[0], sep[0][1])]
        st = pr.start(list(elem), "kk")
        st = Seg(st.segs + [("raw", "@K", lambda p2, s2: None)], st.tv + ["kr0"])
        pr.walk([q.p], st, lambda s2: None)
        self.helpers.append("""proof fn %s_elem%s(s: Seq<%s>, kk: Txt)
    requires s.len() == 1, %s, kk.len() > 0, %s,
    ensures ({ let %s = s[0]; %s_i%s(%s) == Some((s[0], kk)) }),
{
%s%s
}
""" % (name, ge, vty(el), wfel.replace("s[i]", "s[0]"), " || ".join("kk[0] == %s" % c for c in ends), n, fn, gi,
            self.sh_expr(list(elem), "kk", pr0.ti.name),
            "".join("    reveal(%s);\n" % x for x in sorted(pr.reveals)) + "".join("    reveal_strlit(%s);\n" % rust_str(x) for x in sorted(self.lits)), "\n".join(pr.lines)))

    def script(main):
        self.lits = set()
        pr = Proof(self, pr0.ti, self.cur_gen)
        pr.gen_bounds = pr0.gen_bounds
        pr.ind = 1
        pr.o("let kl = %s;" % K)
        pr.o("if s.len() == 0 {")
        pr.ind += 1
        st = pr.start([("lit", x) for x in lits], "kk")
        pr.o("assert(s =~= Seq::empty());")
        pr.first(st)
        if any(x.k == "named" for x in pr.flat(q.p if main else q.s)[:1]):
            pr.o("l_ws(%s);" % st.tv[0])
        if pr.simulate(q.p if main else q.s, st) != "fail":
            raise Unsupported("end of a list")
        if main:
            pr.o("%s_more%s(s, kk);" % (name, gi))
        pr.ind -= 1
        pr.o("} else {")
        pr.ind += 1
        pr.o("let %s = s[0]; let s1 = s.drop_first();" % n)
        pr.o("assert(s =~= seq![s[0]] + s1);")
        if wfel != "true":
            pr.o("assert forall|i: int| 0 <= i < s1.len() implies %s by { assert(s[i + 1] == s1[i]); }" % re.sub(r"\bs\[i\]", "s1[i]", re.sub(r"\bs\[i\]", "(#[trigger] s1[i])", wfel, 1)))
        pr.o("let tl = %s%s(s1, kl);" % (tail, gi))
        pr.o("%s_more%s(s1, kk);" % (name, gi))

        def both(h, after_segs, tv):
            st = pr.start(([] if main else list(sep)) + list(elem), tv[0])
            t0 = st.tv[0]
            pr.o("assert(%s == %s%s(s, kl));" % (t0, jn if main else tail, gi))
            st = Seg(st.segs + after_segs, st.tv[:-1] + tv)
            if big:
                pr.first(h)
                pr.o("%s_elem%s(seq![s[0]], %s);" % (name, gi, tv[0]))
                if not main:
                    pr.eat(q.s, t0, fn + "_s")
                    pr.walk([q.s], st, lambda s2: pr.o("e_%s_i%s(%s);" % (fn, gi, s2.tv[0])))
            elif not main:
                pr.eat(q.s, t0, fn + "_s", lambda r: pr.eat(q.p, r, fn + "_i"))
                pr.walk([q.s, q.p], st, lambda s2: None)
            else:
                pr.walk([q.p], st, lambda s2: None)
        pr.o("if s1.len() > 0 {")
        pr.ind += 1
        h = pr.start(list(sep), "%s%s(s1, kl)" % (jn, gi))
        pr.o("assert(%s == tl);" % h.tv[0])
        both(h, h.segs + [("raw", "@K", lambda p2, s2: None)], h.tv + ["kr0"])
        pr.ind -= 1
        pr.o("} else {")
        pr.ind += 1
        h = pr.start([("lit", x) for x in lits], "kk")
        pr.o("assert(%s == kl && kl == tl);" % h.tv[0])
        both(h, h.segs, h.tv)
        pr.ind -= 1
        pr.o("}")
        pr.ind -= 1
        pr.o("}")
        rev = "".join("    reveal(%s);\n" % x for x in sorted(pr.reveals)) + "".join("    reveal_strlit(%s);\n" % rust_str(x) for x in sorted(self.lits))
        return rev + "\n".join(pr.lines)
    wfe = wfel.replace("s[i]", "(#[trigger] s[i])", 1) if wfel != "true" else "#[trigger] s[i] == s[i]"
    self.helpers.append("spec fn %s%s(s: Seq<%s>, k: Txt) -> Txt { if s.len() == 0 { k } else { %s } }\n" % (
        tail, ge, vty(el), self.sh_expr(list(sep), "%s%s(s, k)" % (jn, gi), pr0.ti.name)))
    for main in (False, True):
        self.helpers.append("""proof fn %s%s%s(s: Seq<%s>, kk: Txt)
    requires forall|i: int| 0 <= i < s.len() ==> %s,
    ensures %s%s(%s%s(s, %s)) == Some((s, %s)),
    decreases s.len(),
{
%s
}
""" % (name, "" if main else "_more", ge, vty(el), wfe, fn if main else fn + "_more", gi, jn if main else tail, gi, K, K, script(main)))
    self.lits = saved | self.lits


Emit.separated_lemma_text = separated_lemma_text


def join_lemma_text(self, pr0, q, seg, lits, name, jn, fn):
    if q.k == "separated":
        return self.separated_lemma_text(pr0, q, seg, lits, name, jn, fn)
    saved, self.lits = self.lits, set()
    _, e, n, el, elem, sep = seg[:6]
    gi, ge = self.gi(), self.ge()
    ti = pr0.ti
    K = raw_tail(self, lits, "kk")
    wfel = wf(self, "s[i]", el, self.cur_gen, (("join", jn),))
    B = []
    pr = Proof(self, ti, self.cur_gen)
    pr.gen_bounds = pr0.gen_bounds
    pr.ind = 1
    # end of the repetition
    pr.o("let kl = %s;" % K)
    pr.o("if s.len() == 0 {")
    pr.ind += 1
    st = pr.start([("lit", x) for x in lits], "kk")
    end = [None]
    if q.k == "till":
        pr.walk([q.e], st, lambda s2: end.__setitem__(0, s2))
        if end[0] is None:
            raise Unsupported("end of a repetition")
        endseg = [x[1] for x in end[0].segs]
        R = raw_tail(self, endseg, "kk")
        if not end[0].segs and end[0].tv[0].startswith("ws_of("):
            R = "ws_of(kk)"
        pr.o("assert(s =~= Seq::empty());")
    pr.ind -= 1
    pr.o("} else {")
    pr.ind += 1
    is_map = len(seg) > 6 and seg[6] == "BTreeMap"
    pr.o("let %s = s[0]; let s1 = s.drop_first();" % n)
    if is_map:
        pr.o("l_bm(s); assert(s1 =~= s.skip(1));")
    pr.o("assert(s =~= seq![s[0]] + s1);")
    pr.o("assert forall|i: int| 0 <= i < s1.len() implies %s by { assert(s[i + 1] == s1[i]); }" % wfel.replace("s[i]", "(#[trigger] s1[i])", 1))
    rec = "%s%s(s1, kl)" % (jn, gi)

    def branch(tailsegs, tailname, after):
        st = pr.start(elem, tailname)
        st = Seg(st.segs + tailsegs[0], st.tv[:-1] + tailsegs[1])
        # not the end
        if q.k == "till":
            w, nx = pr.prefix(st)
            pr.first(st)
            fl = pr.flat(q.e)
            if fl and fl[0].k == "named":
                pr.o("l_ws(%s);" % st.tv[0])
            pr.simulate(q.e, st, w, nx)
        pr.eat(q.p, st.tv[0], fn + "_i")
        pr.walk([q.p], st, after)

    def rec_call(s2):
        pr.o("%s%s(s1, kk);" % (name, gi))

    # the text which starts with the next element
    def raw_first(p2, s2):
        x = p2.v("e")
        p2.o("let %s = s1[0]; assert(%s == s[1]);" % (x, x))
        one = seg_subst(elem, n, x)
        p2.first(p2.start(one, p2.restname))
    pr.o("if s.len() > 1 {" if sep else "if s1.len() > 0 {")
    pr.ind += 1
    pr.o("let kr = %s;" % rec)
    pr.o("let krr = %s;" % ("if s1.len() == 1 { kl } else { %s }" % self.sh_expr(sep, "%s%s(s1.drop_first(), kl)" % (jn, gi), ti.name)
                            if sep else "%s%s(s1.drop_first(), kl)" % (jn, gi)))
    pr.restname = "krr"
    h = pr.start(sep, "kr") if sep else Seg([], ["kr"])
    branch((h.segs + [("raw", "@K", raw_first)], h.tv + ["kr0"]), h.tv[0], rec_call)
    pr.ind -= 1
    pr.o("} else {")
    pr.ind += 1
    h = pr.start([("lit", x) for x in lits], "kk")
    pr.o("assert(%s == kl);" % h.tv[0])
    pr.o("assert(s1 =~= Seq::empty());")
    branch((h.segs, h.tv), h.tv[0], rec_call)
    pr.ind -= 1
    pr.o("}")
    pr.ind -= 1
    pr.o("}")
    ens = "%s%s(%s%s(s, %s)) == Some(((s, ()), %s))" % (fn, gi, jn, gi, K, R)
    rev = "".join("    reveal(%s);\n" % x for x in sorted(pr.reveals)) + "".join("    reveal_strlit(%s);\n" % rust_str(x) for x in sorted(self.lits))
    wfe = wfel.replace("s[i]", "(#[trigger] s[i])", 1)
    self.helpers.append("""proof fn %s%s(s: Seq<%s>, kk: Txt)
    requires forall|i: int| 0 <= i < s.len() ==> %s,%s
    ensures %s,
    decreases s.len(),
{
%s%s
}
""" % (name, ge, vty(el), wfe, " ascending(s)," if is_map else "", ens, rev, "\n".join(pr.lines)))
    self.lits = saved | self.lits


Emit.join_lemma, Emit.join_lemma_text, Emit.jtag = join_lemma, join_lemma_text, jtag


# ---------------------------------------------------------------- white space functions
def emit_named(self, f):
    fn = self.ix.free[f][0]
    gen, self.cur_gen = self.cur_gen, []
    self.named(fn)
    if fn.name in self.named_eats:
        return
    self.named_eats.add(fn.name)
    p = self.named_p[fn.name]
    ti = TypeInfo()
    ti.name = fn.name
    pr = Proof(self, ti, [])
    pr.ind = 1
    self.lits = set()
    pr.eat(p, "t", fn.name)
    pr.lines = ["    reveal(%s);" % fn.name] + ["    reveal_strlit(%s);" % rust_str(x) for x in sorted(self.lits)] + pr.lines
    self.named_eat_out.append("""proof fn e_%s(t: Txt)
    ensures %s(t) matches Some((_, r)) ==> r.len() %s t.len(),
{
%s
}
""" % (fn.name, fn.name, "<" if fn.name in ("p_comment", "p_single_space_or_comment") else "<=", "\n".join(pr.lines)))
    self.cur_gen = gen


Emit.emit_named = emit_named


# ---------------------------------------------------------------- any object of the data section
def keyword(self, name):
    """the printed keyword of an entity"""
    ti = self.types[name]
    w = ""
    for s in ti.segs:
        if s[0] != "lit":
            break
        w += s[1]
    i = w.find("(")
    return w[:i] if i > 0 else None


def reject_kw(self, name):
    """the keywords (before `(`) with which the parser of an entity starts"""
    ti = TypeInfo()
    ti.name = name
    pr = Proof(self, ti, [])
    fl = pr.firsts([self.types[name].p])
    if not fl:
        return None
    out = set()
    for (ts,) in fl:
        w = "".join(ts)
        i = w.find("(")
        out.add((w[:i] if i >= 0 else w, i >= 0, tuple(ts)))
    return out


def diff_at(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return i
    return None


def nkw(self, r):
    return all(has and len(ts) >= 2 and ts[0] == kw and ts[1] == "(" for kw, has, ts in r)


def diff_kw(a, b):
    """first position where `a(` and `b(` differ"""
    a, b = a + "(", b + "("
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return i
    return None


def emit_any(self):
    """AnyIfc: the alternatives of the data section, in their order"""
    L = []
    vs = [a for a in self.any_alts if not self.types[a].why]
    if len(vs) != len(self.any_alts):
        raise Unsupported("data section alternatives: " + ", ".join(set(self.any_alts) - set(vs)))
    L.append("enum AnyIfc { %s }" % ", ".join("%s(%s)" % (a, a) for a in vs))
    self.cur_gen = []
    n = len(self.any_p.ps)
    for i in range(n - 1, -1, -1):
        e, _ = self.pe(self.any_p.ps[i], "t", "AnyIfc", True)
        nxt = "any_%d(t)" % (i + 1) if i + 1 < n else "None"
        self.helpers.append("#[verifier::opaque]\nspec fn any_%d(t: Txt) -> Option<(AnyIfc, Txt)> { match %s { Some(x) => Some(x), None => %s } }\n" % (i, e, nxt))
    ps = "any_0(t)"
    order = [q.res.variant for q in self.any_p.ps]
    L.append("impl AnyIfc {")
    for f, sig, arm in (("sh", "(self, k: Txt) -> Txt", "x.sh(k)"), ("wf", "(self) -> bool", "x.wf()"),
                        ("end", "(self, k: Txt) -> Txt", None)):
        L.append("    spec fn %s%s { match self { %s } }" % (f, sig, ", ".join(
            "AnyIfc::%s(x) => %s" % (a, "x.wf() && unsupported(x)" if f == "wf" and a == "Dummy" else arm or "%s::end(k)" % a) for a in vs)))
    L.append("    spec fn ps(t: Txt) -> Option<(AnyIfc, Txt)> { %s }" % ps)
    L.append("}")
    out = []
    rej = {y: self.reject_kw(y) for y in order}
    kws = {a: self.keyword(a) for a in order}
    for y in order:
        r = rej[y]
        if kws[y] is None or not r or not self.nkw(r):
            continue
        self.lits = set()
        conds = ["kw_is(t, %s)" % self.strlit(kw) for kw, _, ts in sorted(r)]
        out.append(("n_" + y, """/// C03: the parser of %s accepts only its keyword
proof fn n_%s(t: Txt)
    ensures (solid(t) && %s::ps(t) is Some) ==> %s,
{
    reveal(ps_%s);
    l_ws(t);
}
""" % (y, y, y, " || ".join(conds), y)))
    self.any_parts = {}
    allkw = sorted({kw for y in order for kw, _, _ in rej[y] or ()}) if all(rej[y] and self.nkw(rej[y]) for y in order if y != "Dummy") else None
    if allkw is None or "Dummy" not in order:
        raise Unsupported("keywords of the alternatives")
    # the keyword of an object which is kept verbatim isn't one of a supported type
    L.append("#[verifier::opaque]\nspec fn unsupported(x: Dummy) -> bool { forall|k: Txt| !some_kw(#[trigger] x.sh(k)) }")
    L.append("#[verifier::opaque]\nspec fn some_kw(t: Txt) -> bool { %s }" % " || ".join("kw_is(t, %s)" % str_lit(w) for w in allkw))
    for i, x in enumerate(order):
        ti = TypeInfo()
        ti.name = "AnyIfc"
        self.lits = {"("}
        pr = Proof(self, ti, [])
        pr.ind = 1
        pr.gen_bounds = {}
        if x == "Dummy":
            if i != n - 1:
                raise Unsupported("alternative after the catch-all")
            out.append(("d_Dummy", """/// C03: an object with an unsupported keyword is kept
proof fn d_Dummy(x: Dummy, k: Txt)
    requires x.wf(), unsupported(x),
    ensures AnyIfc::ps(x.sh(k)) == Some((AnyIfc::Dummy(x), Dummy::end(k))), solid(x.sh(k)),
{
    reveal(unsupported); reveal(some_kw);
    x.rt(k); x.first(k);
    let t = x.sh(k);
    assert(!some_kw(t));
%s}
""" % "".join("    reveal(any_%d); %s\n" % (j, "n_%s(t);" % y if y != "Dummy" else "") for j, y in enumerate(order))))
            continue
        if kws[x] is None:
            self.unsup.append((x, "no keyword"))
            continue
        segs = self.types[x].segs
        pr.o("x.rt(k); x.first(k);")
        pr.o("let t = x.sh(k);")
        st = pr.start(seg_subst(segs, "self", "x"), "k")
        pr.o("assert(%s == t);" % st.tv[0])
        pr.o("l_lit(%s, %s); l_lit(%s, %s);" % (self.strlit(kws[x]), st.tv[1], self.strlit("("), st.tv[2]))
        pr.o("assert(kw_is(t, %s));" % self.strlit(kws[x]))
        for y in order[:i]:
            r = rej[y]
            if not r or not self.nkw(r):
                raise Unsupported("keyword of " + y)
            same = False
            for kw, _, ts in sorted(r):
                d = diff_kw(kws[x], kw)
                if d is None:
                    same = True
                else:
                    pr.o("l_kw_no(t, %s, %s, %d);" % (self.strlit(kws[x]), self.strlit(kw), d))
            if same:
                # same keyword: the parser of y fails later
                pr.o("l_ws(t);")
                pr.reveals.add("ps_" + y)
                pr.mismatch = True
                pr.walk([self.types[y].p], st)
                pr.mismatch = False
                pr.o("assert(%s::ps(t) is None);" % y)
            else:
                pr.o("n_%s(t); assert(%s::ps(t) is None);" % (y, y))
        rev = "".join("    reveal(%s);\n" % z for z in sorted(pr.reveals | {"sh_" + x, "wf_" + x} | {"any_%d" % j for j in range(i + 1)})) + "".join("    reveal_strlit(%s);\n" % rust_str(z) for z in sorted(self.lits))
        out.append(("d_" + x, """/// C03: %s is read as %s again
proof fn d_%s(x: %s, k: Txt)
    requires x.wf(),
    ensures AnyIfc::ps(x.sh(k)) == Some((AnyIfc::%s(x), %s::end(k))), solid(x.sh(k)),
{
%s%s
}
""" % (x, x, x, x, x, x, rev, "\n".join(pr.lines))))
    for i in range(n - 1, -1, -1):
        out.append(("any_eats_%d" % i, """proof fn any_eats_%d(t: Txt)
    ensures any_%d(t) matches Some((_, r)) ==> r.len() < t.len(),
{
    reveal(any_%d);
    %s::eats(t);
%s}
""" % (i, i, i, order[i], "    any_eats_%d(t);\n" % (i + 1) if i + 1 < n else "")))
    out.append(("any_eats", """proof fn any_eats(t: Txt)
    ensures AnyIfc::ps(t) matches Some((_, r)) ==> r.len() < t.len(),
{
%s    any_eats_0(t);
}
proof fn any_end(x: AnyIfc, k: Txt)
    ensures x.end(k) == k || x.end(k) == ws_of(k),
{ }
""" % ""))
    out.append(("any_rt", """/// every object is read as the object it was
proof fn any_rt(x: AnyIfc, k: Txt)
    requires x.wf(),
    ensures AnyIfc::ps(x.sh(k)) == Some((x, x.end(k))), solid(x.sh(k)), x.sh(k).len() > 0,
{
    match x {
%s    }
    any_eats(x.sh(k));
}
""" % "".join("        AnyIfc::%s(x) => { d_%s(x, k); },\n" % (a, a) for a in vs)))
    i = L.index(next(x for x in L if x.startswith("impl AnyIfc")))
    j = L.index("}")
    return [L[0], "\n".join(L[i:j + 1])] + L[j + 1:], out


Emit.keyword, Emit.reject_kw, Emit.emit_any, Emit.nkw = keyword, reject_kw, emit_any, nkw
