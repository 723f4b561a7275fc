"""Reads rustc's MIR of ifc_rs (-Zunpretty=mir, no optimisation): functions, blocks, statements, paths, types.

rustc type-checks, resolves and lowers the source, so what is read here is the code which runs, with every method call
resolved, every conversion and drop explicit, and derive macros expanded."""
import os
import re
import subprocess

from rs import BUILD, REPO, VERIF, T, Unsupported

NEVER = ("T", "!", ())


def dump():
    """MIR of the library, from /repo's working tree"""
    e = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", RUSTC_BOOTSTRAP="ifc_rs", CARGO_TARGET_DIR=os.path.join(BUILD, "mir"))
    e.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "rustc", "--offline", "-p", "ifc_rs", "--lib", "--", "-Zunpretty=mir", "-Zmir-opt-level=0", "-Ztrim-diagnostic-paths=no"],
                       cwd=os.path.join(VERIF, "replay"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError("no MIR:\n" + p.stderr[-3000:])
    return p.stdout


# ---------------------------------------------------------------- types and paths
TOK = re.compile(r"\s*(?:(\{closure@[^}]*\})|(<impl at [^>]*>)|('[A-Za-z_]\w*|'_)|(r#\w+|[A-Za-z_]\w*|\{\w+#\d+\}|\{constant#\d+\})|(\d+(?:_?[a-z]\w*)?)|(::|->|=>|\.\.\.|[<>(){}\[\],;&*!=+:?.#|'-])|(\"(?:[^\"\\]|\\.)*\"))")


class Toks:
    def __init__(self, s):
        self.s, self.i, self.t = s, 0, []
        pos = 0
        s = s.strip()
        while pos < len(s):
            m = TOK.match(s, pos)
            if not m:
                raise Unsupported("MIR text: " + s[pos:pos + 60])
            self.t.append(m.group(0).strip())
            pos = m.end()

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def want(self, x):
        if not self.eat(x):
            raise Unsupported("MIR text: expected %s in %s" % (x, self.s[:120]))


def skip_binder(t):
    if t.eat("for"):
        t.want("<")
        while not t.eat(">"):
            t.next()


def p_type(t):
    """references, boxes and lifetimes are dropped"""
    skip_binder(t)
    x = t.peek()
    if x == "&":
        t.next()
        if t.peek() and t.peek().startswith("'"):
            t.next()
        m = t.eat("mut")
        r = p_type(t)
        return ("mut", r) if m else r
    if x == "*":
        t.next()
        t.next()
        return p_type(t)
    if x == "!":
        t.next()
        return NEVER
    if x == "(":
        t.next()
        ts = []
        while not t.eat(")"):
            ts.append(p_type(t))
            t.eat(",")
        return ("tuple", tuple(ts))
    if x == "[":
        t.next()
        a = p_type(t)
        if t.eat(";"):
            t.next()
        t.want("]")
        return T("Vec", a)
    if x and x.startswith("{closure@"):
        t.next()
        return ("closure", x)
    if x in ("dyn", "impl"):
        t.next()
        depth, w = 0, []
        while t.peek() is not None:
            y = t.peek()
            if depth == 0 and y in (",", ")", ">", "]", ";", "=", "}", "as"):
                break
            if y in ("<", "(", "["):
                depth += 1
            if y in (">", ")", "]"):
                depth -= 1
            w.append(y)
            t.next()
        name = next((a for a in w if re.match(r"[A-Za-z]", a) and (a[0].isupper())), w[0])
        return T(x + " " + "".join(x + " " if x.startswith("'") else x for x in w)) if x == "impl" else T("dyn " + name)
    if x == "fn" or x == "unsafe" or x == "extern":
        while t.peek() is not None and t.peek() != "(":
            t.next()
        t.want("(")
        while not t.eat(")"):
            p_type(t)
            t.eat(",")
        if t.eat("->"):
            p_type(t)
        if t.eat("{"):
            d = 1
            w = []
            while d:
                y = t.next()
                d += (y == "{") - (y == "}")
                if d:
                    w.append(y)
            return ("fnitem", " ".join(w))
        return ("fnptr",)
    if x == "_":
        t.next()
        return ("infer",)
    if x and re.match(r"\d", x):
        t.next()
        return ("const", x)
    p = p_path(t)
    return path_type(p)


def p_args(t):
    t.want("<")
    out = []
    while not t.eat(">"):
        x = t.peek()
        if x.startswith("'"):
            t.next()
            t.eat(",")
            continue
        if t.peek(1) == "=" and re.match(r"[A-Za-z]", x):
            t.next()
            t.next()
            out.append(("assoc", x, p_type(t)))
        else:
            out.append(p_type(t))
        t.eat(",")
        if t.eat("+"):
            p_type(t)
    return out


class Path:
    """segs: [(name, generics or None)]; q: (self type, trait path or None) for <T as Trait>::..."""

    def __init__(self, segs, q=None):
        self.segs, self.q = segs, q

    def __repr__(self):
        s = "::".join(n + ("<%s>" % ", ".join(map(repr, g)) if g else "") for n, g in self.segs)
        return "<%r as %r>::%s" % (self.q[0], self.q[1], s) if self.q else s

    def key(self):
        return "::".join(n for n, g in self.segs)


def impl_segment(t):
    """`::<impl T>::` is a part of the path; `::<impl Trait, ...>` are its arguments"""
    if t.peek(2) != "impl" or t.i and re.match(r"[A-Z]", t.t[t.i - 1]):
        return False
    i, d = 2, 1
    while d:
        x = t.peek(i)
        if x is None:
            return False
        d += (x == "<") - (x == ">")
        i += 1
    return t.peek(i) == "::"


def p_path(t):
    q, segs = None, []
    if t.peek() == "<":
        t.next()
        a = p_type(t)
        tr = p_path(t) if t.eat("as") else None
        t.want(">")
        q = (a, tr)
        t.want("::")
    while True:
        x = t.next()
        if x is None:
            raise Unsupported("MIR path in " + t.s[:100])
        if x == "<":
            # <impl [T]> within a path
            if t.peek() == "impl":
                t.next()
                a = p_type(t)
                if t.eat("for"):
                    a = p_type(t)
                t.want(">")
                segs.append(("<impl>", [a]))
            else:
                raise Unsupported("MIR path " + t.s[:100])
        else:
            segs.append((x, None))
        while t.peek() == "::" and t.peek(1) == "<" and not impl_segment(t):
            t.next()
            segs[-1] = (segs[-1][0], p_args(t))
        if t.peek() == "<" and segs[-1][1] is None:
            segs[-1] = (segs[-1][0], p_args(t))
        if t.peek() == "(" and segs[-1][0] in ("Fn", "FnMut", "FnOnce"):
            t.next()
            a = []
            while not t.eat(")"):
                a.append(p_type(t))
                t.eat(",")
            if t.eat("->"):
                a.append(("assoc", "Output", p_type(t)))
            segs[-1] = (segs[-1][0], a)
        if not t.eat("::"):
            return Path(segs, q)


RENAME = {}


def type_name(segs):
    n = segs[-1][0]
    if n in DUP and any(s[0] == "meta" for s in segs):
        return "Header" + n
    return n


DUP = {"Organization"}


def path_type(p):
    if p.q:
        return ("proj", p.q[0], p.q[1].segs[-1][0] if p.q[1] else None, p.segs[-1][0])
    g = tuple(x for x in (p.segs[-1][1] or []) if x[0] != "assoc")
    n = type_name(p.segs)
    if n in ("Box", "Rc", "Arc") and len(g) >= 1:
        return g[0]
    if n == "Self" and len(p.segs) == 1:
        return T("Self")
    return ("T", n, g)


def parse_type(s):
    t = Toks(s)
    r = p_type(t)
    if t.peek() is not None:
        raise Unsupported("MIR type " + s)
    return r


def strip(t):
    """without references"""
    while t[0] == "mut":
        t = t[1]
    if t[0] == "T":
        return ("T", t[1], tuple(strip(x) for x in t[2]))
    if t[0] == "tuple":
        return ("tuple", tuple(strip(x) for x in t[1]))
    return t


# ---------------------------------------------------------------- places, operands, rvalues
class Place:
    def __init__(self, local, proj):
        self.local, self.proj = local, proj

    def __repr__(self):
        return "_%d%s" % (self.local, "".join("." + str(p) for p in self.proj))


def split_top(s, sep=","):
    """split at separators outside brackets and strings"""
    out, d, cur, i = [], 0, "", 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c == "'" and i + 2 < len(s) and (s[i + 2] == "'" or s[i + 1] == "\\"):
            j = s.index("'", i + 2)
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c == "-" and s[i:i + 2] == "->":
            cur += "->"
            i += 2
            continue
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        if c == sep and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def match_paren(s, i):
    """index after the bracket which closes the one at i"""
    d, close = 0, {"(": ")", "[": "]", "{": "}"}
    o, c = s[i], close[s[i]]
    while i < len(s):
        if s[i] == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Unsupported("brackets in " + s[:80])


def parse_place(s):
    s = s.strip()
    m = re.fullmatch(r"_(\d+)", s)
    if m:
        return Place(int(m.group(1)), [])
    m = re.match(r"(.*)\[([^\[\]]*)\]$", s, re.S)
    if m and s.endswith("]") and not s.startswith("("):
        p = parse_place(m.group(1))
        return Place(p.local, p.proj + [("index", m.group(2))])
    if s.startswith("("):
        j = match_paren(s, 0)
        if j != len(s):
            rest = s[j:]
            m = re.fullmatch(r"\[(.*)\]", rest)
            if m:
                p = parse_place(s[:j])
                return Place(p.local, p.proj + [("index", m.group(1))])
            raise Unsupported("place " + s)
        inner = s[1:-1].strip()
        if inner.startswith("*"):
            p = parse_place(inner[1:])
            return Place(p.local, p.proj + ["deref"])
        # X as Variant
        m = re.match(r"(.*) as (?:variant#)?([A-Za-z_]\w*)$", inner, re.S)
        if m:
            try:
                p = parse_place(m.group(1))
                return Place(p.local, p.proj + [("variant", m.group(2))])
            except Unsupported:
                pass
        # X.n: type
        if inner.startswith("("):
            j = match_paren(inner, 0)
            base, rest = inner[:j], inner[j:]
            while rest.startswith("["):
                k = match_paren(rest, 0)
                base, rest = base + rest[:k], rest[k:]
        else:
            m = re.match(r"_\d+(\[[^\]]*\])*", inner)
            if not m:
                raise Unsupported("place " + s)
            base, rest = m.group(0), inner[m.end():]
        m = re.match(r"\.(\d+): (.*)$", rest, re.S)
        if not m:
            raise Unsupported("place " + s)
        p = parse_place(base)
        return Place(p.local, p.proj + [("field", int(m.group(1)), m.group(2))])
    raise Unsupported("place " + s)


def parse_operand(s):
    s = s.strip()
    for k in ("no_retag copy ", "copy ", "move "):
        if s.startswith(k):
            return (k.split()[-1], parse_place(s[len(k):]))
    if s.startswith("const "):
        return ("const", s[6:].strip())
    return ("const", s)


class Fn:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.locals = {}
        self.blocks = {}
        self.order = []

    def __repr__(self):
        return "fn " + self.name


HEAD = re.compile(r"^fn (.*)$")


def parse(text):
    """-> {name: Fn}; bodies are kept as text and parsed on demand"""
    out = {}
    cur = None
    for m in re.finditer(r"^(fn [^\n]*\{|const [^\n]*\{|static [^\n]*\{|promoted\[[^\n]*\{)\n(.*?)^\}", text, re.S | re.M):
        h, body = m.group(1), m.group(2)
        out.setdefault(h, body)
    fns = {}
    for h, body in out.items():
        if h.startswith("fn "):
            f = parse_head(h)
            if f:
                f.text = body
                fns.setdefault(f.name, f)
        else:
            n = h[:-1].strip()
            f = Fn(n, [], None)
            f.text = body
            mm = re.match(r"(?:const|static) ((?:<impl at [^>]*>|[^:]|:(?! ))*): (.*) =$", n)
            if mm:
                f.name, f.ret = mm.group(1), mm.group(2)
            fns.setdefault(f.name, f)
    return fns


def parse_head(h):
    s = h[3:-1].strip()
    # the parameter list is the bracket which opens after the name: "(_1: " or "()"
    m = re.search(r"\((?=_1: )", s) or re.search(r"\(\) ->", s)
    if not m:
        return None
    i = m.start()
    j = match_paren(s, i)
    params = []
    for p in split_top(s[i + 1:j - 1]):
        k, ty = p.split(": ", 1)
        params.append((int(k.strip().removeprefix("mut ").strip()[1:]), ty))
    r = re.match(r"\s*->\s*(.*)$", s[j:])
    return Fn(s[:i], params, r.group(1) if r else "()")


def body(f):
    """parse locals and blocks of f"""
    if f.order:
        return f
    for m in re.finditer(r"^ +let (?:mut )?_(\d+): (.*);$", f.text, re.M):
        f.locals[int(m.group(1))] = m.group(2)
    for k, ty in f.params:
        f.locals[k] = ty
    for m in re.finditer(r"^    (bb\d+)(?: \(cleanup\))?: \{\n(.*?)^    \}", f.text, re.S | re.M):
        f.order.append(m.group(1))
        lines = [x.strip() for x in m.group(2).split("\n") if x.strip()]
        st = []
        buf = ""
        for x in lines:
            buf = buf + " " + x if buf else x
            if buf.endswith(";"):
                st.append(buf[:-1])
                buf = ""
        if "BoxDerefTransmute" in f.text or "pointer dereference" in f.text:
            st = boxed(f, st)
        f.blocks[m.group(1)] = [captures(st, i) if " = {closure@" in x else x for i, x in enumerate(st)]
    return f


def boxed(f, st):
    """`vec![..]` writes its elements into a fresh box through a raw pointer, with rustc's debug assertions that the
    pointer is aligned and not null: keep the write alone"""
    out, gone = [], set()
    raw = {int(a): int(b) for a, b in re.findall(r"_(\d+) = copy \(_(\d+)\.0: std::ptr::Unique<std::mem::MaybeUninit<[^\n]*\(BoxDerefTransmute\);", f.text)}
    # the locals which only serve the assertions
    test = [int(x) for x in re.findall(r"assert\(copy _(\d+), \"(?:misaligned|null) pointer dereference", f.text)]
    todo = test + list(raw)
    for k in test:
        gone.add(k)
    while todo:
        k = todo.pop()
        for a, b in re.findall(r"^ *_(\d+) = (.*);$", f.text, re.M):
            uses = {int(x) for x in re.findall(r"(?:copy|move) _(\d+)", b)}
            if int(a) == k and k not in raw:
                new = uses - gone - set(raw)
            elif k in raw and uses == {k} and "as *const ()" in b:
                new = {int(a)} - gone
            else:
                continue
            gone |= new
            todo += new
    for x in st:
        m = re.match(r"_(\d+) = ", x)
        if m and (int(m.group(1)) in gone or int(m.group(1)) in raw):
            continue
        m = re.match(r"assert\(copy _(\d+), \"(?:misaligned|null) pointer dereference.*\[success: (bb\d+)", x)
        if m:
            out.append("goto -> " + m.group(2))
            continue
        m = re.match(r"\(+\*_(\d+)\)\.1: std::mem::ManuallyDrop<.* = (\[.*\])$", x)
        if m and int(m.group(1)) in raw:
            out.append("_%d = %s" % (raw[int(m.group(1))], m.group(2)))
            continue
        out.append(x)
    return out


def captures(st, i):
    """rustc prints the operands of a closure zipped with the names of the captured variables, and drops those of
    the further paths captured of one variable: they are the temporaries which die right after it"""
    x = st[i]
    m = re.search(r" \{ (\w+: [^{}]*) \}$", x)
    if not m:
        return x
    ops = [y.split(": ", 1) for y in split_top(m.group(1))]
    dead = []
    for y in st[i + 1:]:
        d = re.fullmatch(r"StorageDead\(_(\d+)\)", y)
        if not d:
            break
        dead.insert(0, int(d.group(1)))
    last = re.fullmatch(r"move _(\d+)", ops[-1][1])
    if last and int(last.group(1)) in dead:
        live = [int(re.match(r"_(\d+) = ", y).group(1)) for y in st[:i] if re.match(r"_\d+ = ", y)]
        for k in dead[dead.index(int(last.group(1))) + 1:]:
            if k in live:
                ops.append(["%s_%d" % (ops[-1][0], k), "move _%d" % k])
    return x[:m.start()] + " { %s }" % ", ".join(": ".join(o) for o in ops)


SKIP = re.compile(r"(StorageLive|StorageDead|nop|FakeRead|AscribeUserType|PlaceMention|Coverage|ConstEvalCounter|Retag|BackwardIncompatibleDropHint)\b")


def parse_targets(s):
    d = {}
    m = re.fullmatch(r"\[(.*)\]", s.strip())
    if not m:
        return {"return": s.strip()}
    for x in split_top(m.group(1)):
        if x.startswith("unwind"):
            continue
        k, v = x.split(":")
        d[k.strip()] = v.strip()
    return d


def parse_stmt(s):
    """-> tuple; terminators are marked with a leading upper case word"""
    if SKIP.match(s):
        return None
    if s.startswith("goto -> "):
        return ("GOTO", s[8:].strip())
    if s in ("return", "unreachable", "resume"):
        return (s.upper(),)
    if s.startswith("unwind") or s.startswith("terminate"):
        return ("RESUME",)
    if s.startswith("switchInt("):
        j = match_paren(s, 9)
        op = parse_operand(s[10:j - 1])
        m = re.match(r" -> \[(.*)\]$", s[j:])
        ts = []
        for x in split_top(m.group(1)):
            k, v = x.rsplit(":", 1)
            ts.append((k.strip(), v.strip()))
        return ("SWITCH", op, ts)
    if s.startswith("drop("):
        j = match_paren(s, 4)
        return ("DROP", parse_place(s[5:j - 1]), parse_targets(s[j:].replace(" -> ", "", 1)).get("return"))
    if s.startswith("assert("):
        j = match_paren(s, 6)
        a = split_top(s[7:j - 1])
        neg = a[0].startswith("!")
        return ("ASSERT", neg, parse_operand(a[0].lstrip("!")), parse_targets(s[j:].replace(" -> ", "", 1)).get("success"), a[1] if len(a) > 1 else "")
    if s.startswith("discriminant("):
        j = match_paren(s, 12)
        m = re.match(r" = (\d+)$", s[j:])
        return ("setdisc", parse_place(s[13:j - 1]), int(m.group(1)))
    # assignment or call
    i = s.find(" = ")
    if i < 0:
        raise Unsupported("MIR statement " + s[:100])
    lhs, rhs = s[:i], s[i + 3:]
    m = re.search(r"\) -> (\[return: bb\d+.*\]|unwind .*|\[unwind.*\]|bb\d+)$", rhs)
    if m and not rhs.startswith(("const ", "&")):
        call = rhs[:m.start() + 1]
        # the argument list is the last bracket
        d, k = 0, len(call) - 1
        k = open_of(call)
        return ("CALL", parse_place(lhs), call[:k], [parse_operand(x) for x in split_top(call[k + 1:-1])], parse_targets(m.group(1)).get("return") if m.group(1).startswith(("[", "bb")) else None)
    return ("assign", parse_place(lhs), rhs)


def open_of(call):
    """start of the argument list, which ends the text"""
    i = 0
    st = []
    pair = {}
    instr = False
    while i < len(call):
        c = call[i]
        if c == '"':
            i += 1
            while call[i] != '"':
                i += 2 if call[i] == "\\" else 1
        elif c == "(":
            st.append(i)
        elif c == ")":
            pair[i] = st.pop()
        i += 1
    return pair[len(call) - 1]
