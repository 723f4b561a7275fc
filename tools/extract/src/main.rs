//! Mechanical extraction: parses every given Rust source file with `syn` and dumps its
//! syntax tree as JSON (one object per file).  Nothing is interpreted here.  Macro bodies
//! which the translator understands (`write!`, `format!`, `seq!`, `vec!`, ...) are parsed
//! into their argument expressions; any other macro is dumped as its token text.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Map, Value};
use syn::parse::{Parse, ParseStream, Parser};
use syn::spanned::Spanned;
use syn::*;

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn path(p: &Path) -> Value {
    let segs: Vec<Value> = p
        .segments
        .iter()
        .map(|s| {
            let args = match &s.arguments {
                PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .filter_map(|g| match g {
                        GenericArgument::Type(t) => Some(ty(t)),
                        GenericArgument::Const(e) => Some(json!({"k":"const","e":expr(e)})),
                        GenericArgument::AssocType(a) => {
                            Some(json!({"k":"assoc","name":a.ident.to_string(),"ty":ty(&a.ty)}))
                        }
                        _ => None,
                    })
                    .collect::<Vec<_>>(),
                PathArguments::Parenthesized(p) => {
                    let mut v: Vec<Value> = p.inputs.iter().map(ty).collect();
                    if let ReturnType::Type(_, t) = &p.output {
                        v.push(json!({"k":"ret","ty":ty(t)}));
                    }
                    v
                }
                _ => vec![],
            };
            json!({"id": s.ident.to_string(), "args": args})
        })
        .collect();
    json!(segs)
}

fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => {
            let q = p.qself.as_ref().map(|q| ty(&q.ty));
            json!({"k":"path","q":q,"p":path(&p.path)})
        }
        Type::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Tuple(t) => json!({"k":"tuple","ts":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Array(a) => json!({"k":"array","t":ty(&a.elem),"len":expr(&a.len)}),
        Type::Slice(a) => json!({"k":"slice","t":ty(&a.elem)}),
        Type::ImplTrait(i) => {
            json!({"k":"impl","b":i.bounds.iter().filter_map(bound).collect::<Vec<_>>()})
        }
        Type::TraitObject(i) => {
            json!({"k":"dyn","b":i.bounds.iter().filter_map(bound).collect::<Vec<_>>()})
        }
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(_) => json!({"k":"infer"}),
        Type::Never(_) => json!({"k":"never"}),
        o => json!({"k":"other","s":toks(o)}),
    }
}

fn bound(b: &TypeParamBound) -> Option<Value> {
    match b {
        TypeParamBound::Trait(t) => Some(path(&t.path)),
        _ => None,
    }
}

fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"ident","id":i.ident.to_string(),"ref":i.by_ref.is_some(),
            "mut":i.mutability.is_some(),"sub":i.subpat.as_ref().map(|s|pat(&s.1))}),
        Pat::Wild(_) => json!({"k":"wild"}),
        Pat::Rest(_) => json!({"k":"rest"}),
        Pat::Tuple(t) => json!({"k":"tuple","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"tstruct","p":path(&t.path),
            "ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(s) => json!({"k":"struct","p":path(&s.path),"rest":s.rest.is_some(),
            "fs":s.fields.iter().map(|f|json!([member(&f.member),pat(&f.pat)])).collect::<Vec<_>>()}),
        Pat::Path(p) => json!({"k":"path","p":path(&p.path)}),
        Pat::Lit(l) => json!({"k":"lit","v":lit(&l.lit)}),
        Pat::Or(o) => json!({"k":"or","ps":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Reference(r) => json!({"k":"ref","p":pat(&r.pat)}),
        Pat::Type(t) => json!({"k":"typed","p":pat(&t.pat),"ty":ty(&t.ty)}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Slice(t) => json!({"k":"slice","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e|expr(e)),
            "hi":r.end.as_ref().map(|e|expr(e)),"incl":matches!(r.limits,RangeLimits::Closed(_))}),
        o => json!({"k":"other","s":toks(o)}),
    }
}

fn member(m: &Member) -> Value {
    match m {
        Member::Named(i) => json!(i.to_string()),
        Member::Unnamed(i) => json!(i.index.to_string()),
    }
}

fn lit(l: &Lit) -> Value {
    match l {
        Lit::Str(s) => json!({"k":"str","v":s.value()}),
        Lit::ByteStr(s) => json!({"k":"bstr","v":s.value()}),
        Lit::Byte(b) => json!({"k":"byte","v":b.value()}),
        Lit::Char(c) => json!({"k":"char","v":c.value().to_string()}),
        Lit::Int(i) => json!({"k":"int","v":i.base10_digits(),"suf":i.suffix()}),
        Lit::Float(f) => json!({"k":"float","v":f.base10_digits()}),
        Lit::Bool(b) => json!({"k":"bool","v":b.value}),
        o => json!({"k":"other","s":toks(o)}),
    }
}

fn block(b: &Block) -> Value {
    let mut out = vec![];
    for s in &b.stmts {
        let line = s.span().start().line;
        let mut v = match s {
            Stmt::Local(l) => {
                let (init, els) = match &l.init {
                    Some(i) => (Some(expr(&i.expr)), i.diverge.as_ref().map(|d| expr(&d.1))),
                    None => (None, None),
                };
                json!({"k":"let","pat":pat(&l.pat),"init":init,"else":els})
            }
            Stmt::Item(i) => json!({"k":"item","item":item(i)}),
            Stmt::Expr(e, semi) => json!({"k":"expr","e":expr(e),"semi":semi.is_some()}),
            Stmt::Macro(m) => json!({"k":"expr","e":mac(&m.mac),"semi":m.semi_token.is_some()}),
        };
        v["line"] = json!(line);
        out.push(v);
    }
    json!({"k":"block","stmts":out})
}

struct MacArgs(Vec<(Option<String>, Expr)>);
impl Parse for MacArgs {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !input.is_empty() {
            let name = if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
                let i: Ident = input.parse()?;
                input.parse::<Token![=]>()?;
                Some(i.to_string())
            } else {
                None
            };
            v.push((name, input.parse()?));
            if input.is_empty() {
                break;
            }
            input.parse::<Token![,]>()?;
        }
        Ok(MacArgs(v))
    }
}

struct MatchesArgs(Expr, Pat, Option<Expr>);
impl Parse for MatchesArgs {
    fn parse(input: ParseStream) -> Result<Self> {
        let e: Expr = input.parse()?;
        input.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(Token![if]) {
            input.parse::<Token![if]>()?;
            Some(input.parse()?)
        } else {
            None
        };
        if input.peek(Token![,]) {
            input.parse::<Token![,]>()?;
        }
        Ok(MatchesArgs(e, p, g))
    }
}

// `seq!` elements: `name: expr`, `_: expr`, `expr`
fn seq_fields(ts: TokenStream) -> Result<Value> {
    let p = |input: ParseStream| -> Result<Vec<Value>> {
        let mut v = vec![];
        while !input.is_empty() {
            if input.peek(Token![..]) {
                return Err(input.error("rest"));
            }
            let name = if input.peek(Token![_]) && input.peek2(Token![:]) {
                input.parse::<Token![_]>()?;
                input.parse::<Token![:]>()?;
                json!("_")
            } else if (input.peek(Ident) || input.peek(LitInt)) && input.peek2(Token![:]) && !input.peek2(Token![::]) {
                let m: Member = input.parse()?;
                input.parse::<Token![:]>()?;
                member(&m)
            } else {
                Value::Null
            };
            let e: Expr = input.parse()?;
            v.push(json!([name, expr(&e)]));
            if input.is_empty() {
                break;
            }
            input.parse::<Token![,]>()?;
        }
        Ok(v)
    };
    Ok(json!(p.parse2(ts)?))
}

fn mac(m: &Macro) -> Value {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let line = m.path.span().start().line;
    let fail = || json!({"k":"macro","name":name,"toks":m.tokens.to_string(),"line":line});
    match name.as_str() {
        "write" | "writeln" | "format" | "println" | "print" | "eprintln" | "panic" | "unreachable" | "todo"
        | "unimplemented" | "assert" | "assert_eq" | "assert_ne" | "debug_assert" | "debug_assert_eq" | "anyhow"
        | "bail" | "ensure" | "vec" | "concat" | "format_args" | "assert_ne_" => match parse2::<MacArgs>(m.tokens.clone()) {
            Ok(a) => json!({"k":"macro","name":name,"line":line,
                "args":a.0.iter().map(|(n,e)|json!([n,expr(e)])).collect::<Vec<_>>()}),
            Err(_) => fail(),
        },
        "matches" => match parse2::<MatchesArgs>(m.tokens.clone()) {
            Ok(a) => json!({"k":"matches","e":expr(&a.0),"pat":pat(&a.1),"guard":a.2.as_ref().map(expr)}),
            Err(_) => fail(),
        },
        "seq" => {
            // optional path, then one delimited group
            let tts: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
            if let Some(TokenTree::Group(g)) = tts.last() {
                let head: TokenStream = tts[..tts.len() - 1].iter().cloned().collect();
                let p = if head.is_empty() {
                    Value::Null
                } else {
                    match parse2::<Path>(head) {
                        Ok(p) => path(&p),
                        Err(_) => return fail(),
                    }
                };
                if let Ok(fs) = seq_fields(g.stream()) {
                    let d = match g.delimiter() {
                        Delimiter::Brace => "{",
                        Delimiter::Parenthesis => "(",
                        _ => "?",
                    };
                    return json!({"k":"seq","p":p,"delim":d,"fs":fs,"line":line});
                }
            }
            fail()
        }
        _ => fail(),
    }
}

fn expr(e: &Expr) -> Value {
    let mut v = expr0(e);
    if let Value::Object(m) = &mut v {
        m.entry("line").or_insert(json!(e.span().start().line));
    }
    v
}

fn exprs<'a>(i: impl IntoIterator<Item = &'a Expr>) -> Vec<Value> {
    i.into_iter().map(expr).collect()
}

fn expr0(e: &Expr) -> Value {
    match e {
        Expr::Lit(l) => json!({"k":"lit","v":lit(&l.lit)}),
        Expr::Path(p) => json!({"k":"path","q":p.qself.as_ref().map(|q|ty(&q.ty)),"p":path(&p.path)}),
        Expr::Call(c) => json!({"k":"call","f":expr(&c.func),"args":exprs(&c.args)}),
        Expr::MethodCall(c) => {
            let tf: Vec<Value> = c
                .turbofish
                .as_ref()
                .map(|t| {
                    t.args
                        .iter()
                        .filter_map(|g| if let GenericArgument::Type(t) = g { Some(ty(t)) } else { None })
                        .collect()
                })
                .unwrap_or_default();
            json!({"k":"mcall","recv":expr(&c.receiver),"m":c.method.to_string(),"tf":tf,"args":exprs(&c.args),
                "line":c.method.span().start().line})
        }
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"f":member(&f.member)}),
        Expr::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Unary(u) => {
            let op = match u.op {
                UnOp::Deref(_) => "*",
                UnOp::Not(_) => "!",
                UnOp::Neg(_) => "-",
                _ => "?",
            };
            json!({"k":"un","op":op,"e":expr(&u.expr)})
        }
        Expr::Binary(b) => {
            json!({"k":"bin","op":toks(&b.op),"l":expr(&b.left),"r":expr(&b.right)})
        }
        Expr::Assign(a) => json!({"k":"assign","l":expr(&a.left),"r":expr(&a.right)}),
        Expr::Closure(c) => json!({"k":"closure","move":c.capture.is_some(),
            "ins":c.inputs.iter().map(pat).collect::<Vec<_>>(),"body":expr(&c.body)}),
        Expr::Struct(s) => json!({"k":"struct","p":path(&s.path),"rest":s.rest.as_ref().map(|r|expr(r)),
            "fs":s.fields.iter().map(|f|json!([member(&f.member),expr(&f.expr)])).collect::<Vec<_>>()}),
        Expr::Tuple(t) => json!({"k":"tuple","es":exprs(&t.elems)}),
        Expr::Array(t) => json!({"k":"array","es":exprs(&t.elems)}),
        Expr::Repeat(r) => json!({"k":"repeat","e":expr(&r.expr),"len":expr(&r.len)}),
        Expr::Block(b) => block(&b.block),
        Expr::If(i) => json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),
            "e":i.else_branch.as_ref().map(|e|expr(&e.1))}),
        Expr::Let(l) => json!({"k":"letcond","pat":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::Match(m) => json!({"k":"match","e":expr(&m.expr),"arms":m.arms.iter().map(|a|json!({
            "pat":pat(&a.pat),"guard":a.guard.as_ref().map(|g|expr(&g.1)),"body":expr(&a.body)})).collect::<Vec<_>>()}),
        Expr::Return(r) => json!({"k":"return","e":r.expr.as_ref().map(|e|expr(e))}),
        Expr::Break(r) => json!({"k":"break","e":r.expr.as_ref().map(|e|expr(e))}),
        Expr::Continue(_) => json!({"k":"continue"}),
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr)}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e|expr(e)),
            "hi":r.end.as_ref().map(|e|expr(e)),"incl":matches!(r.limits,RangeLimits::Closed(_))}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"ty":ty(&c.ty)}),
        Expr::ForLoop(f) => json!({"k":"for","pat":pat(&f.pat),"e":expr(&f.expr),"body":block(&f.body)}),
        Expr::While(f) => json!({"k":"while","c":expr(&f.cond),"body":block(&f.body)}),
        Expr::Loop(f) => json!({"k":"loop","body":block(&f.body)}),
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index)}),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Unsafe(u) => json!({"k":"unsafe","body":block(&u.block)}),
        o => json!({"k":"other","s":toks(o)}),
    }
}

fn attrs(a: &[Attribute]) -> Value {
    json!(a
        .iter()
        .filter(|a| !a.path().is_ident("doc"))
        .map(|a| {
            let t = match &a.meta {
                Meta::Path(_) => String::new(),
                Meta::List(l) => l.tokens.to_string(),
                Meta::NameValue(n) => toks(&n.value),
            };
            json!([toks(a.path()).replace(' ', ""), t])
        })
        .collect::<Vec<_>>())
}

fn generics(g: &Generics) -> Value {
    let ps: Vec<Value> = g
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => {
                Some(json!([t.ident.to_string(), t.bounds.iter().filter_map(bound).collect::<Vec<_>>()]))
            }
            _ => None,
        })
        .collect();
    let wh: Vec<Value> = g
        .where_clause
        .as_ref()
        .map(|w| {
            w.predicates
                .iter()
                .filter_map(|p| match p {
                    WherePredicate::Type(t) => Some(
                        json!([ty(&t.bounded_ty), t.bounds.iter().filter_map(bound).collect::<Vec<_>>()]),
                    ),
                    _ => None,
                })
                .collect()
        })
        .unwrap_or_default();
    json!({"ps":ps,"wh":wh})
}

fn fields(f: &Fields) -> Value {
    let kind = match f {
        Fields::Named(_) => "named",
        Fields::Unnamed(_) => "tuple",
        Fields::Unit => "unit",
    };
    let fs: Vec<Value> = f
        .iter()
        .enumerate()
        .map(|(i, f)| {
            json!({"name":f.ident.as_ref().map(|i|i.to_string()).unwrap_or(i.to_string()),
                "ty":ty(&f.ty),"attrs":attrs(&f.attrs)})
        })
        .collect();
    json!({"kind":kind,"fs":fs})
}

fn sig(s: &Signature) -> Value {
    let ins: Vec<Value> = s
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => json!({"k":"self","ref":r.reference.is_some(),"mut":r.mutability.is_some()}),
            FnArg::Typed(t) => json!({"k":"arg","pat":pat(&t.pat),"ty":ty(&t.ty)}),
        })
        .collect();
    let ret = match &s.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => ty(t),
    };
    json!({"name":s.ident.to_string(),"gen":generics(&s.generics),"ins":ins,"ret":ret})
}

fn vis(v: &Visibility) -> &'static str {
    match v {
        Visibility::Public(_) => "pub",
        Visibility::Restricted(_) => "crate",
        Visibility::Inherited => "",
    }
}

fn use_tree(prefix: &str, t: &UseTree, out: &mut Vec<Value>) {
    match t {
        UseTree::Path(p) => use_tree(&format!("{prefix}{}::", p.ident), &p.tree, out),
        UseTree::Name(n) => out.push(json!([format!("{prefix}{}", n.ident), n.ident.to_string()])),
        UseTree::Rename(r) => out.push(json!([format!("{prefix}{}", r.ident), r.rename.to_string()])),
        UseTree::Glob(_) => out.push(json!([format!("{prefix}*"), "*"])),
        UseTree::Group(g) => g.items.iter().for_each(|t| use_tree(prefix, t, out)),
    }
}

fn item(i: &Item) -> Value {
    let line = i.span().start().line;
    let mut v = match i {
        Item::Fn(f) => json!({"k":"fn","attrs":attrs(&f.attrs),"vis":vis(&f.vis),"sig":sig(&f.sig),"body":block(&f.block)}),
        Item::Struct(s) => json!({"k":"struct","attrs":attrs(&s.attrs),"name":s.ident.to_string(),
            "gen":generics(&s.generics),"fields":fields(&s.fields)}),
        Item::Enum(s) => json!({"k":"enum","attrs":attrs(&s.attrs),"name":s.ident.to_string(),
            "gen":generics(&s.generics),
            "vars":s.variants.iter().map(|v|json!({"name":v.ident.to_string(),"attrs":attrs(&v.attrs),
                "fields":fields(&v.fields)})).collect::<Vec<_>>()}),
        Item::Impl(s) => json!({"k":"impl","attrs":attrs(&s.attrs),"gen":generics(&s.generics),
            "trait":s.trait_.as_ref().map(|t|path(&t.1)),"ty":ty(&s.self_ty),
            "items":s.items.iter().map(|i|match i{
                ImplItem::Fn(f)=>json!({"k":"fn","attrs":attrs(&f.attrs),"vis":vis(&f.vis),"sig":sig(&f.sig),
                    "body":block(&f.block),"line":f.sig.span().start().line}),
                ImplItem::Const(c)=>json!({"k":"const","name":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr)}),
                ImplItem::Type(c)=>json!({"k":"type","name":c.ident.to_string(),"ty":ty(&c.ty)}),
                o=>json!({"k":"other","s":toks(o)})}).collect::<Vec<_>>()}),
        Item::Trait(t) => json!({"k":"trait","attrs":attrs(&t.attrs),"name":t.ident.to_string(),"gen":generics(&t.generics),
            "super":t.supertraits.iter().filter_map(bound).collect::<Vec<_>>(),
            "items":t.items.iter().map(|i|match i{
                TraitItem::Fn(f)=>json!({"k":"fn","attrs":attrs(&f.attrs),"sig":sig(&f.sig),
                    "body":f.default.as_ref().map(block),"line":f.sig.span().start().line}),
                o=>json!({"k":"other","s":toks(o)})}).collect::<Vec<_>>()}),
        Item::Const(c) => json!({"k":"const","attrs":attrs(&c.attrs),"name":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Static(c) => json!({"k":"const","attrs":attrs(&c.attrs),"name":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Type(c) => json!({"k":"type","attrs":attrs(&c.attrs),"name":c.ident.to_string(),"gen":generics(&c.generics),"ty":ty(&c.ty)}),
        Item::Mod(m) => json!({"k":"mod","attrs":attrs(&m.attrs),"name":m.ident.to_string(),
            "items":m.content.as_ref().map(|c|c.1.iter().map(item).collect::<Vec<_>>())}),
        Item::Use(u) => {
            let mut out = vec![];
            use_tree("", &u.tree, &mut out);
            json!({"k":"use","vis":vis(&u.vis),"uses":out})
        }
        Item::Macro(m) => json!({"k":"macro","name":toks(&m.mac.path),"ident":m.ident.as_ref().map(|i|i.to_string()),
            "toks":m.mac.tokens.to_string()}),
        o => json!({"k":"other","s":toks(o)}),
    };
    v["line"] = json!(line);
    v
}

fn main() {
    let mut out = Map::new();
    for f in std::env::args().skip(1) {
        let s = match std::fs::read_to_string(&f) {
            Ok(s) => s,
            Err(e) => {
                out.insert(f, json!({"error": e.to_string()}));
                continue;
            }
        };
        let v = match parse_file(&s) {
            Ok(a) => json!({"items":a.items.iter().map(item).collect::<Vec<_>>()}),
            Err(e) => json!({"error": e.to_string()}),
        };
        out.insert(f, v);
    }
    println!("{}", Value::Object(out));
}
