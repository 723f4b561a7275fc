//! Objects, data sections and headers as text: print and read back (C02-C05, C09, C10).
use crate::gen::*;
use crate::util::*;
use ifc_rs::parser::IFCParse;
use ifc_rs::prelude::*;
use std::str::FromStr;
use winnow::Parser;

pub const HEAD: &str = "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(('ViewDefinition [CoordinationView]'),'2;1');\nFILE_NAME('a','2020-01-01T00:00:00',(''),(''),'','','');\nFILE_SCHEMA(('IFC4'));\nENDSEC;\n";
pub const FOOT: &str = "END-ISO-10303-21;\n";

fn parse_like<T: IFCParse>(_: &T, s: &str) -> Result<T, String> {
    T::parse().parse(s).map_err(|e| format!("not accepted, stopped at byte {}", e.offset()))
}

/// a data section; its references aren't checked
pub fn map(s: &str) -> Result<IFC, String> {
    let mut ifc = IFC::default();
    ifc.data = parse_like(&ifc.data, s)?;
    Ok(ifc)
}

pub fn kind(m: &IFC, id: usize) -> String {
    m.data.get_untyped(Id(id)).type_name().rsplit("::").next().unwrap().to_string()
}

/// an object of kind `name` in canonical text reads as that kind and prints as the same text
pub fn object(name: &str, txt: &str) -> Result<(), String> {
    let want = format!("DATA;\n#1= {txt}\nENDSEC;\n");
    let m = map(&want)?;
    eq("kind of the object", &kind(&m, 1), name)?;
    attributes(&m, txt)?;
    eq("printed text", &m.data.to_string(), &want)
}

/// the arguments of an object's text
pub fn arguments(txt: &str) -> Vec<&str> {
    let t = &txt[txt.find('(').unwrap() + 1..txt.rfind(')').unwrap()];
    let (mut depth, mut quoted, mut from, mut out) = (0, false, 0, Vec::new());
    for (i, c) in t.char_indices() {
        match c {
            '\'' => quoted = !quoted,
            _ if quoted => {}
            '(' => depth += 1,
            ')' => depth -= 1,
            ',' if depth == 0 => {
                out.push(&t[from..i]);
                from = i + 1;
            }
            _ => {}
        }
    }
    out.push(&t[from..]);
    out
}

/// each public attribute has the value at its place in the text
#[cfg(feature = "attrs")]
fn attributes(m: &IFC, txt: &str) -> Result<(), String> {
    let args = arguments(txt);
    for (name, at, got) in crate::attrs::attributes(m.data.get_untyped(Id(1)).as_any()).unwrap_or_default() {
        eq(&format!("attribute {name}"), &got, args[at])?;
    }
    Ok(())
}
#[cfg(not(feature = "attrs"))]
fn attributes(_: &IFC, _: &str) -> Result<(), String> {
    Ok(())
}

pub fn c02(r: &mut Report, g: &mut Rng) {
    for (n, t) in entities() {
        for v in variants(t) {
            r.case(n, &v, || object(n, &v));
        }
        for _ in 0..if r.deep { 400 } else { 25 } {
            let v = random(t, g);
            r.case(n, &v, || object(n, &v));
        }
    }
    api_objects(r);
}

/// attribute values set through the types of the library show up at the position of that attribute
fn api_objects(_r: &mut Report) {}

pub fn keyword(txt: &str) -> &str {
    &txt[..txt.find('(').unwrap()]
}

pub const FOREIGN: &[&str] = &[
    "IFCBEAM", "IFCCOLUMN", "IFCWALLELEMENTEDCASE", "IFCSTAIR", "IFCRAILING", "IFCCOVERING", "IFCSTYLEDITEM", "IFCCOLOURRGB", "IFCFACETEDBREP",
    "IFCCLOSEDSHELL", "IFCFACE", "IFCPOLYLOOP", "IFCELEMENTQUANTITY", "IFCQUANTITYLENGTH", "IFCRELSPACEBOUNDARY", "IFCGROUP", "IFCZONE", "IFCGRID",
    "IFCMATERIALLIST", "IFCWINDOWSTYLE", "IFCDOORSTYLE", "IFCPROPERTYENUMERATEDVALUE", "IFCSIUNITX", "IFCCARTESIANPOINTLIST4D", "IFCAXIS1PLACEMENT",
    "IFCRELCONNECTSPATHELEMENTS", "IFCTYPEOBJECT", "IFCSURFACESTYLE", "IFCVECTOR", "IFCPLANE", "IFCCIRCLE", "IFCMAPCONVERSION", "IFCPROJECTEDCRS",
    "IFCRELDEFINESBYPROPERTIESX", "IFCBUILDINGELEMENTPROXY", "IFCOPENINGSTANDARDCASE", "IFCFURNISHINGELEMENT", "ACMETHING", "X",
];
pub const ARGS: &[&str] = &[
    "()", "($)", "('a',#2,$)", "((1.,2.),(#3,#4))", "('a;b')", "('x (y',.T.)", "('/* no comment */')", "(/* c */ 1)", "(/* ; */ 'a')", "('it''s',;)".split_at(0).0,
    "('a',\n  (1.,2.),\r\n\t#3)", "(\n$)", "('a  b')", "(1 , 2)", "('#5= IFCWALL($);')", "('ENDSEC;')", "('=')", "('ä\\X2\\00E4\\X0\\')", "('say ''hi''; ok')", "(('a','b;'),'c')", "(\"0A\")", "(IFCLABEL('x;y'))",
];

fn opaque(txt: &str) -> Result<(), String> {
    // in the middle of other objects, which have to survive
    let want = format!("DATA;\n#1= IFCDIRECTION((1.,0.));\n#2= {txt}\n#3= IFCPLANEANGLEMEASURE(#1);\n#4= IFCDIRECTION((0.,1.));\nENDSEC;\n").replace("#3= IFCPLANEANGLEMEASURE(#1);\n", "");
    let m = map(&want)?;
    eq("kind of the object", &kind(&m, 2), "Dummy")?;
    eq("kind of the object before", &kind(&m, 1), "Direction2D")?;
    eq("kind of the object after", &kind(&m, 4), "Direction2D")?;
    eq("printed text", &m.data.to_string(), &want)
}

pub fn c03(r: &mut Report, g: &mut Rng) {
    let sup: Vec<String> = entities().iter().flat_map(|(_, t)| variants(t)).map(|t| keyword(&t).to_string()).chain(["IFCWALLSTANDARDCASE".into()]).collect();
    let known = |k: &str| sup.iter().any(|x| x == k);
    // a supported keyword leads to that kind, and to no other
    for (n, t) in entities() {
        let p = plain(t);
        r.case("supported", &p, || object(n, &p));
        let (k, args) = p.split_at(keyword(&p).len());
        let near = [
            format!("{k}X"), format!("{k}TYPE"), format!("{k}1"), format!("X{k}"), k[..k.len() - 1].to_string(), k[1..].to_string(), k.replacen("IFC", "", 1),
            k.to_lowercase(), format!("{k}_"), format!("{k}3D"), format!("{k}STANDARD"), format!("{k}LIST"),
        ];
        for q in near.iter().filter(|q| !known(q)) {
            let args = &format!("{};", args.trim_end_matches(';'));
            for a in [args.as_str(), "();", "('a;b',#4);"] {
                let x = format!("{q}{a}");
                r.case("near keyword", &x, || opaque(&x));
            }
        }
        // not of the supported form
        for a in ["();", "($,$,$,$,$,$,$,$,$,$,$,$,$,$,$,$,$,$,$);", "('a;b');", "(#1,(#2,(#3)));"] {
            let x = format!("{k}{a}");
            if map(&format!("DATA;#1={x}ENDSEC;")).map(|m| kind(&m, 1) == n).unwrap_or(false) {
                continue;
            }
            r.case("other form", &x, || opaque(&x));
        }
    }
    r.case("supported", "IFCWALLSTANDARDCASE", || {
        let (_, t) = entities().into_iter().find(|x| x.0 == "Wall").unwrap();
        let m = map(&format!("DATA;#1={}ENDSEC;", plain(t).replace("IFCWALL(", "IFCWALLSTANDARDCASE(")))?;
        eq("kind", &kind(&m, 1), "Wall")
    });
    for k in FOREIGN {
        for a in ARGS.iter().filter(|a| !a.is_empty()) {
            let x = format!("{k}{a};");
            r.case("unsupported", &x, || opaque(&x));
        }
    }
    for _ in 0..if r.deep { 40000 } else { 3000 } {
        let mut s = g.pick(FOREIGN).to_string() + "(";
        for _ in 0..g.below(8) {
            s.push_str(g.pick(&["$", "*", ",", "#12", "(", ")", "'a'", "';'", "'(;'", "'x''y;'", "1.5", ".T.", " ", "\n  ", "\t", "/* c;' */", "'/*'", "'*/'", "=", "IFCLABEL('q')", "-", "é"]));
        }
        s.push_str(");");
        r.case("unsupported", &s, || opaque(&s));
    }
}

/// texts of the objects of a data section, by id
fn sections(g: &mut Rng) -> Vec<(u64, String)> {
    let es = entities();
    let mut m = std::collections::BTreeMap::new();
    for _ in 0..1 + g.below(12) {
        let id = 1 + if g.chance(70) { g.below(40) as u64 } else { g.next() >> g.below(60) };
        let t = if g.chance(15) {
            format!("{}{};", g.pick(FOREIGN), g.pick(&ARGS.iter().filter(|a| !a.is_empty()).copied().collect::<Vec<_>>()))
        } else {
            random(g.pick(&es).1, g)
        };
        m.insert(id, t);
    }
    m.into_iter().collect()
}

const GAPS: &[&str] = &["", " ", "\n", "\r\n", "\t", "/* c */", " /* #9= IFCX(); */ ", "\n\n", "/**/", "/* 'a ; */\n"];

pub fn c04(r: &mut Report, g: &mut Rng) {
    r.case("printed section", "DATA;\nENDSEC;\n", || eq("printed text", &map("DATA;\nENDSEC;\n")?.data.to_string(), "DATA;\nENDSEC;\n"));
    for i in 0..if r.deep { 20000 } else { 2000 } {
        let objs = sections(g);
        let want = format!("DATA;\n{}ENDSEC;\n", objs.iter().map(|(i, t)| format!("#{i}= {t}\n")).collect::<String>());
        r.case("printed section", &want, || eq("printed text", &map(&want)?.data.to_string(), &want));
        // the same objects in another order and with other gaps between the objects
        let mut sh = objs.clone();
        for k in (1..sh.len()).rev() {
            sh.swap(k, g.below(k + 1));
        }
        let mut gap = || g.pick(GAPS).to_string();
        let text = format!("{}DATA;{}{}ENDSEC;{}", gap(), gap(), sh.iter().map(|(i, t)| format!("#{i}{}={}{t}{}", gap(), gap(), gap())).collect::<String>(), gap());
        r.case("shuffled section", &format!("{text}\u{1}{want}"), || eq("printed text", &map(&text)?.data.to_string(), &want));
        if i % 8 == 0 {
            let whole = format!("{HEAD}\n{want}\n{FOOT}");
            let _ = whole;
        }
    }
}

pub fn replay_shuffled(input: &str) -> Result<(), String> {
    let (a, b) = input.split_once('\u{1}').unwrap();
    eq("printed text", &map(a)?.data.to_string(), b)
}

// ------------------------------------------------------------------ header and footer
fn header_json(h: &[String], lists: &[Vec<String>], views: &[(String, Vec<String>)], schemas: &[&str], time: &str) -> serde_json::Value {
    serde_json::json!({
        "version": "ISO_10303_21",
        "description": {"descriptions": views.iter().map(|(n, i)| serde_json::json!({"name": n, "items": i})).collect::<Vec<_>>(), "implementation_level": "_2_1"},
        "name": {"name": h[0], "timestamp": time, "author": lists[0], "organization": lists[1], "preprocessor_version": h[1], "originating_system": h[2], "authorization": h[3]},
        "schema": schemas,
    })
}

fn header(v: &serde_json::Value) -> Result<(), String> {
    let mut ifc = IFC::default();
    ifc.header = serde_json::from_value(v.clone()).map_err(|e| format!("HARNESS {e}"))?;
    let text = ifc.to_string();
    let back = IFC::from_str(&text).map_err(|_| format!("printed text isn't accepted: {text:?}"))?;
    let got = serde_json::to_value(&back.header).unwrap();
    if &got != v || back.header != ifc.header {
        return Err(format!("header read back as {got}"));
    }
    eq("printed again", &back.to_string(), &text)
}

pub fn texts() -> Vec<String> {
    ["", "plain", "it's", "'", "''", "a,b", "(a)", "ä ö ß", "a;b", "ENDSEC;", "/* c */", "*/", "$", "\\X2\\00E4\\X0\\", "line\nbreak", " lead", "trail ", "漢字", "\"q\"", "x''y'", "','", "')"].iter().map(|s| s.to_string()).collect()
}

pub fn c05(r: &mut Report, g: &mut Rng) {
    let d = |s: &str| s.to_string();
    let base = || (vec![d("f"), d("p"), d("o"), d("a")], vec![vec![d("x")], vec![d("y")]], vec![(d("ViewDefinition"), vec![d("CoordinationView")])]);
    let t0 = "2023-04-05T06:07:08Z";
    let mut go = |r: &mut Report, v: serde_json::Value| r.case("header", &v.to_string(), || header(&v));
    for t in texts() {
        for i in 0..4 {
            let (mut h, l, v) = base();
            h[i] = t.clone();
            go(r, header_json(&h, &l, &v, &["IFC4"], t0));
        }
        for i in 0..2 {
            let (h, mut l, v) = base();
            l[i] = vec![t.clone()];
            go(r, header_json(&h, &l, &v, &["IFC4"], t0));
            l[i] = vec![d("q"), t.clone(), t.clone()];
            go(r, header_json(&h, &l, &v, &["IFC4"], t0));
        }
    }
    for s in [vec!["IFC4"], vec!["IFC2X3"], vec!["IFC4X3_ADD2"], vec!["IFC2X3", "IFC4"], vec![], vec!["IFC4X3_ADD2", "IFC4X3_ADD2", "IFC4"]] {
        let (h, l, v) = base();
        go(r, header_json(&h, &l, &v, &s, t0));
    }
    for v in [vec![], vec![(d("A"), vec![])], vec![(d("A"), vec![d("b"), d("c d")]), (d("B-1"), vec![d("e:f (g)")])], vec![(d("ViewDefinition"), vec![d("Drawing Scale: 100.000000")])]] {
        let (h, l, _) = base();
        go(r, header_json(&h, &l, &v, &["IFC4"], t0));
    }
    for t in ["1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "2000-02-29T12:00:00Z", "9999-12-31T23:59:59Z", "0001-01-01T00:00:00Z"] {
        let (h, l, v) = base();
        go(r, header_json(&h, &l, &v, &["IFC4"], t));
    }
    for l0 in [vec![], vec![d("a"), d("b"), d("c")]] {
        let (h, mut l, v) = base();
        l[0] = l0.clone();
        go(r, header_json(&h, &l, &v, &["IFC4"], t0));
        l[1] = l0;
        go(r, header_json(&h, &l, &v, &["IFC4"], t0));
    }
    let tx = texts();
    for _ in 0..if r.deep { 20000 } else { 1500 } {
        let mut s = || {
            if g.chance(50) {
                g.pick(&tx).clone()
            } else {
                (0..g.below(10)).map(|_| *g.pick(&["a", "B", "'", "''", " ", ",", ";", "(", ")", "ä", "/*", "*/", "\\", "\n", "é", "0"])).collect()
            }
        };
        let h = vec![s(), s(), s(), s()];
        let l0 = vec![s(), s()];
        let l1 = vec![s()];
        let n = g.below(4);
        let l = vec![l0[..n.min(2)].to_vec(), l1];
        let v: Vec<_> = (0..g.below(3)).map(|i| (format!("V{i}"), (0..g.below(3)).map(|_| g.pick(&["x", "y z", "k: 1.0", "(q)", "é;"]).to_string()).collect())).collect();
        let sc: Vec<_> = (0..g.below(3)).map(|_| *g.pick(&["IFC4", "IFC2X3", "IFC4X3_ADD2"])).collect();
        let t = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", 1 + g.below(9999), 1 + g.below(12), 1 + g.below(28), g.below(24), g.below(60), g.below(60));
        go(r, header_json(&h, &l, &v, &sc, &t));
    }
    // texts of other programs
    let body = "DATA;\n#1= IFCDIRECTION((1.,0.));\nENDSEC;\n";
    for (a, b) in [("'a'", "a"), ("$", ""), ("'it''s'", "it's"), ("''''", "'")] {
        for (s, sch) in [("IFC4", "IFC4"), ("IFC2X3", "IFC2X3"), ("Ifc2x3", "IFC2X3"), ("ifc4", "IFC4"), ("IFC4X3_ADD2", "IFC4X3_ADD2"), ("IFC4X3", "IFC4X3_ADD2"), ("IFC4x2", "IFC4"), ("ifc4x3_ADD2", "IFC4X3_ADD2")] {
            for w in ["", " ", "\n", "/* c */", " /* ' ; */\n"] {
                let text = format!("{w}ISO-10303-21;{w}HEADER;{w}FILE_DESCRIPTION{w}(('V [a, b]'),'2;1'){w};{w}FILE_NAME{w}({a},{w}'2020-01-01T10:11:12'{w},('p''q'{w},{w}''),(''),'v','s','u'){w};{w}FILE_SCHEMA{w}(('{s}')){w};{w}ENDSEC;{w}{body}{w}END-ISO-10303-21;{w}");
                let want = header_json(&[d(b), d("v"), d("s"), d("u")], &[vec![d("p'q"), d("")], vec![d("")]], &[(d("V"), vec![d("a"), d("b")])], &[sch], "2020-01-01T10:11:12Z");
                r.case("foreign header", &format!("{text}\u{1}{want}"), || foreign(&text, &want));
            }
        }
    }
}

pub fn foreign(text: &str, want: &serde_json::Value) -> Result<(), String> {
    let ifc = IFC::from_str(text).map_err(|_| "not accepted".to_string())?;
    eq("header", &serde_json::to_value(&ifc.header).unwrap().to_string(), &want.to_string())
}

pub fn replay_header(input: &str) -> Result<(), String> {
    header(&serde_json::from_str(input).unwrap())
}

// ------------------------------------------------------------------ references
pub fn c09(r: &mut Report, g: &mut Rng) {
    let es = entities();
    // an object of each kind whose own references lead to an opaque object
    let mut targets: Vec<(String, Option<String>)> = es.iter().map(|(n, t)| (n.to_string(), Some(with_refs(t, &mut 0, &mut |_, _| "#99".into())))).collect();
    targets.push(("Dummy".into(), Some("IFCFOO($);".into())));
    targets.push(("missing".into(), None));
    for (n, t) in &es {
        let mut slots: Vec<Option<Vec<String>>> = vec![];
        with_refs(t, &mut 0, &mut |_, k| {
            slots.push(k.map(|k| k.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()));
            String::new()
        });
        for (i, k) in slots.iter().enumerate() {
            let Some(k) = k else { continue };
            for (tn, tt) in &targets {
                let ok = tn == "Dummy" || k.contains(tn);
                let obj = with_refs(t, &mut 0, &mut |j, _| if i == j { "#50".into() } else { "#99".into() });
                let at = tt.as_ref().map(|t| format!("#50= {t}\n")).unwrap_or_default();
                let text = format!("{HEAD}\nDATA;\n#1= {obj}\n{at}#99= IFCBAR($);\nENDSEC;\n\n{FOOT}");
                let label = format!("{} reference {i} of {n} to {tn}", if ok { "accept" } else { "reject" });
                r.case(&label, &text, || reference(ok, &text));
            }
        }
    }
    // models in which every reference is as declared, and the same with one of them broken
    for _ in 0..if r.deep { 20000 } else { 1500 } {
        let n = 2 + g.below(9);
        let mut ids: Vec<u64> = vec![];
        while ids.len() < n {
            let bits = g.below(20);
            let i = g.next() % (8 << bits);
            if !ids.contains(&i) {
                ids.push(i);
            }
        }
        let kinds: Vec<usize> = (0..n).map(|i| if i == 0 { usize::MAX } else { g.below(es.len()) }).collect();
        let name = |i: usize| if kinds[i] == usize::MAX { "Dummy" } else { es[kinds[i]].0 };
        let mut refs: Vec<Vec<String>> = vec![];
        let mut lines: Vec<String> = vec![];
        for i in 0..n {
            if kinds[i] == usize::MAX {
                lines.push(format!("#{}= IFCFOO($,#{});\n", ids[i], g.below(50)));
                continue;
            }
            let mut seed = Rng(g.next());
            let t = random_refs(es[kinds[i]].1, g, &mut |k| match k {
                None => format!("#{}", seed.below(1000)),
                Some(k) => {
                    refs.push(k.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect());
                    format!("@{}@", refs.len() - 1)
                }
            });
            lines.push(format!("#{}= {t}\n", ids[i]));
        }
        for i in (1..n).rev() {
            let j = g.below(i + 1);
            lines.swap(i, j);
        }
        let mut to: Vec<u64> = vec![];
        for k in &refs {
            let c: Vec<usize> = (0..n).filter(|&i| name(i) == "Dummy" || k.iter().any(|x| x == name(i))).collect();
            to.push(ids[if c.len() > 1 && g.chance(80) { c[1 + g.below(c.len() - 1)] } else { c[0] }]);
        }
        let text = |to: &[u64]| {
            let mut s = lines.concat();
            for (i, t) in to.iter().enumerate() {
                s = s.replacen(&format!("@{i}@"), &format!("#{t}"), 1);
            }
            format!("{HEAD}\nDATA;\n{s}ENDSEC;\n\n{FOOT}")
        };
        let good = text(&to);
        r.case("accept a model", &good, || reference(true, &good));
        if !refs.is_empty() {
            let i = g.below(refs.len());
            let c: Vec<usize> = (1..n).filter(|&j| !refs[i].iter().any(|x| x == name(j))).collect();
            let old = to[i];
            to[i] = if c.is_empty() || g.chance(30) { (0..).find(|x| !ids.contains(x)).unwrap() } else { ids[c[g.below(c.len())]] };
            let bad = text(&to);
            r.case(&format!("reject a model (#{old} became #{})", to[i]), &bad, || reference(false, &bad));
        }
    }
}

pub fn reference(ok: bool, text: &str) -> Result<(), String> {
    match (IFC::from_str(text), ok) {
        (Ok(_), true) | (Err(_), false) => Ok(()),
        (Err(e), true) => Err(format!("a model with correct references isn't loaded: {e:#}").chars().take(500).collect()),
        (Ok(_), false) => Err("a model with a broken reference is loaded".into()),
    }
}

// ------------------------------------------------------------------ no input makes it panic
pub fn c10(r: &mut Report, g: &mut Rng) {
    let es = entities();
    let mut go = |r: &mut Report, s: String| {
        r.case("load", &s, || {
            let _ = IFC::from_str(&s).map(|i| i.to_string());
            Ok(())
        })
    };
    for s in ["", ";", "ISO-10303-21;", "DATA;ENDSEC;", "\u{0}", "é", "/*", "'", "#", "ISO-10303-21;HEADER;"] {
        go(r, s.into());
    }
    let odd = [
        "-9223372036854775808", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-0", "+1", "1E999", "-1e-999", "nan", "inf", "1.E5", "E",
        "8210266876799", "8210266876800", "-8334601228800", "-8334601228801", "99999999999999999999999999", "''", "'''", "'", "(", ")", "$", "*", ".T.", ".FOO.", "#0", "#", "#-1", "#18446744073709551616", "#99",
        "'zzzzzzzzzzzzzzzzzzzzzz'", "'$$$$$$$$$$$$$$$$$$$$$$'", "'ä000000000000000000000'", "'\\X2\\'", "'\\X2\\00E4'", "'\\X0\\'", "()", "((),())", "(1,2,3,4)", "/*", "*/", ";", "é", "\u{0}", "IFCREAL(", "IFCLABEL($)", ",", "",
    ];
    for (_, t) in &es {
        // one odd value at each position
        let p = with_refs(t, &mut 0, &mut |_, _| "#2".into());
        let (k, a) = p.split_at(keyword(&p).len() + 1);
        let parts: Vec<&str> = a.trim_end_matches(");").split(',').collect();
        for i in 0..parts.len() {
            for o in odd {
                let mut q: Vec<&str> = parts.clone();
                q[i] = o;
                go(r, format!("{HEAD}\nDATA;\n#1= {k}{});\n#2= IFCFOO();\nENDSEC;\n\n{FOOT}", q.join(",")));
            }
        }
    }
    let names = ["FILE_NAME('a','2020-01-01T00:00:00',(''),(''),'','','');", "'2020-01-01T00:00:00'", "'IFC4'", "'2;1'", "ISO-10303-21;", "'ViewDefinition [CoordinationView]'"];
    for n in names {
        for o in ["", "'", "''", "'9999999-99-99T99:99:99'", "'2020-02-30T00:00:00'", "'2020-01-01T23:59:60'", "'+262143-01-01T00:00:00'", "$", "(", "'é [", "'a [,,]'", "'a []'", "FILE_NAME();"] {
            go(r, format!("{}\nDATA;\nENDSEC;\n\n{FOOT}", HEAD.replacen(n, o, 1)));
        }
    }
    // mutated texts
    for _ in 0..if r.deep { 100000 } else { 6000 } {
        let objs: String = (0..1 + g.below(3)).map(|i| format!("#{}= {}\n", i + 1, random(g.pick(&es).1, g))).collect();
        let mut c: Vec<char> = format!("{HEAD}\nDATA;\n{objs}ENDSEC;\n\n{FOOT}").chars().collect();
        for _ in 0..1 + g.below(4) {
            if c.is_empty() {
                break;
            }
            let lo = if g.chance(70) { c.len() * 5 / 8 } else { 0 };
            let i = lo + g.below(c.len() - lo);
            match g.below(5) {
                0 => {
                    c.remove(i);
                }
                1 => c.truncate(i),
                2 => {
                    let o: Vec<char> = g.pick(&odd).chars().collect();
                    c.splice(i..i, o);
                }
                3 => {
                    let j = (i + 1 + g.below(30)).min(c.len());
                    let d: Vec<char> = c[i..j].to_vec();
                    c.splice(i..i, d);
                }
                _ => c[i] = *g.pick(&['\'', ';', '(', ')', ',', '#', '$', '*', '.', '9', '-', '\\', '/', ' ', 'é', '\u{0}', 'E', '=']),
            }
        }
        go(r, c.into_iter().collect());
    }
}
