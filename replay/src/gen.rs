//! Objects in canonical STEP text, drawn from the frozen schema.
use crate::util::Rng;
use serde_json::Value;
use std::sync::OnceLock;

pub fn schema() -> &'static Value {
    static S: OnceLock<Value> = OnceLock::new();
    S.get_or_init(|| serde_json::from_str(include_str!("../schema.json")).unwrap())
}

pub fn entities() -> Vec<(&'static str, &'static Value)> {
    schema()["entities"].as_object().unwrap().iter().map(|(k, v)| (k.as_str(), v)).collect()
}

pub fn pool(leaf: &str) -> Vec<&'static str> {
    match leaf {
        "str" => vec![
            "'abc'", "''", "' '", "'a;b'", "'a,b(c)'", "'$'", "'*'", "'#12'", "'/* x */'", "'Gr\\X2\\00F6\\X0\\\\X2\\00DF\\X0\\e'",
            "'\\X2\\0027\\X0\\'", "'\\X2\\00C4\\X0\\\\X2\\00E4\\X0\\\\X2\\00D6\\X0\\\\X2\\00DC\\X0\\\\X2\\00FC\\X0\\'", "'日本é'", "'IFCWALL(''", "' lead and trail '", "'.T.'",
        ]
        .into_iter()
        .filter(|s| s.matches('\'').count() == 2)
        .collect(),
        "real" => vec!["2.5", "0.", "-0.", "1.", "-3.25", "1000000.125", "0.0001", "-0.5", "100000000000000000000.", "5e-324".get(..0).unwrap_or("7.")]
            .into_iter()
            .filter(|s| !s.is_empty())
            .collect(),
        "int" => vec!["3", "0", "-1", "42", "-7"],
        "ts" => vec!["1454575675", "0", "2147483648", "-1"],
        "guid" => vec!["'0DWgwt6o1FOx7466fPk$jl'", "'0000000000000000000000'", "'3$$$$$$$$$$$$$$$$$$$$$'", "'1_zZaA9BbC8_$yY7xX6wW5'"],
        "id" | "ref" => vec!["#7", "#1", "#4294967296", "#18446744073709551615"],
        x => panic!("leaf {x}"),
    }
}

/// the usual text of a node
pub fn plain(n: &Value) -> String {
    if let Some(l) = n.get("lit") {
        return l.as_str().unwrap().into();
    }
    if let Some(s) = n.get("seq") {
        return s.as_array().unwrap().iter().map(plain).collect();
    }
    if let Some(s) = n.get("alt") {
        return plain(s.as_array().unwrap().last().unwrap());
    }
    if let Some(e) = n.get("list") {
        let p = plain(e);
        return format!("{p}{}{p}", n["sep"].as_str().unwrap());
    }
    if n.get("ref").is_some() {
        return pool("ref")[0].into();
    }
    pool(n["leaf"].as_str().unwrap())[0].into()
}

/// every alternative, list length and leaf value of the pool at least once, one deviation at a time
pub fn variants(n: &Value) -> Vec<String> {
    if let Some(l) = n.get("lit") {
        return vec![l.as_str().unwrap().into()];
    }
    if let Some(s) = n.get("seq") {
        let s = s.as_array().unwrap();
        let p: Vec<String> = s.iter().map(plain).collect();
        let mut out = vec![p.concat()];
        for (i, c) in s.iter().enumerate() {
            for v in variants(c) {
                if v != p[i] {
                    out.push(format!("{}{v}{}", p[..i].concat(), p[i + 1..].concat()));
                }
            }
        }
        return out;
    }
    if let Some(s) = n.get("alt") {
        return s.as_array().unwrap().iter().rev().flat_map(variants).collect();
    }
    if let Some(e) = n.get("list") {
        let p = plain(e);
        let sep = n["sep"].as_str().unwrap();
        let mut out = vec![format!("{p}{sep}{p}"), String::new()];
        out.extend(variants(e));
        out.push(format!("{p}{sep}{p}{sep}{p}"));
        return out;
    }
    let l = if n.get("ref").is_some() { "ref" } else { n["leaf"].as_str().unwrap() };
    pool(l).into_iter().map(String::from).collect()
}

pub fn guid(r: &mut Rng) -> String {
    const A: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$";
    let mut s = String::from("'");
    s.push(A[r.below(4)] as char);
    for _ in 0..21 {
        s.push(A[r.below(64)] as char);
    }
    s + "'"
}

pub fn leaf(l: &str, r: &mut Rng) -> String {
    match l {
        "guid" if r.chance(80) => guid(r),
        "real" if r.chance(60) => {
            let sign = if r.chance(30) { "-" } else { "" };
            let big = r.below(4) * 3;
            let i = r.next() % 10u64.pow(big as u32 + 1);
            match r.below(3) {
                0 => format!("{sign}{i}."),
                1 => format!("{sign}{}.5", i % 100000000),
                _ => format!("{sign}{}.{}", i % 1000000, r.pick(&["25", "125", "75", "0625", "875"])),
            }
        }
        "int" if r.chance(50) => format!("{}", r.below(2000) as i64 - 1000),
        "ts" if r.chance(50) => format!("{}", r.below(4000000000)),
        "id" | "ref" if r.chance(60) => format!("#{}", {
            let bits = r.below(40);
            1 + r.below(2 << bits)
        }),
        "str" if r.chance(60) => {
            let n = r.below(12);
            let mut s = String::from("'");
            for _ in 0..n {
                s.push_str(r.pick(&["a", "Z", " ", ";", ",", "(", ")", "#", "$", "*", "/*", "*/", "\"", "é", "漢", "0", ".", "=", "\\X2\\00E4\\X0\\", "\\X2\\0027\\X0\\", "\\X2\\00DF\\X0\\"]));
            }
            s + "'"
        }
        l => r.pick(&pool(l)).to_string(),
    }
}

pub fn random(n: &Value, r: &mut Rng) -> String {
    if let Some(l) = n.get("lit") {
        return l.as_str().unwrap().into();
    }
    if let Some(s) = n.get("seq") {
        return s.as_array().unwrap().iter().map(|x| random(x, r)).collect();
    }
    if let Some(s) = n.get("alt") {
        let s = s.as_array().unwrap();
        let i = if s.len() == 3 && r.chance(60) { 2 } else { r.below(s.len()) };
        return random(&s[i], r);
    }
    if let Some(e) = n.get("list") {
        let k = *r.pick(&[0usize, 1, 1, 2, 3, 5, 9]);
        return (0..k).map(|_| random(e, r)).collect::<Vec<_>>().join(n["sep"].as_str().unwrap());
    }
    let l = if n.get("ref").is_some() { "ref" } else { n["leaf"].as_str().unwrap() };
    leaf(l, r)
}

/// text with every reference replaced by what `f` says for it (its position and admissible kinds)
pub fn with_refs(n: &Value, at: &mut usize, f: &mut dyn FnMut(usize, Option<&Value>) -> String) -> String {
    if let Some(l) = n.get("lit") {
        return l.as_str().unwrap().into();
    }
    if let Some(s) = n.get("seq") {
        return s.as_array().unwrap().iter().map(|x| with_refs(x, at, f)).collect();
    }
    if let Some(s) = n.get("alt") {
        return with_refs(s.as_array().unwrap().last().unwrap(), at, f);
    }
    if let Some(e) = n.get("list") {
        let sep = n["sep"].as_str().unwrap();
        return (0..3).map(|_| with_refs(e, at, f)).collect::<Vec<_>>().join(sep);
    }
    if let Some(k) = n.get("ref") {
        *at += 1;
        return f(*at - 1, Some(k));
    }
    if n["leaf"] == "id" {
        *at += 1;
        return f(*at - 1, None);
    }
    pool(n["leaf"].as_str().unwrap())[0].into()
}

/// random text with references as `f` says for them (their admissible kinds)
pub fn random_refs(n: &Value, r: &mut Rng, f: &mut dyn FnMut(Option<&Value>) -> String) -> String {
    if let Some(l) = n.get("lit") {
        return l.as_str().unwrap().into();
    }
    if let Some(s) = n.get("seq") {
        return s.as_array().unwrap().iter().map(|x| random_refs(x, r, f)).collect();
    }
    if let Some(s) = n.get("alt") {
        let s = s.as_array().unwrap();
        let i = if s.len() == 3 && r.chance(70) { 2 } else { r.below(s.len()) };
        return random_refs(&s[i], r, f);
    }
    if let Some(e) = n.get("list") {
        let k = *r.pick(&[0usize, 1, 2, 3, 5]);
        return (0..k).map(|_| random_refs(e, r, f)).collect::<Vec<_>>().join(n["sep"].as_str().unwrap());
    }
    if let Some(k) = n.get("ref") {
        return f(Some(k));
    }
    if n["leaf"] == "id" {
        return f(None);
    }
    leaf(n["leaf"].as_str().unwrap(), r)
}
