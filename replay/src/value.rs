//! Values: identifiers, texts, numbers and enumerations (C01, C06-C08).
use crate::gen;
use crate::text::*;
use crate::util::*;
use ifc_rs::parser::IFCParse;
use ifc_rs::prelude::*;
use winnow::Parser;

/// the file with the identifiers, as it is in the repository
mod parser {
    pub use ifc_rs::parser::{IFCParse, IFCParser};
}
#[cfg(feature = "guid")]
#[allow(dead_code)]
mod guid {
    include!(concat!(env!("OUT_DIR"), "/ifc_uuid.rs"));

    pub fn of(u: u128) -> IfcGloballyUniqueId {
        IfcGloballyUniqueId::from_uuid(uuid::Uuid::from_u128(u))
    }
    pub fn raw(g: &IfcGloballyUniqueId) -> u128 {
        g.0.as_u128()
    }
}

const ALPHA: &[u8; 64] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$";

/// what buildingSMART defines: 128 bits, two digits for the first byte, four for each further three bytes
fn compress(u: u128) -> String {
    let b = u.to_be_bytes();
    let mut s = String::new();
    let mut put = |v: u32, n: u32| (0..n).rev().for_each(|i| s.push(ALPHA[(v >> (6 * i) & 63) as usize] as char));
    put(b[0] as u32, 2);
    for c in b[1..].chunks(3) {
        put((c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32, 4);
    }
    s
}

fn guid_case(u: u128) -> Result<(), String> {
    let want = compress(u);
    #[cfg(feature = "guid")]
    source_case(u, &want)?;
    let q = format!("'{want}'");
    // and the compiled library
    let m: IfcGloballyUniqueId = IfcGloballyUniqueId::parse().parse(q.as_str()).map_err(|_| "not accepted".to_string())?;
    eq("library", &m.to_string(), &format!("'{want}'"))
}

#[cfg(feature = "guid")]
fn source_case(u: u128, want: &str) -> Result<(), String> {
    eq("compressed form", &guid::of(u).base64_ifc_string(), want)?;
    eq("printed form", &guid::of(u).to_string(), &format!("'{want}'"))?;
    let q = format!("'{want}'");
    let back = guid::IfcGloballyUniqueId::parse().parse(q.as_str()).map_err(|_| "compressed form isn't accepted".to_string())?;
    eq("read back", &format!("{:032x}", guid::raw(&back)), &format!("{u:032x}"))
}

pub fn c01(r: &mut Report, g: &mut Rng) {
    let mut go = |r: &mut Report, u: u128| r.case("uuid", &format!("{u:032x}"), || guid_case(u));
    go(r, 0);
    go(r, u128::MAX);
    for i in 0..16 {
        for b in 0..=255u128 {
            go(r, b << (8 * i));
            go(r, !(b << (8 * i)));
        }
    }
    for _ in 0..if r.deep { 500000 } else { 20000 } {
        let u = (g.next() as u128) << 64 | g.next() as u128;
        go(r, u);
    }
    // texts which aren't compressed identifiers
    for (t, why) in [("'0DWgwt6o1FOx7466fPk$j'", "short"), ("'0DWgwt6o1FOx7466fPk$jl0'", "long"), ("'0DWgwt6o1FOx7466fPk-jl'", "digit"), ("'0DWgwt6o1FOx7466fPkäjl'", "digit"), ("''", "empty"), ("'0DWgwt6o1FOx7466fPk jl'", "blank"), ("0DWgwt6o1FOx7466fPk$jl", "unquoted")] {
        r.case("no identifier", t, || match IfcGloballyUniqueId::parse().parse(t) {
            Ok(_) => Err(format!("accepted ({why})")),
            Err(_) => Ok(()),
        });
    }
    for _ in 0..200 {
        let id = IfcGloballyUniqueId::new_v4().to_string();
        r.case("new", &id.clone(), || {
            let back = IfcGloballyUniqueId::parse().parse(id.as_str()).map_err(|_| "not accepted".to_string())?;
            eq("read back", &back.to_string(), &id)
        });
    }
}

pub fn one_guid(hex: &str) -> Result<(), String> {
    guid_case(u128::from_str_radix(hex, 16).unwrap())
}

// ------------------------------------------------------------------ texts
const UML: &[(char, &str)] = &[('Ä', "00C4"), ('ä', "00E4"), ('Ö', "00D6"), ('ö', "00F6"), ('Ü', "00DC"), ('ü', "00FC"), ('ß', "00DF"), ('\'', "0027")];

fn encode(s: &str) -> String {
    s.chars().map(|c| UML.iter().find(|u| u.0 == c).map(|u| format!("\\X2\\{}\\X0\\", u.1)).unwrap_or(c.to_string())).collect()
}

fn string_case(s: &str) -> Result<(), String> {
    let m = Material::new(s).description(s);
    let stored = &m.material.custom().unwrap().0;
    eq("stored text", stored, s)?;
    let want = format!("IFCMATERIAL('{0}','{0}',$);", encode(s));
    eq("printed text", &m.to_string(), &want)?;
    let back = map(&format!("DATA;#1={want}#2=IFCDIRECTION((1.,0.));ENDSEC;"))?;
    eq("kind", &kind(&back, 1), "Material")?;
    let b = back.data.get::<Material>(TypedId::new(Id(1)));
    eq("text read back", &b.material.custom().unwrap().0, s)?;
    eq("text read back", &b.description.custom().unwrap().0, s)?;
    if back.data.contains(&Id(2)) {
        Ok(())
    } else {
        Err("next object lost".into())
    }
}

pub fn c06(r: &mut Report, g: &mut Rng) {
    let mut go = |r: &mut Report, s: String| r.case("text", &s, || string_case(&s));
    for s in texts() {
        if !s.contains('\\') {
            go(r, s);
        }
    }
    for c in (0u32..0x2500).chain(0x1F600..0x1F610).chain([0xFFFD, 0x10FFFF, 0xFEFF]).filter_map(char::from_u32).filter(|c| *c != '\\') {
        go(r, c.to_string());
    }
    let parts = ["a", "Ä", "ä", "Ö", "ö", "Ü", "ü", "ß", "'", "X2", "00E4", "X0", ";", "(", ")", ",", "/*", "*/", " ", "\n", "é", "漢", "ẞ", "a\u{308}", "#1", "$", "\"", "S", "0027", "\t"];
    for a in parts {
        for b in parts {
            for c in parts {
                go(r, format!("{a}{b}{c}"));
            }
        }
    }
    for _ in 0..if r.deep { 200000 } else { 5000 } {
        let s = (0..g.below(30)).map(|_| *g.pick(&parts)).collect();
        go(r, s);
    }
}

// ------------------------------------------------------------------ numbers
fn is_step_real(s: &str) -> bool {
    let s = s.strip_prefix(['-', '+']).unwrap_or(s);
    let digits = |t: &str| t.bytes().all(|c| c.is_ascii_digit());
    let Some((i, rest)) = s.split_once('.') else { return false };
    let (f, e) = match rest.split_once('E') {
        Some((f, e)) => (f, Some(e)),
        None => (rest, None),
    };
    !i.is_empty() && digits(i) && digits(f) && e.is_none_or(|e| {
        let e = e.strip_prefix(['-', '+']).unwrap_or(e);
        !e.is_empty() && digits(e)
    })
}

fn real_case(x: f64) -> Result<(), String> {
    let close = |y: f64| x == y || ((y - x) / x).abs() <= 1e-14;
    let m = MaterialLayer::new(x, false);
    let t = m.to_string();
    let txt = t.split(',').nth(1).unwrap_or("");
    if !is_step_real(txt) {
        return Err(format!("{txt:?} is no STEP real"));
    }
    let p = Point3D::from(bevy_math::DVec3::new(x, 0.0, -x)).to_string();
    let want = format!("IFCCARTESIANPOINT(({txt},0.,{}));", if x == 0.0 && x.is_sign_negative() { "0.".into() } else if let Some(p) = txt.strip_prefix('-') { p.to_string() } else { format!("-{txt}") });
    eq("coordinates", &p, &want)?;
    let back = map(&format!("DATA;#1={t}#2={p}ENDSEC;"))?;
    eq("kind", &kind(&back, 1), "MaterialLayer")?;
    eq("kind", &kind(&back, 2), "Point3D")?;
    let y = back.data.get::<MaterialLayer>(TypedId::new(Id(1))).layer_thickness.0;
    if !close(y) {
        return Err(format!("printed as {txt}, read back as {y:e} instead of {x:e}"));
    }
    let digits = x.fract().to_string().chars().filter(|c| c.is_ascii_digit() && *c != '0').count();
    if digits <= 10 && y != x {
        return Err(format!("printed as {txt}, read back as {y:e} instead of {x:e}"));
    }
    let q = back.data.get_untyped(Id(2)).to_string();
    let mut twice = vec![];
    for s in q.trim_end_matches("));").split('(').next_back().unwrap().split(',') {
        twice.push(s.parse::<f64>().map_err(|_| format!("coordinate {s}"))?);
    }
    if twice.len() != 3 || !close(twice[0]) || twice[1] != 0.0 || !close(-twice[2]) {
        return Err(format!("coordinates read back as {twice:?} instead of [{x:e}, 0, {:e}]", -x));
    }
    // typed values
    for v in [IfcValue::from_real(x)].into_iter().flatten() {
        let t = format!("IFCPROPERTYSINGLEVALUE('a',$,{v},$);");
        let b = map(&format!("DATA;#1={t}ENDSEC;"))?;
        eq("kind", &kind(&b, 1), "PropertySingleValue")?;
    }
    Ok(())
}

trait FromReal: Sized {
    fn from_real(x: f64) -> Option<Self>;
}
impl FromReal for IfcValue {
    fn from_real(x: f64) -> Option<Self> {
        let t = format!("IFCREAL({x}{})", if x.fract() == 0.0 { "." } else { "" });
        let v = IfcValue::parse().parse(t.as_str()).ok();
        v
    }
}

fn int_case(i: i64) -> Result<(), String> {
    let t = format!("IFCDERIVEDUNITELEMENT(#1,{i});");
    object("DerivedUnitElement", &t)
}

pub fn c07(r: &mut Report, g: &mut Rng) {
    let mut go = |r: &mut Report, x: f64| {
        if x.is_finite() {
            r.case("real", &format!("{:016x}", x.to_bits()), || real_case(x))
        }
    };
    for x in [0.0, -0.0, 1.0, 0.1, 0.5, 1e-5, 1e5, 1e15, 1e16, 1e21, 1e22, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1.0 / 3.0, 0.0174532925199433, 1e-10, 1e-11, 123456789.123456789, 0.12345678901, 0.1234567890, 9007199254740993.0, std::f64::consts::PI, 1e-300, 4503599627370496.5, 0.30000000000000004, 99999999999999.99, 0.99999999999999989] {
        go(r, x);
        go(r, -x);
    }
    for e in -60..60 {
        for m in [1.0, 1.5, 1.1, 9.99, 1.23456789, 1.2345678901234] {
            go(r, m * 10f64.powi(e));
            go(r, -m * 2f64.powi(e));
        }
    }
    for _ in 0..if r.deep { 400000 } else { 20000 } {
        let x = match g.below(4) {
            0 => f64::from_bits(g.next()),
            1 => (g.next() % 100000000) as f64 / 10f64.powi(g.below(12) as i32),
            2 => g.next() as i64 as f64 / 2f64.powi(g.below(64) as i32),
            _ => (g.next() as f64 / u64::MAX as f64 - 0.5) * 10f64.powi(g.below(30) as i32 - 15),
        };
        go(r, x);
    }
    let int = |r: &mut Report, i: i64| r.case("integer", &i.to_string(), || int_case(i));
    for i in [0, 1, -1, 9, 10, i32::MAX as i64, i32::MIN as i64] {
        int(r, i);
    }
    for _ in 0..2000 {
        int(r, g.next() as i32 as i64);
    }
    for s in ["IFCLABEL('1.5')", "IFCREAL(1.5)", "IFCREAL(-0.25)", "IFCREAL(3.)", "IFCTHERMALTRANSMITTANCEMEASURE(0.24)", "IFCTHERMALTRANSMITTANCEMEASURE(2.)"] {
        r.case("value", s, || value_case(s));
    }
}

pub fn value_case(s: &str) -> Result<(), String> {
    object("PropertySingleValue", &format!("IFCPROPERTYSINGLEVALUE('a',$,{s},$);"))
}

pub fn one_real(s: &str) -> Result<(), String> {
    real_case(f64::from_bits(u64::from_str_radix(s, 16).unwrap()))
}

// ------------------------------------------------------------------ enumerations
pub struct Tok {
    name: &'static str,
    token: &'static str,
    print: Box<dyn Fn() -> String>,
    is: Box<dyn Fn(&str) -> Option<bool>>,
}

macro_rules! tok {
    ($v:ident, $t:ident::$x:ident, $s:expr) => {
        $v.push(Tok {
            name: concat!(stringify!($t), "::", stringify!($x)),
            token: $s,
            print: Box::new(|| $t::$x.to_string()),
            is: Box::new(|s| <$t as ifc_rs::parser::IFCParse>::parse().parse(s).ok().map(|y| matches!(y, $t::$x))),
        })
    };
}
#[cfg(feature = "enums")]
#[path = "enums.rs"]
mod enums;
#[cfg(not(feature = "enums"))]
mod enums {
    pub fn all() -> Vec<super::Tok> {
        vec![]
    }
}

pub fn c08(r: &mut Report, _g: &mut Rng) {
    let all = enums::all();
    for t in &all {
        r.case("enumeration", &format!("{} {}", t.name, t.token), || {
            eq("printed token", &(t.print)(), t.token)?;
            match (t.is)(t.token) {
                Some(true) => Ok(()),
                Some(false) => Err(format!("{} is read as another value", t.token)),
                None => Err(format!("{} isn't accepted", t.token)),
            }?;
            // no other token of the enumeration means this value, and unknown ones are rejected
            let ty = t.name.split("::").next().unwrap();
            for o in &all {
                if o.name.split("::").next().unwrap() == ty && o.name != t.name && (t.is)(o.token) != Some(false) {
                    return Err(format!("{} is read as {}", o.token, t.name));
                }
            }
            for o in [t.token.to_lowercase(), t.token.trim_matches('.').to_string(), format!("{}X", t.token), t.token.replacen('.', ".X", 1), t.token[..t.token.len() - 1].to_string()] {
                if o != t.token && !all.iter().any(|a| a.token == o) && (t.is)(&o).is_some() {
                    return Err(format!("{o} is accepted"));
                }
            }
            Ok(())
        });
    }
    // every enumeration value at every attribute
    for (n, t) in gen::entities() {
        for v in enum_variants(t) {
            r.case(n, &v, || object(n, &v));
        }
    }
}

fn is_tok(n: &serde_json::Value) -> bool {
    n.get("alt").map(|a| a.as_array().unwrap().iter().all(|x| x.get("lit").is_some())).unwrap_or(false)
}

/// texts with each token at each enumeration attribute
fn enum_variants(n: &serde_json::Value) -> Vec<String> {
    if is_tok(n) {
        return gen::variants(n);
    }
    if let Some(s) = n.get("seq") {
        let s = s.as_array().unwrap();
        let p: Vec<String> = s.iter().map(gen::plain).collect();
        return s.iter().enumerate().flat_map(|(i, c)| enum_variants(c).into_iter().map(|v| format!("{}{v}{}", p[..i].concat(), p[i + 1..].concat())).collect::<Vec<_>>()).collect();
    }
    if let Some(s) = n.get("alt") {
        return s.as_array().unwrap().iter().flat_map(enum_variants).collect();
    }
    n.get("list").map(enum_variants).unwrap_or_default()
}
