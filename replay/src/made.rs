//! Constructors and setters against what their arguments ask for, attribute by attribute.
use crate::util::*;
use ifc_rs::parser::IFCParse;
use ifc_rs::prelude::*;
use std::collections::BTreeMap;

/// what the text of an attribute is to be
pub enum W {
    Keep,
    Is(String),
    /// a new object with this text
    New(String),
    /// the list as it was and this at its end
    Push(Box<W>),
    List(Vec<W>),
    Same(usize),
    Given,
    Any,
}

pub fn model() -> IFC {
    crate::text::map("DATA;\n#1= IFCACTORROLE(.ARCHITECT.,$,$);\n#5= IFCCARTESIANPOINT((1.,2.,3.));\nENDSEC;\n").unwrap()
}

fn objects(ifc: &IFC) -> BTreeMap<usize, String> {
    ifc.data
        .to_string()
        .lines()
        .filter_map(|l| {
            let (n, t) = l.strip_prefix('#')?.split_once('=')?;
            Some((n.trim().parse().ok()?, t.trim().to_string()))
        })
        .collect()
}

fn read<T: IFCParse>(t: &str) -> T {
    T::parse().parse(t).unwrap_or_else(|e| panic!("not accepted: {t}, stopped at byte {}", e.offset()))
}

/// an object and its text
pub fn object<T: IFCParse>(name: &str, g: &mut Rng) -> (T, String) {
    for n in 0.. {
        let t = crate::gen::random(&crate::gen::schema()["entities"][name], g);
        // a list which is inherited can't be added to
        if n > 3000 || !t.contains('*') && !t.contains('\\') {
            return (read(&t), t);
        }
    }
    unreachable!()
}

pub fn entity<T: IFCParse>(name: &str, g: &mut Rng) -> (T, W) {
    let (x, t) = object(name, g);
    (x, W::New(t))
}

pub fn idor<T: IFCParse + IfcType>(name: &str, g: &mut Rng) -> (IdOr<T>, W) {
    if g.chance(40) {
        let (i, w) = id(g);
        (IdOr::Id(TypedId::new(i)), w)
    } else {
        let (x, w) = entity(name, g);
        (IdOr::Custom(x), w)
    }
}

pub fn text(g: &mut Rng) -> (&'static str, W) {
    let t = *g.pick(&["abc", "A b", "", "x,(y)", "#7", "$", "10.5"]);
    (t, W::Is(format!("'{t}'")))
}

pub fn real(g: &mut Rng) -> (f64, W) {
    let (x, t) = *g.pick(&[(2.5, "2.5"), (0.0, "0."), (-3.25, "-3.25"), (1.0, "1."), (0.125, "0.125"), (1000.0, "1000.")]);
    (x, W::Is(t.to_string()))
}

pub fn int(g: &mut Rng) -> (i64, W) {
    let x = *g.pick(&[0, 3, -7, 42, 100]);
    (x, W::Is(x.to_string()))
}

pub fn yes(g: &mut Rng) -> (bool, W) {
    let x = g.chance(50);
    (x, W::Is(if x { ".TRUE." } else { ".FALSE." }.to_string()))
}

pub fn id(g: &mut Rng) -> (Id, W) {
    let x = *g.pick(&[1, 5, 12, 345]);
    (Id(x), W::Is(format!("#{x}")))
}

pub fn typed<T: IfcType>(g: &mut Rng) -> (TypedId<T>, W) {
    let (i, w) = id(g);
    (TypedId::new(i), w)
}

/// a value given by its text
pub fn value<T: IFCParse>(pool: &[&str], g: &mut Rng) -> (T, W) {
    let t = *g.pick(pool);
    (read(t), W::Is(t.to_string()))
}

pub fn option<T>(f: impl FnOnce(&mut Rng) -> (T, W), g: &mut Rng) -> (Option<T>, W) {
    if g.chance(40) {
        (None, W::Is("$".to_string()))
    } else {
        let (x, w) = f(g);
        (Some(x), w)
    }
}

pub fn list<T>(f: impl Fn(&mut Rng) -> (T, W), g: &mut Rng) -> (Vec<T>, W) {
    let n = 1 + g.below(4);
    let (a, b) = (0..n).map(|_| f(g)).unzip();
    (a, W::List(b))
}

pub fn coords2(g: &mut Rng) -> (Vec<bevy_math::DVec2>, W) {
    let n = 1 + g.below(5);
    let p: Vec<[(f64, &str); 2]> = (0..n).map(|_| [0, 1].map(|_| *g.pick(&[(2.5, "2.5"), (0.0, "0."), (-3.25, "-3.25"), (1.0, "1.")]))).collect();
    (p.iter().map(|[x, y]| bevy_math::DVec2::new(x.0, y.0)).collect(), W::Is(format!("({})", p.iter().map(|[x, y]| format!("({},{})", x.1, y.1)).collect::<Vec<_>>().join(","))))
}

pub fn coords3(g: &mut Rng) -> (Vec<bevy_math::DVec3>, W) {
    let n = 1 + g.below(5);
    let p: Vec<[(f64, &str); 3]> = (0..n).map(|_| [0, 1, 2].map(|_| *g.pick(&[(2.5, "2.5"), (0.0, "0."), (-3.25, "-3.25"), (1.0, "1.")]))).collect();
    (
        p.iter().map(|[x, y, z]| bevy_math::DVec3::new(x.0, y.0, z.0)).collect(),
        W::Is(format!("({})", p.iter().map(|[x, y, z]| format!("({},{},{})", x.1, y.1, z.1)).collect::<Vec<_>>().join(","))),
    )
}

struct Check<'a> {
    was: BTreeMap<usize, String>,
    now: BTreeMap<usize, String>,
    used: Vec<usize>,
    got: Vec<&'a str>,
}

impl Check<'_> {
    fn attribute(&mut self, name: &str, want: &W, got: &str, before: Option<&str>) -> Result<(), String> {
        match want {
            W::Keep => eq(&format!("attribute {name}, which was to stay,"), got, before.unwrap()),
            W::Is(t) => eq(&format!("attribute {name}"), got, t),
            W::New(t) => {
                let n: usize = got.strip_prefix('#').and_then(|n| n.parse().ok()).ok_or(format!("attribute {name} is {got}, expected a reference"))?;
                if self.was.contains_key(&n) || self.used.contains(&n) {
                    return Err(format!("attribute {name} is {got}, expected the number of a new object"));
                }
                self.used.push(n);
                eq(&format!("object which attribute {name} refers to"), self.now.get(&n).map_or("none", |s| s), t)
            }
            W::Push(w) => {
                let old = before.map_or("()", |b| if b == "$" { "()" } else { b });
                let (head, body) = (old.strip_suffix(')').unwrap_or(old), got.strip_suffix(')').unwrap_or(got));
                let sep = if head == "(" { "" } else { "," };
                let at = head.len() + sep.len();
                if !body.starts_with(&format!("{head}{sep}")) {
                    return Err(format!("attribute {name}: {got}, expected {old} with one more at its end"));
                }
                self.attribute(name, w, &body[at..], None)
            }
            W::List(l) => {
                let parts = crate::text::arguments(got);
                if parts.len() != l.len() {
                    return Err(format!("attribute {name}: {got}, expected {} members", l.len()));
                }
                l.iter().zip(parts).try_for_each(|(w, p)| self.attribute(name, w, p, None))
            }
            W::Same(i) => eq(&format!("attribute {name}"), got, self.got[*i]),
            W::Given => if got == "$" || got == "*" { Err(format!("attribute {name} isn't set")) } else { Ok(()) },
            W::Any => Ok(()),
        }
    }
}

/// the result against the attributes it is to have; the objects which the model had stay as they were
pub fn verify(before: Option<&str>, after: &str, want: Vec<(&str, W)>, ifc: Option<(&IFC, &IFC)>) -> Result<(), String> {
    let was = ifc.map(|i| objects(i.0)).unwrap_or_default();
    let now = ifc.map(|i| objects(i.1)).unwrap_or_default();
    let got = crate::text::arguments(after);
    let old = before.map(crate::text::arguments);
    if got.len() != want.len() {
        return Err(format!("{after} has {} attributes, expected {}", got.len(), want.len()));
    }
    let mut c = Check { was, now, used: vec![], got: got.clone() };
    for (i, (name, w)) in want.iter().enumerate() {
        c.attribute(name, w, got[i], old.as_ref().map(|o| o[i])).map_err(|e| format!("{e} in {after}"))?;
    }
    for (n, t) in &c.was {
        eq(&format!("object #{n} of the model"), c.now.get(n).map_or("none", |s| s), t)?;
    }
    if c.now.len() != c.was.len() + c.used.len() {
        return Err(format!("{} objects more in the model, expected {}", c.now.len() - c.was.len(), c.used.len()));
    }
    Ok(())
}

fn run(name: &str, seed: u64) -> Result<(), String> {
    let f = crate::setters::rows().into_iter().find(|r| r.0 == name).ok_or("no such function")?.1;
    f(&mut Rng(seed))
}

pub fn c16(r: &mut Report, g: &mut Rng) {
    if let Some((k, input)) = r.only.clone() {
        if let Some((name, seed)) = input.split_once(' ') {
            return r.case(&k, &input, || run(name, seed.parse().unwrap()));
        }
    }
    let n = if r.deep { 400 } else { 40 };
    for (name, _) in crate::setters::rows() {
        for _ in 0..n {
            let seed = g.next();
            r.case("call", &format!("{name} {seed}"), || run(name, seed));
        }
    }
}
