//! C11: histories of operations on the object store against a plain ordered map.
use crate::util::*;
use ifc_rs::prelude::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// kinds of objects of the histories: a material, an unsupported object, a layer set
type Model = BTreeMap<usize, (char, String)>;

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn want(model: &Model, id: usize, k: char) -> Option<String> {
    model.get(&id).filter(|o| o.0 == k).map(|o| o.1.clone())
}

fn all(model: &Model, k: char) -> Vec<(usize, String)> {
    model.iter().filter(|(_, o)| o.0 == k).map(|(i, o)| (*i, o.1.clone())).collect()
}

fn obj(k: char, s: &str) -> (Option<Material>, Option<Dummy>) {
    match k {
        'M' => (Some(Material::new(s.to_string())), None),
        _ => (None, Some(Dummy { s: format!("IFCX('{s}');") })),
    }
}

fn printed(k: char, s: &str) -> String {
    match obj(k, s) {
        (Some(m), _) => m.to_string(),
        (_, Some(d)) => d.to_string(),
        _ => unreachable!(),
    }
}

pub fn history(input: &str) -> Result<(), String> {
    let mut ifc = IFC::default();
    let d = &mut ifc.data;
    let mut model = Model::new();
    for op in input.split(';') {
        let w: Vec<&str> = op.split(' ').collect();
        let at = |i: usize| w[i].parse::<usize>().unwrap();
        let k = |i: usize| w[i].chars().next().unwrap();
        match w[0] {
            "from" => {
                let es = w[1..].chunks(3).map(|c| (Id(c[0].parse().unwrap()), c[1].chars().next().unwrap(), c[2]));
                let mut v: Vec<(Id, Box<dyn IfcType>)> = vec![];
                model.clear();
                for (id, kd, s) in es {
                    let o: Box<dyn IfcType> = match obj(kd, s) {
                        (Some(m), _) => Box::new(m),
                        (_, Some(d)) => Box::new(d),
                        _ => unreachable!(),
                    };
                    model.insert(id.0, (kd, o.to_string()));
                    v.push((id, o));
                }
                *d = v.into();
            }
            "new" => {
                let next = model.keys().max().map_or(Some(1), |m| m.checked_add(1));
                let got = caught(|| match obj(k(1), w[2]) {
                    (Some(m), _) => d.insert_new(m).id().0,
                    (_, Some(x)) => d.insert_new(x).id().0,
                    _ => unreachable!(),
                });
                if got != next {
                    return Err(format!("{op}: number {got:?}, expected {next:?}"));
                }
                if let Some(n) = next {
                    model.insert(n, (k(1), printed(k(1), w[2])));
                }
            }
            "ins" => {
                let old = match obj(k(2), w[3]) {
                    (Some(m), _) => d.insert(Id(at(1)), m),
                    (_, Some(x)) => d.insert(Id(at(1)), x),
                    _ => unreachable!(),
                };
                let o = model.insert(at(1), (k(2), printed(k(2), w[3])));
                eq(op, &format!("{:?}", old.map(|x| x.to_string())), &format!("{:?}", o.map(|x| x.1)))?;
            }
            "one" => {
                d.insert_if_not_exists::<MaterialLayerSet>(Id(at(1)));
                model.entry(at(1)).or_insert(('L', MaterialLayerSet::default().to_string()));
            }
            "rm" => {
                let old = d.remove(Id(at(1)));
                let o = model.remove(&at(1));
                eq(op, &format!("{:?}", old.map(|x| x.to_string())), &format!("{:?}", o.map(|x| x.1)))?;
            }
            "get" => {
                let i = at(1);
                let un = caught(|| d.get_untyped(Id(i)).to_string());
                eq(op, &format!("{un:?}"), &format!("{:?}", model.get(&i).map(|o| o.1.clone())))?;
                let m = caught(|| d.get(TypedId::<Material>::new(Id(i))).to_string());
                eq(op, &format!("{m:?}"), &format!("{:?}", want(&model, i, 'M')))?;
                let x = caught(|| d.get(TypedId::<Dummy>::new(Id(i))).to_string());
                eq(op, &format!("{x:?}"), &format!("{:?}", want(&model, i, 'D')))?;
                let l = caught(|| d.get(TypedId::<MaterialLayerSet>::new(Id(i))).to_string());
                eq(op, &format!("{l:?}"), &format!("{:?}", want(&model, i, 'L')))?;
            }
            "mut" => {
                let i = at(1);
                let done = caught(|| {
                    d.get_mut(TypedId::<Material>::new(Id(i))).category = Material::new(w[2].to_string()).material;
                });
                if done.is_some() != want(&model, i, 'M').is_some() {
                    return Err(format!("{op}: {}", if done.is_some() { "changed an object of another kind" } else { "refused" }));
                }
                if let Some(o) = model.get_mut(&i).filter(|o| o.0 == 'M') {
                    let cut = o.1.rfind(',').unwrap();
                    o.1 = format!("{},'{}');", &o.1[..cut], w[2]);
                }
            }
            x => panic!("{x}"),
        }
        // what can be observed of the whole store
        for i in (0..8).chain([9, 20, usize::MAX]).chain(model.keys().copied().collect::<Vec<_>>()) {
            if d.contains(&Id(i)) != model.contains_key(&i) {
                return Err(format!("after {op}: contains #{i} is {}", d.contains(&Id(i))));
            }
            let t = d.try_get_untyped(Id(i)).ok().map(|o| o.to_string());
            eq(&format!("after {op}: object #{i}"), &format!("{t:?}"), &format!("{:?}", model.get(&i).map(|o| o.1.clone())))?;
        }
        let f = |v: Vec<(usize, String)>| format!("{v:?}");
        eq(&format!("after {op}: materials"), &f(d.find_all_of_type::<Material>().map(|(i, o)| (i.id().0, o.to_string())).collect()), &f(all(&model, 'M')))?;
        eq(&format!("after {op}: opaque objects"), &f(d.find_all_of_type::<Dummy>().map(|(i, o)| (i.id().0, o.to_string())).collect()), &f(all(&model, 'D')))?;
        eq(&format!("after {op}: layer sets"), &f(d.find_all_of_type::<MaterialLayerSet>().map(|(i, o)| (i.id().0, o.to_string())).collect()), &f(all(&model, 'L')))?;
        let ids = |v: Vec<usize>| format!("{v:?}");
        eq(&format!("after {op}: numbers of materials"), &ids(d.id_of::<Material>().map(|i| i.id().0).collect()), &ids(all(&model, 'M').into_iter().map(|x| x.0).collect()))?;
        eq(&format!("after {op}: numbers of opaque objects"), &ids(d.id_of::<Dummy>().map(|i| i.id().0).collect()), &ids(all(&model, 'D').into_iter().map(|x| x.0).collect()))?;
    }
    Ok(())
}

pub fn c11(r: &mut Report, g: &mut Rng) {
    let n = if r.deep { 20000 } else { 3000 };
    for c in 0..n {
        let max = 1 + g.below(25);
        let mut ops = vec![];
        let num = |g: &mut Rng| match g.below(12) {
            0 => 0,
            1 => usize::MAX - g.below(2),
            2 => g.below(40),
            3 => 1 << g.below(64),
            _ => 1 + g.below(7),
        };
        let name = |g: &mut Rng| format!("{}", g.pick(&["a", "b", "cc", "d_d", "é", "f0"]));
        for _ in 0..max {
            let k = *g.pick(&['M', 'M', 'D']);
            ops.push(match g.below(if c % 4 == 0 { 20 } else { 17 }) {
                0..=4 => format!("new {k} {}", name(g)),
                5..=8 => format!("ins {} {k} {}", num(g), name(g)),
                9 | 10 => format!("one {}", num(g)),
                11 | 12 => format!("rm {}", num(g)),
                13 | 14 => format!("get {}", num(g)),
                15 | 16 => format!("mut {} {}", num(g), name(g)),
                _ => {
                    let k = g.below(6);
                    let mut s = String::from("from");
                    for _ in 0..k {
                        s += &format!(" {} {} {}", num(g), g.pick(&['M', 'D']), name(g));
                    }
                    s
                }
            });
        }
        let input = ops.join(";");
        r.case("history", &input, || history(&input));
    }
}
