//! C13: queries of the extractor on random models, against the relations as they were drawn.
use crate::text::map;
use crate::util::*;
use ifc_rs::prelude::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// one object of the drawn model: kind and the numbers it refers to (a list and single ones)
#[derive(Clone)]
struct O {
    k: String,
    many: Vec<usize>,
    one: usize,
}
type Model = BTreeMap<usize, O>;

const KINDS: &[&str] = &["Project", "Site", "Building", "Storey", "Space", "Wall", "Slab", "Roof", "Window", "Door"];

fn text(o: &O, seen: usize) -> String {
    let l = o.many.iter().map(|i| format!("#{i}")).collect::<Vec<_>>().join(",");
    let g = format!("'0DWgwt6o1FOx7466f{:05}'", seen % 100000);
    let g = g.as_str();
    let one = o.one;
    match o.k.as_str() {
        "Project" => format!("IFCPROJECT({g},$,$,$,$,$,$,(),$);"),
        "Site" => format!("IFCSITE({g},$,$,$,$,$,$,$,$,$,$,$,$,$);"),
        "Building" => format!("IFCBUILDING({g},$,$,$,$,$,$,$,$,$,$,$);"),
        "Storey" => format!("IFCBUILDINGSTOREY({g},$,$,$,$,$,$,$,$,$);"),
        "Space" => format!("IFCSPACE({g},$,$,$,$,$,$,$,$,$,$);"),
        "Wall" | "Slab" | "Roof" => format!("IFC{}({g},$,$,$,$,$,$,$,$);", o.k.to_uppercase()),
        "Window" | "Door" => format!("IFC{}({g},$,$,$,$,$,$,$,$,$,$,$,$);", o.k.to_uppercase()),
        "WallType" => format!("IFCWALLTYPE({g},$,$,$,$,$,$,$,$,.STANDARD.);"),
        "SlabType" => format!("IFCSLABTYPE({g},$,$,$,$,$,$,$,$,.FLOOR.);"),
        "RoofType" => format!("IFCROOFTYPE({g},$,$,$,$,$,$,$,$,.FLAT_ROOF.);"),
        "OpeningElement" => format!("IFCOPENINGELEMENT({g},$,$,$,$,$,$,$,$);"),
        "Material" => format!("IFCMATERIAL('{g}',$,$);").replace("''", "'"),
        "MaterialLayer" => format!("IFCMATERIALLAYER(#{one},0.{seen}5,.FALSE.,$,$,$,$);"),
        "MaterialConstituent" => format!("IFCMATERIALCONSTITUENT('c{seen}',$,#{one},$,$);"),
        "MaterialLayerSet" => format!("IFCMATERIALLAYERSET(({l}),$,$);"),
        "MaterialLayerSetUsage" => format!("IFCMATERIALLAYERSETUSAGE(#{one},.AXIS2.,.POSITIVE.,0.,$);"),
        "MaterialConstituentSet" => format!("IFCMATERIALCONSTITUENTSET($,$,({l}));"),
        "RelAggregates" => format!("IFCRELAGGREGATES({g},$,$,$,#{one},({l}));"),
        "RelContained" => format!("IFCRELCONTAINEDINSPATIALSTRUCTURE({g},$,$,$,({l}),#{one});"),
        "RelType" => format!("IFCRELDEFINESBYTYPE({g},$,$,$,({l}),#{one});"),
        "RelVoids" => format!("IFCRELVOIDSELEMENT({g},$,$,$,#{},#{one});", o.many[0]),
        "RelMaterial" => format!("IFCRELASSOCIATESMATERIAL({g},$,$,$,({l}),#{one});"),
        x => panic!("{x}"),
    }
}

/// the drawn model as input text: "number kind one many..." per object
fn encode(m: &Model) -> String {
    m.iter().map(|(i, o)| format!("{i} {} {}{}", o.k, o.one, o.many.iter().map(|x| format!(" {x}")).collect::<String>())).collect::<Vec<_>>().join(";")
}

fn decode(s: &str) -> Model {
    s.split(';')
        .filter(|x| !x.is_empty())
        .map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            (w[0].parse().unwrap(), O { k: w[1].into(), one: w[2].parse().unwrap(), many: w[3..].iter().map(|x| x.parse().unwrap()).collect() })
        })
        .collect()
}

fn same(what: String, got: Option<Vec<String>>, want: Vec<String>) -> Result<(), String> {
    match got {
        None => Err(format!("{what}: panicked, expected {want:?}")),
        Some(g) if g != want => Err(format!("{what}: got {g:?}, expected {want:?}")),
        _ => Ok(()),
    }
}

fn of_kind<T: IfcType>(x: &IfcExtractor, m: &Model, i: usize, o: &O, name: &str) -> Result<(), String> {
    let txt = |j: &usize| text(&m[j], *j);
    let want: Vec<String> = m
        .values()
        .filter(|r| r.k == "RelAggregates" && r.one == i)
        .flat_map(|r| r.many.clone())
        .filter(|j| m[j].k == name)
        .map(|j| format!("#{j}= {}", txt(&j)))
        .collect();
    macro_rules! go {
        ($t:ty) => {
            catch_unwind(AssertUnwindSafe(|| x.relations_of::<$t, T>(TypedId::new(Id(i))).map(|(j, v)| format!("{}= {v}", j.id())).collect::<Vec<_>>())).ok()
        };
    }
    let got = match o.k.as_str() {
        "Project" => go!(Project),
        "Site" => go!(Site),
        "Building" => go!(Building),
        _ => go!(Storey),
    };
    same(format!("{name} related to #{i}"), got, want)
}

pub fn queries(input: &str) -> Result<(), String> {
    let m = decode(input);
    let body: String = m.iter().map(|(i, o)| format!("#{i}= {}\n", text(o, *i))).collect();
    let ifc = map(&format!("DATA;\n{body}ENDSEC;\n"))?;
    let x = IfcExtractor::from(ifc);
    let txt = |j: &usize| text(&m[j], *j);
    let projects = m.iter().filter(|(_, o)| o.k == "Project").map(|(i, o)| format!("#{i}= {}", text(o, *i))).collect();
    same("projects".into(), catch_unwind(AssertUnwindSafe(|| x.projects().map(|(i, p)| format!("{}= {p}", i.id())).collect())).ok(), projects)?;
    for (&i, o) in &m {
        if ["Project", "Site", "Building", "Storey"].contains(&o.k.as_str()) {
            of_kind::<Site>(&x, &m, i, o, "Site")?;
            of_kind::<Building>(&x, &m, i, o, "Building")?;
            of_kind::<Storey>(&x, &m, i, o, "Storey")?;
            of_kind::<Space>(&x, &m, i, o, "Space")?;
        }
        let inside: Vec<String> = m.values().filter(|r| r.k == "RelContained" && r.one == i).flat_map(|r| r.many.clone()).map(|j| format!("#{j}")).collect();
        let voids: Vec<String> = m.values().filter(|r| r.k == "RelVoids" && r.many[0] == i).map(|r| txt(&r.one)).collect();
        let assoc: Vec<&O> = m.values().filter(|r| r.k == "RelMaterial" && r.many.contains(&i)).map(|r| &m[&r.one]).collect();
        let layers: Vec<String> = assoc.iter().filter(|a| a.k == "MaterialLayerSetUsage").flat_map(|a| m[&a.one].many.iter().map(txt)).collect();
        let parts: Vec<String> = assoc.iter().filter(|a| a.k == "MaterialConstituentSet").flat_map(|a| a.many.iter().map(txt)).collect();
        let ty = m.values().find(|r| r.k == "RelType" && r.many.contains(&i)).map(|r| r.one);
        macro_rules! go {
            ($t:ty) => {{
                same(format!("contained in #{i}"), catch_unwind(AssertUnwindSafe(|| x.contained_structures(TypedId::<$t>::new(Id(i))).map(|j| j.to_string()).collect())).ok(), inside)?;
                same(format!("openings of #{i}"), catch_unwind(AssertUnwindSafe(|| x.related_voids(TypedId::<$t>::new(Id(i))).map(|j| j.to_string()).collect())).ok(), voids)?;
                same(format!("layers of #{i}"), catch_unwind(AssertUnwindSafe(|| x.related_materials(TypedId::<$t>::new(Id(i))).map(|j| j.to_string()).collect())).ok(), layers)?;
                same(format!("constituents of #{i}"), catch_unwind(AssertUnwindSafe(|| x.related_constiuents(TypedId::<$t>::new(Id(i))).map(|j| j.to_string()).collect())).ok(), parts)?;
            }};
        }
        macro_rules! typed {
            ($t:ty, $r:ty, $k:literal) => {{
                let got = catch_unwind(AssertUnwindSafe(|| <IfcExtractor as TypeRelation<$t, $r>>::related_type(&x, TypedId::new(Id(i))).to_string())).ok();
                let want = ty.filter(|j| m[j].k == $k).map(|j| txt(&j));
                eq(&format!("type of #{i}"), &format!("{got:?}"), &format!("{want:?}"))?;
            }};
        }
        match o.k.as_str() {
            "Wall" => {
                go!(Wall);
                typed!(Wall, WallType, "WallType");
            }
            "Slab" => {
                go!(Slab);
                typed!(Slab, SlabType, "SlabType");
            }
            "Roof" => {
                go!(Roof);
                typed!(Roof, RoofType, "RoofType");
            }
            "Window" => go!(Window),
            "Storey" => go!(Storey),
            "Building" => go!(Building),
            "Site" => go!(Site),
            "Space" => go!(Space),
            "OpeningElement" => go!(OpeningElement),
            _ => {}
        }
    }
    Ok(())
}

pub fn c13(r: &mut Report, g: &mut Rng) {
    let n = if r.deep { 6000 } else { 800 };
    for _ in 0..n {
        let mut m = Model::new();
        let mut used: Vec<usize> = vec![];
        let mut num = |g: &mut Rng| loop {
            let top = if g.chance(20) { 1000 } else { 90 };
            let k = 1 + g.below(top);
            if !used.contains(&k) {
                used.push(k);
                return k;
            }
        };
        let by = |m: &Model, ks: &[&str]| m.iter().filter(|(_, o)| ks.contains(&o.k.as_str())).map(|(i, _)| *i).collect::<Vec<_>>();
        let put = |m: &mut Model, i: usize, k: &str, one: usize, many: Vec<usize>| {
            m.insert(i, O { k: k.into(), one, many });
        };
        for _ in 0..3 + g.below(14) {
            let k = *g.pick(KINDS);
            let i = num(g);
            put(&mut m, i, k, 0, vec![]);
        }
        for k in ["Project", "Site", "Building", "Storey", "Wall", "Slab", "WallType", "WallType", "SlabType", "RoofType", "OpeningElement", "OpeningElement", "Material"] {
            if g.chance(75) {
                let i = num(g);
                put(&mut m, i, k, 0, vec![]);
            }
        }
        let few = |g: &mut Rng, v: &[usize], max: usize| -> Vec<usize> {
            if v.is_empty() {
                return vec![];
            }
            (0..g.below(max + 1)).map(|_| *g.pick(v)).collect()
        };
        // materials: layers, sets, usages and constituents
        let mats = by(&m, &["Material"]);
        if !mats.is_empty() {
            for (k, n) in [("MaterialLayer", 4), ("MaterialConstituent", 3)] {
                for _ in 0..g.below(n + 1) {
                    let i = num(g);
                    put(&mut m, i, k, mats[0], vec![]);
                }
            }
        }
        for _ in 0..g.below(3) {
            let i = num(g);
            let l = few(g, &by(&m, &["MaterialLayer"]), 4);
            put(&mut m, i, "MaterialLayerSet", 0, l);
        }
        for _ in 0..g.below(3) {
            let sets = by(&m, &["MaterialLayerSet"]);
            if !sets.is_empty() {
                let i = num(g);
                let s = *g.pick(&sets);
                put(&mut m, i, "MaterialLayerSetUsage", s, vec![]);
            }
        }
        for _ in 0..g.below(3) {
            let i = num(g);
            let l = few(g, &by(&m, &["MaterialConstituent"]), 4);
            put(&mut m, i, "MaterialConstituentSet", 0, l);
        }
        // relations
        let top = by(&m, &["Project", "Site", "Building", "Storey"]);
        let below = by(&m, &["Site", "Building", "Storey", "Space"]);
        let things = by(&m, &["Wall", "Slab", "Roof", "Window", "Door", "Storey", "Building", "Site", "OpeningElement", "Space"]);
        let types = by(&m, &["WallType", "SlabType", "RoofType"]);
        let holes = by(&m, &["OpeningElement"]);
        let mat = by(&m, &["Material", "MaterialLayerSet", "MaterialLayerSetUsage", "MaterialConstituentSet", "MaterialLayerSetUsage", "MaterialConstituentSet"]);
        for _ in 0..4 + g.below(16) {
            let i = num(g);
            match g.below(5) {
                0 if !top.is_empty() => {
                    let l = few(g, &below, 4);
                    put(&mut m, i, "RelAggregates", *g.pick(&top), l)
                }
                1 if !things.is_empty() => {
                    let l = few(g, &things, 4);
                    put(&mut m, i, "RelContained", *g.pick(&things), l)
                }
                2 if !types.is_empty() => {
                    let l = few(g, &things, 3);
                    put(&mut m, i, "RelType", *g.pick(&types), l)
                }
                3 if !holes.is_empty() && !things.is_empty() => {
                    let t = *g.pick(&things);
                    put(&mut m, i, "RelVoids", *g.pick(&holes), vec![t])
                }
                4 if !mat.is_empty() => {
                    let l = few(g, &things, 3);
                    put(&mut m, i, "RelMaterial", *g.pick(&mat), l)
                }
                _ => {}
            }
        }
        let input = encode(&m);
        r.case("queries", &input, || queries(&input));
    }
}
