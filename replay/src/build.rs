//! C12 and C14: histories of builder calls; the printed model is read back with a reader of its own.
use crate::util::*;
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

/// what a call asked for
#[derive(Clone, Default, Debug)]
struct Asked {
    kw: &'static str,
    name: String,
    /// the object whose placement this one is relative to
    host: Option<String>,
    at: Option<[f64; 3]>,
    /// decomposed by / contained in
    part_of: Option<String>,
    inside: Option<String>,
    of_type: Option<String>,
    /// number of the associated material in the file
    material: Option<usize>,
    voids: Option<String>,
    fills: Option<String>,
    depth: Option<f64>,
    profile: Option<(f64, f64)>,
    points: Option<Vec<Vec<f64>>>,
    /// the way the body is extruded
    dir: Option<[f64; 3]>,
    moved: bool,
    props: Vec<(String, Vec<String>)>,
}

struct Plan {
    asked: Vec<Asked>,
    /// objects that stand alone: keyword, name, attributes
    n: usize,
    layers: Vec<(usize, Vec<f64>)>,
    loose: Vec<(&'static str, usize, Vec<String>)>,
}

impl Plan {
    fn name(&mut self, k: &str) -> String {
        self.n += 1;
        format!("{k}{}", self.n)
    }
}

fn num(g: &mut Rng) -> f64 {
    (g.below(400) as f64 - 200.0) / 8.0
}

fn size(g: &mut Rng) -> f64 {
    (1 + g.below(80)) as f64 / 8.0
}

fn vec3(g: &mut Rng) -> DVec3 {
    DVec3::new(num(g), num(g), num(g))
}

/// a direction, of any length
fn way(g: &mut Rng) -> DVec3 {
    // along an axis
    if g.chance(25) {
        return [DVec3::X, DVec3::Y, DVec3::Z, -DVec3::X, -DVec3::Y][g.below(5)];
    }
    loop {
        let v = vec3(g);
        if v.x != 0.0 || v.y != 0.0 {
            return v;
        }
    }
}

fn unit(v: DVec3) -> Option<[f64; 3]> {
    let l = (v.x * v.x + v.y * v.y + v.z * v.z).sqrt();
    Some([v.x / l, v.y / l, v.z / l])
}

fn arr(v: DVec3) -> Option<[f64; 3]> {
    Some([v.x, v.y, v.z])
}

fn flat(g: &mut Rng) -> Vec<DVec2> {
    outline((0..3 + g.below(3)).map(|_| DVec2::new(num(g), num(g))).collect(), g)
}

fn solid(g: &mut Rng) -> Vec<DVec3> {
    outline((0..3 + g.below(3)).map(|_| vec3(g)).collect(), g)
}

/// some outlines repeat a point, are closed explicitly or have few points
fn outline<T: Copy>(mut v: Vec<T>, g: &mut Rng) -> Vec<T> {
    if g.chance(25) {
        v.push(v[0]);
    }
    if g.chance(15) {
        let i = g.below(v.len());
        v.insert(i, v[i]);
    }
    if g.chance(10) {
        v.truncate(g.below(3));
    }
    v
}

fn pts2(v: &[DVec2]) -> Option<Vec<Vec<f64>>> {
    Some(v.iter().map(|p| vec![p.x, p.y]).collect())
}

fn pts3(v: &[DVec3]) -> Option<Vec<Vec<f64>>> {
    Some(v.iter().map(|p| vec![p.x, p.y, p.z]).collect())
}

fn project() -> IfcProjectBuilder {
    IfcProjectBuilder::new(
        ApplicationInfo { developer: Organization::new(None, "Dev", None), version: "1", name: "App", short_name: "a" },
        OwnerInfo { owner: Person::empty().given_name("P"), organization_name: "Org" },
        "Project0",
    )
}

fn transform(g: &mut Rng) -> TransformParameter {
    TransformParameter::default().translation(vec3(g))
}

fn storey(b: &mut IfcStoreyBuilder<'_>, s: &str, g: &mut Rng, p: &mut Plan) {
    let mut layers = vec![];
    for _ in 0..1 + g.below(3) {
        let t = size(g);
        let n = p.name("Mat");
        let l = b.material_layer(&n, MaterialLayer::new(t, g.chance(50)).name(n.as_str()));
        p.loose.push(("IFCMATERIALLAYER", l.id().0, vec![n]));
        layers.push((l, t));
    }
    let mut usages = vec![];
    let mut sets = vec![];
    for _ in 0..1 + g.below(2) {
        let pick: Vec<_> = (0..g.below(4)).map(|_| *g.pick(&layers)).collect();
        let set = b.material_layer_set(pick.iter().map(|x| x.0));
        let u = b.material_layer_set_usage(set, LayerSetDirectionEnum::Axis2, DirectionSenseEnum::Positive, num(g));
        sets.push(set);
        usages.push((u, pick.iter().map(|x| x.1).sum::<f64>()));
    }
    let c = p.name("Con");
    let cm = p.name("Mat");
    let con = b.material_constituent(&cm, &c);
    let cset = b.material_constituent_set([con]);
    let mut wt = vec![];
    let mut slt = vec![];
    let mut rt = vec![];
    let mut wit = vec![];
    let mut spt = vec![];
    let mut sht = vec![];
    for _ in 0..1 + g.below(2) {
        let set = *g.pick(&sets);
        let mut ty = |p: &mut Plan, kw, n: &String, m: Option<TypedId<MaterialLayerSet>>| {
            p.asked.push(Asked { kw, name: n.clone(), material: m.map(|m| m.id().0), ..Default::default() })
        };
        let n = p.name("T");
        wt.push((b.wall_type(set, &n, WallTypeEnum::NotDefined), n.clone()));
        ty(p, "IFCWALLTYPE", &n, Some(set));
        if g.chance(60) {
            let n = p.name("T");
            slt.push((b.slab_type(set, &n, SlabTypeEnum::NotDefined), n.clone()));
            ty(p, "IFCSLABTYPE", &n, Some(set));
        }
        if g.chance(50) {
            let n = p.name("T");
            rt.push((b.roof_type(set, &n, RoofTypeEnum::NotDefined), n.clone()));
            ty(p, "IFCROOFTYPE", &n, Some(set));
        }
        let n = p.name("T");
        wit.push((b.window_type(&n, WindowTypeEnum::Window, WindowPartitioningTypeEnum::SinglePanel), n.clone()));
        ty(p, "IFCWINDOWTYPE", &n, None);
        if g.chance(50) {
            let n = p.name("T");
            spt.push((b.space_type(&n, SpaceTypeEnum::NotDefined), n.clone()));
            ty(p, "IFCSPACETYPE", &n, None);
        }
        if g.chance(40) {
            let n = p.name("T");
            sht.push((b.shading_device_type(set, &n, ShadingDeviceTypeEnum::NotDefined), n.clone()));
            ty(p, "IFCSHADINGDEVICETYPE", &n, Some(set));
        }
    }
    let mut sets_of_props = vec![];
    let mut done = vec![];
    for _ in 0..g.below(8) {
        let (u, th) = *g.pick(&usages);
        let place = vec3(g);
        let base = |kw, name: &String, ty: &String| Asked {
            kw,
            name: name.clone(),
            host: Some(s.to_string()),
            at: arr(place),
            inside: Some(s.to_string()),
            of_type: Some(ty.clone()),
            material: Some(u.id().0),
            ..Default::default()
        };
        match g.below(6) {
            0 | 1 => {
                let (t, tn) = g.pick(&wt).clone();
                let n = p.name("Wall");
                let mut a = base("IFCWALL", &n, &tn);
                let (h, l) = (size(g), size(g));
                let mut w = match g.below(3) {
                    0 => {
                        a.depth = Some(h);
                        a.profile = Some((l, th));
                        a.dir = Some([0.0, 0.0, 1.0]);
                        b.vertical_wall(u, t, &n, VerticalWallParameter { height: h, length: l, placement: place })
                    }
                    1 => {
                        let c = flat(g);
                        a.depth = Some(th);
                        a.points = Some(c.iter().map(|p| vec![p.x, 0.0, p.y]).collect());
                        a.dir = Some([0.0, 1.0, 0.0]);
                        b.vertical_arbitrary_wall(u, t, &n, VerticalArbitraryWallParameter { coords: c, placement: place })
                    }
                    _ => {
                        let c = solid(g);
                        a.depth = Some(th);
                        a.points = pts3(&c);
                        let d = way(g);
                        a.dir = unit(d);
                        b.arbitrary_wall(u, t, &n, ArbitraryWallParameter { coords: c, direction: d, placement: place })
                    }
                };
                let at = p.asked.len();
                p.asked.push(a);
                for _ in 0..g.below(3) {
                    let (h, l) = (size(g), size(g));
                    let pl = vec3(g);
                    let o = Asked { kw: "IFCOPENINGELEMENT", host: Some(n.clone()), at: arr(pl), voids: Some(n.clone()), depth: Some(h), profile: Some((l, th)), dir: Some([0.0, 0.0, 1.0]), ..Default::default() };
                    if g.chance(60) {
                        let wn = p.name("Win");
                        let (t, tn) = g.pick(&wit).clone();
                        let on = format!("OpeningElementOfWindow{wn}");
                        let d = way(g);
                        let _ = w.window_with_opening(cset, t, &wn, WindowParameter { height: h, width: l, placement: pl }, Direction3D::from(d));
                        p.asked.push(Asked { name: on.clone(), ..o });
                        p.asked.push(Asked { kw: "IFCWINDOW", name: wn, host: Some(on.clone()), at: Some([0.0; 3]), inside: Some(s.to_string()), of_type: Some(tn), material: Some(cset.id().0), fills: Some(on), depth: Some(h), profile: Some((l, th)), dir: unit(d), ..Default::default() });
                    } else if g.chance(40) {
                        let on = p.name("Open");
                        let d = way(g);
                        let _ = w.opening(&on, CustomDirectionOpeningParameter { height: h, length: l, placement: pl, direction: d });
                        p.asked.push(Asked { name: on, dir: unit(d), ..o });
                    } else {
                        let on = p.name("Open");
                        let _ = w.vertical_opening(&on, OpeningParameter { height: h, length: l, placement: pl });
                        p.asked.push(Asked { name: on, ..o });
                    }
                }
                if g.chance(30) {
                    let sn = p.name("Set");
                    let mut names = vec![];
                    {
                        let mut ps = w.add_properties(&sn);
                        for _ in 0..g.below(3) {
                            let pn = p.name("Prop");
                            let _ = ps.single_property(&pn, IfcValue::ThermalTransmittance(0.25.into()), None);
                            names.push(pn);
                        }
                    }
                    p.asked[at].props.push((sn, names));
                }
                if g.chance(40) {
                    w.transform(transform(g));
                    for a in p.asked[at..].iter_mut() {
                        a.moved = true;
                    }
                }
                if g.chance(50) {
                    let id = w.finish();
                    done.push((id, at));
                }
            }
            2 if !slt.is_empty() => {
                let (t, tn) = g.pick(&slt).clone();
                let n = p.name("Slab");
                let mut a = base("IFCSLAB", &n, &tn);
                a.depth = Some(th);
                let mut w = match g.below(3) {
                    0 => {
                        let c = flat(g);
                        a.points = pts2(&c);
                        a.dir = Some([0.0, 0.0, 1.0]);
                        b.horizontal_arbitrary_slab(u, t, &n, HorizontalArbitrarySlabParameter { coords: c, placement: place })
                    }
                    1 => {
                        let (x, y, h) = (DVec2::new(0.0, num(g)), DVec2::new(1.0, num(g)), size(g));
                        a.points = pts3(&[x.extend(h), x.extend(0.0), y.extend(0.0), y.extend(h)]);
                        a.dir = unit(DVec3::new(x.y - y.y, y.x - x.x, 0.0));
                        b.vertical_slab(u, t, &n, VerticalSlabParameter { start: x, end: y, height: h, placement: place })
                    }
                    _ => {
                        let c = solid(g);
                        a.points = pts3(&c);
                        let d = way(g);
                        a.dir = unit(d);
                        b.arbitrary_slab(u, t, &n, ArbitrarySlabParameter { coords: c, direction: d, placement: place })
                    }
                };
                let at = p.asked.len();
                let dir = a.dir;
                p.asked.push(a);
                for _ in 0..g.below(2) {
                    let on = p.name("Open");
                    let mut o = Asked { kw: "IFCOPENINGELEMENT", name: on.clone(), host: Some(n.clone()), at: Some([0.0; 3]), voids: Some(n.clone()), depth: Some(th), dir, ..Default::default() };
                    match g.below(3) {
                        0 => {
                            let (h, l) = (size(g), size(g));
                            let pl = vec3(g);
                            o.at = arr(pl);
                            o.profile = Some((l, h));
                            let _ = w.rect_opening(&on, OpeningParameter { height: h, length: l, placement: pl });
                        }
                        1 => {
                            let c = flat(g);
                            o.points = pts2(&c);
                            o.dir = Some([0.0, 0.0, 1.0]);
                            let _ = w.horizontal_arbitrary_opening(&on, HorizontalArbitraryOpeningParameter { coords: c });
                        }
                        _ => {
                            let c = solid(g);
                            o.points = pts3(&c);
                            let _ = w.arbitrary_opening(&on, ArbitraryOpeningParameter { coords: c });
                        }
                    }
                    p.asked.push(o);
                }
                for _ in 0..g.below(3) {
                    let wn = p.name("Win");
                    let (t, tn) = g.pick(&wit).clone();
                    let on = format!("OpeningElementOfWindow{wn}");
                    let mut o = Asked { kw: "IFCOPENINGELEMENT", name: on.clone(), host: Some(n.clone()), at: Some([0.0; 3]), voids: Some(n.clone()), depth: Some(th), dir, ..Default::default() };
                    let mut x = Asked { kw: "IFCWINDOW", name: wn.clone(), host: Some(on.clone()), at: Some([0.0; 3]), inside: Some(s.to_string()), of_type: Some(tn), material: Some(cset.id().0), fills: Some(on), depth: Some(th), dir, ..Default::default() };
                    match g.below(3) {
                        0 => {
                            let (h, l) = (size(g), size(g));
                            let pl = vec3(g);
                            o.at = arr(pl);
                            o.profile = Some((l, h));
                            x.profile = Some((l, h));
                            let _ = w.window_with_opening(cset, t, &wn, WindowParameter { height: h, width: l, placement: pl });
                        }
                        1 => {
                            let c = flat(g);
                            o.points = pts2(&c);
                            x.points = pts2(&c);
                            o.dir = Some([0.0, 0.0, 1.0]);
                            x.dir = o.dir;
                            let _ = w.horizontal_arbitrary_window_with_opening(cset, t, &wn, HorizontalArbitraryWindowParameter { coords: c });
                        }
                        _ => {
                            let c = solid(g);
                            o.points = pts3(&c);
                            x.points = pts3(&c);
                            let _ = w.arbitrary_window_with_opening(cset, t, &wn, ArbitraryWindowParameter { coords: c });
                        }
                    }
                    p.asked.push(o);
                    p.asked.push(x);
                }
                if g.chance(40) {
                    w.transform(transform(g));
                    for a in p.asked[at..].iter_mut() {
                        a.moved = true;
                    }
                }
            }
            3 if !rt.is_empty() => {
                let (t, tn) = g.pick(&rt).clone();
                let n = p.name("Roof");
                let c = flat(g);
                let a = Asked { depth: Some(th), points: pts2(&c), dir: Some([0.0, 0.0, 1.0]), ..base("IFCROOF", &n, &tn) };
                let _ = b.horizontal_arbitrary_roof(u, t, &n, HorizontalArbitraryRoofParameter { coords: c, placement: place });
                p.asked.push(a);
            }
            4 if !spt.is_empty() => {
                let (t, tn) = g.pick(&spt).clone();
                let n = p.name("Space");
                let c = flat(g);
                let h = size(g);
                let a = Asked { depth: Some(h), points: pts2(&c), dir: Some([0.0, 0.0, 1.0]), inside: None, part_of: Some(s.to_string()), material: None, ..base("IFCSPACE", &n, &tn) };
                let _ = b.space(t, &n, SpaceParameter { coords: c, height: h, placement: place });
                p.asked.push(a);
            }
            5 if !sht.is_empty() => {
                let (t, tn) = g.pick(&sht).clone();
                let n = p.name("Shade");
                let (h, l) = (size(g), size(g));
                let a = Asked { depth: Some(th), profile: Some((l, h)), dir: Some([0.0, 0.0, 1.0]), ..base("IFCSHADINGDEVICE", &n, &tn) };
                let _ = b.vertical_shading_device(u, t, &n, VerticalShadingDeviceParameter { height: h, length: l, placement: place });
                p.asked.push(a);
            }
            _ => {}
        }
    }
    if g.chance(40) {
        let sn = p.name("Set");
        let mut names = vec![];
        let id = {
            let mut ps = b.add_properties(&sn);
            for _ in 0..g.below(3) {
                let pn = p.name("Prop");
                let _ = ps.single_property(&pn, IfcValue::ThermalTransmittance(0.25.into()), None);
                names.push(pn);
            }
            ps.finish()
        };
        sets_of_props.push((id, sn, names));
    }
    for (id, at) in done {
        if !sets_of_props.is_empty() && g.chance(50) {
            let (ps, sn, names) = g.pick(&sets_of_props).clone();
            b.relate_properties_object(ps, id);
            p.asked[at].props.push((sn, names));
        }
        if g.chance(30) {
            b.transform(id, &transform(g));
            p.asked[at].moved = true;
        }
    }
    p.layers.extend(usages.iter().map(|(u, _)| (u.id().0, vec![])));
}

fn history(seed: u64) -> (String, Plan) {
    let mut g = Rng(seed);
    let g = &mut g;
    let mut p = Plan { asked: vec![], n: 0, layers: vec![], loose: vec![] };
    let mut b = project();
    for _ in 0..g.below(3) {
        let sn = p.name("Site");
        let v = vec3(g);
        let mut site = b.new_site(&sn, v);
        p.asked.push(Asked { kw: "IFCSITE", name: sn.clone(), at: arr(v), part_of: Some("Project0".into()), ..Default::default() });
        for _ in 0..g.below(3) {
            let bn = p.name("Building");
            let v = vec3(g);
            let mut building = site.new_building(&bn, v);
            p.asked.push(Asked { kw: "IFCBUILDING", name: bn.clone(), at: arr(v), host: Some(sn.clone()), part_of: Some(sn.clone()), ..Default::default() });
            for _ in 0..g.below(3) {
                let n = p.name("Storey");
                let e = num(g);
                let mut st = building.new_storey(&n, e);
                p.asked.push(Asked { kw: "IFCBUILDINGSTOREY", name: n.clone(), at: Some([0.0, 0.0, e]), host: Some(bn.clone()), part_of: Some(bn.clone()), ..Default::default() });
                storey(&mut st, &n, g, &mut p);
            }
        }
    }
    (b.build(), p)
}

// ---- the file
struct File(BTreeMap<usize, (String, Vec<String>)>);

fn split(t: &str) -> Vec<String> {
    let (mut depth, mut quoted, mut from, mut out) = (0, false, 0, Vec::new());
    for (i, c) in t.char_indices() {
        match c {
            '\'' => quoted = !quoted,
            _ if quoted => {}
            '(' => depth += 1,
            ')' => depth -= 1,
            ',' if depth == 0 => {
                out.push(t[from..i].trim().to_string());
                from = i + 1;
            }
            _ => {}
        }
    }
    out.push(t[from..].trim().to_string());
    out
}

fn list(t: &str) -> Vec<String> {
    let t = t.trim().strip_prefix('(').and_then(|t| t.strip_suffix(')')).unwrap_or("");
    if t.trim().is_empty() {
        vec![]
    } else {
        split(t)
    }
}

fn read(s: &str) -> File {
    let mut m = BTreeMap::new();
    for l in s.lines() {
        let Some((i, r)) = l.trim().strip_prefix('#').and_then(|l| l.split_once('=')) else { continue };
        let r = r.trim();
        let k = r.find('(').unwrap();
        let body = &r[k + 1..r.rfind(')').unwrap()];
        m.insert(i.trim().parse().unwrap(), (r[..k].trim().to_string(), split(body)));
    }
    File(m)
}

impl File {
    fn at(&self, r: &str) -> Result<(usize, &str, &Vec<String>), String> {
        let i: usize = r.strip_prefix('#').and_then(|r| r.parse().ok()).ok_or(format!("{r:?} is no reference"))?;
        let (k, a) = self.0.get(&i).ok_or(format!("there is no #{i}"))?;
        Ok((i, k, a))
    }
    fn named(&self, kw: &str, name: &str) -> Result<usize, String> {
        let q = format!("'{name}'");
        let v: Vec<_> = self.0.iter().filter(|(_, (k, a))| k == kw && a.get(2) == Some(&q)).map(|(i, _)| *i).collect();
        match v[..] {
            [i] => Ok(i),
            _ => Err(format!("{} objects {kw} named {name}", v.len())),
        }
    }
    fn any(&self, name: &str) -> Result<usize, String> {
        let q = format!("'{name}'");
        let v: Vec<_> = self.0.iter().filter(|(_, (k, a))| !k.starts_with("IFCREL") && a.len() > 4 && a.get(2) == Some(&q)).map(|(i, _)| *i).collect();
        match v[..] {
            [i] => Ok(i),
            _ => Err(format!("{} objects named {name}", v.len())),
        }
    }
    /// objects at the other end of relations `kw`: `one` is the place of the single end, `many` of the list
    fn related(&self, kw: &str, of: usize, from: usize, to: usize) -> Vec<usize> {
        let q = format!("#{of}");
        let has = |a: &String| *a == q || list(a).contains(&q);
        let ends = |a: &String| -> Vec<usize> {
            let l = if a.starts_with('(') { list(a) } else { vec![a.clone()] };
            l.iter().filter_map(|x| x.strip_prefix('#').and_then(|x| x.parse().ok())).collect()
        };
        self.0.values().filter(|(k, a)| k == kw && a.len() > 5 && has(&a[from])).flat_map(|(_, a)| ends(&a[to])).collect()
    }
    fn coords(&self, r: &str) -> Result<Vec<f64>, String> {
        let (_, k, a) = self.at(r)?;
        if k != "IFCCARTESIANPOINT" {
            return Err(format!("{r} is {k}"));
        }
        list(&a[0]).iter().map(|x| x.parse::<f64>().map_err(|_| format!("coordinate {x}"))).collect()
    }
}

fn same(what: &str, got: &[f64], want: &[f64]) -> Result<(), String> {
    if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (a - b).abs() <= 1e-9 * (1.0 + b.abs())) {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

/// the same text but for the digits of a number which don't fit into 15
fn again(s: &str, t: &str) -> Result<(), String> {
    let cut = |s: &str| s.split(['(', ')', ',']).map(str::to_string).collect::<Vec<_>>();
    let (a, b) = (cut(s), cut(t));
    let like = |x: &str, y: &str| x == y || matches!((x.parse::<f64>(), y.parse::<f64>()), (Ok(x), Ok(y)) if (x - y).abs() <= 1e-14 * x.abs());
    match a.iter().zip(&b).find(|(x, y)| !like(x, y)) {
        None if a.len() == b.len() => Ok(()),
        _ => eq("printed again", &t, &s),
    }
}

fn closed(f: &File, s: &str) -> Result<(), String> {
    for (i, (k, a)) in &f.0 {
        for x in a {
            let mut quoted = false;
            let mut it = x.char_indices().peekable();
            while let Some((j, c)) = it.next() {
                match c {
                    '\'' => quoted = !quoted,
                    '#' if !quoted => {
                        let d: String = x[j + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
                        let n: usize = d.parse().map_err(|_| format!("#{i}={k}: reference {x}"))?;
                        if !f.0.contains_key(&n) {
                            return Err(format!("#{i}={k} refers to #{n}, which is not there"));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    let ifc = IFC::from_str(s).map_err(|e| format!("the built model doesn't load: {e}"))?;
    again(s, &ifc.to_string())
}

fn hierarchy(f: &File, p: &Plan) -> Result<(), String> {
    let owner = f.0.iter().filter(|(_, (k, _))| k == "IFCOWNERHISTORY").map(|(i, _)| *i).collect::<Vec<_>>();
    if owner.len() != 1 {
        return Err(format!("{} owner histories", owner.len()));
    }
    let oh = format!("#{}", owner[0]);
    let mut count: BTreeMap<&str, usize> = BTreeMap::new();
    for a in &p.asked {
        *count.entry(a.kw).or_default() += 1;
        let i = f.named(a.kw, &a.name)?;
        let w = |s: &str| format!("{} {}: {s}", a.kw, a.name);
        let at = &f.0[&i].1;
        if at[1] != oh {
            return Err(w(&format!("owner history {}", at[1])));
        }
        let one = |kw: &str, from: usize, to: usize, want: &Option<String>| -> Result<(), String> {
            let got: Vec<_> = f.related(kw, i, from, to);
            let want: Vec<usize> = match want {
                Some(n) => vec![f.any(n)?],
                None => vec![],
            };
            if got == want {
                Ok(())
            } else {
                Err(w(&format!("{kw}: {got:?}, expected {want:?}")))
            }
        };
        one("IFCRELAGGREGATES", 5, 4, &a.part_of)?;
        one("IFCRELCONTAINEDINSPATIALSTRUCTURE", 4, 5, &a.inside)?;
        one("IFCRELDEFINESBYTYPE", 4, 5, &a.of_type)?;
        one("IFCRELVOIDSELEMENT", 5, 4, &a.voids)?;
        one("IFCRELFILLSELEMENT", 5, 4, &a.fills)?;
        let got = f.related("IFCRELASSOCIATESMATERIAL", i, 4, 5);
        let want: Vec<usize> = a.material.into_iter().collect();
        if got != want {
            return Err(w(&format!("materials {got:?}, expected {want:?}")));
        }
        let sets: BTreeSet<usize> = f.related("IFCRELDEFINESBYPROPERTIES", i, 4, 5).into_iter().collect();
        let mut want = BTreeSet::new();
        for (sn, names) in &a.props {
            let s = f.named("IFCPROPERTYSET", sn)?;
            want.insert(s);
            let got: Vec<String> = list(&f.0[&s].1[4]).iter().map(|x| f.at(x).map(|(_, _, a)| a[0].clone())).collect::<Result<_, _>>()?;
            let names: Vec<String> = names.iter().map(|n| format!("'{n}'")).collect();
            if got != names {
                return Err(w(&format!("properties of {sn}: {got:?}, expected {names:?}")));
            }
        }
        if sets != want {
            return Err(w(&format!("property sets {sets:?}, expected {want:?}")));
        }
    }
    for kw in ["IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCWALL", "IFCSLAB", "IFCROOF", "IFCWINDOW", "IFCOPENINGELEMENT", "IFCSPACE", "IFCSHADINGDEVICE", "IFCWALLTYPE", "IFCWINDOWTYPE"] {
        let n = f.0.values().filter(|(k, _)| k == kw).count();
        let want = count.get(kw).copied().unwrap_or(0);
        if n != want {
            return Err(format!("{n} objects {kw}, expected {want}"));
        }
    }
    Ok(())
}

fn geometry(f: &File, p: &Plan) -> Result<(), String> {
    for a in &p.asked {
        let i = f.named(a.kw, &a.name)?;
        let w = |s: &str| format!("{} {}: {s}", a.kw, a.name);
        let at = &f.0[&i].1;
        if let Some(v) = a.at {
            let (_, k, l) = f.at(&at[5]).map_err(|e| w(&e))?;
            if k != "IFCLOCALPLACEMENT" {
                return Err(w(&format!("placed by {k}")));
            }
            let (_, _, axis) = f.at(&l[1])?;
            same(&w("placement"), &f.coords(&axis[0])?, &v)?;
            let rel = match &a.host {
                Some(h) => f.0[&f.any(h)?].1[5].clone(),
                None => "$".into(),
            };
            eq(&w("placed relative to"), &l[0], &rel)?;
        }
        if a.moved || a.depth.is_none() {
            continue;
        }
        let (_, k, sh) = f.at(&at[6]).map_err(|e| w(&e))?;
        eq(&w("shape"), k, "IFCPRODUCTDEFINITIONSHAPE")?;
        let mut solids = vec![];
        for r in list(&sh[2]) {
            let (_, _, rep) = f.at(&r)?;
            for it in list(&rep[3]) {
                let (_, k, s) = f.at(&it)?;
                if k == "IFCEXTRUDEDAREASOLID" {
                    solids.push(s);
                }
            }
        }
        let [s] = solids[..] else { return Err(w(&format!("{} solids", solids.len()))) };
        let real = |x: &String| x.parse::<f64>().map_err(|_| w(&format!("number {x}")));
        same(&w("depth"), &[real(&s[3])?], &[a.depth.unwrap()])?;
        if let Some(d) = a.dir {
            let (_, k, v) = f.at(&s[2])?;
            eq(&w("direction"), k, "IFCDIRECTION")?;
            same(&w("direction"), &list(&v[0]).iter().map(real).collect::<Result<Vec<_>, _>>()?, &d)?;
        }
        let (_, k, prof) = f.at(&s[0])?;
        if let Some((x, y)) = a.profile {
            eq(&w("profile"), k, "IFCRECTANGLEPROFILEDEF")?;
            same(&w("profile"), &[real(&prof[3])?, real(&prof[4])?], &[x, y])?;
            let (_, _, axis) = f.at(&prof[2])?;
            same(&w("profile's place"), &f.coords(&axis[0])?, &[x / 2.0, y / 2.0])?;
        }
        if let Some(v) = &a.points {
            eq(&w("profile"), k, "IFCARBITRARYCLOSEDPROFILEDEF")?;
            let (_, _, curve) = f.at(&prof[2])?;
            let (_, _, ps) = f.at(&curve[0])?;
            let got = list(&ps[0]);
            if got.len() != v.len() {
                return Err(w(&format!("{} points of {}", got.len(), v.len())));
            }
            for (x, want) in got.iter().zip(v) {
                let xs: Vec<f64> = list(x).iter().map(real).collect::<Result<_, _>>()?;
                same(&w("point"), &xs, want)?;
            }
        }
    }
    for (kw, i, names) in &p.loose {
        let (k, a) = f.0.get(i).ok_or(format!("there is no #{i}"))?;
        eq("material", k, kw)?;
        let (_, _, m) = f.at(&a[0])?;
        eq("material", &m[0], &format!("'{}'", names[0]))?;
    }
    Ok(())
}

pub fn built(seed: u64, kind: &str) -> Result<(), String> {
    let (s, p) = history(seed);
    let f = read(&s);
    match kind {
        "build" => closed(&f, &s),
        "hierarchy" => hierarchy(&f, &p),
        _ => geometry(&f, &p),
    }
}

fn run(r: &mut Report, g: &mut Rng, kind: &str) {
    if let Some((k, i)) = r.only.clone() {
        if k == kind {
            r.case(kind, &i, || built(i.parse().unwrap(), kind));
        }
        return;
    }
    for _ in 0..if r.deep { 4000 } else { 400 } {
        let s = g.next();
        r.case(kind, &s.to_string(), || built(s, kind));
    }
}

pub fn c12(r: &mut Report, g: &mut Rng) {
    run(r, g, "build")
}

pub fn c14(r: &mut Report, g: &mut Rng) {
    run(r, g, "hierarchy")
}

pub fn c15(r: &mut Report, g: &mut Rng) {
    run(r, g, "geometry")
}
