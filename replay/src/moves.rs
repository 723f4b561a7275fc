//! C18: a history of builder calls with and without the transformations; the printed models are compared by a reader of its own.
use crate::util::*;
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use std::collections::BTreeMap;

type Model = BTreeMap<usize, (String, Vec<String>)>;

fn split(s: &str) -> Vec<String> {
    let (mut out, mut d, mut q, mut cur) = (vec![], 0, false, String::new());
    for c in s.chars() {
        if c == '\'' {
            q = !q;
        }
        if !q {
            match c {
                '(' => d += 1,
                ')' => d -= 1,
                _ => {}
            }
        }
        if c == ',' && d == 0 && !q {
            out.push(std::mem::take(&mut cur));
        } else if q || c != ' ' {
            cur.push(c);
        }
    }
    if !cur.is_empty() || !out.is_empty() {
        out.push(cur);
    }
    out
}

fn parse(text: &str) -> Result<Model, String> {
    let mut m = Model::new();
    for l in text.lines() {
        let l = l.trim();
        let Some(r) = l.strip_prefix('#') else { continue };
        let (n, r) = r.split_once('=').ok_or("no =")?;
        let r = r.trim().strip_suffix(';').ok_or("no ;")?;
        let (kw, args) = r.split_once('(').ok_or("no (")?;
        let n = n.trim().parse().map_err(|_| "no number")?;
        if m.insert(n, (kw.trim().into(), split(args.strip_suffix(')').ok_or("no )")?))).is_some() {
            return Err(format!("#{n} twice"));
        }
    }
    Ok(m)
}

fn refer(s: &str) -> Result<usize, String> {
    s.strip_prefix('#').and_then(|x| x.parse().ok()).ok_or_else(|| format!("no reference: {s}"))
}

fn list(s: &str) -> Result<Vec<String>, String> {
    Ok(split(s.strip_prefix('(').and_then(|x| x.strip_suffix(')')).ok_or_else(|| format!("no list: {s}"))?))
}

fn get<'a>(m: &'a Model, s: &str, kw: &str) -> Result<&'a Vec<String>, String> {
    let n = refer(s)?;
    match m.get(&n) {
        Some((k, a)) if k == kw => Ok(a),
        Some((k, _)) => Err(format!("#{n} is {k} and not {kw}")),
        None => Err(format!("no #{n}")),
    }
}

/// an object with everything it refers to in place of the references
fn whole(m: &Model, s: &str) -> String {
    if let Ok(n) = refer(s) {
        return match m.get(&n) {
            Some((k, a)) => format!("{k}({})", a.iter().map(|x| whole(m, x)).collect::<Vec<_>>().join(",")),
            None => "nothing".into(),
        };
    }
    match list(s) {
        Ok(l) => format!("({})", l.iter().map(|x| whole(m, x)).collect::<Vec<_>>().join(",")),
        _ => s.into(),
    }
}

fn nums(m: &Model, s: &str, kw: &str) -> Result<[f64; 3], String> {
    let a = get(m, s, kw)?;
    let v: Vec<f64> = list(&a[0])?.iter().map(|x| x.parse().map_err(|_| format!("no number: {x}"))).collect::<Result<_, _>>()?;
    v.try_into().map_err(|_| "not three numbers".to_string())
}

fn close(what: &str, got: [f64; 3], want: [f64; 3]) -> Result<(), String> {
    if got.iter().zip(want).all(|(a, b)| (a - b).abs() <= 1e-9 * (1.0 + b.abs())) {
        Ok(())
    } else {
        Err(format!("{what} is {got:?} instead of {want:?}"))
    }
}

#[derive(Clone, Debug)]
struct Move {
    by: [f64; 3],
    axes: [[f64; 3]; 3],
}

/// what became of one element
#[derive(Clone, Default, Debug)]
struct Made {
    kw: &'static str,
    name: String,
    /// by the builder's own transformation, from its place or from zero
    own: Option<(Move, bool)>,
    later: Vec<Move>,
    /// the opening a window sits in
    opening: Option<String>,
}

fn num(g: &mut Rng) -> f64 {
    (g.below(400) as f64 - 200.0) / 8.0
}

fn size(g: &mut Rng) -> f64 {
    (1 + g.below(80)) as f64 / 8.0
}

fn vec3(g: &mut Rng) -> DVec3 {
    DVec3::new(num(g), num(g), num(g))
}

/// a place, sometimes the origin itself
fn spot(g: &mut Rng) -> DVec3 {
    if g.chance(20) {
        DVec3::ZERO
    } else {
        vec3(g)
    }
}

fn flat(g: &mut Rng) -> Vec<DVec2> {
    (0..3 + g.below(3)).map(|_| DVec2::new(num(g), num(g))).collect()
}

fn solid(g: &mut Rng) -> Vec<DVec3> {
    (0..3 + g.below(3)).map(|_| vec3(g)).collect()
}

fn turn(g: &mut Rng) -> (TransformParameter, Move) {
    let mut p = TransformParameter::default();
    let mut m = Move { by: [0.0; 3], axes: [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] };
    if g.chance(80) {
        let v = vec3(g);
        p = p.translation(v);
        m.by = [v.x, v.y, v.z];
    }
    for i in 0..3 {
        if g.chance(50) {
            let v = vec3(g);
            p = match i {
                0 => p.x_rotation(v),
                1 => p.y_rotation(v),
                _ => p.z_rotation(v),
            };
            let l = (v.x * v.x + v.y * v.y + v.z * v.z).sqrt();
            if l != 0.0 {
                m.axes[i] = [v.x / l, v.y / l, v.z / l];
            }
        }
    }
    (p, m)
}

/// the same calls, with or without the transformations
fn build(seed: u64, moving: bool) -> (String, Vec<Made>) {
    let g = &mut Rng(seed);
    let mut made: Vec<Made> = vec![];
    let mut b = IfcProjectBuilder::new(
        ApplicationInfo { developer: Organization::new(None, "Dev", None), version: "1", name: "App", short_name: "a" },
        OwnerInfo { owner: Person::empty().given_name("P"), organization_name: "Org" },
        "Project0",
    );
    {
        let mut site = b.new_site("Site0", vec3(g));
        let mut building = site.new_building("Building0", vec3(g));
        let mut s = building.new_storey("Storey0", num(g));
        let layers: Vec<_> = (0..1 + g.below(3)).map(|i| s.material_layer(&format!("Mat{i}"), MaterialLayer::new(size(g), false))).collect();
        let set = s.material_layer_set(layers);
        let u = s.material_layer_set_usage(set, LayerSetDirectionEnum::Axis2, DirectionSenseEnum::Positive, num(g));
        let con = s.material_constituent("ConMat", "Con");
        let cset = s.material_constituent_set([con]);
        let wt = s.wall_type(set, "WT", WallTypeEnum::NotDefined);
        let st = s.slab_type(set, "ST", SlabTypeEnum::NotDefined);
        let rt = s.roof_type(set, "RT", RoofTypeEnum::NotDefined);
        let wit = s.window_type("WIT", WindowTypeEnum::Window, WindowPartitioningTypeEnum::SinglePanel);
        let sht = s.shading_device_type(set, "SHT", ShadingDeviceTypeEnum::NotDefined);
        for e in 0..1 + g.below(4) {
            let at = made.len();
            let place = spot(g);
            let later = |g: &mut Rng| (0..if g.chance(40) { 1 + g.below(2) } else { 0 }).map(|_| turn(g)).collect::<Vec<_>>();
            match g.below(5) {
                0 | 1 => {
                    let n = format!("Wall{e}");
                    let mut w = match g.below(3) {
                        0 => s.vertical_wall(u, wt, &n, VerticalWallParameter { height: size(g), length: size(g), placement: place }),
                        1 => s.vertical_arbitrary_wall(u, wt, &n, VerticalArbitraryWallParameter { coords: flat(g), placement: place }),
                        _ => s.arbitrary_wall(u, wt, &n, ArbitraryWallParameter { coords: solid(g), direction: DVec3::new(1.0, num(g), num(g)), placement: place }),
                    };
                    made.push(Made { kw: "IFCWALL", name: n, ..Default::default() });
                    for k in 0..g.below(3) {
                        let on = format!("Open{e}x{k}");
                        let par = OpeningParameter { height: size(g), length: size(g), placement: spot(g) };
                        made.push(Made { kw: "IFCOPENINGELEMENT", name: on.clone(), ..Default::default() });
                        let _ = w.vertical_opening(&on, par);
                    }
                    for k in 0..g.below(3) {
                        let wn = format!("Win{e}x{k}");
                        let on = format!("OpeningElementOfWindow{wn}");
                        let _ = w.window_with_opening(cset, wit, &wn, WindowParameter { height: size(g), width: size(g), placement: spot(g) }, Direction3D::from(DVec3::new(1.0, num(g), num(g))));
                        made.push(Made { kw: "IFCOPENINGELEMENT", name: on.clone(), ..Default::default() });
                        made.push(Made { kw: "IFCWINDOW", name: wn, opening: Some(on), ..Default::default() });
                    }
                    if g.chance(60) {
                        let (p, m) = turn(g);
                        if moving {
                            w.transform(p);
                        }
                        for (i, x) in made[at..].iter_mut().enumerate() {
                            x.own = Some((m.clone(), i > 0));
                        }
                    }
                    let id = w.finish();
                    for (p, m) in later(g) {
                        if moving {
                            s.transform(id, &p);
                        }
                        made[at].later.push(m);
                    }
                }
                2 => {
                    let n = format!("Slab{e}");
                    let mut w = match g.below(3) {
                        0 => s.horizontal_arbitrary_slab(u, st, &n, HorizontalArbitrarySlabParameter { coords: flat(g), placement: place }),
                        1 => s.vertical_slab(u, st, &n, VerticalSlabParameter { start: DVec2::new(0.0, num(g)), end: DVec2::new(1.0, num(g)), height: size(g), placement: place }),
                        _ => s.arbitrary_slab(u, st, &n, ArbitrarySlabParameter { coords: solid(g), direction: DVec3::new(1.0, num(g), num(g)), placement: place }),
                    };
                    made.push(Made { kw: "IFCSLAB", name: n, ..Default::default() });
                    for k in 0..g.below(3) {
                        let on = format!("Open{e}x{k}");
                        let _ = w.rect_opening(&on, OpeningParameter { height: size(g), length: size(g), placement: spot(g) });
                        made.push(Made { kw: "IFCOPENINGELEMENT", name: on, ..Default::default() });
                    }
                    for k in 0..g.below(3) {
                        let wn = format!("Win{e}x{k}");
                        let on = format!("OpeningElementOfWindow{wn}");
                        let _ = w.window_with_opening(cset, wit, &wn, WindowParameter { height: size(g), width: size(g), placement: spot(g) });
                        made.push(Made { kw: "IFCOPENINGELEMENT", name: on.clone(), ..Default::default() });
                        made.push(Made { kw: "IFCWINDOW", name: wn, opening: Some(on), ..Default::default() });
                    }
                    if g.chance(60) {
                        let (p, m) = turn(g);
                        if moving {
                            w.transform(p);
                        }
                        for (i, x) in made[at..].iter_mut().enumerate() {
                            x.own = Some((m.clone(), i > 0));
                        }
                    }
                    let id = w.finish();
                    for (p, m) in later(g) {
                        if moving {
                            s.transform(id, &p);
                        }
                        made[at].later.push(m);
                    }
                }
                3 => {
                    let n = format!("Roof{e}");
                    let id = s.horizontal_arbitrary_roof(u, rt, &n, HorizontalArbitraryRoofParameter { coords: flat(g), placement: place });
                    made.push(Made { kw: "IFCROOF", name: n, ..Default::default() });
                    for (p, m) in later(g) {
                        if moving {
                            s.transform(id, &p);
                        }
                        made[at].later.push(m);
                    }
                }
                _ => {
                    let n = format!("Shade{e}");
                    let id = s.vertical_shading_device(u, sht, &n, VerticalShadingDeviceParameter { height: size(g), length: size(g), placement: place });
                    made.push(Made { kw: "IFCSHADINGDEVICE", name: n, ..Default::default() });
                    for (p, m) in later(g) {
                        if moving {
                            s.transform(id, &p);
                        }
                        made[at].later.push(m);
                    }
                }
            }
        }
    }
    (b.build(), made)
}

fn find<'a>(m: &'a Model, kw: &str, name: &str) -> Result<&'a Vec<String>, String> {
    let q = format!("'{name}'");
    let all: Vec<_> = m.values().filter(|(k, a)| k == kw && a.get(2) == Some(&q)).collect();
    match all[..] {
        [x] => Ok(&x.1),
        _ => Err(format!("{} objects {kw} {name}", all.len())),
    }
}

fn place(m: &Model, a: &[String]) -> Result<[f64; 3], String> {
    let p = get(m, &a[5], "IFCLOCALPLACEMENT")?;
    nums(m, &get(m, &p[1], "IFCAXIS2PLACEMENT3D")?[0], "IFCCARTESIANPOINT")
}

/// the representation shows the former one (returned), moved
fn moved<'a>(m: &'a Model, r: &'a str, by: &Move, from: [f64; 3]) -> Result<&'a str, String> {
    let a = get(m, r, "IFCSHAPEREPRESENTATION")?;
    eq("representation type", &a[2], "'MappedRepresentation'")?;
    let items = list(&a[3])?;
    eq("number of items", &items.len().to_string(), "1")?;
    let i = get(m, &items[0], "IFCMAPPEDITEM")?;
    let s = get(m, &i[0], "IFCREPRESENTATIONMAP")?;
    let o = get(m, &s[0], "IFCAXIS2PLACEMENT3D")?;
    close("origin", nums(m, &o[0], "IFCCARTESIANPOINT")?, from)?;
    eq("origin's axes", &o[1..].join(","), "$,$")?;
    let t = get(m, &i[1], "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM")?;
    for (k, n) in [(0, 0), (1, 1), (4, 2)] {
        close(&format!("axis {}", n + 1), nums(m, &t[k], "IFCDIRECTION")?, by.axes[n])?;
    }
    close("translation", nums(m, &t[2], "IFCCARTESIANPOINT")?, by.by)?;
    for k in [3, 5, 6] {
        eq("scale", &t[k].parse::<f64>().map(|x| x.to_string()).unwrap_or(t[k].clone()), "1")?;
    }
    let old = get(m, &s[1], "IFCSHAPEREPRESENTATION")?;
    eq("identifier", &a[1], &old[1])?;
    eq("context", &whole(m, &a[0]), &whole(m, &old[0]))?;
    Ok(&s[1])
}

fn run(seed: u64) -> Result<(), String> {
    let (a, plan) = build(seed, false);
    let (b, _) = build(seed, true);
    let (a, b) = (parse(&a)?, parse(&b)?);
    for k in ["IFCPRODUCTDEFINITIONSHAPE", "IFCEXTRUDEDAREASOLID", "IFCLOCALPLACEMENT", "IFCPOLYLINE"] {
        let n = |m: &Model| m.values().filter(|x| x.0 == k).count().to_string();
        eq(&format!("number of {k}"), &n(&b), &n(&a))?;
    }
    for x in &plan {
        (|| {
            let (o, n) = (find(&a, x.kw, &x.name)?, find(&b, x.kw, &x.name)?);
            eq("placement", &whole(&b, &n[5]), &whole(&a, &o[5]))?;
            let (so, sn) = (get(&a, &o[6], "IFCPRODUCTDEFINITIONSHAPE")?, get(&b, &n[6], "IFCPRODUCTDEFINITIONSHAPE")?);
            eq("name of the shape", &sn[..2].join(","), &so[..2].join(","))?;
            let (lo, ln) = (list(&so[2])?, list(&sn[2])?);
            eq("number of representations", &ln.len().to_string(), &lo.len().to_string())?;
            let mut steps: Vec<(Move, [f64; 3])> = vec![];
            if let Some((m, offset)) = &x.own {
                let mut m = m.clone();
                let mut from = [0.0; 3];
                if *offset {
                    let host = match &x.opening {
                        Some(h) => find(&a, "IFCOPENINGELEMENT", h)?,
                        None => o,
                    };
                    from = place(&a, host)?;
                    for i in 0..3 {
                        m.by[i] -= from[i];
                    }
                }
                steps.push((m, from));
            }
            steps.extend(x.later.iter().map(|m| (m.clone(), [0.0; 3])));
            for (i, (ro, rn)) in lo.iter().zip(&ln).enumerate() {
                let mut r: &str = rn;
                for (m, from) in steps.iter().rev() {
                    r = moved(&b, r, m, *from).map_err(|e| format!("representation {}: {e}", i + 1))?;
                }
                eq(&format!("representation {}", i + 1), &whole(&b, r), &whole(&a, ro))?;
            }
            Ok(())
        })()
        .map_err(|e: String| format!("{} {}: {e}", x.kw, x.name))?;
    }
    Ok(())
}

pub fn c18(r: &mut Report, g: &mut Rng) {
    if let Some((k, input)) = r.only.clone() {
        return r.case(&k, &input, || run(input.parse().unwrap()));
    }
    for _ in 0..if r.deep { 20_000 } else { 1_000 } {
        let seed = g.next();
        r.case("moves", &seed.to_string(), || run(seed));
    }
}
