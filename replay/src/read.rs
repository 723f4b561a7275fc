//! What the functions that resolve references yield, against what the objects of a random model say.
use crate::util::*;
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use std::collections::BTreeMap;

type Pt = Vec<f64>;

/// a model in text, and what its objects are to be read as
#[derive(Default)]
struct M {
    lines: Vec<(usize, String)>,
    used: BTreeMap<usize, String>,
    /// object, what is read from it, the result
    want: Vec<(usize, &'static str, String)>,
}

impl M {
    fn put(&mut self, t: String, g: &mut Rng) -> usize {
        loop {
            let most = if g.chance(10) { 1_000_000 } else { 300 };
            let n = 1 + g.below(most);
            if !self.used.contains_key(&n) {
                self.used.insert(n, t.clone());
                self.lines.push((n, t));
                return n;
            }
        }
    }

    fn coords(&mut self, n: usize, kind: &str, g: &mut Rng) -> (usize, String, Pt) {
        let v: Pt = (0..n).map(|_| (g.below(400) as f64 - 200.0) / 8.0).collect();
        let t = format!("{kind}(({}));", v.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","));
        (self.put(t.clone(), g), t, v)
    }

    fn point(&mut self, n: usize, g: &mut Rng) -> (usize, String, Pt) {
        self.coords(n, "IFCCARTESIANPOINT", g)
    }

    fn dir(&mut self, n: usize, g: &mut Rng) -> (usize, String) {
        let (i, t, _) = self.coords(n, "IFCDIRECTION", g);
        (i, t)
    }

    fn maybe_dir(&mut self, n: usize, g: &mut Rng) -> (String, String) {
        if g.chance(40) {
            return ("$".into(), "none".into());
        }
        let (i, t) = self.dir(n, g);
        (format!("#{i}"), t)
    }

    fn axis(&mut self, d: usize, g: &mut Rng) -> (usize, String) {
        let (p, pt, _) = self.point(d, g);
        let (x, xt) = self.maybe_dir(d, g);
        if d == 2 {
            let i = self.put(format!("IFCAXIS2PLACEMENT2D(#{p},{x});"), g);
            let w = format!("axis2 [{pt}|{xt}]");
            self.want.push((i, "axis2", w.clone()));
            return (i, w);
        }
        let (z, zt) = self.maybe_dir(d, g);
        let i = self.put(format!("IFCAXIS2PLACEMENT3D(#{p},{z},{x});"), g);
        let w = format!("axis3 [{pt}|{zt}|{xt}]");
        self.want.push((i, "axis3", w.clone()));
        (i, w)
    }

    fn points(&mut self, g: &mut Rng) -> (usize, String) {
        let d = 2 + g.below(2);
        let n = 1 + g.below(6);
        let line = g.chance(50);
        let mut ps: Vec<(usize, Pt)> = vec![];
        for _ in 0..n {
            if !ps.is_empty() && g.chance(25) {
                let k = g.below(ps.len());
                ps.push(ps[k].clone());
            } else if line {
                let (i, _, v) = self.point(d, g);
                ps.push((i, v));
            } else {
                ps.push((0, (0..d).map(|_| (g.below(400) as f64 - 200.0) / 8.0).collect()));
            }
        }
        let w = format!("points{d} {:?}", ps.iter().map(|p| &p.1).collect::<Vec<_>>());
        if line {
            let i = self.put(format!("IFCPOLYLINE(({}));", ps.iter().map(|p| format!("#{}", p.0)).collect::<Vec<_>>().join(",")), g);
            self.want.push((i, "line", w.clone()));
            return (i, w);
        }
        let t = ps.iter().map(|p| format!("({})", p.1.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
        let l = self.put(format!("IFCCARTESIANPOINTLIST{d}D(({t}),$);"), g);
        (self.put(format!("IFCINDEXEDPOLYCURVE(#{l},$,$);"), g), w)
    }

    fn profile(&mut self, g: &mut Rng) -> (usize, String) {
        if g.chance(50) {
            let (x, y) = (size(g), size(g));
            let (p, pw) = if g.chance(30) {
                ("$".into(), "none".into())
            } else {
                let d = 2 + g.below(2);
                let (i, w) = self.axis(d, g);
                (format!("#{i}"), w)
            };
            let i = self.put(format!("IFCRECTANGLEPROFILEDEF(.AREA.,$,{p},{},{});", num(x), num(y)), g);
            let w = format!("rectangle {pw} {x:?} {y:?}");
            self.want.push((i, "rectangle", w.clone()));
            return (i, w);
        }
        let (c, cw) = self.points(g);
        let k = *g.pick(&["AREA", "CURVE"]);
        let i = self.put(format!("IFCARBITRARYCLOSEDPROFILEDEF(.{k}.,$,#{c});"), g);
        let w = format!("arbitrary {k} {cw}");
        self.want.push((i, "arbitrary", w.clone()));
        (i, w)
    }

    fn solid(&mut self, g: &mut Rng) -> usize {
        let (a, aw) = self.profile(g);
        let (p, pw) = if g.chance(40) {
            ("$".into(), "none".into())
        } else {
            let (i, w) = self.axis(3, g);
            (format!("#{i}"), w)
        };
        let (d, dt) = self.dir(3, g);
        let h = size(g);
        let i = self.put(format!("IFCEXTRUDEDAREASOLID(#{a},{p},#{d},{});", num(h)), g);
        self.want.push((i, "solid", format!("solid {aw} {pw} {dt} {h:?}")));
        i
    }

    fn moved(&mut self, g: &mut Rng) -> (usize, String) {
        let (x, xt) = self.maybe_dir(3, g);
        let (y, yt) = self.maybe_dir(3, g);
        let (z, zt) = self.maybe_dir(3, g);
        let (o, ot) = if g.chance(20) {
            ("$".into(), "none".into())
        } else {
            let (i, t, _) = self.point(3, g);
            (format!("#{i}"), t)
        };
        let mut s = || if g.chance(30) { ("$".to_string(), "None".to_string()) } else { let x = size(g); (num(x), format!("{:?}", Some(x))) };
        let (k, s2, s3) = (s(), s(), s());
        let base = format!("{ot}|{xt}|{yt}|{zt}|{}", k.1);
        if g.chance(50) {
            let i = self.put(format!("IFCCARTESIANTRANSFORMATIONOPERATOR3D({x},{y},{o},{},{z});", k.0), g);
            let w = format!("uniform [{base}]");
            self.want.push((i, "uniform", w.clone()));
            return (i, w);
        }
        let i = self.put(format!("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM({x},{y},{o},{},{z},{},{});", k.0, s2.0, s3.0), g);
        let w = format!("nonuniform [{base}] {} {}", s2.1, s3.1);
        self.want.push((i, "nonuniform", w.clone()));
        (i, w)
    }

    fn shape(&mut self, depth: usize, g: &mut Rng) -> (usize, String) {
        let mut c = self.put(format!("IFCGEOMETRICREPRESENTATIONCONTEXT($,'Model',3,$,#{},$);", 999_999_999), g);
        let ct = self.used[&c].clone();
        if g.chance(50) {
            c = self.put(format!("IFCGEOMETRICREPRESENTATIONSUBCONTEXT('Body','Model',*,*,*,*,#{c},$,.MODEL_VIEW.,$);"), g);
        }
        let mut items = vec![];
        for _ in 0..g.below(5) {
            items.push(match g.below(6) {
                0 | 1 => (self.solid(g), "ExtrudedAreaSolid"),
                2 | 3 if depth > 0 => (self.item(depth - 1, g), "MappedItem"),
                4 => (self.put(format!("IFCSPHERE($,{});", num(size(g))), g), "Dummy"),
                _ => (self.points(g).0, "Other"),
            });
        }
        if !items.is_empty() && g.chance(20) {
            let k = g.below(items.len());
            items.push(items[k]);
        }
        let t = format!(
            "IFCSHAPEREPRESENTATION(#{c},'Body','SweptSolid',({}));",
            items.iter().map(|i| format!("#{}", i.0)).collect::<Vec<_>>().join(",")
        );
        let i = self.put(t.clone(), g);
        self.want.push((i, "context", ct));
        let txt = |k: Option<&str>| items.iter().filter(|i| k.is_none() || k == Some(i.1)).map(|i| format!("{}{}", if k.is_none() { i.1 } else { "" }, self.used[&i.0])).collect::<Vec<_>>().join(" ");
        let (all, solids, mapped) = (txt(None), txt(Some("ExtrudedAreaSolid")), txt(Some("MappedItem")));
        self.want.push((i, "items", all));
        self.want.push((i, "solids", solids));
        self.want.push((i, "mapped", mapped));
        (i, t)
    }

    fn item(&mut self, depth: usize, g: &mut Rng) -> usize {
        let (a, aw) = self.axis(3, g);
        let (s, st) = self.shape(depth, g);
        let r = self.put(format!("IFCREPRESENTATIONMAP(#{a},#{s});"), g);
        let (t, tw) = self.moved(g);
        let i = self.put(format!("IFCMAPPEDITEM(#{r},#{t});"), g);
        self.want.push((i, "item", format!("{aw} {st} {tw}")));
        i
    }

    fn product(&mut self, g: &mut Rng) {
        let mut ts = vec![];
        for _ in 0..g.below(4) {
            ts.push(self.shape(2, g));
        }
        let r = if g.chance(20) {
            ts.clear();
            "$".to_string()
        } else {
            let l = ts.iter().map(|t| format!("#{}", t.0)).collect::<Vec<_>>().join(",");
            format!("#{}", self.put(format!("IFCPRODUCTDEFINITIONSHAPE($,$,({l}));"), g))
        };
        let i = self.put(format!("IFCWALL('0DWgwt6o1FOx7466fPk$jl',$,'w',$,$,$,{r},$,$);"), g);
        self.want.push((i, "shapes", ts.iter().map(|t| t.1.clone()).collect::<Vec<_>>().join(" ")));
    }
}

fn size(g: &mut Rng) -> f64 {
    (1 + g.below(80)) as f64 / 8.0
}

fn num(x: f64) -> String {
    let t = format!("{x:?}");
    t.strip_suffix('0').filter(|s| s.ends_with('.')).map(str::to_string).unwrap_or(t)
}

fn opt<T: std::fmt::Display>(x: Option<T>) -> String {
    x.map(|x| x.to_string()).unwrap_or("none".into())
}

fn axis2(a: &MappedAxis2D) -> String {
    format!("axis2 [{}|{}]", a.location, opt(a.local_x))
}

fn axis3(a: &MappedAxis3D) -> String {
    format!("axis3 [{}|{}|{}]", a.location, opt(a.local_z), opt(a.local_x))
}

fn either(a: &AxisMappings) -> String {
    match a {
        AxisMappings::D2(a) => axis2(a),
        AxisMappings::D3(a) => axis3(a),
    }
}

fn points(p: &Points) -> String {
    let two = |v: &DVec2| vec![v.x, v.y];
    let three = |v: &DVec3| vec![v.x, v.y, v.z];
    match p {
        Points::D2(v) => format!("points2 {:?}", v.iter().map(two).collect::<Vec<_>>()),
        Points::D3(v) => format!("points3 {:?}", v.iter().map(three).collect::<Vec<_>>()),
    }
}

fn rectangle(r: &MappedRectangleProfileDef) -> String {
    format!("rectangle {} {:?} {:?}", r.axis.as_ref().map(either).unwrap_or("none".into()), r.x_dim, r.y_dim)
}

fn arbitrary(a: &MappedArbitraryClosedProfileDef) -> String {
    format!("arbitrary {} {}", a.profile_type.to_string().replace('.', ""), points(&a.points))
}

fn solid(s: &MappedExtrudedAreaSolid) -> String {
    let p = match &s.profile_def {
        MappedProfileDef::Rectangle(r) => rectangle(r),
        MappedProfileDef::Arbitrary(a) => arbitrary(a),
    };
    format!("solid {p} {} {} {:?}", s.position.as_ref().map(axis3).unwrap_or("none".into()), s.extruded_direction, s.depth)
}

macro_rules! base {
    ($t:expr) => {
        format!("{}|{}|{}|{}|{:?}", opt($t.translation), opt($t.axis_x), opt($t.axis_y), opt($t.axis_z), $t.scale)
    };
}

fn non(t: &NonUniformTransformMapping) -> String {
    format!("nonuniform [{}] {:?} {:?}", base!(t), t.scale_y, t.scale_z)
}

fn got(ifc: &IFC, n: usize, what: &str) -> String {
    macro_rules! get {
        ($t:ty) => {
            ifc.data.get::<$t>(TypedId::new(Id(n)))
        };
    }
    let list = |v: Vec<String>| v.join(" ");
    match what {
        "axis2" => {
            let a = get!(Axis2D);
            let (x, y) = (axis2(&a.mappings(ifc)), either(&AxisMappings::map_2d(a, ifc)));
            if x == y { x } else { format!("map_2d: {y}") }
        }
        "axis3" => {
            let a = get!(Axis3D);
            let (x, y) = (axis3(&a.mappings(ifc)), either(&AxisMappings::map_3d(a, ifc)));
            if x == y { x } else { format!("map_3d: {y}") }
        }
        "line" => points(&get!(PolyLine).points(ifc)),
        "rectangle" => rectangle(&get!(RectangleProfileDef).mappings(ifc)),
        "arbitrary" => arbitrary(&get!(ArbitraryClosedProfileDef).mappings(ifc)),
        "solid" => solid(&get!(ExtrudedAreaSolid).mappings(ifc)),
        "uniform" => {
            let t = get!(CartesianTransformationOperator3D).mappings(ifc);
            format!("uniform [{}]", base!(t))
        }
        "nonuniform" => non(&get!(CartesianTransformationOperator3DnonUniform).mappings(ifc)),
        "item" => {
            let ((a, s), t) = get!(MappedItem).mappings(ifc);
            let t = match &t {
                MappedTransform::Uniform(t) => format!("uniform [{}]", base!(t)),
                MappedTransform::NonUniform(t) => non(t),
            };
            format!("{} {s} {t}", axis3(&a))
        }
        "context" => get!(ShapeRepresentation).parent_context(ifc).to_string(),
        "items" => list(
            get!(ShapeRepresentation)
                .items(ifc)
                .map(|i| match i {
                    ShapeItemEnum::MappedItem(x) => format!("MappedItem{x}"),
                    ShapeItemEnum::ExtrudedAreaSolid(x) => format!("ExtrudedAreaSolid{x}"),
                    ShapeItemEnum::Dummy(x) => format!("Dummy{x}"),
                    ShapeItemEnum::Other(x) => format!("Other{x}"),
                })
                .collect(),
        ),
        "solids" => list(get!(ShapeRepresentation).items_of::<ExtrudedAreaSolid>(ifc).map(|x| x.to_string()).collect()),
        "mapped" => list(get!(ShapeRepresentation).items_of::<MappedItem>(ifc).map(|x| x.to_string()).collect()),
        "shapes" => list(get!(Wall).shapes(ifc).iter().map(|x| x.to_string()).collect()),
        x => panic!("{x}"),
    }
}

fn run(seed: u64) -> Result<(), String> {
    let g = &mut Rng(seed);
    let mut m = M::default();
    for _ in 0..1 + g.below(3) {
        match g.below(4) {
            0 => drop(m.solid(g)),
            1 => drop(m.item(1, g)),
            _ => m.product(g),
        }
    }
    for i in (1..m.lines.len()).rev() {
        m.lines.swap(i, g.below(i + 1));
    }
    let t: String = m.lines.iter().map(|(n, t)| format!("#{n}= {t}\n")).collect();
    let ifc = crate::text::map(&format!("DATA;\n{t}ENDSEC;\n"))?;
    for (n, what, want) in &m.want {
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| got(&ifc, *n, what))).unwrap_or_else(|_| "panic".into());
        if &got != want {
            return Err(format!("{what} of #{n}= {}: got {got:.400}, expected {want:.400}", m.used[n]));
        }
    }
    Ok(())
}

pub fn c17(r: &mut Report, g: &mut Rng) {
    if let Some((k, input)) = r.only.clone() {
        return r.case(&k, &input, || run(input.parse().unwrap()));
    }
    for _ in 0..if r.deep { 40_000 } else { 2_000 } {
        let seed = g.next();
        r.case("read", &seed.to_string(), || run(seed));
    }
}
