//! Runs the real code of /repo on concrete inputs.
//!   replay PROPERTY SEED quick|thorough          all inputs of the property
//!   replay --file REPLAY.json                     one recorded input
#[cfg(feature = "attrs")]
mod attrs;
#[cfg(feature = "build")]
mod build;
mod gen;
#[cfg(feature = "setters")]
mod made;
#[cfg(feature = "moves")]
mod moves;
#[cfg(feature = "query")]
mod query;
#[cfg(feature = "read")]
mod read;
#[cfg(feature = "setters")]
mod setters;
#[cfg(feature = "store")]
mod store;
mod text;
mod util;
mod value;
use util::*;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, deep, only) = if a[1] == "--file" {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let s = |k: &str| v[k].as_str().unwrap().to_string();
        (s("property"), v["seed"].as_u64().unwrap_or(1), v["tier"] == "thorough", Some((s("kind"), s("input"))))
    } else {
        (a[1].clone(), a[2].parse().unwrap(), a[3] == "thorough", None)
    };
    let mut r = Report { prop: prop.clone(), seed, deep, cases: 0, distinct: Default::default(), samples: vec![], fails: vec![], only };
    let mut g = Rng(seed.wrapping_mul(0x5851F42D4C957F2D));
    match prop.as_str() {
        "C01" => value::c01(&mut r, &mut g),
        "C02" => text::c02(&mut r, &mut g),
        "C03" => text::c03(&mut r, &mut g),
        "C04" => text::c04(&mut r, &mut g),
        "C05" => text::c05(&mut r, &mut g),
        "C06" => value::c06(&mut r, &mut g),
        "C07" => value::c07(&mut r, &mut g),
        "C08" => value::c08(&mut r, &mut g),
        "C09" => text::c09(&mut r, &mut g),
        "C10" => text::c10(&mut r, &mut g),
        #[cfg(feature = "store")]
        "C11" => store::c11(&mut r, &mut g),
        #[cfg(feature = "query")]
        "C13" => query::c13(&mut r, &mut g),
        #[cfg(feature = "build")]
        "C12" => build::c12(&mut r, &mut g),
        #[cfg(feature = "build")]
        "C14" => build::c14(&mut r, &mut g),
        #[cfg(feature = "build")]
        "C15" => build::c15(&mut r, &mut g),
        #[cfg(feature = "read")]
        "C17" => read::c17(&mut r, &mut g),
        #[cfg(feature = "moves")]
        "C18" => moves::c18(&mut r, &mut g),
        #[cfg(feature = "setters")]
        "C16" => made::c16(&mut r, &mut g),
        x => panic!("{x}"),
    }
    let out = serde_json::json!({"property": prop, "cases": r.cases, "distinct": r.distinct.len(), "samples": r.samples, "fails": r.fails});
    println!("{}", serde_json::to_string(&out).unwrap());
    std::process::exit(if r.fails.is_empty() { 0 } else { 1 });
}
