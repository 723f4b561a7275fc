// The file with the identifiers without its `use crate::..` line (that module isn't visible from here).
fn main() {
    let p = "/repo/ifc_rs/src/id/ifc_uuid.rs";
    println!("cargo:rerun-if-changed={p}");
    let t = std::fs::read_to_string(p).unwrap().replace("use crate::parser::*;", "use super::parser::*;");
    std::fs::write(format!("{}/ifc_uuid.rs", std::env::var("OUT_DIR").unwrap()), t).unwrap();
}
