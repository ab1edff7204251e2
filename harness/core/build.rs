// The string constants of src/catalog/mod.rs, whose module itself needs crates that are not available here.
use std::{env, fs, path::Path};
fn main() {
    println!("cargo:rerun-if-env-changed=SFV_REPO_HASH");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=SFV_REPO_HASH={}", env::var("SFV_REPO_HASH").unwrap_or_default());
    let consts: String = fs::read_to_string("/repo/src/catalog/mod.rs").unwrap().lines()
        .filter(|l| l.starts_with("pub const ") && l.ends_with("\";"))
        .map(|l| format!("{l}\n")).collect();
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("catalog_consts.rs"), consts).unwrap();
}
