fn main() {
    println!("cargo:rerun-if-env-changed=SFV_REPO_HASH");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=SFV_REPO_HASH={}", std::env::var("SFV_REPO_HASH").unwrap_or_default());
}
