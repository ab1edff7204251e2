fn main() {
    println!("cargo:rerun-if-env-changed=SFV_REPO_HASH");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=SFV_REPO_HASH={}", std::env::var("SFV_REPO_HASH").unwrap_or_default());
    // what /repo/build.rs reads from git and rustc, for the server's binary
    for k in ["VERGEN_RUSTC_SEMVER", "VERGEN_GIT_DESCRIBE", "VERGEN_GIT_SHA", "VERGEN_GIT_COMMIT_TIMESTAMP", "VERGEN_RUSTC_HOST_TRIPLE", "VERGEN_BUILD_TIMESTAMP", "VERGEN_CARGO_TARGET_TRIPLE", "VERGEN_CARGO_OPT_LEVEL", "VERGEN_CARGO_FEATURES"] {
        println!("cargo:rustc-env={k}=unknown");
    }
}
