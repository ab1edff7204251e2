//! Harness over the whole of Seafowl (compiled from /repo by ../seafowl).
#![feature(let_chains)]
#![allow(dead_code, unused_imports)]
mod checks;
mod sf;
mod spy;

fn main() {
    let _ = env!("SFV_REPO_HASH");
    let args: Vec<String> = std::env::args().collect();
    // nothing may depend on the time zone of the host
    std::env::set_var("TZ", "NPT-5:45");
    sfv::quiet_panics();
    let code = std::panic::catch_unwind(|| checks::dispatch(&args)).unwrap_or_else(|_| {
        eprintln!("the check itself failed: {}", sfv::last_panic_any());
        2
    });
    std::process::exit(code);
}
