//! Harness over the modules of /repo that need none of the unavailable forks. The modules are
//! compiled from /repo's working tree as they stand.
#![feature(let_chains)]
#![allow(dead_code, unused_imports, unused_macros)]

#[macro_use]
extern crate lazy_static;

#[path = "/repo/src/datafusion/mod.rs"]
pub mod datafusion;
#[path = "/repo/src/memory_pool.rs"]
pub mod memory_pool;
#[path = "/repo/src/nodes.rs"]
pub mod nodes;
#[path = "/repo/src/repository/mod.rs"]
pub mod repository;
#[path = "/repo/src/version.rs"]
pub mod version;
#[path = "/repo/src/wasm_udf/mod.rs"]
pub mod wasm_udf;

pub mod cli {
    #[path = "/repo/src/cli/commands.rs"]
    pub mod commands;
    #[path = "/repo/src/cli/helper.rs"]
    pub mod helper;
}
pub mod frontend {
    #[path = "/repo/src/frontend/http_utils.rs"]
    pub mod http_utils;
}
pub mod osutils {
    #[path = "/repo/src/object_store/utils.rs"]
    pub mod utils;
}
#[path = "/repo/datafusion_remote_tables/src/filter_pushdown.rs"]
pub mod filter_pushdown;

pub mod catalog {
    include!(concat!(env!("OUT_DIR"), "/catalog_consts.rs"));
}

mod checks;

fn main() {
    let _ = env!("SFV_REPO_HASH");
    let args: Vec<String> = std::env::args().collect();
    // nothing may depend on the time zone of the host
    std::env::set_var("TZ", "NPT-5:45");
    sfv::quiet_panics();
    let code = checks::dispatch(&args);
    std::process::exit(code);
}
