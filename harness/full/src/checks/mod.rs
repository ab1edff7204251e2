use sfv::Ctx;

pub mod cli;
pub mod conc;
pub mod crash;
pub mod config;
pub mod dml;
pub mod etag;
pub mod external;
pub mod remote;
pub mod metrics;
pub mod flight;
pub mod http;
pub mod httperr;
pub mod model;
pub mod httpstore;
pub mod listings;
pub mod mock;
pub mod prefix;
pub mod s3mock;
pub mod settings;
pub mod readonly;
pub mod results;
pub mod drops;
pub mod store;
pub mod sync;
pub mod travel;
pub mod writes;

pub fn dispatch(args: &[String]) -> i32 {
    let id = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let ctx = Ctx::new(id);
    let ended = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        match id {
            "C30" => store::c30(&ctx),
            "C31" => store::c31(&ctx),
            "C43" => readonly::c43(&ctx),
            "C44" => etag::c44(&ctx),
            "C45" => results::c45(&ctx),
            "C50" => dml::c50(&ctx),
            "C52" => conc::c52(&ctx),
            "C53" => drops::c53(&ctx),
            "C32" => httpstore::c32(&ctx),
            "C33" => settings::c33(&ctx),
            "C57" => cli::c57(&ctx),
            "C56" => crash::c56(&ctx),
            "crash-child" => return Some(crash::child_main(args)),
            "probe" => return Some(settings::probe_main(args)),
            "C54" => listings::c54(&ctx),
            "C60" => sync::c60(&ctx),
            "C14" => travel::c14(&ctx),
            "C55" => external::c55(&ctx),
            "C26" => remote::c26(&ctx),
            "C64" => metrics::c64(&ctx),
            "C63" => flight::c63(&ctx),
            "C62" => sync::c62(&ctx),
            "C61" => sync::c61(&ctx),
            "C34" => prefix::c34(&ctx),
            "C41" => config::c41(&ctx),
            "C51" => writes::c51(&ctx),
            "C42" => httperr::c42(&ctx),
            "C40" => http::c40(&ctx),
            _ => {
                eprintln!("unknown check {id}");
                return Some(2);
            }
        }
        None
    }));
    match ended {
        Ok(Some(code)) => return code,
        Ok(None) => {}
        Err(p) => ctx.stopped(p),
    }
    ctx.finish()
}

/// a runtime with real parallelism
pub fn rt(workers: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap()
}
