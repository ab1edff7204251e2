use sfv::Ctx;

pub mod catalog;
pub mod dialect;
pub mod model;
pub mod pool;
pub mod pushdown;
pub mod sql;
pub mod wasm;

pub fn dispatch(args: &[String]) -> i32 {
    let id = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if id == "--child-crash" {
        return catalog::child_crash(&args[2..]);
    }
    if id == "--child-hostile" {
        return wasm::child_hostile(&args[2..]);
    }
    if id == "--child-sandbox" {
        return wasm::child_sandbox(&args[2..]);
    }
    if id == "--child-parse" {
        return sql::child_parse(&args[2..]);
    }
    if id == "--child-engine-parse" {
        return sql::child_engine_parse(&args[2..]);
    }
    let ctx = Ctx::new(id);
    let ended = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        match id {
            "C01" => catalog::c01(&ctx),
            "C02" => catalog::c02(&ctx),
            "C03" => catalog::c03(&ctx),
            "C04" => catalog::c04(&ctx),
            "C05" => catalog::c05(&ctx),
            "C06" => catalog::c06(&ctx),
            "C07" => catalog::c07(&ctx),
            "C08" => catalog::c08(&ctx),
            "C10" => sql::c10(&ctx),
            "C11" => sql::c11(&ctx),
            "C12" => sql::c12(&ctx),
            "C13" => sql::c13(&ctx),
            "C14" => {
                ctx.rule("one evaluation = one version text read as an instant; distinct by text");
                sql::c14_versions(&ctx)
            }
            "C15" => sql::c15(&ctx),
            "C20" => wasm::c20(&ctx),
            "C21" => wasm::c21(&ctx),
            "C22" => wasm::c22(&ctx),
            "C35" => pool::c35(&ctx),
            "C25" => pushdown::c25(&ctx),
            _ => {
                eprintln!("unknown check {id}");
                return Some(2);
            }
        }
        None
    }));
    match ended {
        Ok(Some(code)) => return code,
        Ok(None) => {}
        Err(p) => ctx.stopped(p),
    }
    ctx.finish()
}
