//! Runs the real zarr crate on generated inputs against independent oracles.
//!
//!   replay run ID --tier quick|thorough --seed N [--finding CLASS]...   JSON report on stdout
//!   replay case FILE                                                    re-run one recorded case
mod chunks; mod codecs; mod crash; mod docs; mod dtype; mod elem; mod faults; mod fsmap; mod grid; mod keys; mod nodes; mod regions; mod store; mod sysfaults; mod util; mod version;
use serde_json::json;
use util::Ctx;

fn dispatch(id: &str, ctx: &mut Ctx) -> bool {
    ctx.scale = match id {
        "C02" | "C03" | "C09" | "C10" | "C11" | "C21" => (20, 200),
        "C04" | "C05" => (10, 60),
        "C07" | "C16" => (5, 30),
        "C01" | "C12" | "C13" => (3, 12),
        "C15" => (2, 12),
        "C17" => (2, 24),
        _ => (1, 12),
    };
    match id {
        "C01" => grid::c01(ctx), "C02" => grid::c02(ctx), "C03" => grid::c03(ctx),
        "C04" => regions::c04(ctx), "C05" => regions::c05(ctx),
        "C06" => chunks::c06(ctx), "C07" => chunks::c07(ctx), "C08" => codecs::c08(ctx),
        "C09" => dtype::c09(ctx), "C10" => keys::c10(ctx), "C11" => keys::c11(ctx),
        "C12" => nodes::c12(ctx), "C13" => nodes::c13(ctx), "C14" => nodes::c14(ctx), "C15" => nodes::c15(ctx),
        "C16" => version::c16(ctx), "C17" => fsmap::c17(ctx), "C18" => faults::c18(ctx), "C19" => crash::c19(ctx), "C20" => crash::c20(ctx), "C21" => docs::c21(ctx),
        _ => return false,
    }
    true
}

/// A scratch directory of an unprivileged user, whose identity this process then takes.
fn contain() -> (std::path::PathBuf, bool) {
    let base = std::env::var("REPLAY_BASE").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let dir = base.join(format!("zarr-replay-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    std::env::set_var("REPLAY_SCRATCH", &dir);
    std::env::set_var("TMPDIR", &dir);
    let c = std::ffi::CString::new(dir.to_str().unwrap()).unwrap();
    let dropped = unsafe {
        if libc::geteuid() == 0 {
            libc::chown(c.as_ptr(), 65534, 65534);
            libc::setgroups(0, std::ptr::null());
            libc::setgid(65534) == 0 && libc::setuid(65534) == 0
        } else { true }
    };
    let dropped = dropped && unsafe { libc::geteuid() } != 0;
    let _ = std::env::set_current_dir(&dir);
    (dir, dropped)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id: String;
    let (mut tier, mut seed, mut only, mut findings, mut expect) = ("quick".to_string(), 1u64, None, vec![], false);
    match args.get(1).map(|s| &s[..]) {
        Some("run") => {
            id = args[2].clone();
            let mut i = 3;
            while i < args.len() {
                match &args[i][..] {
                    "--tier" => tier = args[i + 1].clone(),
                    "--seed" => seed = args[i + 1].parse().expect("seed"),
                    "--finding" => findings.push(args[i + 1].clone()),
                    o => panic!("unknown option {}", o),
                }
                i += 2;
            }
        }
        Some("case") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("JSON");
            id = v["property"].as_str().unwrap().into();
            tier = v["tier"].as_str().unwrap_or("quick").into();
            seed = v["seed"].as_u64().unwrap_or(1);
            only = Some(v["case"].as_str().expect("replay file without a case").to_string());
            expect = true;
        }
        _ => { eprintln!("usage: replay run ID ... | replay case FILE"); std::process::exit(2); }
    }
    util::install_hook();
    let (dir, dropped) = contain();
    let mut ctx = Ctx::new(tier == "thorough", seed, only, findings);
    ctx.unprivileged = dropped;
    let known = dispatch(&id, &mut ctx);
    let _ = std::fs::remove_dir_all(&dir);
    if !known { eprintln!("unknown property {}", id); std::process::exit(2); }
    let fj = |f: &util::Failure| json!({"group": f.group, "case": f.key, "class": f.class, "detail": f.detail});
    let out = json!({
        "property": id, "tier": tier, "seed": seed, "evaluations": ctx.evaluations, "nontrivial": ctx.nontrivial.len(),
        "samples": ctx.samples, "groups": ctx.groups.iter().map(|(g, n)| json!({"group": g, "cases": n})).collect::<Vec<_>>(),
        "failures": ctx.failures.iter().map(fj).collect::<Vec<_>>(), "found": ctx.found.iter().map(fj).collect::<Vec<_>>(),
        "notes": ctx.notes, "unprivileged": dropped,
    });
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
    if expect && ctx.evaluations == 0 { eprintln!("no such case"); std::process::exit(2); }
    if !ctx.failures.is_empty() { std::process::exit(1); }
}
