//! Extract functions of /repo into a Verus file.
//!
//!   extract REPO TEMPLATE OUT.rs OUT.json [--external NAME]... [--probe]
//!
//! The template is Verus text in which `@@fn`, `@@struct`, `@@enum` and `@@const` blocks are replaced by
//! the items of the same name found in REPO, translated by the rules of `tr.rs`.
mod derive;
mod find;
mod rules;
mod template;
mod tr;

use serde_json::json;
use std::collections::{HashMap, HashSet};
use template::Item;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, tpl, out_rs, out_json) = (&args[1], &args[2], &args[3], &args[4]);
    let mut external: HashSet<String> = HashSet::new();
    let mut probe = false;
    let mut i = 5;
    while i < args.len() {
        match &args[i][..] {
            "--external" => { external.insert(args[i + 1].clone()); i += 1; }
            "--probe" => probe = true,
            o => panic!("unknown option {}", o),
        }
        i += 1;
    }
    let items = template::parse(tpl);
    let mut files: HashMap<String, Result<find::Source, String>> = HashMap::new();
    let mut out = String::new();
    let mut funcs = vec![];
    let mut cfg = tr::Config::default();
    for it in items {
        let line0 = out.matches('\n').count() + 1;
        match it {
            Item::Text(t) => out.push_str(&t),
            Item::Config(k, v) => cfg.set(&k, &v),
            Item::Def { kind, file, name, opts } => {
                let src = files.entry(file.clone()).or_insert_with(|| find::Source::load(repo, &file));
                let r = match src { Ok(s) => s.item(&kind, &name).and_then(|i| tr::item(&i, &cfg, &opts)), Err(e) => Err(e.clone()) };
                match r {
                    Ok(t) => { out.push_str(&t); out.push('\n'); funcs.push(json!({"kind": kind, "name": name, "file": file, "status": "extracted", "gen": [line0, out.matches('\n').count() + 1]})); }
                    Err(e) => funcs.push(json!({"kind": kind, "name": name, "file": file, "status": "lost", "reason": e})),
                }
            }
            Item::Fn(spec) if spec.given => {
                let attrs = if spec.attrs.is_empty() { String::new() } else { format!("{}\n", spec.attrs) };
                out.push_str(&format!("{}#[verifier::external_body]\n{}\n{}\n{{ unimplemented!() }}\n", attrs, spec.sig, spec.spec));
            }
            Item::Fn(mut spec) => {
                let auto = spec.start.is_empty() && spec.end.is_empty() && spec.after_let.is_empty() && spec.before.is_empty() && spec.loops.is_empty();
                // Contradictory assumptions on the way to the end of a body would make this assertion hold.
                if probe { spec.end.push_str("    proof { assert(false); }\n"); }
                let src = files.entry(spec.file.clone()).or_insert_with(|| find::Source::load(repo, &spec.file));
                let found = match src { Ok(s) => s.function(&spec.locator), Err(e) => Err(e.clone()) };
                let id = spec.id();
                let mut rec = json!({"kind": "fn", "name": id, "file": spec.file, "locator": spec.locator, "properties": spec.props});
                let mut body = None;
                let mut reason = String::new();
                if let Ok(f) = &found {
                    rec["src"] = json!([f.line0, f.line1]);
                    rec["skeleton"] = json!(find::skeleton(&f.block));
                }
                if external.contains(&id) {
                    reason = "outside of the supported subset (reported by the verifier)".into();
                } else {
                    match found.and_then(|f| tr::function(&f, &spec, &cfg)) {
                        Ok((b, notes)) => { body = Some(b); rec["notes"] = json!(notes); }
                        Err(e) => reason = e,
                    }
                }
                let attrs = if spec.attrs.is_empty() { String::new() } else { format!("{}\n", spec.attrs) };
                let sp = spec.spec.clone();
                match body {
                    Some(b) => {
                        // Verified from the contract alone: no proof text that a restructured body could miss.
                        rec["auto"] = json!(auto && !b.0.contains("while ") && !b.0.contains("loop\n"));
                        out.push_str(&format!("{}#[verifier::loop_isolation(false)]\n{}\n{}\n{}\n", attrs, spec.sig, sp, b.0));
                        for l in &b.1 { out.push_str(l); out.push('\n'); }
                        rec["status"] = json!("extracted");
                    }
                    None => {
                        out.push_str(&format!("{}#[verifier::external_body]\n{}\n{}\n{{ unimplemented!() }}\n", attrs, spec.sig, spec.spec));
                        rec["status"] = json!("lost");
                        rec["reason"] = json!(reason);
                    }
                }
                rec["gen"] = json!([line0, out.matches('\n').count() + 1]);
                funcs.push(rec);
            }
        }
    }
    out.push_str("fn main() {}\n");
    std::fs::write(out_rs, out).expect("output");
    std::fs::write(out_json, serde_json::to_string_pretty(&json!({"items": funcs})).unwrap()).expect("output");
}
