//! C16: version and extension gates.
use crate::elem::Meta;
use crate::store::*;
use crate::util::*;
use crate::{check, check_eq};
use serde_json::{json, Value};
use zarr::prelude::*;

const URI: &str = "https://purl.org/zarr/spec/protocol/core/";

fn entry(format: &str, ext: Value) -> Value {
    json!({"zarr_format": format, "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_key_suffix": ".json", "extensions": ext})
}

/// Is a plain dotted version compatible with 3.0.0? (`a`, `a.b` and `a.b.c` accept versions at
/// least that, up to the next major version.)
fn compatible(v: &str) -> Option<bool> {
    let parts: Option<Vec<u64>> = v.split('.').map(|p| if p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit()) || (p.len() > 1 && p.starts_with('0')) { None } else { p.parse().ok() }).collect();
    match parts { Some(p) if p.len() <= 3 => Some(p[0] == 3 && p[1..].iter().all(|x| *x == 0)), _ => None }
}

fn both(doc: &[u8], want: Option<bool>) -> Result<(), String> {
    let dir = Scratch::new();
    let f = dir.0.join("zarr.json");
    std::fs::write(&f, doc).unwrap();
    let before = dir_map(&dir.0);
    for i in 0..4 {
        let r = if i % 2 == 0 { FilesystemHierarchy::open(&dir.0) } else { FilesystemHierarchy::open_or_create(&dir.0) };
        let name = if i % 2 == 0 { "open" } else { "open_or_create" };
        check!(dir_map(&dir.0) == before, "{} changed an existing entry point or created files", name);
        match (want, &r) {
            (Some(true), Err(e)) => return Err(format!("{} refused a compatible entry point: {}", name, e)),
            (Some(false), Ok(_)) => return Err(format!("{} accepted {}", name, String::from_utf8_lossy(doc))),
            _ => (),
        }
    }
    Ok(())
}

fn ext(i: usize, mu: bool) -> Value {
    let mut v = json!({"extension": format!("http://example.org/ext/{}", i), "must_understand": mu});
    if i % 2 == 1 { v["configuration"] = json!({"k": [i, {"must_understand": !mu}]}); }
    v
}

pub fn c16(ctx: &mut Ctx) {
    crate::sysfaults::run(ctx, |name| name.starts_with("open"));
    let mut versions: Vec<String> = vec![];
    for a in 0..=11u32 { versions.push(format!("{}", a)); for b in 0..=4 { versions.push(format!("{}.{}", a, b)); for c in 0..=2 { versions.push(format!("{}.{}.{}", a, b, c)); } } }
    for v in ["30.0", "13.0", "33", "3.10", "3.0.10", "3.00x", "0.3.0", "18446744073709551615.0"] { versions.push(v.into()); }
    for v in &versions {
        for prefix in [URI, "", "http://example.org/zarr/3.0/", "http://example.org/zarr/9.9/", "a b/"] {
            ctx.case("version", || format!("{}{}", prefix, v), false, || {
                let doc = entry(&format!("{}{}", prefix, v), json!([]));
                both(doc.to_string().as_bytes(), compatible(v))
            });
        }
    }
    for v in ["", "abc", "v3.0", "3.0/", "3.x.y.z", "three", "3..0", "3.0.0.0", "-3.0", "3,0", "2.0/3", "/", "3.0/abc", "3.0?", "%33.0"] {
        ctx.case("no version", || format!("{}{}", URI, v), false, || both(entry(&format!("{}{}", URI, v), json!([])).to_string().as_bytes(), Some(v == "2.0/3")));
    }
    // Extensions of the entry point and of array metadata, in every position.
    let max = if ctx.thorough { 7 } else { 5 };
    for n in 0..=max { for mask in 0..(1u32 << n) {
        let list: Vec<Value> = (0..n).map(|i| ext(i, mask >> i & 1 == 1)).collect();
        ctx.case("entry point extensions", || format!("{} with must_understand {:b}", n, mask), n == 0, || {
            both(entry(&format!("{}3.0", URI), json!(list)).to_string().as_bytes(), Some(mask == 0))
        });
        ctx.case("array extensions", || format!("{} with must_understand {:b}", n, mask), n == 0, || {
            let mut m = Meta::new(&[4, 4], &[2, 2], "<f4");
            m.extensions = json!(list);
            m.attributes = json!({"must_understand": true, "extensions": [{"must_understand": true}]});
            m.row_major = mask % 2 == 0;
            m.fill = Some(json!(1.5));
            m.codec = "gzip";
            let s = MemStore::new();
            s.map.borrow_mut().insert("/meta/root/a/b.array.json".into(), m.json().to_string().into_bytes());
            let r = s.get_array_metadata("/a/b");
            if mask != 0 {
                check!(r.is_err(), "array metadata with an extension that must be understood was returned");
            } else {
                let m2 = r.map_err(|e| e.to_string())?;
                check_eq!(m2, m.build(), "array metadata");
                check_eq!(serde_json::to_value(&m2).unwrap(), m.json(), "array metadata as JSON");
                check_eq!(s.array_exists("a/b").map_err(|e| e.to_string())?, true, "array_exists");
            }
            Ok(())
        });
    } }
    // Documents that do not parse.
    let good = entry(&format!("{}3.0", URI), json!([])).to_string();
    let mut docs: Vec<Vec<u8>> = vec![];
    for i in 0..good.len() { docs.push(good.as_bytes()[..i].to_vec()); }
    docs.push(format!("{}x", good).into_bytes());
    docs.push(format!("{}{}", good, good).into_bytes());
    docs.push(b"[]".to_vec());
    docs.push(b"null".to_vec());
    docs.push(b"\xff\xfe{}".to_vec());
    for k in ["zarr_format", "metadata_encoding", "metadata_key_suffix", "extensions"] {
        let mut v = entry(&format!("{}3.0", URI), json!([]));
        v.as_object_mut().unwrap().remove(k);
        docs.push(v.to_string().into_bytes());
        let mut v = entry(&format!("{}3.0", URI), json!([]));
        v[k] = json!(3);
        docs.push(v.to_string().into_bytes());
    }
    docs.push(entry(&format!("{}3.0", URI), json!([{"extension": "x", "must_understand": "true"}])).to_string().into_bytes());
    docs.push(entry(&format!("{}3.0", URI), json!([{"must_understand": true}])).to_string().into_bytes());
    for d in docs {
        ctx.case("malformed entry point", || String::from_utf8_lossy(&d).into_owned(), d.is_empty(), || both(&d, Some(false)));
    }
    ctx.case("well-formed entry point", || "whitespace and unknown fields".into(), false, || {
        both(format!("  {}\n", good).as_bytes(), Some(true))
    });
    ctx.case("missing", || "open of a missing hierarchy".into(), false, || {
        let d = Scratch::new();
        check!(FilesystemHierarchy::open(d.0.join("x")).is_err(), "open of a missing directory succeeded");
        check!(FilesystemHierarchy::open(&d.0).is_err(), "open of an empty directory succeeded");
        check!(std::fs::read_dir(&d.0).unwrap().next().is_none(), "open created something");
        Ok(())
    });
    for sub in ["", "x", "x/y/z"] {
        ctx.case("created", || format!("open_or_create at {:?}", sub), false, || {
            let d = Scratch::new();
            let p = d.0.join(sub);
            let h = FilesystemHierarchy::open_or_create(&p).map_err(|e| e.to_string())?;
            let bytes = std::fs::read(p.join("zarr.json")).map_err(|e| format!("entry point: {}", e))?;
            let v: Value = serde_json::from_slice(&bytes).map_err(|e| e.to_string())?;
            check_eq!(v, entry(&format!("{}3.0", URI), json!([])), "created entry point");
            h.create_group("g").map_err(|e| e.to_string())?;
            drop(h);
            let h = FilesystemHierarchy::open(&p).map_err(|e| format!("cannot reopen: {}", e))?;
            check!(h.exists("g").unwrap(), "group lost");
            let h2 = FilesystemHierarchy::open_or_create(&p).map_err(|e| format!("cannot reopen: {}", e))?;
            check!(h2.exists("g").unwrap(), "group lost");
            check!(std::fs::read(p.join("zarr.json")).unwrap() == bytes, "reopening changed the entry point");
            check!(h2.get_version().map_err(|e| e.to_string())?.matches(&zarr::VERSION), "version");
            Ok(())
        });
    }
}
