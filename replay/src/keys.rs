//! C10, C11: keys and containment.
use crate::elem::{Meta, CODECS};
use crate::store::*;
use crate::util::*;
use crate::{check, check_eq};
use std::collections::HashMap;
use std::io::Write;
use zarr::prelude::*;
use zarr::storage::{get_chunk_key, ListableStore, ReadableStore, WriteableStore};
use zarr::Hierarchy;

pub const NAMES: &[&str] = &["a", "b", "foo", "a.b", "a.", ".a", "..a", "...", "a..b", "x.array", "x.group", "x.array.json", "c0", "c", "c1", "0", "zarr.json", "data", "meta", "root", "with space", "ünï", "A", "-", "a.b.c"];

fn ostr(p: &str) -> &str { p.trim_matches('/') }
fn want_chunk(p: &str, pos: &[u64], sep: &str) -> String {
    let p = ostr(p);
    let coords: Vec<String> = pos.iter().map(|c| c.to_string()).collect();
    if p.is_empty() { format!("/data/root/c{}", coords.join(sep)) } else { format!("/data/root/{}/c{}", p, coords.join(sep)) }
}
fn want_meta(p: &str, kind: &str, suffix: &str) -> String {
    let p = ostr(p);
    let suffix = suffix.strip_prefix('.').unwrap_or(suffix);
    if p.is_empty() { format!("/meta/root.{}.{}", kind, suffix) } else { format!("/meta/root/{}.{}.{}", p, kind, suffix) }
}

fn paths(ctx: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into()];
    for n in NAMES { v.push(n.to_string()); }
    for a in NAMES { for b in NAMES.iter().take(if ctx.thorough { NAMES.len() } else { 14 }) { v.push(format!("{}/{}", a, b)); } }
    let mut r = ctx.rng(1001);
    for _ in 0..ctx.n(100) { let k = r.range(3, 6); v.push((0..k).map(|_| *r.pick(NAMES)).collect::<Vec<_>>().join("/")); }
    v
}

pub fn c10(ctx: &mut Ctx) {
    let ps = paths(ctx);
    let seps = ["/", "."];
    let coords: Vec<u64> = vec![0, 1, 2, 9, 10, 11, 99, 100, 101, 110, 1 << 32, u64::MAX - 1, u64::MAX];
    let metas: Vec<ArrayMetadata> = seps.iter().map(|s| { let mut m = Meta::new(&[1], &[1], "<i4"); m.sep = *s; m.build() }).collect();
    let store = MemStore::new();
    // Exact keys.
    let mut r = ctx.rng(1002);
    for p in &ps {
        let variants = [p.clone(), format!("/{}", p), format!("{}/", p), format!("//{}//", p), format!("///{}", p)];
        ctx.case("metadata keys", || format!("{:?}", p), p.is_empty(), || {
            for v in &variants {
                check_eq!(store.array_metadata_key(v).to_str(), Some(&want_meta(p, "array", ".json")[..]), "array metadata key of {:?}", v);
                check_eq!(store.group_metadata_key(v).to_str(), Some(&want_meta(p, "group", ".json")[..]), "group metadata key of {:?}", v);
                let d = store.data_path_key(v);
                let want = if p.is_empty() { "/data/root".to_string() } else { format!("/data/root/{}", p) };
                check_eq!(norm(d.to_str().unwrap()), want, "data key of {:?}", v);
            }
            for suffix in [".zmeta", "json", ".a.b"] {
                let s = MemStore::with_suffix(suffix);
                check_eq!(s.array_metadata_key(p).to_str(), Some(&want_meta(p, "array", suffix)[..]), "array metadata key with suffix {}", suffix);
                check_eq!(s.group_metadata_key(p).to_str(), Some(&want_meta(p, "group", suffix)[..]), "group metadata key with suffix {}", suffix);
            }
            Ok(())
        });
        for (si, sep) in seps.iter().enumerate() { for n in [0usize, 1, 2, 3, 4, 6, 7, 9] {
            let pos: Vec<u64> = (0..n).map(|_| if r.chance(1, 2) { *r.pick(&coords) } else { r.next() >> r.below(64) }).collect();
            let other = { let mut m = Meta::new(&vec![1 + r.below(100); n], &vec![1 + r.below(9) as u32; n], *r.pick(&["u1", ">f8", "bool"])); m.sep = *sep; m.row_major = false; m.codec = *r.pick(CODECS); m.build() };
            ctx.case("chunk keys", || format!("{:?} {:?} separator {:?}", p, pos, sep), n == 0, || {
                for v in &variants { for m in [&metas[si], &other] { check_eq!(get_chunk_key(v, m, &pos), want_chunk(p, &pos, sep), "chunk key of {:?}", v); } }
                Ok(())
            });
        } }
    }
    for (si, sep) in ["", "--", "/", "c", "0", ".", "::", "-", "_", "//", "./", "%", " ", "\u{e9}"].iter().enumerate() {
        ctx.case("chunk keys", || format!("separator {:?}", sep), false, || {
            let _ = si;
            let mut m = Meta::new(&[1], &[1], "<i4"); m.sep = *sep;
            let m = m.build();
            for pos in [vec![1u64, 2, 3], vec![0, 0], vec![12]] { check_eq!(get_chunk_key("q", &m, &pos), want_chunk("q", &pos, sep), "chunk key"); }
            Ok(())
        });
    }
    // Injectivity over small positions and over paths.
    for (si, sep) in seps.iter().enumerate() { for n in 0..=3usize {
        ctx.case("distinct chunk keys", || format!("rank {} separator {:?}", n, sep), n == 0, || {
            let small: Vec<u64> = vec![0, 1, 2, 10, 11, 12, 21, 101, 110, 111, 112, u64::MAX];
            let mut seen: HashMap<String, (String, Vec<u64>)> = HashMap::new();
            for p in ps.iter().take(60) { for t in tuples(n, if n == 3 { 6 } else { small.len() }) {
                let pos: Vec<u64> = t.iter().map(|&i| small[i]).collect();
                if let Some(o) = seen.insert(get_chunk_key(p, &metas[si], &pos), (p.clone(), pos.clone())) { return Err(format!("{:?} and {:?} share a key", o, (p, pos))); }
            } }
            Ok(())
        });
    } }
    ctx.case("distinct metadata keys", || format!("{} paths", ps.len()), false, || {
        let mut seen: HashMap<String, String> = HashMap::new();
        let mut done = std::collections::HashSet::new();
        for p in &ps {
            if !done.insert(p.clone()) { continue; }
            for (k, key) in [("array", store.array_metadata_key(p)), ("group", store.group_metadata_key(p))] {
                let key = key.to_str().unwrap().to_string();
                if let Some(o) = seen.insert(key.clone(), format!("{} {:?}", k, p)) { return Err(format!("{} and {} {:?} share the key {}", o, k, p, key)); }
            }
        }
        Ok(())
    });
    ctx.case("uri", || "chunk URIs of the filesystem store".into(), false, || {
        let f = FsStore::new();
        let b = f.base();
        for p in ps.iter().take(40) { for pos in [vec![], vec![3u64], vec![1, 2, 3]] {
            check_eq!(f.h.get_chunk_uri(p, &metas[0], &pos).map_err(|e| e.to_string())?, format!("file://{}{}", b.to_str().unwrap(), want_chunk(p, &pos, "/")), "uri");
        } }
        Ok(())
    });
    // Operations use those keys: one chunk, array and group per store.
    for p in ps.iter().take(30) {
        ctx.case("keys in use", || format!("{:?}", p), false, || {
            let s = MemStore::new();
            let m = Meta::new(&[4, 4], &[2, 2], "u1").build();
            let e = |e: std::io::Error| e.to_string();
            s.create_array(&format!("/{}/", p), &m).map_err(e)?;
            s.write_chunk(p, &m, &VecDataChunk::new(zarr::smallvec::smallvec![1, 0], vec![1u8, 2, 3, 4])).map_err(e)?;
            let mut want = vec![want_meta(p, "array", ".json"), want_chunk(p, &[1, 0], "/")];
            want.sort();
            check_eq!(s.snapshot().keys().cloned().collect::<Vec<_>>(), want, "keys");
            check!(s.read_chunk::<u8>(&format!("{}/", p), &m, zarr::smallvec::smallvec![1, 0]).map_err(e)?.is_some(), "chunk not found under an equivalent path");
            let g = MemStore::new();
            g.create_group(p).map_err(e)?;
            check_eq!(g.snapshot().keys().cloned().collect::<Vec<_>>(), vec![want_meta(p, "group", ".json")], "group keys");
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C11

/// Lexical walk of a key below the base: None when it ever steps above.
fn walk(key: &str) -> Option<Vec<String>> {
    let mut st: Vec<String> = vec![];
    for c in key.split('/') { match c { "" | "." => (), ".." => { st.pop()?; } c => st.push(c.to_string()) } }
    Some(st)
}

fn contained(h: &FilesystemHierarchy, base: &std::path::Path, key: &str) -> Result<(), String> {
    let want = walk(key);
    match h.uri(key) {
        Err(e) => check!(want.is_none(), "contained key rejected: {}", e),
        Ok(u) => {
            let p = u.strip_prefix("file://").ok_or("uri is not a file uri")?;
            let rest = p.strip_prefix(base.to_str().unwrap()).ok_or_else(|| format!("resolves to {}, outside the base", p))?;
            check!(rest.is_empty() || rest.starts_with('/'), "resolves to {}, outside the base", p);
            let got = walk(rest).ok_or_else(|| format!("resolves to {}, which leaves the base", p))?;
            check!(want.is_some(), "key that leaves the base is accepted as {}", p);
            check_eq!(Some(got), want, "resolution");
        }
    }
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    let f = FsStore::new();
    let base = f.base();
    let comps = ["..", ".", "a", "", "...", "b.c"];
    let n = if ctx.thorough { 7 } else { 5 };
    for len in 0..=n {
        let k = if len > 5 { 3 } else if len > 4 { 4 } else { comps.len() };
        for t in tuples(len, k) {
            let body: String = t.iter().map(|&i| comps[i]).collect::<Vec<_>>().join("/");
            for lead in ["", "/", "//"] {
                let key = format!("{}{}", lead, body);
                ctx.case("keys", || format!("{:?}", key), !key.contains(".."), || contained(&f.h, &base, &key));
            }
        }
    }
    let mut r = ctx.rng(1101);
    for _ in 0..ctx.n(3000) {
        let k = r.range(1, 14);
        let mut key: String = (0..k).map(|_| *r.pick(&["..", "..", "a", "data", "root", ".", "", "x..", "..x", " ..", ".. ", "\\..", "..\\"])).collect::<Vec<_>>().join("/");
        if r.chance(1, 3) { key.insert(0, '/'); }
        ctx.case("random keys", || format!("{:?}", key), !key.contains(".."), || contained(&f.h, &base, &key));
    }
    for key in ["/etc/passwd", "//etc/passwd", "~", "$HOME", "C:\\x", "file:///etc", "a/../..", "/..", "/data/root/../../../e", "..", "../", "/../", "a/b/../../../c/d", "a/../../base/x", "../base/x", "./..", "..//a"] {
        ctx.case("special keys", || format!("{:?}", key), false, || contained(&f.h, &base, key));
    }
    // A long run of descents does not buy an escape later, and the other way round.
    for d in [1usize, 2, 10, 100, 1000] {
        for key in [format!("{}{}", "a/".repeat(d), "../".repeat(d)), format!("{}{}", "a/".repeat(d), "../".repeat(d + 1)), format!("{}{}", "../".repeat(d), "a/".repeat(d)), format!("{}x", "a/../".repeat(d))] {
            ctx.case("deep keys", || format!("{} bytes {}..", key.len(), &key[..key.len().min(12)]), false, || contained(&f.h, &base, &key));
        }
    }
    // Node paths.
    let m = Meta::new(&[4], &[2], "u1").build();
    for p in ["../x", "../../x", "../../../x", "a/../../../../x", "/..", "../../../../../../tmp/x", "a/b/../../..", "../../data/root/x"] {
        ctx.case("node paths", || format!("{:?}", p), false, || {
            for key in [format!("/data/root/{}/c0", p.trim_matches('/')), f.h.array_metadata_key(p).to_str().unwrap().to_string(), f.h.group_metadata_key(p).to_str().unwrap().to_string()] { contained(&f.h, &base, &key)?; }
            if let Ok(u) = f.h.get_chunk_uri(p, &m, &[0]) {
                let rest = u.strip_prefix(&format!("file://{}/", base.to_str().unwrap())).ok_or_else(|| format!("chunk uri {} is outside", u))?;
                check!(walk(rest).is_some(), "chunk uri {} is outside", u);
            }
            Ok(())
        });
    }
    // Every operation, against sentinels in the scratch directory around the base. Runs unprivileged
    // and only with keys that, even if resolved naively, stay inside the scratch directory.
    if unsafe { libc::geteuid() } == 0 { ctx.notes.push("still root: destructive containment cases skipped".into()); return; }
    for key in ["../out/file", "/../out/file", "a/../../out/file", "a/b/../../../out/file", "./../out/file", "../out", "a/../../out", "x/../../base/../out/file", "/../out/new", "a/../../out/new/deep"] {
        for op in ["exists", "get", "set", "erase", "erase_prefix", "list_dir", "get_attributes"] {
            ctx.case("operations", || format!("{} {:?}", op, key), false, || {
                let f = FsStore::new();
                let out = f.dir.0.join("out");
                std::fs::create_dir_all(&out).unwrap();
                std::fs::write(out.join("file"), b"sentinel").unwrap();
                std::fs::create_dir_all(f.base().join("a/b")).unwrap();
                let before = dir_map(&f.dir.0);
                let ok = match op {
                    "exists" => ReadableStore::exists(&f.h, key).ok().map(|b| b),
                    "get" => f.h.get(key).ok().map(|o| o.is_some()),
                    "set" => f.h.set(key, |mut w| w.write_all(b"evil")).ok().map(|_| true),
                    "erase" => f.h.erase(key).ok(),
                    "erase_prefix" => f.h.erase_prefix(key).ok(),
                    "list_dir" => f.h.list_dir(key).ok().map(|_| true),
                    _ => f.h.get_attributes(key).ok().map(|_| true),
                };
                check!(dir_map(&f.dir.0) == before, "files outside the base changed");
                check!(out.is_dir(), "directory outside the base vanished");
                check!(ok.is_none(), "operation on a key outside the base was not rejected");
                Ok(())
            });
        }
    }
}
