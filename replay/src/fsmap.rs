//! C17: the filesystem store against a map.
use crate::store::*;
use crate::util::*;
use crate::{check, check_eq};
use std::io::{Read, Write};
use zarr::prelude::*;
use zarr::storage::{ReadableStore, WriteableStore};

const SEGS: &[&str] = &["a", "ab", "abc", "b", "x.json", "c0", "1", "é", "a b", ".h", "..a", "...", "a~", "~", "#x#", "x.tmp", "x.lock", "_", "A", "a ", " a", "*", "a\\b", "%2F"];

fn alias(k: &str, r: &mut Rng) -> String {
    let k = &k[1..];
    match r.below(8) {
        0 => format!("/{}", k),
        1 => format!("//{}", k),
        2 => format!("./{}", k),
        3 => k.replace("/", "//"),
        4 => format!("/{}", k.replace("/", "/./")),
        5 => format!("zz/../{}", k).replacen("zz/../", if k.is_empty() { "" } else { "/" }, 1),
        _ => k.to_string(),
    }
}
fn random_key(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    format!("/{}", (0..n).map(|_| *r.pick(SEGS)).collect::<Vec<_>>().join("/"))
}

fn set(h: &FilesystemHierarchy, key: &str, v: &[u8], parts: &[usize], flush: bool) -> Result<(), std::io::Error> {
    h.set(key, |mut w| {
        let mut at = 0;
        for p in parts { let e = (at + p).min(v.len()); w.write_all(&v[at..e])?; at = e; }
        w.write_all(&v[at..])?;
        if flush { w.flush()?; }
        Ok(())
    })
}
fn get(h: &FilesystemHierarchy, key: &str) -> Result<Option<Vec<u8>>, String> {
    match h.get(key).map_err(|e| format!("get {:?}: {}", key, e))? {
        None => Ok(None),
        Some(mut r) => { let mut v = vec![]; r.read_to_end(&mut v).map_err(|e| format!("reading {:?}: {}", key, e))?; Ok(Some(v)) }
    }
}
fn compare(f: &FsStore, model: &Map, what: &str) -> Result<(), String> {
    let mut m = dir_map(&f.base());
    check!(m.remove("/zarr.json").is_some(), "{}: the entry point disappeared", what);
    if &m == model { return Ok(()); }
    for k in m.keys().chain(model.keys()) {
        if m.get(k) != model.get(k) {
            return Err(format!("{}: key {:?} holds {:?} bytes, expected {:?}", what, k, m.get(k).map(|v| v.len()), model.get(k).map(|v| v.len())));
        }
    }
    Ok(())
}

fn history(r: &mut Rng, steps: u64) -> Result<(), String> {
    let f = FsStore::new();
    let h = &f.h;
    // A neighbouring hierarchy that must not change.
    std::fs::write(f.dir.0.join("basement"), b"outside").unwrap();
    let mut model = Map::new();
    let mut pool: Vec<String> = (0..6).map(|_| random_key(r)).collect();
    for step in 0..steps {
        if r.chance(1, 5) { let i = r.below(6) as usize; pool[i] = random_key(r); }
        let key = match r.below(4) { 0 if !model.is_empty() => model.keys().nth(r.below(model.len() as u64) as usize).unwrap().clone(), _ => r.pick(&pool).clone() };
        let arg = alias(&key, r);
        let path = f.base().join(&key[1..]);
        let is_dir = path.is_dir();
        let blocked = { let mut p = path.parent().unwrap(); let mut b = false; while p != f.base() { if p.is_file() { b = true; } p = p.parent().unwrap(); } b };
        match r.below(10) {
            0..=3 => {
                let n = match r.below(6) { 0 => 0, 1 => r.below(5), 2 => 8191 + r.below(3), 3 => r.below(40000), _ => r.below(300) } as usize;
                let v = r.bytes(n);
                let parts: Vec<usize> = (0..r.below(4)).map(|_| r.below(n as u64 + 1) as usize).collect();
                let res = set(h, &arg, &v, &parts, r.chance(1, 2));
                let what = format!("step {}: set {:?} to {} bytes", step, arg, n);
                if is_dir || blocked {
                    check!(res.is_err(), "{} over a prefix or below a key succeeded", what);
                } else {
                    res.map_err(|e| format!("{}: {}", what, e))?;
                    model.insert(key.clone(), v);
                }
                compare(&f, &model, &what)?;
            }
            4 | 5 => {
                let got = get(h, &arg)?;
                check!(got.as_ref() == model.get(&key), "step {}: get {:?} returned {:?} bytes, expected {:?}", step, arg, got.map(|v| v.len()), model.get(&key).map(|v| v.len()));
                check_eq!(ReadableStore::exists(h, &arg).map_err(|e| e.to_string())?, model.contains_key(&key), "step {}: exists {:?}", step, arg);
                compare(&f, &model, "get")?;
            }
            6 | 7 => {
                let res = h.erase(&arg);
                let what = format!("step {}: erase {:?}", step, arg);
                if !is_dir {
                    check!(res.map_err(|e| format!("{}: {}", what, e))?, "{} reports the key still there", what);
                    model.remove(&key);
                }
                compare(&f, &model, &what)?;
                if !is_dir { check!(get(h, &arg)?.is_none(), "{}: still there", what); }
            }
            8 => {
                // A prefix of a key.
                let segs: Vec<&str> = key[1..].split('/').collect();
                let p = format!("/{}", segs[..r.range(1, segs.len() as u64) as usize].join("/"));
                let a = alias(&p, r);
                let what = format!("step {}: erase_prefix {:?}", step, a);
                check!(h.erase_prefix(&a).map_err(|e| format!("{}: {}", what, e))?, "{} reports the prefix still there", what);
                model.retain(|k, _| !under(k, &p));
                compare(&f, &model, &what)?;
                check!(!f.base().join(&p[1..]).exists(), "{}: prefix is still there", what);
            }
            _ => {
                // A value whose producer fails: an error is returned and no other key changes.
                let res = h.set(&arg, |_| Err(std::io::Error::new(std::io::ErrorKind::Other, "producer")));
                check!(res.is_err(), "step {}: set with a failing producer succeeded", step);
                if !is_dir && !blocked {
                    let _ = h.erase(&arg);
                    model.remove(&key);
                }
                compare(&f, &model, &format!("step {}: failing set {:?}", step, arg))?;
            }
        }
        for k in [&key, r.pick(&pool)] {
            check!(get(h, k)?.as_ref() == model.get(k), "step {}: key {:?} reads back wrong", step, k);
            check_eq!(ReadableStore::exists(h, k).map_err(|e| e.to_string())?, model.contains_key(k), "step {}: exists {:?}", step, k);
        }
    }
    check!(std::fs::read(f.dir.0.join("basement")).ok().as_deref() == Some(b"outside"), "a file outside of the hierarchy changed");
    // Another handle sees the same.
    let h2 = FilesystemHierarchy::open(f.base()).map_err(|e| e.to_string())?;
    for (k, v) in &model { check!(get(&h2, k)?.as_ref() == Some(v), "another handle reads key {:?} differently", k); }
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    let n = ctx.n(150);
    for i in 0..n {
        let r = ctx.rng(17_000 + i);
        ctx.case("history", || format!("#{}", i), false, || history(&mut r.clone(), 40));
    }
    // Every pair of lengths: no bytes of the previous value remain.
    for a in [0usize, 1, 2, 100, 8191, 8192, 8193, 20000] { for b in [0usize, 1, 2, 99, 100, 101, 8191, 8192, 8193, 20000] {
        ctx.case("overwrite", || format!("{} bytes by {}", a, b), false, || {
            let f = FsStore::new();
            for parts in [&[][..], &[1, 5][..], &[8192, 1][..]] { for flush in [false, true] {
                set(&f.h, "p/q", &vec![1; a], parts, flush).map_err(|e| e.to_string())?;
                set(&f.h, "/p/q", &vec![2; b], parts, flush).map_err(|e| e.to_string())?;
                check!(get(&f.h, "p/q")? == Some(vec![2; b]), "value differs after overwriting");
                check!(dir_map(&f.base())["/p/q"] == vec![2; b], "file differs after overwriting");
            } }
            Ok(())
        });
    } }
    for (a, b) in [(1usize << 20, 5usize), ((1 << 20) + 1, 7), (5 << 20, 0), (5 << 20, 1), (5 << 20, (1 << 20) + 3), (1, (5 << 20) + 1), (65_536, 65_535), (65_537, 65_536), (131_073, 1)] {
        ctx.case("overwrite", || format!("{} bytes by {}", a, b), false, || {
            let f = FsStore::new();
            set(&f.h, "p/q", &vec![1; a], &[1], true).map_err(|e| e.to_string())?;
            check!(get(&f.h, "p/q")? == Some(vec![1; a]), "value differs after writing");
            set(&f.h, "p/q", &vec![2; b], &[1], true).map_err(|e| e.to_string())?;
            check!(get(&f.h, "p/q")? == Some(vec![2; b]), "value differs after overwriting");
            check!(dir_map(&f.base())["/p/q"] == vec![2; b], "file differs after overwriting");
            Ok(())
        });
    }
    // Deep and wide trees.
    for (depth, wide) in [(3usize, 3usize), (7, 2), (8, 2), (9, 2), (10, 1), (12, 3), (17, 1), (33, 1), (64, 1), (1, 300), (2, 140), (1, 1100)] {
        for (what, prefix) in [("whole", "p"), ("whole with a slash", "p/"), ("middle", ""), ("one", "1")] {
            ctx.case("deep and wide", || format!("depth {} width {} erase {}", depth, wide, what), false, || {
                let f = FsStore::new();
                let e = |e: std::io::Error| e.to_string();
                let mut model = Map::new();
                for d in 1..=depth { for w in 0..wide {
                    let key = format!("/p{}/k{}", (1..d).map(|i| format!("/d{}", i)).collect::<String>(), w);
                    set(&f.h, &key, key.as_bytes(), &[], false).map_err(e)?;
                    model.insert(key.clone(), key.into_bytes());
                } }
                for k in ["/pp/k", "/p.x", "/q"] { set(&f.h, k, b"other", &[], true).map_err(e)?; model.insert(k.into(), b"other".to_vec()); }
                compare(&f, &model, "set")?;
                for (k, v) in &model { check!(get(&f.h, k)?.as_ref() == Some(v), "key {:?} reads back wrong", k); }
                let target = match prefix { "" => format!("/p{}", (1..=depth / 2).map(|i| format!("/d{}", i)).collect::<String>()), "1" => format!("/p{}/k0", (1..depth).map(|i| format!("/d{}", i)).collect::<String>()), p => p.to_string() };
                let gone = if prefix == "1" { f.h.erase(&target) } else { f.h.erase_prefix(&target) }.map_err(|e| format!("erasing {:?}: {}", target, e))?;
                check!(gone, "{:?} is reported as still there", target);
                let t = norm(&target);
                model.retain(|k, _| !under(k, &t));
                compare(&f, &model, &format!("erasing {:?}", target))
            });
        }
    }
    // A stream of a value that is open does not keep others from reading it, nor from changing other keys.
    for len in [0usize, 1, 8192, 20_000] {
        ctx.case("several readers", || format!("{} bytes", len), false, || {
            let f = FsStore::new();
            set(&f.h, "p/q", &vec![3; len], &[], true).map_err(|e| e.to_string())?;
            let mut first = f.h.get("p/q").map_err(|e| e.to_string())?.ok_or("no value")?;
            let (h, (tx, rx)) = (f.h.clone(), std::sync::mpsc::channel());
            std::thread::spawn(move || {
                let _ = tx.send((|| -> Result<(), String> {
                    check!(ReadableStore::exists(&h, "p/q").map_err(|e| e.to_string())?, "the key is gone");
                    check!(get(&h, "p/q")? == Some(vec![3; len]), "the second reader reads another value");
                    set(&h, "p/r", b"r", &[], true).map_err(|e| e.to_string())?;
                    check!(h.erase("p/r").map_err(|e| e.to_string())?, "the other key is still there");
                    Ok(())
                })());
            });
            rx.recv_timeout(std::time::Duration::from_secs(20)).map_err(|_| "a second reader, or a change of another key, waits for the first reader".to_string())??;
            let mut v = vec![];
            first.read_to_end(&mut v).map_err(|e| e.to_string())?;
            check!(v == vec![3; len], "the first reader reads another value");
            Ok(())
        });
    }
    for n in [1usize, 100, 254, 255] {
        ctx.case("long names", || format!("{} bytes", n), false, || {
            let f = FsStore::new();
            let name = "n".repeat(n);
            let key = format!("/{}/{}/{}", name, name, name);
            set(&f.h, &key, b"v", &[], false).map_err(|e| e.to_string())?;
            check!(get(&f.h, &key)? == Some(b"v".to_vec()), "value differs");
            check!(f.h.erase_prefix(&name).map_err(|e| e.to_string())?, "still there");
            compare(&f, &Map::new(), "erasing a long name")
        });
    }
    ctx.case("prefix of no key", || "a slash after a key".into(), false, || {
        let f = FsStore::new();
        let mut model = Map::new();
        for k in ["/a", "/b/c"] { set(&f.h, k, b"v", &[], true).map_err(|e| e.to_string())?; model.insert(k.to_string(), b"v".to_vec()); }
        for k in ["a/", "/a/", "b/c/", "a//", "n/"] {
            check!(f.h.erase_prefix(k).map_err(|e| e.to_string())?, "keys below {:?} are reported as still there", k);
            compare(&f, &model, "erasing a prefix without keys")?;
        }
        Ok(())
    });
    ctx.case("nothing", || "operations on missing keys create nothing".into(), false, || {
        let f = FsStore::new();
        for k in ["a", "a/b/c", "/x/y"] {
            check!(get(&f.h, k)?.is_none(), "missing key read");
            check!(!ReadableStore::exists(&f.h, k).map_err(|e| e.to_string())?, "missing key exists");
            check!(f.h.erase(k).map_err(|e| e.to_string())?, "erase of a missing key reports presence");
            check!(f.h.erase_prefix(k).map_err(|e| e.to_string())?, "erase_prefix of a missing key reports presence");
            let names: Vec<_> = std::fs::read_dir(f.base()).unwrap().map(|e| e.unwrap().file_name()).collect();
            check!(names == vec![std::ffi::OsString::from("zarr.json")], "something was created: {:?}", names);
        }
        Ok(())
    });
}
