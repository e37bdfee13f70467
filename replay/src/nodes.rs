//! C12-C15: node creation, attributes, removal and listing, against a model of the whole store.
use crate::elem::Meta;
use crate::store::*;
use crate::util::*;
use crate::{check, check_eq};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{ErrorKind, Write};
use zarr::prelude::*;
use zarr::smallvec::SmallVec;

const POOL: &[&str] = &["", "a", "ab", "a/b", "a/b/c", "a/bc", "b", "a.b", "ab/c", "a.array", "d/e/f/g", "a/b/d", "a/a.b", "\u{e9}", "xarray", "x.group", "xgroup/array", "array", "group", "A", "a/B", "A/b/C", "b~", "#b#", "_a", "a/x.tmp", ".h", "a/.h/b", " a", "a ", "a b/c", "-", "@", "0", "a/~", "CVS", "a.bak", "node.lock", "%61", "a+b", "a/*", "?", "[a]", "a\\b", "q/r/s/t/u/v/w", "x.json/y", "y.array.json/z/w", "1/2/3/4/5/6/7/8/9/10/11/12", "1/2/3/4/5/6/7/8/9/10/11/12x"];

#[derive(Clone, PartialEq, Debug)]
struct Node { array: bool, doc: Value }
#[derive(Default, Clone)]
struct Model { nodes: BTreeMap<String, Node>, chunks: BTreeMap<(String, Vec<u64>), Vec<u8>>, ever: BTreeSet<String> }

fn mkey(p: &str, array: bool) -> String {
    let k = if array { "array" } else { "group" };
    if p.is_empty() { format!("/meta/root.{}.json", k) } else { format!("/meta/root/{}.{}.json", p, k) }
}
fn ckey(p: &str, pos: &[u64]) -> String {
    let c: Vec<String> = pos.iter().map(|x| x.to_string()).collect();
    if p.is_empty() { format!("/data/root/c{}", c.join("/")) } else { format!("/data/root/{}/c{}", p, c.join("/")) }
}
fn below(p: &str, q: &str) -> bool { q.is_empty() || p == q || (p.starts_with(q) && p.as_bytes()[q.len()] == b'/') }

impl Model {
    fn ancestors(&mut self, p: &str) {
        self.ever.insert(p.to_string());
        for (i, c) in p.char_indices() { if c == '/' { self.ever.insert(p[..i].to_string()); } }
    }
    /// The whole store content must be exactly the model's.
    fn compare(&self, c: &Map) -> Result<(), String> {
        let mut want: BTreeSet<String> = self.nodes.iter().map(|(p, n)| mkey(p, n.array)).collect();
        want.extend(self.chunks.keys().map(|(p, g)| ckey(p, g)));
        let got: BTreeSet<String> = c.keys().cloned().collect();
        check!(got == want, "store keys: extra {:?}, missing {:?}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>());
        for (p, n) in &self.nodes {
            let v: Value = serde_json::from_slice(&c[&mkey(p, n.array)]).map_err(|e| format!("metadata of {:?} is not JSON: {}", p, e))?;
            check_eq!(v, n.doc, "metadata document of {:?}", p);
        }
        for ((p, g), b) in &self.chunks { check!(c[&ckey(p, g)] == *b, "chunk {:?} of {:?} changed", g, p); }
        Ok(())
    }
    fn children(&self, p: &str) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        for q in self.nodes.keys() {
            if q == p || q.is_empty() || !below(q, p) { continue; }
            let rest = if p.is_empty() { &q[..] } else { &q[p.len() + 1..] };
            out.insert(rest.split('/').next().unwrap().to_string());
        }
        out
    }
    fn stale_children(&self, p: &str) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        for q in &self.ever {
            if q == p || q.is_empty() || !below(q, p) { continue; }
            let rest = if p.is_empty() { &q[..] } else { &q[p.len() + 1..] };
            if rest.contains('/') || self.ever.iter().any(|z| z != q && below(z, q)) { out.insert(rest.split('/').next().unwrap().to_string()); }
        }
        out
    }
}

/// The rank of the chunks written at a path, fixed so that no chunk key is a prefix of another's.
/// The key of a chunk without dimensions, `c`, must not be the data prefix of a child node.
fn rank(p: &str) -> usize {
    let n = p.bytes().map(|b| b as usize).sum::<usize>() % 3;
    if n == 0 && POOL.iter().any(|q| q.strip_prefix(p).map_or(false, |x| x.trim_start_matches('/').starts_with('c'))) { 1 } else { n }
}

fn variant(r: &mut Rng, p: &str) -> String {
    match r.below(5) { 0 => format!("/{}", p), 1 => format!("{}/", p), 2 => format!("//{}//", p), _ => p.to_string() }
}
pub fn rand_json(r: &mut Rng, depth: u32) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null, 1 => json!(r.chance(1, 2)), 2 => json!(r.next() as i64), 3 => json!(r.below(100) as f64 / 4.0), 4 => json!("é\n\"\u{0}x"), 5 => json!(r.next()),
        6 => Value::Array((0..r.below(3)).map(|_| rand_json(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(3)).map(|i| (format!("k{}", i), rand_json(r, depth - 1))).collect()),
    }
}
const KEYS: &[&str] = &["x", "y", "attributes", "", "shape", "é", "extensions", "a/b", " x", "y ", "\t", "X", "0", "x.y", "e\u{301}", "$", "\u{feff}b", "x\n"];
fn rand_attrs(r: &mut Rng) -> serde_json::Map<String, Value> {
    (0..r.below(4)).map(|_| (r.pick(KEYS).to_string(), rand_json(r, 2))).collect()
}

fn rand_meta(r: &mut Rng) -> Value {
    let n = r.below(3) as usize;
    let mut m = Meta::new(&vec![5; n], &vec![2; n], *r.pick(&["u1", "<i4", ">f8"]));
    m.row_major = r.chance(1, 2);
    m.codec = *r.pick(&["raw", "raw", "gzip"]);
    if r.chance(1, 3) { m.fill = Some(json!(3)); }
    m.attributes = Value::Object(rand_attrs(r));
    if r.chance(1, 3) { m.extensions = json!([{"extension": "http://e", "must_understand": false}]); }
    let mut v = m.json();
    if v["compressor"].is_null() { v.as_object_mut().unwrap().remove("compressor"); }
    v
}

#[derive(Clone, Copy)]
pub struct Weights { create: u64, attrs: u64, remove: u64, list: u64, chunk: u64 }

fn history<S: Probe>(s: &S, r: &mut Rng, ops: u64, w: Weights) -> Result<(), String> {
    let mut m = Model::default();
    let pool: Vec<&str> = { let k = r.range(3, 9); (0..k).map(|_| *r.pick(POOL)).collect() };
    let fs = s.name() == "filesystem";
    let mut trail: Vec<String> = vec![];
    for _ in 0..ops {
        let p0 = *r.pick(&pool);
        let p = variant(r, p0);
        let total = w.create + w.attrs + w.remove + w.list + w.chunk;
        let x = r.below(total);
        let before = s.content();
        let step: String;
        let res: Result<(), String> = (|| {
            let node = m.nodes.get(p0).cloned();
            if x < w.create {
                if r.chance(1, 2) {
                    trail.push(format!("create_group({:?})", p));
                    let got = s.create_group(&p);
                    match node {
                        Some(ref n) if n.array => { check!(matches!(&got, Err(e) if e.kind() == ErrorKind::AlreadyExists), "create_group over an array gave {:?}", got); }
                        Some(_) => check!(got.is_ok(), "create_group over a group gave {:?}", got),
                        None => { got.map_err(|e| format!("create_group failed: {}", e))?; m.nodes.insert(p0.into(), Node { array: false, doc: json!({"extensions": [], "attributes": {}}) }); m.ancestors(p0); }
                    }
                } else {
                    let doc = rand_meta(r);
                    trail.push(format!("create_array({:?}, {})", p, doc));
                    let am: ArrayMetadata = serde_json::from_value(doc.clone()).unwrap();
                    let got = s.create_array(&p, &am);
                    if node.is_some() { check!(matches!(&got, Err(e) if e.kind() == ErrorKind::AlreadyExists), "create_array over a node gave {:?}", got); }
                    else {
                        got.map_err(|e| format!("create_array failed: {}", e))?;
                        check_eq!(s.get_array_metadata(&p).map_err(|e| format!("metadata of the created array: {}", e))?, am, "metadata of the created array");
                        m.nodes.insert(p0.into(), Node { array: true, doc }); m.ancestors(p0);
                    }
                }
            } else if x < w.create + w.attrs {
                let attrs = rand_attrs(r);
                trail.push(format!("set_attributes({:?}, {})", p, Value::Object(attrs.clone())));
                if attrs.len() == 1 && r.chance(1, 2) {
                    let (k, v) = attrs.iter().next().unwrap();
                    let got = s.set_attribute(&p, k.clone(), v);
                    check_eq!(got.is_ok(), node.is_some(), "set_attribute success");
                    if let Err(e) = got { check_eq!(e.kind(), ErrorKind::NotFound, "error kind"); }
                } else {
                    let got = s.set_attributes(&p, attrs.clone());
                    check_eq!(got.is_ok(), node.is_some(), "set_attributes success");
                    if let Err(e) = got { check_eq!(e.kind(), ErrorKind::NotFound, "error kind"); }
                }
                if let Some(n) = m.nodes.get_mut(p0) { for (k, v) in attrs { n.doc["attributes"].as_object_mut().unwrap().insert(k, v); } }
                let got = s.list_attributes(&p);
                match m.nodes.get(p0) {
                    None => check!(matches!(&got, Err(e) if e.kind() == ErrorKind::NotFound), "list_attributes of a missing node gave {:?}", got),
                    Some(n) => check_eq!(Value::Object(got.map_err(|e| e.to_string())?), n.doc["attributes"], "listed attributes"),
                }
            } else if x < w.create + w.attrs + w.remove {
                if r.chance(1, 4) {
                    let Some((q, g)) = (if m.chunks.is_empty() { Some((p0.to_string(), vec![0u64; rank(p0)])) } else { let i = r.below(m.chunks.len() as u64) as usize; m.chunks.keys().nth(i).cloned() }) else { return Ok(()) };
                    trail.push(format!("delete_chunk({:?}, {:?})", q, g));
                    let am = Meta::new(&vec![9; g.len()], &vec![2; g.len()], "u1").build();
                    check!(s.delete_chunk(&variant(r, &q), &am, &g).map_err(|e| format!("delete_chunk failed: {}", e))?, "delete_chunk reports a remaining chunk");
                    m.chunks.remove(&(q, g));
                } else {
                    let all = p0.is_empty() && r.chance(1, 2);
                    trail.push(if all { "remove_all()".into() } else { format!("remove({:?})", p) });
                    if all { s.remove_all() } else { s.remove(&p) }.map_err(|e| format!("remove failed: {}", e))?;
                    m.nodes.retain(|q, _| !below(q, p0));
                    m.chunks.retain(|(q, _), _| !below(q, p0));
                }
            } else if x < w.create + w.attrs + w.remove + w.list {
                trail.push(format!("list_nodes({:?})", p));
                let got = s.list_nodes(&p).map_err(|e| format!("list_nodes failed: {}", e))?;
                let want = m.children(p0);
                let set: BTreeSet<String> = got.iter().cloned().collect();
                check!(got.windows(2).all(|w| w[0] < w[1]), "list_nodes is not sorted or has duplicates: {:?}", got);
                let mut stale = if fs { m.stale_children(p0) } else { BTreeSet::new() };
                stale.extend(want.clone());
                check!(want.is_subset(&set) && set.is_subset(&stale), "list_nodes({:?}) gave {:?}, expected {:?}", p, set, want);
                let mut keys = s.list().map_err(|e| format!("list failed: {}", e))?;
                keys.retain(|k| k != "/zarr.json");
                keys.sort();
                check_eq!(keys, before.keys().cloned().collect::<Vec<_>>(), "all keys");
                let (dir, root) = *r.pick(&[("/meta", false), ("/data", false), ("/meta/root", false), ("/data/root/", true), ("/meta/root/a", false), ("/data/root/a/", true)]);
                let mut keys = s.list_prefix(dir).map_err(|e| format!("list_prefix failed: {}", e))?;
                keys.sort();
                let d = if root { dir.to_string() } else { format!("{}/", dir) };
                check_eq!(keys, before.keys().filter(|k| k.starts_with(&d)).cloned().collect::<Vec<_>>(), "keys below {}", dir);
                for k in keys { check!(s.get(&k).map_err(|e| e.to_string())?.is_some(), "listed key {:?} cannot be read", k); }
            } else {
                let n = rank(p0);
                let g: Vec<u64> = (0..n).map(|_| r.below(4)).collect();
                let am = Meta::new(&vec![9; n], &vec![2; n], "u1").build();
                let bytes = r.bytes(1 << n);
                trail.push(format!("write_chunk({:?}, {:?})", p, g));
                s.write_chunk(&p, &am, &VecDataChunk::new(SmallVec::from_slice(&g), bytes.clone())).map_err(|e| format!("write_chunk failed: {}", e))?;
                m.chunks.insert((p0.into(), g), bytes);
            }
            Ok(())
        })();
        step = trail.last().cloned().unwrap_or_default();
        let res = res.and_then(|_| m.compare(&s.content())).and_then(|_| {
            for q in POOL {
                let e = zarr::HierarchyReader::exists(s, q).map_err(|e| e.to_string())?;
                let n = m.nodes.get(*q);
                if n.is_some() { check!(e, "node {:?} does not exist", q); }
                else if m.nodes.keys().all(|k| !below(k, q)) { check!(!e, "missing node {:?} exists", q); }
                check_eq!(s.array_exists(q).map_err(|e| e.to_string())?, n.map_or(false, |n| n.array), "array_exists({:?})", q);
            }
            Ok(())
        });
        res.map_err(|e| format!("{} (at step {} of {:?}: {})", e, trail.len(), trail, step))?;
    }
    Ok(())
}

fn histories(ctx: &mut Ctx, salt: u64, n: u64, w: Weights) {
    for i in 0..ctx.n(n) {
        let r = ctx.rng(salt + i);
        ctx.case("histories in memory", || format!("history {} of seed {}", i, salt), false, || history(&MemStore::new(), &mut r.clone(), 30, w));
        if i % 3 == 0 {
            let r = ctx.rng(salt + 10_000_000 + i);
            ctx.case("histories on the filesystem", || format!("history {} of seed {}", i, salt), false, || { let f = FsStore::new(); history(&f.h, &mut r.clone(), 25, w) });
        }
    }
}

/// Each pair of nodes, created in each order.
fn pairs<S: Probe>(mk: impl Fn() -> S, r: &mut Rng) -> Result<(), String> {
    let am = Meta::new(&[4], &[2], "u1").build();
    for p in POOL { for q in POOL { for kinds in 0..4 {
        if r.chance(1, 2) { continue; }
        let s = mk();
        let e = |e: std::io::Error| format!("{:?} then {:?} ({}): {}", p, q, kinds, e);
        if kinds & 1 == 0 { s.create_group(p).map_err(e)?; } else { s.create_array(p, &am).map_err(e)?; }
        let c1 = s.content();
        let got = if kinds & 2 == 0 { s.create_group(q) } else { s.create_array(q, &am) };
        if p == q {
            check_eq!(got.is_ok(), kinds == 0, "{:?} ({}): second creation succeeded", p, kinds);
            check!(s.content() == c1, "{:?} ({}): second creation changed the store", p, kinds);
        } else {
            got.map_err(e)?;
            let c2 = s.content();
            check_eq!(c2.len(), c1.len() + 1, "{:?} then {:?}: number of keys", p, q);
            for (k, v) in &c1 { check!(c2.get(k) == Some(v), "{:?} then {:?}: key {} changed", p, q, k); }
        }
    } } }
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    let mut r = ctx.rng(1200);
    ctx.case("pairs", || "memory".into(), false, || pairs(MemStore::new, &mut r.clone()));
    histories(ctx, 120_000, 250, Weights { create: 8, attrs: 1, remove: 3, list: 0, chunk: 2 });
    let am = Meta::new(&[4], &[2], "u1").build();
    for (name, fs) in [("memory", false), ("filesystem", true)] {
        for (path, array) in [("x.array.json", true), ("x.group.json", false)] {
            let am = &am;
            ctx.case_c("names of metadata documents", || format!("{} {:?}", name, path), false, "exists-of-metadata-document-name", || {
                let (mem, f);
                let (a, b) = if fs {
                    f = FsStore::new();
                    if array { f.h.create_array("x", am) } else { f.h.create_group("x") }.map_err(|e| e.to_string())?;
                    (zarr::HierarchyReader::exists(&f.h, path), f.h.array_exists(path))
                } else {
                    mem = MemStore::new();
                    if array { mem.create_array("x", am) } else { mem.create_group("x") }.map_err(|e| e.to_string())?;
                    (zarr::HierarchyReader::exists(&mem, path), mem.array_exists(path))
                };
                check!(!b.map_err(|e| e.to_string())?, "array exists at the name of a metadata document");
                check!(!a.map_err(|e| e.to_string())?, "a node exists at the name of a metadata document");
                Ok(())
            });
        }
    }
    let _ = &mut r;
}

pub fn c13(ctx: &mut Ctx) {
    histories(ctx, 130_000, 200, Weights { create: 2, attrs: 10, remove: 1, list: 0, chunk: 1 });
    for i in 0..ctx.n(400) {
        let r0 = ctx.rng(131_000_000 + i);
        ctx.case("documents", || format!("document {}", i), false, || {
            let mut r = r0.clone();
            let s = MemStore::new();
            let array = r.chance(1, 2);
            let p = *r.pick(POOL);
            let mut doc = if array { rand_meta(&mut r) } else { json!({"extensions": [1, {"a": null}], "attributes": {}}) };
            for k in ["zz", "Attributes", "attribute", "unknown"] { if r.chance(1, 2) { doc[k] = rand_json(&mut r, 2); } }
            let has = r.chance(3, 4);
            if has { doc["attributes"] = Value::Object(rand_attrs(&mut r)); } else { doc.as_object_mut().unwrap().remove("attributes"); }
            s.map.borrow_mut().insert(mkey(p, array), serde_json::to_vec(&doc).unwrap());
            s.map.borrow_mut().insert("/meta/root/other.array.json".into(), b"junk".to_vec());
            s.map.borrow_mut().insert("/data/root/a/c0".into(), b"junk".to_vec());
            let e = |e: std::io::Error| format!("unexpected error: {}", e);
            check_eq!(Value::Object(s.list_attributes(p).map_err(e)?), if has { doc["attributes"].clone() } else { json!({}) }, "listed attributes");
            let mut attrs = rand_attrs(&mut r);
            if attrs.is_empty() { attrs.insert("n".into(), json!(1)); }
            let before = s.snapshot();
            s.set_attributes(p, attrs.clone()).map_err(e)?;
            let mut want = doc.clone();
            if !has { want["attributes"] = json!({}); }
            for (k, v) in &attrs { want["attributes"][k] = v.clone(); }
            let after = s.snapshot();
            let got: Value = serde_json::from_slice(&after[&mkey(p, array)]).map_err(|e| format!("document is not JSON: {}", e))?;
            check_eq!(got, want, "document after set_attributes({})", Value::Object(attrs.clone()));
            for (k, v) in &before { if *k != mkey(p, array) { check!(after.get(k) == Some(v), "key {} changed", k); } }
            check_eq!(after.len(), before.len(), "number of keys");
            // Again: nothing to write.
            s.log.borrow_mut().clear();
            s.set_attributes(p, attrs.clone()).map_err(e)?;
            check!(s.log.borrow().iter().all(|(o, _)| *o != "set" && *o != "erase"), "setting the same attributes wrote: {:?}", s.log.borrow());
            check!(s.snapshot() == after, "setting the same attributes changed the store");
            for (k, v) in attrs.iter().take(1) { s.set_attribute(p, k.clone(), v).map_err(e)?; }
            check!(s.snapshot() == after, "setting the same attribute changed the store");
            Ok(())
        });
    }
    // Values that differ little.
    let near: Vec<Value> = vec![
        json!(null), json!(true), json!(false), json!("true"), json!("null"), json!(0), json!(1), json!(-1), json!(1.0), json!(0.5), json!("1"), json!("1.0"), json!(i64::MIN), json!(i64::MAX), json!(u64::MAX),
        json!(u64::MAX - 1), json!(9007199254740992u64), json!(9007199254740993u64), json!(1e300), json!(""), json!(" "), json!("a"), json!("A"), json!("a "), json!(" a"), json!("b"), json!("\u{e9}"), json!("e\u{301}"), json!("\n"), json!("\\n"),
        json!("x".repeat(9000)), json!(format!("{}y", "x".repeat(8999))), json!([]), json!([null]), json!([[]]), json!([1, 2]), json!([2, 1]), json!([1, 2, 2]), json!(["1", 2]), json!({}), json!({"a": null}), json!({"a": 1}), json!({"A": 1}),
        json!({"a": 1, "b": 2}), json!({"a": 2, "b": 1}), json!({"a": {"b": {"c": [1]}}}), json!({"a": {"b": {"c": [2]}}}), json!({"attributes": 1}), json!([{"a": 1}, {"b": 2}]), json!([{"a": 1}, {"b": 3}]),
    ];
    for (i, v) in near.iter().enumerate() {
        ctx.case("values that differ little", || format!("value {} by each other", i), false, || {
            let e = |e: std::io::Error| format!("unexpected error: {}", e);
            for w in &near { for how in 0..4 {
                let wrap = |v: &Value| match how { 0 | 3 => v.clone(), 1 => json!({"k": v, "other": 1}), _ => json!([0, v]) };
                let s = MemStore::new();
                s.create_group("n").map_err(e)?;
                s.set_attribute("n", "x".into(), wrap(v)).map_err(e)?;
                s.set_attribute("n", "y".into(), json!("z")).map_err(e)?;
                if how == 3 { s.set_attributes("n", vec![("x".to_string(), wrap(w)), ("y".to_string(), json!("Z"))].into_iter().collect()).map_err(e)?; } else { s.set_attribute("n", "x".into(), wrap(w)).map_err(e)?; }
                let got = Value::Object(s.list_attributes("n").map_err(e)?);
                check_eq!(got, json!({"x": wrap(w), "y": if how == 3 { "Z" } else { "z" }}), "attributes after x was {} and then set", wrap(v));
                let doc: Value = serde_json::from_slice(&s.snapshot()["/meta/root/n.group.json"]).map_err(|e| e.to_string())?;
                check_eq!(doc, json!({"extensions": [], "attributes": got}), "document after x was {} and then set", wrap(v));
            } }
            Ok(())
        });
    }
    ctx.case("names that differ little", || "each pair".into(), false, || {
        let e = |e: std::io::Error| format!("unexpected error: {}", e);
        let names: Vec<String> = KEYS.iter().map(|k| k.to_string()).chain(["a", "A", "\u{e9}", "e\u{301}", "a.b", "a/B", "a\u{0}", "aa", "null", "Attributes", "ATTRIBUTES", "_", "__proto__"].iter().map(|k| k.to_string())).chain(["n".repeat(300), "n".repeat(301)]).collect();
        for a in &names { for b in &names {
            let s = MemStore::new();
            s.create_group("n").map_err(e)?;
            s.set_attribute("n", a.clone(), 1).map_err(e)?;
            s.set_attribute("n", b.clone(), 2).map_err(e)?;
            let mut want = json!({});
            want[a] = json!(1);
            want[b] = json!(2);
            check_eq!(Value::Object(s.list_attributes("n").map_err(e)?), want, "attributes after setting {:?} and {:?}", a, b);
        } }
        Ok(())
    });
    ctx.case("missing", || "missing nodes".into(), false, || {
        let s = MemStore::new();
        s.create_group("a/b").map_err(|e| e.to_string())?;
        let before = s.snapshot();
        for p in ["", "a", "b", "a/b/c", "a/b.group", "a/b.group.json"] {
            let r = s.set_attribute(p, "x".into(), 1);
            check!(matches!(&r, Err(e) if e.kind() == ErrorKind::NotFound), "set_attribute({:?}) gave {:?}", p, r);
            let r = s.list_attributes(p);
            check!(matches!(&r, Err(e) if e.kind() == ErrorKind::NotFound), "list_attributes({:?}) gave {:?}", p, r);
        }
        check!(s.snapshot() == before, "store changed");
        Ok(())
    });
}

/// A chain of nodes, with several children at each level: `p/d0/d1/..` with arrays `k0..`.
fn deep<S: Probe>(s: &S, depth: usize, wide: usize) -> Result<Model, String> {
    let am = Meta::new(&[4], &[2], "u1").build();
    let mut m = Model::default();
    let e = |e: std::io::Error| format!("unexpected error: {}", e);
    let mut at = "p".to_string();
    for d in 0..depth {
        for w in 0..wide {
            let q = format!("{}/k{}", at, w);
            s.create_array(&q, &am).map_err(e)?;
            if w < 3 { s.write_chunk(&q, &am, &VecDataChunk::new(SmallVec::from_slice(&[w as u64 % 2]), vec![1u8, 2])).map_err(e)?; m.chunks.insert((q.clone(), vec![w as u64 % 2]), vec![1, 2]); }
            m.nodes.insert(q, Node { array: true, doc: serde_json::to_value(&am).unwrap() });
        }
        if d % 2 == 0 { s.create_group(&at).map_err(e)?; m.nodes.insert(at.clone(), Node { array: false, doc: json!({"extensions": [], "attributes": {}}) }); }
        at = format!("{}/d{}", at, d);
        if d + 1 < depth { for x in ["x", ".y"] {
            let q = format!("{}{}", at, x);
            s.create_array(&q, &am).map_err(e)?;
            s.write_chunk(&q, &am, &VecDataChunk::new(SmallVec::from_slice(&[0]), vec![3u8, 4])).map_err(e)?;
            m.chunks.insert((q.clone(), vec![0]), vec![3, 4]);
            m.nodes.insert(q, Node { array: true, doc: serde_json::to_value(&am).unwrap() });
        } }
    }
    for q in ["pp", "p.x"] { s.create_group(q).map_err(e)?; m.nodes.insert(q.into(), Node { array: false, doc: json!({"extensions": [], "attributes": {}}) }); }
    Ok(m)
}
const SHAPES: &[(usize, usize)] = &[(3, 3), (8, 2), (9, 1), (12, 2), (20, 1), (40, 1), (1, 300), (2, 130), (1, 1100)];

pub fn c14(ctx: &mut Ctx) {
    for &(depth, wide) in SHAPES { for k in [0, depth / 2] {
        fn check<S: Probe>(s: &S, depth: usize, wide: usize, k: usize) -> Result<(), String> {
            let mut m = deep(s, depth, wide)?;
            m.compare(&s.content())?;
            let target = format!("p{}", (0..k).map(|i| format!("/d{}", i)).collect::<String>());
            s.remove(&target).map_err(|e| format!("remove({:?}) failed: {}", target, e))?;
            m.nodes.retain(|q, _| !below(q, &target));
            m.chunks.retain(|(q, _), _| !below(q, &target));
            m.compare(&s.content())
        }
        ctx.case("deep and wide", || format!("memory depth {} width {} remove level {}", depth, wide, k), false, || check(&MemStore::new(), depth, wide, k));
        ctx.case("deep and wide", || format!("filesystem depth {} width {} remove level {}", depth, wide, k), false, || check(&FsStore::new().h, depth, wide, k));
    } }
    histories(ctx, 140_000, 300, Weights { create: 6, attrs: 0, remove: 4, list: 0, chunk: 6 });
    // Full trees: remove each node in turn.
    fn full<S: Probe>(s: &S, target: &str, arrays: bool) -> Result<(), String> {
        let am = Meta::new(&[4], &[2], "u1").build();
        let mut m = Model::default();
        let e = |e: std::io::Error| format!("unexpected error: {}", e);
        for p in POOL {
            if arrays || p.len() % 2 == 0 {
                s.create_array(p, &am).map_err(e)?;
                m.nodes.insert(p.to_string(), Node { array: true, doc: serde_json::to_value(&am).unwrap() });
                for g in 0..2u64 { s.write_chunk(p, &am, &VecDataChunk::new(SmallVec::from_slice(&[g]), vec![1u8, 2])).map_err(e)?; m.chunks.insert((p.to_string(), vec![g]), vec![1, 2]); }
            } else { s.create_group(p).map_err(e)?; m.nodes.insert(p.to_string(), Node { array: false, doc: json!({"extensions": [], "attributes": {}}) }); }
        }
        m.compare(&s.content())?;
        s.remove(target).map_err(e)?;
        m.nodes.retain(|q, _| !below(q, target));
        m.chunks.retain(|(q, _), _| !below(q, target));
        m.compare(&s.content())?;
        for q in POOL { check_eq!(zarr::HierarchyReader::exists(s, q).map_err(e)?, m.nodes.contains_key(*q), "exists({:?})", q); }
        s.remove(target).map_err(|e| format!("removing a missing node failed: {}", e))?;
        m.compare(&s.content())?;
        s.create_array(target, &am).map_err(|e| format!("cannot create again after removing: {}", e))
    }
    for target in POOL.iter().chain(&["nope", "a/nope", "b/c/d", "ab/c/d"]) { for arrays in [false, true] {
        ctx.case("full trees", || format!("memory remove {:?} arrays {}", target, arrays), false, || full(&MemStore::new(), target, arrays));
        ctx.case("full trees", || format!("filesystem remove {:?} arrays {}", target, arrays), false, || { let f = FsStore::new(); full(&f.h, target, arrays) });
    } }
    for suffix in [".json", ".meta.json", ".a.b.c", ".array", "json", ""] {
        ctx.case("suffixes", || format!("{:?}", suffix), false, || {
            let e = |e: std::io::Error| format!("unexpected error: {}", e);
            let s = MemStore::with_suffix(suffix);
            let am = Meta::new(&[4], &[2], "u1").build();
            let others = ["foo.array", "foo.array/x", "foo.group/y", "foo.array.meta/z", "fo/q"];
            for p in ["foo", "foo/bar", "foo/bar/baz"].iter().chain(&others) {
                s.create_array(p, &am).map_err(e)?;
                s.write_chunk(p, &am, &VecDataChunk::new(SmallVec::from_slice(&[1]), vec![1u8, 2])).map_err(e)?;
            }
            s.remove("foo").map_err(e)?;
            for p in ["foo", "foo/bar", "foo/bar/baz"] {
                check!(!s.array_exists(p).map_err(e)?, "{} still exists", p);
                check!(s.read_chunk::<u8>(p, &am, SmallVec::from_slice(&[1])).map_err(e)?.is_none(), "chunk of {} still exists", p);
            }
            for p in others {
                check!(s.array_exists(p).map_err(e)?, "{} no longer exists", p);
                check!(s.read_chunk::<u8>(p, &am, SmallVec::from_slice(&[1])).map_err(e)?.is_some(), "chunk of {} no longer exists", p);
            }
            Ok(())
        });
    }
    // Names of nodes that are also names of keys of other nodes.
    fn foreign<S: Probe>(s: &S, target: &str) -> Result<(), String> {
        let e = |e: std::io::Error| format!("unexpected error: {}", e);
        let am = Meta::new(&[4], &[2], "u1").build();
        let am2 = Meta::new(&[4, 4], &[2, 2], "u1").build();
        s.create_array("x", &am).map_err(e)?;
        s.create_group("g").map_err(e)?;
        s.create_array("y", &am2).map_err(e)?;
        s.write_chunk("x", &am, &VecDataChunk::new(SmallVec::from_slice(&[0]), vec![1u8, 2])).map_err(e)?;
        s.write_chunk("y", &am2, &VecDataChunk::new(SmallVec::from_slice(&[0, 1]), vec![1u8, 2, 3, 4])).map_err(e)?;
        let before = s.content();
        s.remove(target).map_err(e)?;
        let after = s.content();
        for (k, v) in &before { check!(after.get(k) == Some(v), "removing the missing node {:?} removed or changed {:?}", target, k); }
        check_eq!(after.len(), before.len(), "number of keys");
        Ok(())
    }
    for (target, class) in [("x.array.json", ""), ("g.group.json", ""), ("x.array", ""), ("x/c0", ""), ("y/c0/1", ""), ("y/c0", "remove-of-chunk-directory-name")] {
        ctx.case_c("names of other nodes' keys", || format!("memory {:?}", target), false, class, || foreign(&MemStore::new(), target));
        ctx.case_c("names of other nodes' keys", || format!("filesystem {:?}", target), false, class, || foreign(&FsStore::new().h, target));
    }
    ctx.case("whole hierarchy", || "remove_all keeps the entry point".into(), false, || {
        let f = FsStore::new();
        let e = |e: std::io::Error| format!("unexpected error: {}", e);
        let entry = std::fs::read(f.base().join("zarr.json")).map_err(e)?;
        f.h.create_group("a/b").map_err(e)?;
        f.h.create_group("").map_err(e)?;
        f.h.remove_all().map_err(e)?;
        check!(dir_map(&f.base()).keys().eq(["/zarr.json"].iter()), "keys after remove_all: {:?}", dir_map(&f.base()).keys().collect::<Vec<_>>());
        check!(std::fs::read(f.base().join("zarr.json")).ok() == Some(entry), "entry point changed");
        f.h.create_group("a").map_err(e)?;
        FilesystemHierarchy::open(f.base()).map(|_| ()).map_err(e)
    });
}

pub fn c15(ctx: &mut Ctx) {
    for &(depth, wide) in SHAPES {
        fn check<S: Probe>(s: &S, depth: usize, wide: usize) -> Result<(), String> {
            let m = deep(s, depth, wide)?;
            let mut at = "p".to_string();
            for d in 0..depth {
                let got = s.list_nodes(&at).map_err(|e| format!("list_nodes({:?}) failed: {}", at, e))?;
                check_eq!(got, m.children(&at).into_iter().collect::<Vec<_>>(), "list_nodes({:?})", at);
                at = format!("{}/d{}", at, d);
            }
            for dir in ["/", "/meta", "/data/root/p", "/meta/root/p/"] {
                let mut keys = if dir == "/" { s.list() } else { s.list_prefix(dir) }.map_err(|e| e.to_string())?;
                keys.retain(|k| k != "/zarr.json");
                keys.sort();
                let d = if dir.ends_with('/') { dir.to_string() } else { format!("{}/", dir) };
                check_eq!(keys, s.content().keys().filter(|k| k.starts_with(&d)).cloned().collect::<Vec<_>>(), "keys below {}", dir);
            }
            Ok(())
        }
        ctx.case("deep and wide", || format!("memory depth {} width {}", depth, wide), false, || check(&MemStore::new(), depth, wide));
        ctx.case("deep and wide", || format!("filesystem depth {} width {}", depth, wide), false, || check(&FsStore::new().h, depth, wide));
    }
    histories(ctx, 150_000, 250, Weights { create: 8, attrs: 0, remove: 1, list: 6, chunk: 3 });
    fn tree<S: Probe>(s: &S, r: &mut Rng) -> Result<(), String> {
        let am = Meta::new(&[4], &[2], "u1").build();
        let mut m = Model::default();
        let e = |e: std::io::Error| format!("unexpected error: {}", e);
        let names = ["a", "b", "abc", "x.json", "y.array.json", ".json", "long name with many characters", "a.b", ".x", "x.", "array", "group", "json", "xarray", "é", "a.array", "c0", "A", "B", "ABC", "9", "10"];
        for _ in 0..r.range(0, 12) {
            let d = r.range(1, 5);
            let p = (0..d).map(|_| *r.pick(&names)).collect::<Vec<_>>().join("/");
            if m.nodes.contains_key(&p) { continue; }
            let array = r.chance(1, 2);
            if array { s.create_array(&p, &am).map_err(e)?; } else { s.create_group(&p).map_err(e)?; }
            m.nodes.insert(p, Node { array, doc: Value::Null });
        }
        for (p, n) in &m.nodes { if n.array && !m.nodes.keys().any(|q| q.split('/').any(|x| x == "c0")) && r.chance(2, 3) {
            s.write_chunk(p, &am, &VecDataChunk::new(SmallVec::from_slice(&[0]), vec![1u8, 2])).map_err(e)?;
        } }
        let mut dirs: BTreeSet<String> = m.nodes.keys().cloned().collect();
        for q in m.nodes.keys() { for (i, c) in q.char_indices() { if c == '/' { dirs.insert(q[..i].to_string()); } } }
        dirs.insert("".into());
        for d in &dirs { for v in [d.clone(), format!("/{}", d), format!("{}/", d)] {
            let got = s.list_nodes(&v).map_err(|e| format!("list_nodes({:?}) failed: {}", v, e))?;
            check_eq!(got, m.children(d).into_iter().collect::<Vec<_>>(), "list_nodes({:?}) of {:?}", v, m.nodes.keys().collect::<Vec<_>>());
        } }
        let mut keys = s.list().map_err(e)?;
        keys.retain(|k| k != "/zarr.json");
        keys.sort();
        check_eq!(keys, s.content().keys().cloned().collect::<Vec<_>>(), "all keys");
        Ok(())
    }
    for i in 0..ctx.n(300) {
        let r = ctx.rng(151_000_000 + i);
        ctx.case("trees", || format!("memory tree {}", i), false, || tree(&MemStore::new(), &mut r.clone()));
        ctx.case("trees", || format!("filesystem tree {}", i), false, || { let f = FsStore::new(); tree(&f.h, &mut r.clone()) });
    }
    // Keys that are no metadata documents are not nodes.
    fn no_nodes<S: Probe>(s: &S) -> Result<(), String> {
        let am = Meta::new(&[4], &[2], "u1").build();
        let e = |e: std::io::Error| e.to_string();
        s.create_array("g/a", &am).map_err(e)?;
        s.create_group("g/x.array").map_err(e)?;
        for k in ["notes.txt", "x.json", "array.json", "group.json", "xarray.json", "x.array", "x.group", "x.arrays.json", "x.array.bak.json", "x.array.json.tmp", "x.array.json~", "x.Array.json", "x.array.JSON", "x.groupjson", "y.groups.json", "z.group.old.json", "z.array.zmeta", "no suffix", "json_"] {
            for dir in ["", "g/", "g/a/"] { s.set(&format!("/meta/root/{}{}", dir, k), |mut w| { w.write_all(b"{}")?; w.flush() }).map_err(|e| format!("{:?}: {}", k, e))?; }
        }
        check_eq!(s.list_nodes("g").map_err(e)?, vec!["a", "x.array"], "nodes below g");
        check_eq!(s.list_nodes("").map_err(e)?, vec!["g"], "nodes at the root");
        check_eq!(s.list_nodes("g/a").map_err(e)?, Vec::<String>::new(), "nodes below an array");
        Ok(())
    }
    ctx.case("other keys", || "memory".into(), false, || no_nodes(&MemStore::new()));
    ctx.case("other keys", || "filesystem".into(), false, || no_nodes(&FsStore::new().h));
    for suffix in [".json", ".zmeta", ".x", ".array", ".muchlongersuffix", ".meta.json", "zmeta", ""] {
        ctx.case("suffixes", || suffix.to_string(), false, || {
            let s = MemStore::with_suffix(suffix);
            let am = Meta::new(&[4], &[2], "u1").build();
            for p in ["g/a", "g/bb", "g/c/d", "q"] { s.create_array(p, &am).map_err(|e| e.to_string())?; }
            s.create_group("g/e").map_err(|e| e.to_string())?;
            check_eq!(s.list_nodes("g").map_err(|e| e.to_string())?, vec!["a", "bb", "c", "e"], "nodes");
            check_eq!(s.list_nodes("").map_err(|e| e.to_string())?, vec!["g", "q"], "root nodes");
            Ok(())
        });
    }
}
