//! C18: faults surface as errors.
use crate::elem::*;
use crate::store::*;
use crate::util::*;
use crate::check;
use std::io::{Error, ErrorKind};
use std::os::unix::fs::PermissionsExt;
use zarr::chunk::{DefaultChunk, DefaultChunkWriter};
use zarr::chunk::{ReadableDataChunk, ReinitDataChunk, WriteableDataChunk};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;
use zarr::smallvec::smallvec;
use zarr::storage::{get_chunk_key, ListableStore, ReadableStore, WriteableStore};

struct Setup { meta: ArrayMetadata, data: Vec<i32>, chunk: u64 }
type Op<'a> = (&'static str, Box<dyn Fn(&MemStore) -> Result<String, Error> + 'a>);

fn ops<'a>(s: &'a Setup) -> Vec<Op<'a>> {
    let m = &s.meta;
    let n = s.chunk;
    fn d(v: impl std::fmt::Debug) -> String { format!("{:?}", v) }
    let obj = |k: &str| { let mut o = serde_json::Map::new(); o.insert(k.into(), serde_json::json!([1, "two", {"three": 3}])); o };
    vec![
        ("read_chunk", Box::new(move |h| h.read_chunk::<i32>("g/a", m, smallvec![0]).map(|c| d(c.map(|c| c.into_data()))))),
        ("read_chunk of a missing chunk", Box::new(move |h| h.read_chunk::<i32>("g/a", m, smallvec![2]).map(|c| d(c.map(|c| c.into_data()))))),
        ("read_chunk_into", Box::new(move |h| { let mut b = VecDataChunk::new(smallvec![9], vec![7i32; 3]); h.read_chunk_into::<i32, _>("g/a", m, smallvec![1], &mut b).map(|o| d((o, b.into_data()))) })),
        ("write_chunk", Box::new(move |h| h.write_chunk("g/a", m, &VecDataChunk::new(smallvec![2], s.data.clone())).map(d))),
        ("write_chunk over another", Box::new(move |h| h.write_chunk("g/a", m, &VecDataChunk::new(smallvec![1], s.data.clone())).map(d))),
        ("delete_chunk", Box::new(move |h| h.delete_chunk("g/a", m, &[0]).map(d))),
        ("get_chunk_uri", Box::new(move |h| h.get_chunk_uri("g/a", m, &[0]).map(d))),
        ("read_ndarray", Box::new(move |h| h.read_ndarray::<i32>("g/a", m, &BoundingBox::new(smallvec![1], smallvec![3 * n - 2])).map(d))),
        ("write_ndarray", Box::new(move |h| { let a = ndarray::Array::from_elem(vec![2 * n as usize - 1], 5i32); h.write_ndarray::<i32, _>("g/a", m, smallvec![1], &a).map(d) })),
        ("write_ndarray of whole chunks", Box::new(move |h| { let a = ndarray::Array::from_elem(vec![2 * n as usize], 5i32); h.write_ndarray::<i32, _>("g/a", m, smallvec![n], &a).map(d) })),
        ("exists", Box::new(move |h| HierarchyReader::exists(h, "g").map(d))),
        ("exists of an array", Box::new(move |h| HierarchyReader::exists(h, "g/a").map(d))),
        ("exists of a missing node", Box::new(move |h| HierarchyReader::exists(h, "none").map(d))),
        ("array_exists", Box::new(move |h| h.array_exists("g/a").map(d))),
        ("get_array_metadata", Box::new(move |h| h.get_array_metadata("g/a").map(d))),
        ("list_attributes of an array", Box::new(move |h| h.list_attributes("g/a").map(d))),
        ("list_attributes of a group", Box::new(move |h| h.list_attributes("g").map(d))),
        ("set_attributes of an array", Box::new(move |h| h.set_attributes("g/a", obj("x")).map(d))),
        ("set_attributes of a group", Box::new(move |h| h.set_attributes("g", obj("y")).map(d))),
        ("set_attribute", Box::new(move |h| h.set_attribute("g", "z".into(), vec![1, 2, 3]).map(d))),
        ("create_group", Box::new(move |h| h.create_group("g2").map(d))),
        ("create_group that exists", Box::new(move |h| h.create_group("g").map(d))),
        ("create_array", Box::new(move |h| h.create_array("g/a2", m).map(d))),
        ("remove of an array", Box::new(move |h| h.remove("g/a").map(d))),
        ("remove of a group", Box::new(move |h| h.remove("g").map(d))),
        ("remove_all", Box::new(move |h| h.remove_all().map(d))),
        ("list_nodes", Box::new(move |h| h.list_nodes("g").map(d))),
        ("list_nodes of the root", Box::new(move |h| h.list_nodes("").map(d))),
        ("list", Box::new(move |h| h.list().map(d))),
        ("list_prefix", Box::new(move |h| h.list_prefix("/data/root").map(d))),
    ]
}

fn memory(ctx: &mut Ctx, codec: &'static str, n: u32) {
    let mut mm = Meta::new(&[n as u64 * 3], &[n], if n % 2 == 0 { "<i4" } else { ">i4" });
    mm.codec = codec;
    mm.attributes = serde_json::json!({"k": 1});
    let mut r = ctx.rng(1800 + n as u64);
    let s = Setup { meta: mm.build(), data: (0..n).map(|_| r.next() as i32).collect(), chunk: n as u64 };
    let base = MemStore::new();
    base.create_group("g").unwrap();
    base.create_array("g/a", &s.meta).unwrap();
    for c in 0..2 { base.write_chunk("g/a", &s.meta, &VecDataChunk::new(smallvec![c], (0..n).map(|_| r.next() as i32).collect())).unwrap(); }
    let init = base.snapshot();
    for (name, op) in ops(&s) {
        let run = |f: Fault, step: usize, kind: ErrorKind| { let h = MemStore::new(); *h.map.borrow_mut() = init.clone(); h.step.set(step); h.kind.set(kind); h.arm(f); let r = guard(|| op(&h)); let (ops, hit) = (h.ops.get(), h.hit.get()); (r, ops, hit, h.snapshot()) };
        let (want, nops, _, after) = run(Fault::None, 0, ErrorKind::Other);
        let want = match want { Ok(Ok(w)) => w, o => { let e = format!("{:?}", o); ctx.case("no fault", || format!("{} {} chunk {}", name, codec, n), false, || Err(e)); continue } };
        let wlen = after.iter().filter(|(k, v)| init.get(*k) != Some(v)).map(|(_, v)| v.len() as u64).max().unwrap_or(0);
        let rlen = init.values().map(|v| v.len() as u64).max().unwrap();
        let mut faults: Vec<Fault> = (0..nops + 1).map(Fault::Op).collect();
        let points = |len: u64, ctx: &Ctx| -> Vec<u64> {
            let mut p: Vec<u64> = if len <= 64 { (0..=len).collect() } else if ctx.thorough { (0..400.min(len)).chain((1..400).map(|i| i * len / 400)).chain(len - 12..=len).collect() } else { (0..16).chain((1..24).map(|i| i * len / 24)).chain(len - 12..=len).collect() };
            p.extend([8191, 8192, 8193, len.saturating_sub(1), len, len + 1]);
            p.sort(); p.dedup(); p.retain(|x| *x <= len + 1); p
        };
        for k in points(rlen, ctx) { faults.push(Fault::Read(k)); }
        if wlen > 0 { for k in points(wlen, ctx) { faults.push(Fault::Write(k)); faults.push(Fault::WriteZero(k)); } }
        faults.push(Fault::Flush);
        const KINDS: [ErrorKind; 5] = [ErrorKind::Other, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::AlreadyExists];
        for step in [0usize, 3] { for (i, f) in faults.iter().enumerate() { for kind in KINDS {
            let f = *f;
            // Errors of every kind in operations; in streams the kinds take turns.
            match f {
                Fault::Op(_) | Fault::Flush => if step == 3 { continue; },
                Fault::WriteZero(_) => if step == 3 || kind != KINDS[0] { continue; },
                _ => if kind != KINDS[if step == 0 { 0 } else { i % 5 }] { continue; },
            }
            // An error of this kind is taken for absence there.
            if name == "array_exists" && kind == ErrorKind::NotFound { continue; }
            ctx.case("faults", || format!("{} {} chunk {} {:?} {:?} step {}", name, codec, n, f, kind, step), false, || {
                let (res, _, hit, got) = run(f, step, kind);
                let res = res.map_err(|e| e)?;
                match (hit, res) {
                    (true, Ok(v)) => {
                        check!(matches!(f, Fault::Read(_)), "the fault was swallowed: operation returned success");
                        check!(v == want, "the fault changed the result of a successful read");
                        check!(got == after, "the fault changed what was stored");
                    }
                    (true, Err(_)) => (),
                    (false, Ok(v)) => {
                        check!(v == want, "result differs without a fault: {} instead of {}", v, want);
                        check!(got == after, "stored data differs without a fault");
                    }
                    (false, Err(e)) => return Err(format!("failed without a fault: {}", e)),
                }
                Ok(())
            });
        } } }
    }
}

fn write_direct(ctx: &mut Ctx, codec: &'static str) {
    // The chunk writer on a bare stream.
    for n in [1u32, 300, 6000] {
        let mut mm = Meta::new(&[n as u64], &[n], "<i4");
        mm.codec = codec;
        let m = mm.build();
        let mut r = ctx.rng(1850);
        let chunk = VecDataChunk::<i32>::new(smallvec![0], (0..n).map(|_| r.next() as i32).collect());
        let mut full = vec![];
        if <DefaultChunk as DefaultChunkWriter<i32, _, _>>::write_chunk(&mut full, &m, &chunk).is_err() { continue; }
        let mut pts: Vec<usize> = (0..20).map(|i| i * full.len() / 20).collect();
        pts.extend(full.len().saturating_sub(16)..full.len());
        pts.dedup();
        for k in pts {
            ctx.case("bounded stream", || format!("{} {} elements into {} of {} bytes", codec, n, k, full.len()), false, || {
                let mut buf = vec![0u8; k];
                check!(<DefaultChunk as DefaultChunkWriter<i32, _, _>>::write_chunk(&mut buf[..], &m, &chunk).is_err(), "success although {} of {} bytes fit", k, full.len());
                Ok(())
            });
        }
    }
}

fn chmod(p: &std::path::Path, mode: u32) { std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap(); }

fn denied(ctx: &mut Ctx) {
    let m = Meta::new(&[8], &[4], "<i4").build();
    type F = fn(&FilesystemHierarchy, &ArrayMetadata) -> Result<String, Error>;
    let ops: Vec<(&str, &str, u32, F)> = vec![
        ("read_chunk", "data/root/g/a/c0", 0, |h, m| h.read_chunk::<i32>("g/a", m, smallvec![0]).map(|c| format!("{:?}", c))),
        ("read_chunk", "data/root/g/a", 0, |h, m| h.read_chunk::<i32>("g/a", m, smallvec![0]).map(|c| format!("{:?}", c))),
        ("read_chunk", "data/root/g", 0, |h, m| h.read_chunk::<i32>("g/a", m, smallvec![0]).map(|c| format!("{:?}", c))),
        ("read_ndarray", "data/root/g/a", 0, |h, m| h.read_ndarray::<i32>("g/a", m, &BoundingBox::new(smallvec![0], smallvec![8])).map(|c| format!("{:?}", c))),
        ("write_ndarray", "data/root/g/a/c0", 0o200, |h, m| h.write_ndarray::<i32, _>("g/a", m, smallvec![1], &ndarray::Array::from_elem(vec![2], 1i32)).map(|c| format!("{:?}", c))),
        ("write_chunk", "data/root/g/a", 0o500, |h, m| h.write_chunk("g/a", m, &VecDataChunk::new(smallvec![1], vec![1i32; 4])).map(|c| format!("{:?}", c))),
        ("write_chunk", "data/root/g/a/c0", 0o400, |h, m| h.write_chunk("g/a", m, &VecDataChunk::new(smallvec![0], vec![1i32; 4])).map(|c| format!("{:?}", c))),
        ("exists", "meta/root", 0, |h, _| HierarchyReader::exists(h, "g").map(|c| format!("{:?}", c))),
        ("array_exists", "meta/root/g/a.array.json", 0, |h, _| h.array_exists("g/a").map(|c| format!("{:?}", c))),
        ("get_array_metadata", "meta/root/g/a.array.json", 0, |h, _| h.get_array_metadata("g/a").map(|c| format!("{:?}", c))),
        ("list_attributes", "meta/root/g.group.json", 0, |h, _| h.list_attributes("g").map(|c| format!("{:?}", c))),
        ("set_attributes", "meta/root/g.group.json", 0o400, |h, _| h.set_attribute("g", "k".into(), 1).map(|c| format!("{:?}", c))),
        ("create_group", "meta/root", 0o500, |h, _| h.create_group("g2").map(|c| format!("{:?}", c))),
        ("create_group", "meta/root", 0, |h, _| h.create_group("g").map(|c| format!("{:?}", c))),
        ("create_array", "meta/root/g", 0, |h, m| h.create_array("g/a2", m).map(|c| format!("{:?}", c))),
        ("remove", "meta/root/g", 0o500, |h, _| h.remove("g").map(|c| format!("{:?}", c))),
        ("remove", "data/root/g", 0, |h, _| h.remove("g").map(|c| format!("{:?}", c))),
        ("delete_chunk", "data/root/g/a", 0o500, |h, m| h.delete_chunk("g/a", m, &[0]).map(|c| format!("{:?}", c))),
        ("delete_chunk", "data/root/g/a", 0, |h, m| h.delete_chunk("g/a", m, &[0]).map(|c| format!("{:?}", c))),
        ("list_nodes", "meta/root", 0, |h, _| h.list_nodes("").map(|c| format!("{:?}", c))),
        ("list_nodes of an unsearchable directory", "meta/root", 0o400, |h, _| h.list_nodes("").map(|c| format!("{:?}", c))),
        ("list", "data/root/g", 0, |h, _| h.list().map(|c| format!("{:?}", c))),
        ("list of an unsearchable directory", "data/root/g", 0o400, |h, _| h.list().map(|c| format!("{:?}", c))),
        ("store exists", "data/root/g/a", 0, |h, _| ReadableStore::exists(h, "data/root/g/a/c0").map(|c| format!("{:?}", c))),
        ("store get", "data/root/g/a", 0, |h, _| h.get("data/root/g/a/c0").map(|c| format!("{:?}", c.is_some()))),
        ("store erase_prefix", "data/root/g/a", 0, |h, _| h.erase_prefix("data/root/g/a").map(|c| format!("{:?}", c))),
        ("open", "zarr.json", 0, |h, _| FilesystemHierarchy::open(h.uri("")?.strip_prefix("file://").unwrap()).map(|_| String::new())),
        ("open_or_create", "zarr.json", 0, |h, _| FilesystemHierarchy::open_or_create(h.uri("")?.strip_prefix("file://").unwrap()).map(|_| String::new())),
        ("open_or_create", "", 0, |h, _| FilesystemHierarchy::open_or_create(h.uri("")?.strip_prefix("file://").unwrap()).map(|_| String::new())),
    ];
    for (name, path, mode, f) in ops {
        ctx.case("permission denied", || format!("{} with {:?} at mode {:o}", name, path, mode), false, || {
            let fs = FsStore::new();
            fs.h.create_group("g").unwrap();
            fs.h.create_array("g/a", &m).unwrap();
            fs.h.write_chunk("g/a", &m, &VecDataChunk::new(smallvec![0], vec![3i32; 4])).unwrap();
            let p = fs.base().join(path);
            let old = std::fs::metadata(&p).map_err(|e| format!("{:?}: {}", p, e))?.permissions().mode();
            chmod(&p, mode);
            let r = guard(|| f(&fs.h, &m));
            chmod(&p, old & 0o7777);
            match r? { Ok(v) => Err(format!("returned success: {}", v)), Err(_) => Ok(()) }
        });
    }
}

fn limited<T>(bytes: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: bytes, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

fn file_size(ctx: &mut Ctx) {
    unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); }
    for codec in CODECS { for n in [4u32, 300, 5000] {
        let mut mm = Meta::new(&[n as u64 * 2], &[n], "<i4");
        mm.codec = codec;
        let m = mm.build();
        let mut r = ctx.rng(1900);
        let data: Vec<i32> = (0..n).map(|_| r.next() as i32).collect();
        let probe = FsStore::new();
        let chunk = VecDataChunk::new(smallvec![0], data.clone());
        if probe.h.write_chunk("a", &m, &chunk).is_err() { continue; }
        let full = dir_map(&probe.base())["/data/root/a/c0"].len() as u64;
        for limit in [0, 1, full / 2, full - 1, full] {
            ctx.case("file size limit", || format!("write_chunk {} of {} bytes with limit {}", codec, full, limit), false, || {
                let fs = FsStore::new();
                let r = limited(limit, || guard(|| fs.h.write_chunk("a", &m, &chunk)))?;
                if limit >= full {
                    r.map_err(|e| e.to_string())?;
                    let back = fs.h.read_chunk::<i32>("a", &m, smallvec![0]).map_err(|e| e.to_string())?;
                    check!(back.map(|c| c.into_data()) == Some(data.clone()), "data differs");
                } else {
                    check!(r.is_err(), "success although only {} of {} bytes could be stored", limit, full);
                }
                Ok(())
            });
        }
    } }
    let m = Meta::new(&[8], &[4], "<i4").build();
    for limit in [0u64, 1, 20, 40] {
        ctx.case("file size limit", || format!("metadata writes with limit {}", limit), false, || {
            let fs = FsStore::new();
            fs.h.create_group("h").unwrap();
            check!(limited(limit, || guard(|| fs.h.create_group("g")))?.is_err() || limit == 40, "create_group succeeded");
            check!(limited(limit, || guard(|| fs.h.create_array("a", &m)))?.is_err(), "create_array succeeded");
            check!(limited(limit, || guard(|| fs.h.set_attribute("h", "k".into(), "v".repeat(50))))?.is_err(), "set_attribute succeeded");
            check!(limited(limit, || guard(|| FilesystemHierarchy::open_or_create(fs.dir.0.join("other"))))?.is_err(), "open_or_create succeeded");
            Ok(())
        });
    }
}

/// A stream that moves at most `step` bytes a call, is interrupted now and then, and ends or fails after `left` bytes.
struct Choppy { data: Vec<u8>, pos: usize, step: usize, left: usize, end: End, calls: usize }
#[derive(Clone, Copy, PartialEq, Debug)]
enum End { Fail, Zero }
impl Choppy {
    fn new(data: Vec<u8>, step: usize, left: usize, end: End) -> Choppy { Choppy { data, pos: 0, step, left, end, calls: 0 } }
    fn take(&mut self, want: usize) -> Result<usize, Error> {
        self.calls += 1;
        if self.calls % 3 == 2 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = want.min(self.step).min(self.left);
        if n == 0 && want > 0 { return if self.end == End::Fail { Err(Error::new(std::io::ErrorKind::Other, "injected")) } else { Ok(0) }; }
        self.left -= n;
        Ok(n)
    }
}
impl std::io::Write for Choppy {
    fn write(&mut self, b: &[u8]) -> Result<usize, Error> { let n = self.take(b.len())?; self.data.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> Result<(), Error> { Ok(()) }
}
impl std::io::Read for Choppy {
    fn read(&mut self, b: &mut [u8]) -> Result<usize, Error> { let n = self.take(b.len())?; b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); self.pos += n; Ok(n) }
}

/// Chunk data of one element type on streams that take or give it piecemeal.
fn streams<T: Elem>(ctx: &mut Ctx) where VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T> {
    let mut r = ctx.rng(1870);
    for big in [false, true] { for n in [1usize, 7, 255, 256, 257, 700] {
        let m = Meta::new(&[n as u64], &[n as u32], &type_string::<T>(big)).build();
        let data: Vec<T> = (0..n).map(|_| T::random(&mut r)).collect();
        let bytes: Vec<u8> = data.iter().flat_map(|x| x.bytes(big)).collect();
        let len = bytes.len();
        let chunk = VecDataChunk::new(smallvec![0], data);
        let mut cuts = vec![0, 1, len / 2, len - 1];
        if ctx.thorough { cuts.extend((0..len).step_by(1 + len / 200)); }
        cuts.sort(); cuts.dedup(); cuts.retain(|c| *c < len);
        for step in [1usize, 3, 100, 100000] {
            ctx.case("streams", || format!("{} {} elements, {} bytes a call", type_string::<T>(big), n, step), false, || {
                let mut w = Choppy::new(vec![], step, usize::MAX, End::Fail);
                guard(|| chunk.write_data(&mut w, &m))?.map_err(|e| format!("write: {}", e))?;
                check!(w.data == bytes, "success although not every byte was written");
                let mut back = VecDataChunk::new(smallvec![0], vec![T::default(); n]);
                let mut rd = Choppy::new(bytes.clone(), step, len, End::Fail);
                guard(|| back.read_data(&mut rd, &m))?.map_err(|e| format!("read: {}", e))?;
                check!(rd.pos == len, "success although not every byte was read");
                let got: Vec<u8> = back.get_data().iter().flat_map(|x| x.bytes(big)).collect();
                check!(got == bytes || T::KIND == "bool", "elements differ");
                Ok(())
            });
            for end in [End::Fail, End::Zero] { for cut in &cuts {
                ctx.case("streams", || format!("{} {} elements, {} bytes a call, {:?} after {} of {}", type_string::<T>(big), n, step, end, cut, len), false, || {
                    let mut w = Choppy::new(vec![], step, *cut, end);
                    check!(guard(|| chunk.write_data(&mut w, &m))?.is_err(), "write succeeded");
                    let mut back = VecDataChunk::new(smallvec![0], vec![T::default(); n]);
                    let mut rd = Choppy::new(bytes.clone(), step, *cut, end);
                    check!(guard(|| back.read_data(&mut rd, &m))?.is_err(), "read succeeded");
                    Ok(())
                });
            } }
        }
    } }
}

pub fn c18(ctx: &mut Ctx) {
    crate::sysfaults::run(ctx, |_| true);
    streams::<bool>(ctx); streams::<u8>(ctx); streams::<u16>(ctx); streams::<u32>(ctx); streams::<u64>(ctx);
    streams::<i8>(ctx); streams::<i16>(ctx); streams::<i32>(ctx); streams::<i64>(ctx);
    streams::<half::f16>(ctx); streams::<f32>(ctx); streams::<f64>(ctx);
    for codec in CODECS {
        memory(ctx, codec, 5);
        memory(ctx, codec, 300);
        if ctx.thorough { memory(ctx, codec, 2); memory(ctx, codec, 4000); }
        write_direct(ctx, codec);
    }
    if ctx.unprivileged { denied(ctx); } else { ctx.notes.push("still privileged: permission cases skipped".into()); }
    file_size(ctx);
    let _ = get_chunk_key;
}
