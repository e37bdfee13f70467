//! C18 (and C16) on the filesystem: each system call of an operation fails in turn.
use crate::elem::*;
use crate::store::*;
use crate::util::*;
use crate::check;
use std::io::{Error, Read, Write};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;
use zarr::smallvec::smallvec;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

/// The system calls on files (x86-64), without `close`, whose failures std ignores.
const CALLS: &[u64] = &[0, 1, 2, 4, 5, 6, 8, 17, 18, 19, 20, 21, 72, 73, 74, 76, 77, 78, 82, 83, 84, 85, 87, 133, 217, 257, 258, 260, 262, 263, 264, 269, 285, 332];

/// What became of the operation: its outcome as text, and whether a call was made to fail.
pub enum Outcome { Done(String, bool), Untraced }

/// Run `op` in a process of its own, making its file system call number `n` (counting from 0) fail with `errno`.
#[cfg(target_arch = "x86_64")]
pub fn failing(n: u64, errno: i32, op: impl FnOnce() -> Result<String, Error>) -> Outcome {
    const ROOM: usize = 1 << 16;
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), ROOM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        if m as isize == -1 { return Outcome::Untraced; }
        let pid = libc::fork();
        if pid < 0 { libc::munmap(m as *mut _, ROOM); return Outcome::Untraced; }
        if pid == 0 {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 { libc::_exit(99); }
            libc::raise(libc::SIGSTOP);
            let r = guard(op);
            let s = match r { Ok(Ok(s)) => format!("ok {}", s), Ok(Err(e)) => format!("err {}", e), Err(p) => p };
            let b = &s.as_bytes()[..s.len().min(ROOM - 8)];
            std::ptr::copy_nonoverlapping(b.as_ptr(), m.add(8), b.len());
            *(m as *mut u64) = b.len() as u64;
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !libc::WIFSTOPPED(st) { libc::munmap(m as *mut _, ROOM); return Outcome::Untraced; }
        let (mut seen, mut entering, mut hit, mut pending) = (0, true, false, false);
        loop {
            libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, 0);
            libc::waitpid(pid, &mut st, 0);
            if !libc::WIFSTOPPED(st) { break; }
            if libc::WSTOPSIG(st) != libc::SIGTRAP { continue; }
            let mut regs: libc::user_regs_struct = std::mem::zeroed();
            if entering {
                libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut regs as *mut _);
                if CALLS.contains(&regs.orig_rax) {
                    if seen == n {
                        regs.orig_rax = u64::MAX;
                        libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs as *const _);
                        pending = true;
                    }
                    seen += 1;
                }
            } else if pending {
                libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut regs as *mut _);
                regs.rax = -(errno as i64) as u64;
                libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs as *const _);
                pending = false;
                hit = true;
            }
            entering = !entering;
        }
        let len = *(m as *const u64) as usize;
        let s = if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { String::from_utf8_lossy(std::slice::from_raw_parts(m.add(8), len)).into_owned() } else { format!("the process died: {}", st) };
        libc::munmap(m as *mut _, ROOM);
        Outcome::Done(s, hit)
    }
}
#[cfg(not(target_arch = "x86_64"))]
pub fn failing(_: u64, _: i32, _: impl FnOnce() -> Result<String, Error>) -> Outcome { Outcome::Untraced }

fn setup(f: &FsStore, m: &ArrayMetadata) -> Result<(), Error> {
    // An entry point that nobody would write anew.
    let mut e: serde_json::Value = serde_json::from_slice(&std::fs::read(f.base().join("zarr.json"))?)?;
    e["extensions"] = serde_json::json!([{"extension": "x", "must_understand": false}]);
    std::fs::write(f.base().join("zarr.json"), serde_json::to_string_pretty(&e)?)?;
    f.h.create_group("g")?;
    f.h.create_array("g/a", m)?;
    f.h.create_array("g/b", m)?;
    f.h.create_group("g/sub/deep")?;
    let mut o = serde_json::Map::new();
    o.insert("k".into(), serde_json::json!("v".repeat(60)));
    f.h.set_attributes("g", o)?;
    for i in 0..2u64 { f.h.write_chunk("g/a", m, &VecDataChunk::new(smallvec![i], (0..40u32).map(|x| x * 7 + i as u32).collect()))?; }
    f.h.set("/data/root/plain", |mut w| { w.write_all(&vec![5; 20_000])?; w.flush() })
}

fn refused(r: Result<(), Error>) -> Result<String, Error> { match r { Ok(()) => Ok("created".into()), Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => Ok("refused".into()), Err(e) => Err(e) } }
/// The operations, each with a name and whether it only reads.
fn operations() -> Vec<(&'static str, bool, Box<dyn Fn(&FsStore, &ArrayMetadata) -> Result<String, Error>>)> {
    fn b(f: impl Fn(&FsStore, &ArrayMetadata) -> Result<String, Error> + 'static) -> Box<dyn Fn(&FsStore, &ArrayMetadata) -> Result<String, Error>> { Box::new(f) }
    let object = || { let mut o = serde_json::Map::new(); o.insert("new".into(), serde_json::json!([1, 2, 3])); o };
    vec![
        ("exists array", true, b(|f, _| Ok(format!("{:?}", HierarchyReader::exists(&f.h, "g/a")?)))),
        ("exists group", true, b(|f, _| Ok(format!("{:?}", HierarchyReader::exists(&f.h, "g")?)))),
        ("exists implicit group", true, b(|f, _| Ok(format!("{:?}", HierarchyReader::exists(&f.h, "g/sub")?)))),
        ("exists nothing", true, b(|f, _| Ok(format!("{:?}", HierarchyReader::exists(&f.h, "g/none")?)))),
        ("array_exists", true, b(|f, _| Ok(format!("{:?}", f.h.array_exists("g/a")?)))),
        ("key exists", true, b(|f, _| Ok(format!("{:?}", ReadableStore::exists(&f.h, "/data/root/plain")?)))),
        ("get", true, b(|f, _| { let mut v = vec![]; Ok(match f.h.get("/data/root/plain")? { Some(mut r) => { r.read_to_end(&mut v)?; format!("{} {:?}", v.len(), v.first()) } None => "none".into() }) })),
        ("get_array_metadata", true, b(|f, _| Ok(format!("{:?}", f.h.get_array_metadata("g/a")?)))),
        ("list_attributes of a group", true, b(|f, _| Ok(format!("{:?}", f.h.list_attributes("g")?)))),
        ("list_attributes of an array", true, b(|f, _| Ok(format!("{:?}", f.h.list_attributes("g/a")?)))),
        ("list_nodes", true, b(|f, _| Ok(format!("{:?}", f.h.list_nodes("g")?)))),
        ("list_nodes of the root", true, b(|f, _| Ok(format!("{:?}", f.h.list_nodes("")?)))),
        ("list", true, b(|f, _| { let mut l = f.h.list()?; l.sort(); Ok(format!("{:?}", l)) })),
        ("list_prefix", true, b(|f, _| { let mut l = f.h.list_prefix("/data/root/g")?; l.sort(); Ok(format!("{:?}", l)) })),
        ("list_dir", true, b(|f, _| { let mut l = f.h.list_dir("/meta/root/g/")?; l.0.sort(); l.1.sort(); Ok(format!("{:?}", l)) })),
        ("read_chunk", true, b(|f, m| Ok(format!("{:?}", f.h.read_chunk::<u32>("g/a", m, smallvec![1])?.map(|c| c.into_data()))))),
        ("read_chunk of a missing chunk", true, b(|f, m| Ok(format!("{:?}", f.h.read_chunk::<u32>("g/a", m, smallvec![2])?.map(|c| c.into_data()))))),
        ("read_chunk_into", true, b(|f, m| { let mut c = VecDataChunk::new(smallvec![0], vec![]); Ok(match f.h.read_chunk_into::<u32, _>("g/a", m, smallvec![1], &mut c)? { Some(()) => format!("{:?}", c.get_data()), None => "none".into() }) })),
        ("read_ndarray", true, b(|f, m| Ok(format!("{:?}", f.h.read_ndarray::<u32>("g/a", m, &zarr::ndarray::BoundingBox::new(smallvec![30], smallvec![70]))?.iter().collect::<Vec<_>>())))),
        ("open", true, b(|f, _| FilesystemHierarchy::open(f.base()).map(|_| String::new()))),
        ("open_or_create", true, b(|f, _| FilesystemHierarchy::open_or_create(f.base()).map(|_| String::new()))),
        ("set", false, b(|f, _| f.h.set("/data/root/plain", |mut w| { w.write_all(&vec![6; 30_000])?; w.flush() }).map(|_| String::new()))),
        ("set of a new key", false, b(|f, _| f.h.set("/data/root/x/y/z", |mut w| { w.write_all(&[6; 30])?; w.flush() }).map(|_| String::new()))),
        ("erase", false, b(|f, _| Ok(format!("{:?}", f.h.erase("/data/root/plain")?)))),
        ("erase of nothing", true, b(|f, _| Ok(format!("{:?}", f.h.erase("/data/root/none")?)))),
        ("erase_prefix", false, b(|f, _| Ok(format!("{:?}", f.h.erase_prefix("/data/root/g/")?)))),
        ("erase_prefix of a single key", false, b(|f, _| Ok(format!("{:?}", f.h.erase_prefix("/data/root/g/a/c0")?)))),
        ("erase_prefix of nothing", true, b(|f, _| Ok(format!("{:?}", f.h.erase_prefix("/data/root/none/")?)))),
        ("create_group", false, b(|f, _| f.h.create_group("g/new").map(|_| String::new()))),
        ("create_group over a group", true, b(|f, _| f.h.create_group("g").map(|_| String::new()))),
        ("create_group over an array", true, b(|f, _| refused(f.h.create_group("g/a")))),
        ("create_array", false, b(|f, m| f.h.create_array("g/new", m).map(|_| String::new()))),
        ("create_array over an array", true, b(|f, m| refused(f.h.create_array("g/a", m)))),
        ("create_array over a group", true, b(|f, m| refused(f.h.create_array("g", m)))),
        ("set_attributes of a group", false, b(move |f, _| f.h.set_attributes("g", object()).map(|_| String::new()))),
        ("set_attributes of an array", false, b(move |f, _| f.h.set_attributes("g/a", object()).map(|_| String::new()))),
        ("write_chunk", false, b(|f, m| f.h.write_chunk("g/a", m, &VecDataChunk::new(smallvec![1], vec![3u32; 40])).map(|_| String::new()))),
        ("write_chunk of a new chunk", false, b(|f, m| f.h.write_chunk("g/b", m, &VecDataChunk::new(smallvec![1], vec![3u32; 40])).map(|_| String::new()))),
        ("write_ndarray", false, b(|f, m| f.h.write_ndarray::<u32, _>("g/a", m, smallvec![30], ndarray::ArrayD::from_elem(ndarray::IxDyn(&[70]), 9u32).view()).map(|_| String::new()))),
        ("delete_chunk", false, b(|f, m| Ok(format!("{:?}", f.h.delete_chunk("g/a", m, &[1])?)))),
        ("remove an array", false, b(|f, _| f.h.remove("g/a").map(|_| String::new()))),
        ("remove a group", false, b(|f, _| f.h.remove("g").map(|_| String::new()))),
        ("remove_all", false, b(|f, _| f.h.remove_all().map(|_| String::new()))),
    ]
}

/// Operations whose name passes `which`: with one call failing they fail, or do what they do without.
pub fn run(ctx: &mut Ctx, which: impl Fn(&str) -> bool) {
    match failing(u64::MAX, 0, || Ok("x".into())) { Outcome::Done(s, false) if s == "ok x" => (), _ => { ctx.notes.push("processes cannot be traced here: no failing system calls".into()); return; } }
    let mut mm = Meta::new(&[120], &[40], "<u4");
    mm.codec = "gzip";
    let m = mm.build();
    let errnos: &[i32] = if ctx.thorough { &[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::ELOOP] } else { &[libc::EIO, libc::EACCES] };
    for (name, reads, op) in operations() {
        if !which(name) { continue; }
        let (want, after) = {
            let f = FsStore::new();
            if setup(&f, &m).is_err() { continue; }
            match guard(|| op(&f, &m)) { Ok(Ok(s)) => (format!("ok {}", s), dir_map(&f.base())), _ => continue }
        };
        for &errno in errnos { for n in 0..400 {
            let more = std::cell::Cell::new(true);
            ctx.case("failing system calls", || format!("{}: call {} fails with errno {}", name, n, errno), false, || {
                let f = FsStore::new();
                setup(&f, &m).map_err(|e| format!("setup: {}", e))?;
                let before = dir_map(&f.base());
                let (got, hit) = match failing(n, errno, || op(&f, &m)) { Outcome::Done(s, h) => (s, h), Outcome::Untraced => { more.set(false); return Ok(()); } };
                more.set(hit);
                let now = dir_map(&f.base());
                check!(got.starts_with("err ") || got == want, "the call's failure does not surface: {:.300}, without it {:.300}", got, want);
                if reads { check!(now == before, "the store changed: {:?}", diff(&before, &now)); }
                if !got.starts_with("err ") { check!(now == after, "the operation succeeded without having done what it does: {:?}", diff(&after, &now)); }
                Ok(())
            });
            if !more.get() { break; }
        } }
    }
}
fn diff(a: &Map, b: &Map) -> Vec<String> { a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect() }
