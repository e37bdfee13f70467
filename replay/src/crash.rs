//! C19: values shared between threads and processes.  C20: writes cut off by the end of their process.
use crate::elem::*;
use crate::store::*;
use crate::util::*;
use crate::{check, check_eq};
use std::io::{Error, Read, Write};
use std::sync::mpsc::channel;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Duration;
use zarr::ndarray::prelude::*;
use zarr::prelude::*;
use zarr::smallvec::smallvec;
use zarr::storage::{get_chunk_key, ReadableStore, WriteableStore};

fn value(tag: u8, n: usize) -> Vec<u8> { (0..n).map(|i| tag.wrapping_add((i / 97) as u8 % 5 * 40)).collect() }
fn put(h: &FilesystemHierarchy, key: &str, v: &[u8]) -> Result<(), Error> { h.set(key, |mut w| { w.write_all(v)?; w.flush() }) }
fn whole(h: &FilesystemHierarchy, key: &str) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    match h.get(key).map_err(|e| format!("get: {}", e))? { Some(mut r) => { r.read_to_end(&mut v).map_err(|e| format!("reading: {}", e))?; Ok(v) } None => Err("no value".into()) }
}
fn pause(ms: u64) { std::thread::sleep(Duration::from_millis(ms)) }
fn summary(v: &[u8]) -> String { let mut parts: Vec<(u8, usize)> = vec![]; for b in v { match parts.last_mut() { Some(p) if p.0 == *b => p.1 += 1, _ => parts.push((*b, 1)) } } format!("{} bytes {:?}{}", v.len(), &parts[..parts.len().min(6)], if parts.len() > 6 { ".." } else { "" }) }

pub fn c19(ctx: &mut Ctx) {
    let sizes: &[usize] = if ctx.thorough { &[1, 100, 8191, 8192, 8193, 20_000, 131_072, 500_000, 2_000_000] } else { &[1, 100, 8192, 20_000, 131_072, 500_000] };
    for &a in sizes { for &b in sizes { for begin in [0usize, 1, 9000] {
        ctx.case("a value is read while another is set", || format!("{} bytes, then {}, after reading {}", a, b, begin), a < 2, || {
            let f = FsStore::new();
            let (old, new) = (value(1, a), value(9, b));
            put(&f.h, "/k/v", &old).map_err(|e| e.to_string())?;
            put(&f.h, "/k/w", b"other").map_err(|e| e.to_string())?;
            let mut r = f.h.get("/k/v").unwrap().ok_or("no value")?;
            let begin = begin.min(a);
            let mut got = vec![0; begin];
            r.read_exact(&mut got).map_err(|e| e.to_string())?;
            let (h, n2) = (f.h.clone(), new.clone());
            let t = std::thread::spawn(move || put(&h, "/k/v", &n2));
            pause(6);
            // Others may be reading too, and other keys may change.
            put(&f.h, "/k/w", b"else").map_err(|e| e.to_string())?;
            r.read_to_end(&mut got).map_err(|e| format!("reading: {}", e))?;
            check!(got == old, "the reader got {}, expected {}", summary(&got), summary(&old));
            drop(r);
            t.join().unwrap().map_err(|e| format!("set: {}", e))?;
            let got = whole(&f.h, "/k/v")?;
            check!(got == new, "afterwards the value is {}, expected {}", summary(&got), summary(&new));
            check!(whole(&f.h, "/k/w")? == b"else", "another key changed");
            Ok(())
        });
    } } }
    for (old, new) in [("7", "12345678"), ("87654321", "12"), ("{}", "{\"a\":1}"), ("[1,2,3]", "   4")] { for cut in [0, new.len() / 2, new.len()] {
        ctx.case("a document is read while it is being set", || format!("{} over {}, read after {} bytes", new, old, cut), false, || {
            let f = FsStore::new();
            put(&f.h, "/k/v", old.as_bytes()).map_err(|e| e.to_string())?;
            let (tx, rx) = channel();
            let h = f.h.clone();
            let t = std::thread::spawn(move || h.set("/k/v", |mut w| { w.write_all(&new.as_bytes()[..cut])?; w.flush()?; tx.send(()).unwrap(); pause(6); w.write_all(&new.as_bytes()[cut..])?; w.flush() }));
            rx.recv().map_err(|_| "set did not call the function")?;
            let got = f.h.get_attributes("/k/v").map_err(|e| format!("get_attributes: {}", e))?;
            let is = |t: &str| serde_json::from_str::<serde_json::Value>(t).map(|v| v == got).unwrap_or(false);
            check!(is(old) || is(new), "the reader got {}, expected {} or {}", got, old, new);
            t.join().unwrap().map_err(|e| format!("set: {}", e))?;
            Ok(())
        });
    } }
    for &a in sizes { for &b in sizes { for part in [0usize, 1, 2] {
        ctx.case("a value is read while it is being set", || format!("{} bytes over {}, read after part {}", b, a, part), false, || {
            let f = FsStore::new();
            let (old, new) = (value(1, a), value(9, b));
            put(&f.h, "/k/v", &old).map_err(|e| e.to_string())?;
            let cut = match part { 0 => 0, 1 => b / 2, _ => b };
            let (tx, rx) = channel();
            let (h, n2) = (f.h.clone(), new.clone());
            let t = std::thread::spawn(move || h.set("/k/v", |mut w| { w.write_all(&n2[..cut])?; w.flush()?; tx.send(()).unwrap(); pause(6); w.write_all(&n2[cut..])?; w.flush() }));
            rx.recv().map_err(|_| "set did not call the function")?;
            let got = whole(&f.h, "/k/v")?;
            check!(got == old || got == new, "the reader got {}, expected {} or {}", summary(&got), summary(&old), summary(&new));
            t.join().unwrap().map_err(|e| format!("set: {}", e))?;
            let got = whole(&f.h, "/k/v")?;
            check!(got == new, "afterwards the value is {}, expected {}", summary(&got), summary(&new));
            Ok(())
        });
        for initial in [None, Some(0usize), Some(30_000)] { ctx.case("two values are set at once", || format!("{} and {} bytes over {:?}, the second after part {}", a, b, initial, part), false, || {
            let f = FsStore::new();
            let (one, two) = (value(1, a), value(9, b));
            if let Some(i) = initial { put(&f.h, "/k/v", &value(77, i)).map_err(|e| e.to_string())?; }
            let cut = match part { 0 => 0, 1 => a / 2, _ => a };
            let (tx, rx) = channel();
            let (h, v) = (f.h.clone(), one.clone());
            let t = std::thread::spawn(move || h.set("/k/v", |mut w| { w.write_all(&v[..cut])?; w.flush()?; tx.send(()).unwrap(); pause(6); w.write_all(&v[cut..])?; w.flush() }));
            rx.recv().map_err(|_| "set did not call the function")?;
            let (h, v) = (f.h.clone(), two.clone());
            let (tx2, rx2) = channel();
            let u = std::thread::spawn(move || h.set("/k/v", |mut w| { let c = v.len() / 2; w.write_all(&v[..c])?; w.flush()?; tx2.send(()).unwrap(); pause(3); w.write_all(&v[c..])?; w.flush() }));
            rx2.recv().map_err(|_| "set did not call the function")?;
            let got = whole(&f.h, "/k/v")?;
            check!(got == one || got == two, "meanwhile a reader got {}, expected {} or {}", summary(&got), summary(&one), summary(&two));
            t.join().unwrap().map_err(|e| format!("set: {}", e))?;
            u.join().unwrap().map_err(|e| format!("set: {}", e))?;
            let got = whole(&f.h, "/k/v")?;
            check!(got == one || got == two, "afterwards the value is {}, expected {} or {}", summary(&got), summary(&one), summary(&two));
            Ok(())
        }); }
    } } }
    // Another process writes; this one reads.
    for &b in sizes {
        ctx.case("a value is read while another process sets it", || format!("{} bytes", b), false, || {
            let f = FsStore::new();
            let (old, new) = (value(1, 40_000), value(9, b));
            put(&f.h, "/k/v", &old).map_err(|e| e.to_string())?;
            let mut p = [0i32; 2];
            check!(unsafe { libc::pipe(p.as_mut_ptr()) } == 0, "no pipe");
            let (h, n2) = (f.h.clone(), &new);
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                let r = h.set("/k/v", |mut w| { w.write_all(&n2[..b / 2])?; w.flush()?; unsafe { libc::write(p[1], b"x".as_ptr() as *const _, 1); } pause(15); w.write_all(&n2[b / 2..])?; w.flush() });
                unsafe { libc::_exit(if r.is_ok() { 0 } else { 1 }) }
            }
            let mut c = [0u8; 1];
            unsafe { libc::close(p[1]); libc::read(p[0], c.as_mut_ptr() as *mut _, 1); libc::close(p[0]); }
            let got = whole(&f.h, "/k/v");
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0); }
            let got = got?;
            check!(got == old || got == new, "the reader got {}, expected {} or {}", summary(&got), summary(&old), summary(&new));
            check_eq!(st, 0, "the writing process");
            let got = whole(&f.h, "/k/v")?;
            check!(got == new, "afterwards the value is {}, expected {}", summary(&got), summary(&new));
            Ok(())
        });
    }
    // Many at once, on chunks and attributes.
    let rounds = if ctx.thorough { 400 } else { 60 };
    for &codec in CODECS { for n in [40u32, 5000, 40_000] {
        ctx.case("chunks written and read by several threads", || format!("{} {} elements", codec, n), false, || {
            let f = FsStore::new();
            let mut mm = Meta::new(&[n as u64], &[n], "<u4");
            mm.codec = codec;
            let m = mm.build();
            f.h.create_array("a", &m).map_err(|e| e.to_string())?;
            // Elements that compress to different lengths, all with the writer's tag.
            let chunk = |tag: u32, round: u32| VecDataChunk::new(smallvec![0u64], (0..n).map(|i| tag * 1_000_000 + if round % 3 == 0 { 0 } else { (i.wrapping_mul(2654435761)) >> (12 + round % 3 * 6) }).collect::<Vec<u32>>());
            f.h.write_chunk("a", &m, &chunk(1, 0)).map_err(|e| e.to_string())?;
            let done = AtomicBool::new(false);
            let rounds = if n > 10_000 { rounds / 6 } else { rounds };
            let res: Vec<Result<(), String>> = std::thread::scope(|s| {
                let (done, m, chunk, f) = (&done, &m, &chunk, &f);
                let ws: Vec<_> = (1..3u32).map(|tag| { let h = f.h.clone(); s.spawn(move || { for i in 0..rounds { h.write_chunk("a", m, &chunk(tag, i)).map_err(|e| format!("write_chunk: {}", e))?; } Ok(()) }) }).collect();
                let rs: Vec<_> = (0..2).map(|k| { let h = f.h.clone(); s.spawn(move || {
                    let mut b = VecDataChunk::new(smallvec![0u64], vec![]);
                    while !done.load(Ordering::SeqCst) {
                        let d = if k == 0 { h.read_chunk::<u32>("a", m, smallvec![0]).map_err(|e| format!("read_chunk: {}", e))?.ok_or("no chunk")?.into_data() }
                            else { h.read_chunk_into::<u32, _>("a", m, smallvec![0], &mut b).map_err(|e| format!("read_chunk_into: {}", e))?.ok_or("no chunk")?; b.get_data().to_vec() };
                        let tag = d[0] / 1_000_000;
                        check!((1..3).contains(&tag) && (0..3).any(|r| d == *chunk(tag, r).get_data()), "the chunk read is none of those written: {:?}..", &d[..8]);
                    }
                    Ok(())
                }) }).collect();
                let mut out: Vec<Result<(), String>> = ws.into_iter().map(|t| t.join().unwrap_or(Err("panic".into()))).collect();
                done.store(true, Ordering::SeqCst);
                out.extend(rs.into_iter().map(|t| t.join().unwrap_or(Err("panic".into()))));
                out
            });
            res.into_iter().collect::<Result<Vec<_>, _>>()?;
            Ok(())
        });
    } }
    ctx.case("attributes written and read by several threads", || "".into(), false, || {
        let f = FsStore::new();
        f.h.create_group("g").map_err(|e| e.to_string())?;
        let object = |i: usize| { let mut o = serde_json::Map::new(); o.insert("long".into(), serde_json::json!(vec![i; 1 + i % 7 * 400])); o };
        f.h.set_attributes("g", object(0)).map_err(|e| e.to_string())?;
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let (done, object, f) = (&done, &object, &f);
            let h = f.h.clone();
            let w = s.spawn(move || { for i in 0..rounds as usize * 4 { h.set_attributes("g", object(i)).map_err(|e| format!("set_attributes: {}", e))?; } Ok::<_, String>(()) });
            let h = f.h.clone();
            let r = s.spawn(move || { while !done.load(Ordering::SeqCst) {
                let o = h.list_attributes("g").map_err(|e| format!("list_attributes: {}", e))?;
                let i = o.get("long").and_then(|l| l[0].as_u64()).ok_or("no attribute")? as usize;
                check!(o == object(i), "attributes that nobody set");
            } Ok::<_, String>(()) });
            let a = w.join().unwrap();
            done.store(true, Ordering::SeqCst);
            a?; r.join().unwrap()
        })
    });
}

/// Run `op` in a process that ends when it comes to write a file's byte number `k`.
fn cut_off(k: u64, op: impl FnOnce() -> Result<(), Error>) -> Result<bool, String> {
    let pid = unsafe { libc::fork() };
    if pid < 0 { return Err("fork".into()); }
    if pid == 0 {
        unsafe {
            let l = libc::rlimit { rlim_cur: k, rlim_max: k };
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
        let r = guard(op);
        unsafe { libc::_exit(match r { Ok(Ok(())) => 0, Ok(Err(_)) => 1, Err(_) => 2 }) }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0); }
    if libc::WIFSIGNALED(st) { return Ok(true); }
    match libc::WEXITSTATUS(st) { 2 => Err("panic in the writing process".into()), _ => Ok(false) }
}
/// Run `op` in a process that is killed when it enters its system call number `n` after `op` began (counting from 0).
/// Returns whether the process was killed; `None` if processes cannot be traced here.
fn stop_at(n: u64, op: impl FnOnce() -> Result<(), Error>) -> Option<bool> {
    let pid = unsafe { libc::fork() };
    if pid < 0 { return None; }
    if pid == 0 {
        unsafe {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 { libc::_exit(99); }
            libc::raise(libc::SIGSTOP);
        }
        let _ = guard(op);
        unsafe { libc::_exit(0) }
    }
    let mut st = 0;
    unsafe {
        libc::waitpid(pid, &mut st, 0);
        if !libc::WIFSTOPPED(st) { return None; }
        let (mut seen, mut entering) = (0, true);
        loop {
            libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, 0);
            libc::waitpid(pid, &mut st, 0);
            if !libc::WIFSTOPPED(st) { return Some(false); }
            if libc::WSTOPSIG(st) != libc::SIGTRAP { continue; }
            if entering {
                if seen == n { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); return Some(true); }
                seen += 1;
            }
            entering = !entering;
        }
    }
}
fn cuts(len: u64, thorough: bool) -> Vec<u64> {
    let mut p: Vec<u64> = if len <= 40 || thorough && len < 500 { (0..=len + 1).collect() } else { let n = if thorough { 60 } else { 9 }; (0..n).map(|i| i * len / n).chain([0, 1, 2, 3, 5, 8, 9, 10, 17, 18, 19, 26, 27, 8191, 8192, 8193, len - 9, len - 8, len - 5, len - 4, len - 2, len - 1, len, len + 1]).collect() };
    p.retain(|x| *x <= len + 1); p.sort(); p.dedup(); p
}
fn attrs(m: &ArrayMetadata) -> serde_json::Map<String, serde_json::Value> { serde_json::to_value(m).unwrap()["attributes"].as_object().cloned().unwrap_or_default() }
fn prefix_of(v: &[u8], of: &[u8]) -> bool { v.len() <= of.len() && *v == of[..v.len()] }

/// The file of `key` holds the old value or a beginning of the new one, other files are as they were.
fn after_cut(f: &FsStore, before: &Map, key: &str, new: &[u8]) -> Result<(), String> {
    let now = dir_map(&f.base());
    for (k, v) in before { if k != key { check!(now.get(k) == Some(v), "key {:?} changed", k); } }
    match now.get(key) {
        None => check!(!before.contains_key(key), "the old value disappeared"),
        Some(v) => check!(Some(v) == before.get(key) || prefix_of(v, new), "the file holds {} bytes, neither the old value nor a beginning of the new: {:?}", v.len(), before.get(key).map(|o| v.iter().zip(o).take_while(|(a, b)| a == b).count())),
    }
    Ok(())
}

/// Stops before every system call of an operation.
fn stops(ctx: &mut Ctx) {
    if stop_at(0, || Ok(())).is_none() { ctx.notes.push("processes cannot be traced here: no stops between system calls".into()); return; }
    let each = |ctx: &mut Ctx, what: String, case: &dyn Fn(u64) -> Result<bool, String>| {
        for n in 0..400 {
            let more = std::cell::Cell::new(true);
            ctx.case("stops between system calls", || format!("{}, before call {}", what, n), false, || { more.set(case(n)?); Ok(()) });
            if !more.get() { break; }
        }
    };
    for old in [None, Some(0usize), Some(10), Some(30_000)] { for new in [1usize, 9000, 20_000] {
        each(ctx, format!("set of {} bytes over {:?}", new, old), &|n| {
            let f = FsStore::new();
            let v = value(9, new);
            put(&f.h, "/k/other", b"other").map_err(|e| e.to_string())?;
            if let Some(o) = old { put(&f.h, "/k/v", &value(1, o)).map_err(|e| e.to_string())?; }
            let before = dir_map(&f.base());
            let more = stop_at(n, || f.h.set("/k/v", |mut w| { for c in v.chunks(3000) { w.write_all(c)?; } w.flush() })).ok_or("no trace")?;
            after_cut(&f, &before, "/k/v", &v)?;
            Ok(more)
        });
    } }
    for &codec in CODECS { for n in [40u32, 9000] { for over in [None, Some(0u32), Some(1)] {
        let mut mm = Meta::new(&[n as u64 * 2], &[n], "<u4");
        mm.codec = codec;
        let m = mm.build();
        let mut r = ctx.rng(2200 + n as u64);
        let noise: Vec<u32> = (0..n).map(|_| r.next() as u32).collect();
        let data = |k: u32| -> Vec<u32> { match k { 0 => vec![7; n as usize], 1 => noise.clone(), _ => (0..n).map(|i| i * 3 + (noise[i as usize] & 4095)).collect() } };
        each(ctx, format!("write_chunk {} {} elements over {:?}", codec, n, over), &|at| {
            let f = FsStore::new();
            f.h.create_array("a", &m).map_err(|e| e.to_string())?;
            if let Some(o) = over { f.h.write_chunk("a", &m, &VecDataChunk::new(smallvec![1], data(o))).map_err(|e| e.to_string())?; }
            let more = stop_at(at, || f.h.write_chunk("a", &m, &VecDataChunk::new(smallvec![1], data(2)))).ok_or("no trace")?;
            let ok = |d: &[u32]| *d == data(2)[..] || over.map_or(false, |o| *d == data(o)[..]);
            if let Ok(c) = f.h.read_chunk::<u32>("a", &m, smallvec![1]) { match c { Some(c) => check!(ok(c.get_data()), "read_chunk gives a chunk that was never written"), None => check!(over.is_none(), "read_chunk finds no chunk, neither the old nor the new") } }
            Ok(more)
        });
    } } }
    let metas: Vec<ArrayMetadata> = (0..2usize).map(|i| { let mut mm = Meta::new(&[100 + i as u64], &[7], "<f8"); mm.attributes = serde_json::json!({"k": vec!["x"; i * 3000], "n": i}); mm.build() }).collect();
    for array in [false, true] { for long in [0usize, 1] {
        each(ctx, format!("creation and attributes of {} {}", if array { "an array" } else { "a group" }, long), &|at| {
            let f = FsStore::new();
            let attributes = attrs(&metas[1 - long]);
            let mut both = attrs(&metas[long]);
            both.extend(attributes.clone());
            let more = stop_at(at, || { if array { f.h.create_array("n", &metas[long])?; } else { f.h.create_group("n")?; f.h.set_attributes("n", attrs(&metas[long]))?; } f.h.set_attributes("n", attributes.clone()) }).ok_or("no trace")?;
            if let Ok(o) = f.h.list_attributes("n") { check!(o == both || o == attrs(&metas[long]) || !array && o.is_empty(), "list_attributes gives attributes that were never written"); }
            if let Ok(m) = f.h.get_array_metadata("n") { let o = attrs(&m); check!(array && (m == metas[long] || o == both), "get_array_metadata gives metadata that were never written"); }
            Ok(more)
        });
        each(ctx, format!("attributes of an existing {} {}", if array { "array" } else { "group" }, long), &|at| {
            let f = FsStore::new();
            if array { f.h.create_array("n", &metas[long]).map_err(|e| e.to_string())?; } else { f.h.create_group("n").map_err(|e| e.to_string())?; f.h.set_attributes("n", attrs(&metas[long])).map_err(|e| e.to_string())?; }
            let attributes = attrs(&metas[1 - long]);
            let mut both = attrs(&metas[long]);
            both.extend(attributes.clone());
            let more = stop_at(at, || f.h.set_attributes("n", attributes.clone())).ok_or("no trace")?;
            check!(HierarchyReader::exists(&f.h, "n").unwrap_or(true), "the node disappeared");
            if let Ok(o) = f.h.list_attributes("n") { check!(o == both || o == attrs(&metas[long]), "list_attributes gives attributes that were never written"); }
            Ok(more)
        });
    } }
}

pub fn c20(ctx: &mut Ctx) {
    stops(ctx);
    // Plain values.
    for old in [None, Some(0usize), Some(10), Some(9000), Some(30_000)] { for new in [1usize, 12, 8192, 20_000, 60_000] {
        for k in cuts(new as u64, ctx.thorough) { for style in 0..2 {
            if style > 0 && k as usize > new { continue; }
            ctx.case("set", || format!("{} bytes over {:?}, {} after {}", new, old, if style == 0 { "cut off in the write" } else { "ended between writes" }, k), false, || {
                let f = FsStore::new();
                let v = value(9, new);
                put(&f.h, "/k/other", b"other").map_err(|e| e.to_string())?;
                if let Some(o) = old { put(&f.h, "/k/v", &value(1, o)).map_err(|e| e.to_string())?; }
                let before = dir_map(&f.base());
                if style == 0 { cut_off(k, || put(&f.h, "/k/v", &v))?; } else {
                    cut_off(1 << 40, || f.h.set("/k/v", |mut w| { w.write_all(&v[..k as usize])?; w.flush()?; unsafe { libc::_exit(0) } }))?;
                }
                after_cut(&f, &before, "/k/v", &v)
            });
        } }
    } }
    // Chunks.
    for &codec in CODECS { for (ty, n) in [("<u4", 40u32), (">u4", 700), ("<u4", 9000)] { for over in [None, Some(0u32), Some(1)] {
        let mut mm = Meta::new(&[n as u64 * 2], &[n], ty);
        mm.codec = codec;
        let m = mm.build();
        let mut r = ctx.rng(2000 + n as u64);
        let noise: Vec<u32> = (0..n).map(|_| r.next() as u32).collect();
        let data = |k: u32| -> Vec<u32> { match k { 0 => vec![7; n as usize], 1 => noise.clone(), _ => (0..n).map(|i| i * 3 + (noise[i as usize] & 15)).collect() } };
        let key = get_chunk_key("a", &m, &[1]);
        let enc = { let s = MemStore::new(); s.create_array("a", &m).unwrap(); match s.write_chunk("a", &m, &VecDataChunk::new(smallvec![1], data(2))) { Ok(_) => s.snapshot()[&key].clone(), Err(_) => vec![] } };
        for k in cuts(enc.len() as u64, ctx.thorough) {
            ctx.case("write_chunk", || format!("{} {} {} elements over {:?}, cut off at {}", codec, ty, n, over, k), false, || {
                let f = FsStore::new();
                f.h.create_array("a", &m).map_err(|e| e.to_string())?;
                f.h.write_chunk("a", &m, &VecDataChunk::new(smallvec![0], data(0))).map_err(|e| e.to_string())?;
                if let Some(o) = over { f.h.write_chunk("a", &m, &VecDataChunk::new(smallvec![1], data(o))).map_err(|e| e.to_string())?; }
                let before = dir_map(&f.base());
                cut_off(k, || f.h.write_chunk("a", &m, &VecDataChunk::new(smallvec![1], data(2))))?;
                after_cut(&f, &before, &key, &enc)?;
                let ok = |d: &[u32]| *d == data(2)[..] || over.map_or(false, |o| *d == data(o)[..]);
                if let Ok(c) = f.h.read_chunk::<u32>("a", &m, smallvec![1]) { match c { Some(c) => check!(ok(c.get_data()), "read_chunk gives a chunk that was never written"), None => check!(over.is_none(), "read_chunk finds no chunk") } }
                let mut b = VecDataChunk::new(smallvec![0], data(0));
                if let Ok(c) = f.h.read_chunk_into::<u32, _>("a", &m, smallvec![1], &mut b) { match c { Some(_) => check!(ok(b.get_data()), "read_chunk_into gives a chunk that was never written"), None => check!(over.is_none(), "read_chunk_into finds no chunk") } }
                if let Ok(a) = f.h.read_ndarray::<u32>("a", &m, &BoundingBox::new(smallvec![n as u64], smallvec![n as u64])) {
                    let a: Vec<u32> = a.iter().cloned().collect();
                    check!(ok(&a) || over.is_none() && a.iter().all(|x| *x == 0), "read_ndarray gives values that were never written");
                }
                Ok(())
            });
        }
    } } }
    torn_chunks(ctx);
    // Metadata documents.
    let metas: Vec<ArrayMetadata> = (0..3usize).map(|i| { let mut mm = Meta::new(&[100 + i as u64], &[7], "<f8"); mm.codec = CODECS[i]; mm.attributes = serde_json::json!({"k": vec!["é\"x"; i * 9], "n": i}); mm.build() }).collect();
    for over in [None, Some(0usize), Some(2)] {
        let doc = { let s = MemStore::new(); s.create_array("a", &metas[1]).unwrap(); s.snapshot().into_iter().next().unwrap() };
        for k in cuts(doc.1.len() as u64, true) {
            ctx.case("create_array", || format!("over {:?}, cut off at {}", over, k), false, || {
                let f = FsStore::new();
                f.h.create_group("g").map_err(|e| e.to_string())?;
                if let Some(o) = over { f.h.create_array("a", &metas[o]).map_err(|e| e.to_string())?; }
                let before = dir_map(&f.base());
                cut_off(k, || f.h.create_array("a", &metas[1]))?;
                after_cut(&f, &before, &doc.0, &doc.1)?;
                if let Ok(m) = f.h.get_array_metadata("a") { check!(m == metas[1] || over.map_or(false, |o| m == metas[o]), "get_array_metadata gives metadata that were never written"); }
                if let Ok(o) = f.h.list_attributes("a") { check!([Some(1), over].iter().flatten().any(|i| o == attrs(&metas[*i])), "list_attributes gives attributes that were never written"); }
                Ok(())
            });
        }
    }
    for array in [false, true] { for long in [0usize, 3, 40] {
        let setup = |f: &FsStore| -> Result<(), Error> { if array { f.h.create_array("n", &metas[2]) } else { f.h.create_group("n")?; let mut o = serde_json::Map::new(); o.insert("old".into(), serde_json::json!("value".repeat(12))); f.h.set_attributes("n", o) } };
        let mut object = serde_json::Map::new();
        object.insert("new".into(), serde_json::json!(vec![long; long]));
        let f = FsStore::new();
        if setup(&f).is_err() { continue; }
        let was = match f.h.list_attributes("n") { Ok(o) => o, Err(_) => continue };
        let b0 = dir_map(&f.base());
        if f.h.set_attributes("n", object.clone()).is_err() { continue; }
        let becomes = match f.h.list_attributes("n") { Ok(o) => o, Err(_) => continue };
        let doc = match dir_map(&f.base()).into_iter().find(|(k, v)| b0.get(k) != Some(v)) { Some(d) => d, None => continue };
        for k in cuts(doc.1.len() as u64, true) {
            ctx.case("set_attributes", || format!("{} length {}, cut off at {}", if array { "array" } else { "group" }, long, k), false, || {
                let f = FsStore::new();
                setup(&f).map_err(|e| e.to_string())?;
                let before = dir_map(&f.base());
                cut_off(k, || f.h.set_attributes("n", object.clone()))?;
                after_cut(&f, &before, &doc.0, &doc.1)?;
                if let Ok(o) = f.h.list_attributes("n") { check!(o == was || o == becomes, "list_attributes gives attributes that were never written: {:?}", o); }
                if array { if let Ok(m) = f.h.get_array_metadata("n") { check!(attrs(&m) == was || attrs(&m) == becomes, "get_array_metadata gives metadata that were never written"); } }
                Ok(())
            });
        }
    } }
}

/// What any beginning of an encoded chunk is read as (the streaming of decoders that the proof assumes).
fn torn_chunks(ctx: &mut Ctx) {
    for &codec in CODECS { for (i, n) in [1u32, 3, 40, 400, 3000, 20_000, 70_000].into_iter().enumerate() { for big in [false, true] {
        if n > 3000 && !ctx.thorough && codec == "xz" { continue; }
        let mut mm = Meta::new(&[n as u64], &[n], if big { ">u2" } else { "<u2" });
        mm.codec = codec;
        let m = mm.build();
        for kind in 0..3 {
            let mut r = ctx.rng(2100 + i as u64);
            let data: Vec<u16> = (0..n).map(|j| match kind { 0 => 0, 1 => r.next() as u16, _ => (j / 3) as u16 }).collect();
            let s = MemStore::new();
            if s.write_chunk("a", &m, &VecDataChunk::new(smallvec![0], data.clone())).is_err() { continue; }
            let (key, enc) = s.snapshot().into_iter().next().unwrap();
            ctx.case("beginnings of chunks", || format!("{} {} elements big {} kind {}", codec, n, big, kind), false, || {
                for k in cuts(enc.len() as u64, ctx_thorough(n)) {
                    if k as usize > enc.len() { continue; }
                    s.map.borrow_mut().insert(key.clone(), enc[..k as usize].to_vec());
                    if let Ok(c) = s.read_chunk::<u16>("a", &m, smallvec![0]) { check!(c.map(|c| c.into_data()).as_ref() == Some(&data), "{} of {} bytes are read as a chunk that was never written", k, enc.len()); }
                    let mut b = VecDataChunk::new(smallvec![0], vec![5; n as usize]);
                    if let Ok(c) = s.read_chunk_into::<u16, _>("a", &m, smallvec![0], &mut b) { check!(c.is_some() && *b.get_data() == data[..], "{} of {} bytes are read as a chunk that was never written", k, enc.len()); }
                }
                Ok(())
            });
        }
    } } }
}
fn ctx_thorough(n: u32) -> bool { n <= 400 }
