//! C06, C07: element encoding and chunk gating.
use crate::elem::*;
use crate::store::*;
use crate::util::*;
use crate::{check, check_eq, for_types};
use std::io::{Error, ErrorKind, Read, Write};
use zarr::chunk::{DefaultChunk, DefaultChunkReader, DefaultChunkWriter, ReadableDataChunk, ReinitDataChunk, WriteableDataChunk};
use zarr::prelude::*;
use zarr::smallvec::{smallvec, SmallVec};
use zarr::storage::{get_chunk_key, ReadableStore};

/// A stream that transfers irregular amounts, with interruptions.
pub struct Choppy<'a> { data: &'a [u8], rng: Rng, max: u64, intr: bool }
impl<'a> Choppy<'a> { pub fn new(data: &'a [u8], rng: Rng, max: u64, intr: bool) -> Self { Choppy { data, rng, max, intr } } }
impl<'a> Read for Choppy<'a> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize, Error> {
        if self.intr && self.rng.chance(1, 5) { return Err(ErrorKind::Interrupted.into()); }
        let n = b.len().min(self.data.len()).min(if self.max == 0 { usize::MAX } else { self.rng.range(1, self.max) as usize });
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
pub struct ChoppyW { pub data: Vec<u8>, rng: Rng, max: u64, intr: bool }
impl ChoppyW { pub fn new(rng: Rng, max: u64, intr: bool) -> Self { ChoppyW { data: vec![], rng, max, intr } } }
impl Write for ChoppyW {
    fn write(&mut self, b: &[u8]) -> Result<usize, Error> {
        if self.intr && self.rng.chance(1, 5) { return Err(ErrorKind::Interrupted.into()); }
        let n = b.len().min(if self.max == 0 { usize::MAX } else { self.rng.range(1, self.max) as usize });
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> { Ok(()) }
}

fn enc<T: Elem>(v: &[T], big: bool) -> Vec<u8> { v.iter().flat_map(|x| x.bytes(big)).collect() }
fn same<T: Elem>(a: &[T], b: &[T]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.le() == y.le()) }

fn c06_type<T: Elem>(ctx: &mut Ctx) where VecDataChunk<T>: ReadableDataChunk + WriteableDataChunk {
    let mut lens = vec![0usize, 1, 2, 3, 5, 31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 767, 768, 769, 1000, 1025];
    if ctx.thorough { lens.extend(4..260); lens.extend([2047, 2048, 2049, 4096, 5000, 70000]); }
    let mut salt = 600;
    for big in [false, true] { for ext in [false, true] { for &len in &lens { for mode in 0..4u64 {
        salt += 1;
        let r0 = ctx.rng(salt);
        let ts = type_string::<T>(big);
        ctx.case("encode/decode", || format!("{}{} length {} stream mode {}", ts, if ext { " as fallback" } else { "" }, len, mode), len == 0, || {
            let mut r = r0.clone();
            let mut mm = Meta::new(&[10], &[5], &ts);
            if ext { mm.dtype = serde_json::json!({"extension": "http://e/x", "type": "zz", "fallback": ts}); }
            let m = mm.build();
            let v: Vec<T> = (0..len).map(|_| T::random(&mut r)).collect();
            let want = enc(&v, big);
            let (max, intr) = match mode { 0 => (0, false), 1 => (1, false), 2 => (7, true), _ => (3000, true) };
            // Encode, from a vector chunk and from a borrowed-slice chunk.
            let chunk = VecDataChunk::<T>::new(smallvec![0], v.clone());
            let mut w = ChoppyW::new(r.clone(), max, intr);
            chunk.write_data(&mut w, &m).map_err(|e| format!("write_data: {}", e))?;
            check!(w.data == want, "encoded bytes differ: got {} bytes {:?}.., expected {} bytes {:?}..", w.data.len(), diff(&w.data, &want), want.len(), &want[..want.len().min(8)]);
            check_eq!(chunk.get_num_elements() as usize, len, "element count");
            check!(same(chunk.get_data(), &v), "data changed by encoding");
            // Decode over old data.
            let mut back = VecDataChunk::<T>::new(smallvec![0], (0..len).map(|_| T::random(&mut r)).collect());
            back.read_data(Choppy::new(&want, r.clone(), max, intr), &m).map_err(|e| format!("read_data: {}", e))?;
            check!(same(back.get_data(), &v), "decoded elements differ, at byte {:?}", diff(&enc(back.get_data(), big), &want));
            // Arbitrary bytes (booleans: any non-zero byte is true).
            let raw = r.bytes(len * T::SIZE);
            let mut back = VecDataChunk::<T>::new(smallvec![0], (0..len).map(|_| T::random(&mut r)).collect());
            back.read_data(Choppy::new(&raw, r.clone(), max, intr), &m).map_err(|e| format!("read_data: {}", e))?;
            let want2: Vec<T> = raw.chunks(T::SIZE).map(|b| T::from(b, big)).collect();
            check!(same(back.get_data(), &want2), "decoding of arbitrary bytes differs");
            // Too short.
            if len > 0 {
                let mut cuts = vec![0, raw.len() / 2, raw.len() - 1];
                if raw.len() > 256 * T::SIZE { cuts.push(256 * T::SIZE); cuts.push((len / 256) * 256 * T::SIZE - if len % 256 == 0 { 1 } else { 0 }); }
                for cut in cuts {
                    if cut >= raw.len() { continue; }
                    let mut back = VecDataChunk::<T>::new(smallvec![0], v.clone());
                    check!(back.read_data(Choppy::new(&raw[..cut], r.clone(), max, intr), &m).is_err(), "decoding {} of {} bytes succeeded", cut, raw.len());
                }
            }
            Ok(())
        });
    } } } }
}
fn diff(a: &[u8], b: &[u8]) -> Option<usize> { (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)) }

/// Long data, in one piece.
fn c06_long<T: Elem>(ctx: &mut Ctx, len: usize) where VecDataChunk<T>: ReadableDataChunk + WriteableDataChunk {
    ctx.case("long data", || format!("{} length {}", std::any::type_name::<T>(), len), false, || {
        let m = Meta::new(&[10], &[5], &type_string::<T>(true)).build();
        let mut r = Rng::new(len as u64);
        let some: Vec<T> = (0..1021).map(|_| T::random(&mut r)).collect();
        let piece = enc(&some, true);
        let chunk = VecDataChunk::<T>::new(smallvec![0], some.iter().cycle().take(len).cloned().collect());
        let mut out = vec![];
        chunk.write_data(&mut out, &m).map_err(|e| format!("write_data: {}", e))?;
        check_eq!(out.len(), len * T::SIZE, "encoded length");
        check!(out.chunks(piece.len()).all(|c| c == &piece[..c.len()]), "encoded bytes differ");
        let mut back = VecDataChunk::<T>::new(smallvec![0], some.iter().rev().cycle().take(len).cloned().collect());
        back.read_data(&out[..], &m).map_err(|e| format!("read_data: {}", e))?;
        check!(back.get_data().chunks(some.len()).all(|c| same(c, &some[..c.len()])), "decoded elements differ");
        Ok(())
    });
}

pub fn c06(ctx: &mut Ctx) {
    for_types!(c06_type(ctx));
    for len in [4095usize, 4096, 4097, 8192, 32_768, 65_535, 65_536, 65_537] { for_types!(c06_long(ctx, len)); }
    if ctx.thorough { c06_long::<u8>(ctx, 17_000_003); c06_long::<bool>(ctx, 17_000_003); c06_long::<half::f16>(ctx, 17_000_003); c06_long::<i16>(ctx, 17_000_003); c06_long::<f64>(ctx, 17_000_003); }
    ctx.case("slices", || "borrowed slices encode and decode alike".into(), false, || {
        let m = Meta::new(&[10], &[5], ">i4").build();
        let v = [1i32, -2, 3];
        let mut out = vec![];
        SliceDataChunk::<i32, &[i32]>::new(smallvec![0], &v[..]).write_data(&mut out, &m).map_err(|e| e.to_string())?;
        check_eq!(out, vec![0, 0, 0, 1, 255, 255, 255, 254, 0, 0, 0, 3], "bytes");
        let mut dst = [0i32; 3];
        SliceDataChunk::<i32, &mut [i32]>::new(smallvec![0], &mut dst[..]).read_data(&out[..], &m).map_err(|e| e.to_string())?;
        check_eq!(dst, v, "elements");
        Ok(())
    });
    ctx.case("all f16", || "all 65536 half bit patterns, both orders".into(), false, || {
        for big in [false, true] {
            let m = Meta::new(&[10], &[5], &type_string::<half::f16>(big)).build();
            let v: Vec<half::f16> = (0..=65535u16).map(half::f16::from_bits).collect();
            let mut out = vec![];
            VecDataChunk::new(smallvec![0], v.clone()).write_data(&mut out, &m).map_err(|e| e.to_string())?;
            check!(out == enc(&v, big), "encoding");
            let mut b = VecDataChunk::new(smallvec![0], vec![half::f16::from_bits(0); 65536]);
            b.read_data(&out[..], &m).map_err(|e| e.to_string())?;
            check!(same(b.get_data(), &v), "decoding");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C07

pub fn element_types() -> Vec<&'static str> {
    vec!["bool", "<u1", ">u1", "u1", "<u2", ">u2", "<u4", ">u4", "<u8", ">u8", "i1", "<i1", ">i1", "<i2", ">i2", "<i4", ">i4", "<i8", ">i8", "<f2", ">f2", "<f4", ">f4", "<f8", ">f8", "r8", "r16", "r32", "r64"]
}

fn c07_gate<T: Elem>(ctx: &mut Ctx) where VecDataChunk<T>: ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T> {
    let mut salt = 700;
    for ts in element_types() { for ext in [0, 1, 2] { for codec in ["raw", "gzip"] {
        salt += 1;
        let r0 = ctx.rng(salt);
        let fits = ts.trim_start_matches(|c| c == '<' || c == '>') == type_string::<T>(false).trim_start_matches('<');
        ctx.case("type gate", || format!("array {} ({}), elements {}, {}", ts, ["plain", "fallback", "no fallback"][ext], std::any::type_name::<T>(), codec), false, || {
            let mut r = r0.clone();
            let fits = fits && ext != 2;
            let mut mm = Meta::new(&[6], &[4], ts);
            if ext == 1 { mm.dtype = serde_json::json!({"extension": "http://e/x", "type": ts, "fallback": ts}); }
            if ext == 2 { mm.dtype = serde_json::json!({"extension": "http://e/x", "type": ts}); }
            mm.codec = codec;
            let m = mm.build();
            let s = MemStore::new();
            // Something is already stored in the chunk that is written, long enough to be read as any type.
            s.map.borrow_mut().insert("/data/root/a/c1".into(), r.bytes(64));
            s.map.borrow_mut().insert("/data/root/a/c0".into(), r.bytes(64));
            let before = s.snapshot();
            let v: Vec<T> = (0..4).map(|_| T::random(&mut r)).collect();
            let chunk = VecDataChunk::<T>::new(smallvec![1], v.clone());
            let res = s.write_chunk("a", &m, &chunk);
            if fits {
                res.map_err(|e| format!("write of the right type failed: {}", e))?;
                let back = s.read_chunk::<T>("a", &m, smallvec![1]).map_err(|e| e.to_string())?.ok_or("written chunk is missing")?;
                check!(same(back.get_data(), &v), "read back differs");
                let mut after = s.snapshot();
                after.insert("/data/root/a/c1".into(), before["/data/root/a/c1"].clone());
                check!(after == before, "another key changed");
            } else {
                check!(res.is_err(), "write of the wrong type succeeded");
                check!(s.snapshot() == before, "rejected write changed the store");
                if codec == "raw" {
                    check!(s.read_chunk::<T>("a", &m, smallvec![1]).is_err(), "read of the wrong type succeeded");
                    let mut b = VecDataChunk::<T>::new(smallvec![0], vec![]);
                    check!(s.read_chunk_into::<T, _>("a", &m, smallvec![1], &mut b).is_err(), "read_chunk_into of the wrong type succeeded");
                    check!(<DefaultChunk as DefaultChunkReader<T, _>>::read_chunk(&[0u8; 64][..], &m, smallvec![0]).is_err(), "reader of the wrong type succeeded");
                }
                let mut out = vec![];
                check!(<DefaultChunk as DefaultChunkWriter<T, _, _>>::write_chunk(&mut out, &m, &chunk).is_err(), "writer of the wrong type succeeded");
                check!(out.is_empty(), "rejected chunk emitted bytes");
            }
            Ok(())
        });
    } } }
}

fn c07_store<S: Probe>(s: &S, codec: &'static str, n: usize, shape: &[u32], r: &mut Rng) -> Result<(), String> {
    // Array of several chunks; write with n elements.
    let big = r.chance(1, 2);
    let mut mm = Meta::new(&shape.iter().map(|&c| c as u64 * 2 + 1).collect::<Vec<_>>(), shape, &type_string::<i32>(big));
    mm.codec = codec;
    let m = mm.build();
    let want: usize = shape.iter().map(|&x| x as usize).product();
    let pos: Vec<u64> = shape.iter().map(|_| r.below(3)).collect();
    let other: Vec<u64> = pos.iter().map(|p| (p + 1) % 3).collect();
    let old: Vec<i32> = (0..want).map(|_| r.next() as i32).collect();
    let gp = |p: &[u64]| -> SmallVec<[u64; 6]> { SmallVec::from_slice(p) };
    let e = |e: Error| format!("unexpected error: {}", e);
    check!(s.read_chunk::<i32>("a/b", &m, gp(&pos)).map_err(e)?.is_none(), "chunk exists before it is written");
    s.write_chunk("a/b", &m, &VecDataChunk::new(gp(&pos), old.clone())).map_err(e)?;
    let key = get_chunk_key("a/b", &m, &pos);
    let c1 = s.content();
    check_eq!(c1.keys().cloned().collect::<Vec<_>>(), vec![key.clone()], "keys after one write");
    if codec == "raw" { check!(c1[&key] == enc(&old, big), "raw stored bytes"); }
    let new: Vec<i32> = (0..n).map(|_| r.next() as i32).collect();
    let res = s.write_chunk("/a/b/", &m, &SliceDataChunk::<i32, &[i32]>::new(gp(&pos), &new[..]));
    let now = if n == want { res.map_err(e)?; new } else {
        check!(res.is_err(), "write of {} elements into chunks of {} succeeded", n, want);
        check!(s.content() == c1, "rejected write changed the store");
        old
    };
    let back = s.read_chunk::<i32>("a/b", &m, gp(&pos)).map_err(e)?.ok_or("chunk is missing")?;
    check_eq!(back.get_data(), &now[..], "elements");
    check_eq!(back.get_grid_position(), &pos[..], "grid position");
    check_eq!(back.get_num_elements() as usize, want, "number of elements");
    // Into a chunk with other content.
    for junk in [0usize, 1, want, want + 3, 700] {
        let mut b = VecDataChunk::new(smallvec![9, 9, 9], vec![-1i32; junk]);
        let r = s.read_chunk_into::<i32, _>("a/b", &m, gp(&pos), &mut b).map_err(e)?;
        check!(r.is_some(), "read_chunk_into misses the chunk");
        check_eq!(b.get_data(), &now[..], "elements read into a buffer of {}", junk);
        check_eq!(b.get_grid_position(), &pos[..], "grid position of the buffer");
    }
    if other != pos {
        check!(s.read_chunk::<i32>("a/b", &m, gp(&other)).map_err(e)?.is_none(), "another chunk is not absent");
        let mut b = VecDataChunk::new(smallvec![7], vec![5i32; 3]);
        check!(s.read_chunk_into::<i32, _>("a/b", &m, gp(&other), &mut b).map_err(e)?.is_none(), "another chunk is not absent (into)");
    }
    // Truncations.
    let full = s.content()[&key].clone();
    let mut cuts: Vec<usize> = if full.len() <= 80 { (0..full.len()).collect() } else { vec![0, 1, full.len() / 3, full.len() / 2, full.len() - 1, full.len() - 2, full.len() - 9] };
    cuts.dedup();
    for cut in cuts {
        s.set(&key, |mut w| { w.write_all(&full[..cut])?; w.flush() }).map_err(e)?;
        match s.read_chunk::<i32>("a/b", &m, gp(&pos)) {
            Ok(Some(c)) => check!(codec != "raw" && c.get_data() == &now[..], "chunk truncated to {} of {} bytes reads as {:?}", cut, full.len(), &c.get_data()[..c.get_data().len().min(8)]),
            Ok(None) => return Err(format!("chunk truncated to {} of {} bytes reads as missing", cut, full.len())),
            Err(_) => (),
        }
        let mut b = VecDataChunk::new(smallvec![0], vec![5i32; 3]);
        match s.read_chunk_into::<i32, _>("a/b", &m, gp(&pos), &mut b) {
            Ok(Some(())) => check!(codec != "raw" && b.get_data() == &now[..], "truncated chunk reads into {:?}", &b.get_data()[..b.get_data().len().min(8)]),
            Ok(None) => return Err("truncated chunk reads as missing (into)".into()),
            Err(_) => (),
        }
    }
    Ok(())
}

pub fn c07(ctx: &mut Ctx) {
    for_types!(c07_gate(ctx));
    let mut salt = 7000;
    for codec in CODECS { for shape in [vec![], vec![1u32], vec![4], vec![300], vec![2, 3], vec![17, 16], vec![2, 2, 2], vec![1, 2, 1, 2, 1, 1, 2, 2]] {
        let want: usize = shape.iter().map(|&x| x as usize).product();
        let mut ns = vec![want, 0, 1, want + 1, want * 2, want + 256];
        if want > 0 { ns.push(want - 1); }
        ns.sort(); ns.dedup();
        for n in ns {
            salt += 1;
            let r = ctx.rng(salt);
            ctx.case("chunk io", || format!("memory {} chunk {:?} write {} elements", codec, shape, n), false, || c07_store(&MemStore::new(), codec, n, &shape, &mut r.clone()));
            let r = ctx.rng(salt + 500000);
            ctx.case("chunk io", || format!("filesystem {} chunk {:?} write {} elements", codec, shape, n), false, || { let f = FsStore::new(); c07_store(&f.h, codec, n, &shape, &mut r.clone()) });
        }
    } }
    for codec in ["raw", "gzip"] { for want in [512usize, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 8192, 16_383, 16_384, 16_385, 32_768] {
        salt += 1;
        let r = ctx.rng(salt);
        ctx.case("long chunk io", || format!("memory {} chunk of {}", codec, want), false, || c07_store(&MemStore::new(), codec, want, &[want as u32], &mut r.clone()));
        ctx.case("long chunk io", || format!("filesystem {} chunk of {}", codec, want), false, || { let f = FsStore::new(); c07_store(&f.h, codec, want, &[want as u32], &mut r.clone()) });
    } }
    ctx.case("reinitialize", || "chunk buffers reinitialize to exactly the given content".into(), false, || {
        for a in [0usize, 1, 5, 300] { for b in [0u32, 1, 4, 5, 6, 400] {
            let mut c = VecDataChunk::<u16>::new(smallvec![1, 2], vec![7; a]);
            c.reinitialize(&smallvec![3, 4, 5], b);
            check_eq!(c.get_num_elements(), b, "elements after reinitialize");
            check_eq!(c.get_grid_position(), &[3, 4, 5][..], "position after reinitialize");
            let o = VecDataChunk::<u16>::new(smallvec![8], (0..b as u16).collect());
            c.reinitialize_with(&o);
            check_eq!(c.get_data(), o.get_data(), "data after reinitialize_with");
            check_eq!(c.get_grid_position(), &[8][..], "position after reinitialize_with");
        } }
        Ok(())
    });
    // The same chunk position under other nodes is unaffected.
    let _ = ReadableStore::exists(&MemStore::new(), "");
}
