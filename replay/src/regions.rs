//! C04, C05: region writes and reads against a model of the chunks.
use crate::elem::*;
use crate::store::*;
use crate::util::*;
use crate::{check, for_types};
use ndarray::{ArrayD, Axis, IxDyn, ShapeBuilder, Slice};
use std::collections::BTreeMap;
use zarr::chunk::{ReadableDataChunk, ReinitDataChunk, WriteableDataChunk};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;
use zarr::smallvec::{smallvec, SmallVec};
use zarr::storage::get_chunk_key;

fn gp(p: &[u64]) -> GridCoord { SmallVec::from_slice(p) }

/// An owned array of the given shape whose strides depend on `kind`.
pub fn strided<T: Clone>(kind: u64, shape: &[usize], junk: T) -> ArrayD<T> {
    match kind {
        0 => ArrayD::from_elem(IxDyn(shape), junk),
        1 => ArrayD::from_elem(IxDyn(shape).f(), junk),
        2 => {
            let big: Vec<usize> = shape.iter().map(|n| 2 * n + 1).collect();
            let mut a = ArrayD::from_elem(IxDyn(&big), junk);
            for (i, n) in shape.iter().enumerate() {
                a.slice_axis_inplace(Axis(i), Slice::new(1, Some(2 * *n as isize + 1), 2));
            }
            a
        }
        3 => {
            let mut a = ArrayD::from_elem(IxDyn(shape), junk);
            for i in 0..shape.len() { a.invert_axis(Axis(i)); }
            a
        }
        _ => {
            let mut rev = shape.to_vec();
            rev.reverse();
            ArrayD::from_elem(IxDyn(&rev), junk).reversed_axes()
        }
    }
}
const KINDS: &[&str] = &["C", "F", "step 2", "inverted", "transposed"];

/// Position of `p` in a chunk of the given shape, in memory order.
fn index(p: &[u64], shape: &[u32], row_major: bool) -> usize {
    let mut i = 0usize;
    if row_major { for d in 0..p.len() { i = i * shape[d] as usize + p[d] as usize; } }
    else { for d in (0..p.len()).rev() { i = i * shape[d] as usize + p[d] as usize; } }
    i
}

pub struct World<T> { shape: Vec<u64>, chunk: Vec<u32>, row: bool, big: bool, raw: bool, fill: T, chunks: BTreeMap<Vec<u64>, Vec<T>>, meta: ArrayMetadata, path: &'static str, base: Vec<u64> }

impl<T: Elem> World<T> {
    fn cell(&self, p: &[u64]) -> (Vec<u64>, usize) {
        let c: Vec<u64> = p.iter().zip(&self.chunk).map(|(p, c)| p / *c as u64).collect();
        let o: Vec<u64> = p.iter().zip(&self.chunk).map(|(p, c)| p % *c as u64).collect();
        (c, index(&o, &self.chunk, self.row))
    }
    fn at(&self, p: &[u64]) -> Option<T> {
        let (c, i) = self.cell(p);
        self.chunks.get(&c).map(|v| v[i])
    }
    fn in_array(&self, p: &[u64]) -> bool { p.iter().zip(&self.shape).all(|(p, s)| p < s) }
    /// The window that is tested: the last few positions of each dimension.
    fn window(&self) -> (Vec<u64>, Vec<u64>) { (self.base.clone(), self.shape.clone()) }
    fn random_region(&self, r: &mut Rng, overhang: bool) -> (Vec<u64>, Vec<u64>) {
        let mut off = vec![];
        let mut len = vec![];
        for d in 0..self.shape.len() {
            let (lo, hi) = (self.base[d], self.shape[d]);
            let n = hi - lo;
            let c = self.chunk[d] as u64;
            let (o, l) = match r.below(9) {
                0 => (lo, n),
                // Aligned.
                1 | 2 => { let k = (lo + r.below(n + 1)) / c * c; (k, c * r.range(1, 2)) }
                3 if overhang => (lo + r.below(n + 3), r.below(6)),
                4 if overhang => (hi + r.below(4), r.below(4)),
                _ => { let o = lo + r.below(n + 1); (o, r.below(hi - o + 1)) }
            };
            let l = if !overhang && o + l > hi { hi.saturating_sub(o) } else { l };
            off.push(o);
            len.push(l);
        }
        (off, len)
    }
}

fn keys<T: Elem>(w: &World<T>) -> Vec<String> {
    let mut k: Vec<String> = w.chunks.keys().map(|c| get_chunk_key(w.path, &w.meta, c)).collect();
    k.sort();
    k
}

/// The store holds exactly the model: its keys, and every chunk in full, with every in-array element.
fn check_store<T: Elem, S: Probe>(w: &World<T>, s: &S) -> Result<(), String>
where VecDataChunk<T>: ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T> {
    let c = s.content();
    let have: Vec<String> = c.keys().cloned().collect();
    if have != keys(w) { return Err(format!("stored keys {:?}, expected {:?}", have, keys(w))); }
    let n: usize = w.chunk.iter().map(|&c| c as usize).product();
    for (pos, want) in &w.chunks {
        let data: Vec<T> = if w.raw {
            let b = &c[&get_chunk_key(w.path, &w.meta, pos)];
            check!(b.len() == n * T::SIZE, "chunk {:?} has {} bytes, expected {}", pos, b.len(), n * T::SIZE);
            b.chunks(T::SIZE).map(|b| T::from(b, w.big)).collect()
        } else {
            s.read_chunk::<T>(w.path, &w.meta, gp(pos)).map_err(|e| format!("chunk {:?}: {}", pos, e))?.ok_or("chunk missing")?.into_data()
        };
        check!(data.len() == n, "chunk {:?} has {} elements, expected {}", pos, data.len(), n);
        let lo: Vec<u64> = vec![0; pos.len()];
        let hi: Vec<u64> = w.chunk.iter().map(|&c| c as u64).collect();
        for o in positions(&lo, &hi) {
            let p: Vec<u64> = (0..o.len()).map(|d| pos[d] * w.chunk[d] as u64 + o[d]).collect();
            if !w.in_array(&p) { continue; }
            let i = index(&o, &w.chunk, w.row);
            check!(data[i].le() == want[i].le(), "stored element at {:?} (chunk {:?}): got {:?}, expected {:?}", p, pos, data[i], want[i]);
        }
    }
    Ok(())
}

fn check_read<T: Elem>(w: &World<T>, off: &[u64], a: &ArrayD<T>, missing: impl Fn() -> T, what: &str) -> Result<(), String> {
    let len: Vec<u64> = a.shape().iter().map(|n| *n as u64).collect();
    for o in positions(&vec![0; off.len()], &len) {
        let p: Vec<u64> = (0..off.len()).map(|d| off[d] + o[d]).collect();
        if !w.in_array(&p) { continue; }
        let want = w.at(&p).unwrap_or_else(&missing);
        let i: Vec<usize> = o.iter().map(|x| *x as usize).collect();
        let got = a[IxDyn(&i)];
        check!(got.le() == want.le(), "{}: element at {:?} is {:?}, expected {:?}{}", what, p, got, want, if w.at(&p).is_none() { " (chunk does not exist)" } else { "" });
    }
    Ok(())
}

fn reads<T: Elem, S: Probe>(w: &World<T>, s: &S, r: &mut Rng, buf: &mut Option<VecDataChunk<T>>, n: usize) -> Result<(), String>
where VecDataChunk<T>: ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T> {
    for k in 0..n {
        let (off, len) = if k == 0 { let (b, h) = w.window(); let l = (0..b.len()).map(|d| h[d] - b[d]).collect(); (b, l) } else { w.random_region(r, true) };
        let shape: Vec<usize> = len.iter().map(|n| *n as usize).collect();
        let bbox = BoundingBox::new(gp(&off), gp(&len));
        let e = |e: std::io::Error| format!("read of {:?}+{:?}: {}", off, len, e);
        let a = s.read_ndarray::<T>(w.path, &w.meta, &bbox).map_err(e)?;
        check!(a.shape() == &shape[..], "read_ndarray of {:?}+{:?} has shape {:?}", off, len, a.shape());
        check_read(w, &off, &a, || w.fill, &format!("read_ndarray {:?}+{:?}", off, len))?;
        let kind = r.below(5);
        let junk = T::random(r);
        let mut a = strided(kind, &shape, junk);
        s.read_ndarray_into::<T>(w.path, &w.meta, &bbox, a.view_mut()).map_err(e)?;
        check_read(w, &off, &a, || junk, &format!("read_ndarray_into ({}) {:?}+{:?}", KINDS[kind as usize], off, len))?;
        let mut a = strided(kind, &shape, junk);
        s.read_ndarray_into_with_buffer::<T>(w.path, &w.meta, &bbox, a.view_mut(), buf).map_err(e)?;
        check_read(w, &off, &a, || junk, &format!("read_ndarray_into_with_buffer ({}) {:?}+{:?}", KINDS[kind as usize], off, len))?;
        if r.chance(1, 4) {
            *buf = match r.below(3) { 0 => None, k => { let n = r.below(40) as usize * k as usize; Some(VecDataChunk::new((0..r.below(4)).map(|_| r.below(9)).collect(), (0..n).map(|_| T::random(r)).collect())) } };
        }
        // Mismatches.
        if !shape.is_empty() {
            let mut bad = shape.clone();
            let d = r.below(bad.len() as u64) as usize;
            bad[d] += 1 + r.below(2) as usize;
            let mut a = strided(kind, &bad, junk);
            check!(s.read_ndarray_into::<T>(w.path, &w.meta, &bbox, a.view_mut()).is_err(), "read into a view of shape {:?} for region shape {:?} succeeded", bad, shape);
            check!(a.iter().all(|x| x.le() == junk.le()), "rejected read changed the view");
            bad = shape.clone();
            bad.pop();
            let mut a = strided(kind, &bad, junk);
            check!(s.read_ndarray_into::<T>(w.path, &w.meta, &bbox, a.view_mut()).is_err(), "read into a view of lower rank succeeded");
            let bb = BoundingBox::new(gp(&off[1..]), gp(&len[1..]));
            check!(s.read_ndarray::<T>(w.path, &w.meta, &bb).is_err(), "read of a region of lower rank succeeded");
            let mut a = strided(kind, &shape[1..], junk);
            check!(s.read_ndarray_into::<T>(w.path, &w.meta, &bb, a.view_mut()).is_err(), "read of a region of lower rank succeeded");
        }
        let mut bo = off.clone(); bo.push(0);
        let mut bl = len.clone(); bl.push(1);
        check!(s.read_ndarray::<T>(w.path, &w.meta, &BoundingBox::new(gp(&bo), gp(&bl))).is_err(), "read of a region of higher rank succeeded");
    }
    Ok(())
}

fn write<T: Elem, S: Probe>(w: &mut World<T>, s: &S, r: &mut Rng) -> Result<(), String>
where VecDataChunk<T>: ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T> {
    let (off, len) = w.random_region(r, true);
    let shape: Vec<usize> = len.iter().map(|n| *n as usize).collect();
    let kind = r.below(5);
    let mut a = strided(kind, &shape, T::random(r));
    for x in a.iter_mut() { *x = T::random(r); }
    s.write_ndarray::<T, _>(w.path, &w.meta, gp(&off), &a).map_err(|e| format!("write of {:?}+{:?}: {}", off, len, e))?;
    let n: usize = w.chunk.iter().map(|&c| c as usize).product();
    let fill = w.fill;
    for o in positions(&vec![0; off.len()], &len) {
        let p: Vec<u64> = (0..off.len()).map(|d| off[d] + o[d]).collect();
        if !w.in_array(&p) { continue; }
        let (c, i) = w.cell(&p);
        let ix: Vec<usize> = o.iter().map(|x| *x as usize).collect();
        w.chunks.entry(c).or_insert_with(|| vec![fill; n])[i] = a[IxDyn(&ix)];
    }
    check_store(w, s).map_err(|e| format!("after writing {:?}+{:?} ({}): {}", off, len, KINDS[kind as usize], e))
}

fn history<T: Elem, S: Probe>(s: &S, r: &mut Rng, codec: &'static str, row: bool, rank: usize, steps: usize, nreads: usize, far: bool) -> Result<(), String>
where VecDataChunk<T>: ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T> {
    let big = r.chance(1, 2);
    let max = [1, 30, 11, 7, 5, 3, 2, 2, 2][rank];
    let chunk: Vec<u32> = (0..rank).map(|_| r.range(1, [1, 9, 5, 4, 3, 2, 2, 2, 2][rank]) as u32).collect();
    let base: Vec<u64> = (0..rank).map(|d| if far { ((1u64 << 40) / chunk[d] as u64) * chunk[d] as u64 } else { 0 }).collect();
    let shape: Vec<u64> = (0..rank).map(|d| base[d] + if r.chance(1, 12) { 0 } else { r.range(1, max) }).collect();
    let mut mm = Meta::new(&shape, &chunk, &type_string::<T>(big));
    mm.row_major = row;
    mm.codec = codec;
    mm.sep = if r.chance(1, 2) { "/" } else { "." };
    let mut fill = T::default();
    if r.chance(2, 3) { let (f, v) = T::jsonable(r); fill = f; mm.fill = Some(v); }
    let meta = mm.build();
    let mut w = World { shape: shape.clone(), chunk: chunk.clone(), row, big, raw: codec == "raw", fill, chunks: BTreeMap::new(), meta, path: *r.pick(&["", "a", "a/b"]), base };
    let n: usize = chunk.iter().map(|&c| c as usize).product();
    let mut buf = None;
    for _ in 0..steps {
        let in_grid = w.shape.iter().all(|&s| s > 0) && (0..rank).all(|d| w.shape[d] > w.base[d]);
        match r.below(10) {
            0 | 1 if in_grid => {
                let p: Vec<u64> = (0..rank).map(|d| w.base[d] + r.below(w.shape[d] - w.base[d])).collect();
                let (c, _) = w.cell(&p);
                let v: Vec<T> = (0..n).map(|_| T::random(r)).collect();
                s.write_chunk(w.path, &w.meta, &VecDataChunk::<T>::new(gp(&c), v.clone())).map_err(|e| e.to_string())?;
                w.chunks.insert(c, v);
            }
            2 => {
                if let Some(c) = w.chunks.keys().nth(r.below(w.chunks.len().max(1) as u64) as usize).cloned() {
                    check!(s.delete_chunk(w.path, &w.meta, &c).map_err(|e| e.to_string())?, "delete_chunk reports the chunk still there");
                    w.chunks.remove(&c);
                    check!(s.read_chunk::<T>(w.path, &w.meta, gp(&c)).map_err(|e| e.to_string())?.is_none(), "deleted chunk is still there");
                }
            }
            3 => {
                // Rank mismatch.
                let before = s.content();
                let a = strided(0, &vec![1; rank + 1], T::random(r));
                check!(s.write_ndarray::<T, _>(w.path, &w.meta, gp(&w.base), &a).is_err(), "write of higher rank succeeded");
                let mut o = w.base.clone(); o.push(0);
                check!(s.write_ndarray::<T, _>(w.path, &w.meta, gp(&o), &a).is_err(), "write of higher rank succeeded");
                if rank > 0 {
                    let a = strided(0, &vec![1; rank - 1], T::random(r));
                    check!(s.write_ndarray::<T, _>(w.path, &w.meta, gp(&w.base[1..]), &a).is_err(), "write of lower rank succeeded");
                }
                check!(s.content() == before, "rejected write changed the store");
            }
            _ => write(&mut w, s, r)?,
        }
        if nreads > 0 { reads(&w, s, r, &mut buf, nreads)?; }
    }
    check_store(&w, s)?;
    reads(&w, s, r, &mut buf, 1)
}

fn run<T: Elem>(ctx: &mut Ctx, id: u64, nreads: usize)
where VecDataChunk<T>: ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T> {
    let n = ctx.n(if T::SIZE == 4 || T::KIND == "u" { 60 } else { 25 });
    for i in 0..n {
        let r0 = ctx.rng(id * 1_000_000 + i * 64 + T::SIZE as u64 * 3 + T::KIND.len() as u64 * 7 + T::KIND.as_bytes()[0] as u64 * 10_000_000);
        let codec = if i % 3 == 0 { CODECS[(i / 3 % 5) as usize] } else { "raw" };
        let row = i % 2 == 0;
        let rank = if i % 12 == 11 { 7 } else { [1, 2, 3, 2, 4, 1, 2, 3, 0, 2][(i % 10) as usize] };
        let fs = i % 5 == 4;
        let far = i % 7 == 6;
        ctx.case("history", || format!("{} #{} {} {} rank {}{}{}", std::any::type_name::<T>(), i, codec, if row { "C" } else { "F" }, rank, if fs { " filesystem" } else { " memory" }, if far { " far" } else { "" }), false, || {
            let mut r = r0.clone();
            let steps = if nreads > 0 { 5 } else { 9 };
            if fs { let f = FsStore::new(); history::<T, _>(&f.h, &mut r, codec, row, rank, steps, nreads, far) }
            else { let m = MemStore::new(); m.step.set(r.below(3) as usize * 5); history::<T, _>(&m, &mut r, codec, row, rank, steps, nreads, far) }
        });
    }
}

pub fn c04(ctx: &mut Ctx) {
    for_types!(run(ctx, 4, 0));
    // Every placement of a region over a small two-chunk-square array, with every subset of chunks present.
    for row in [true, false] { for o0 in 0..5u64 { for o1 in 0..5u64 { for l0 in 0..5u64 { for l1 in 0..4u64 {
        ctx.case("placements", || format!("{} {:?}+{:?}", if row { "C" } else { "F" }, (o0, o1), (l0, l1)), l0 * l1 == 0, || {
            for present in 0..16u64 {
                if !(o0 + l0 + o1 + l1 + present + row as u64).is_multiple_of(4) { continue; }
                let mut mm = Meta::new(&[4, 3], &[2, 2], "<i2");
                mm.row_major = row;
                mm.fill = Some(serde_json::json!(-7));
                let s = MemStore::new();
                let mut w = World::<i16> { shape: vec![4, 3], chunk: vec![2, 2], row, big: false, raw: true, fill: -7, chunks: BTreeMap::new(), meta: mm.build(), path: "p", base: vec![0, 0] };
                for k in 0..4u64 { if present >> k & 1 == 1 {
                    let c = vec![k / 2, k % 2];
                    let v: Vec<i16> = (0..4).map(|i| 100 + 10 * k as i16 + i).collect();
                    s.map.borrow_mut().insert(get_chunk_key("p", &w.meta, &c), v.iter().flat_map(|x| x.bytes(false)).collect());
                    w.chunks.insert(c, v);
                } }
                let mut a = strided(row as u64, &[l0 as usize, l1 as usize], 0i16);
                for (i, x) in a.iter_mut().enumerate() { *x = i as i16 + 1; }
                s.log.borrow_mut().clear();
                s.write_ndarray::<i16, _>("p", &w.meta, smallvec![o0, o1], &a).map_err(|e| e.to_string())?;
                let mut touched = vec![];
                for o in positions(&[0, 0], &[l0, l1]) {
                    let p = vec![o0 + o[0], o1 + o[1]];
                    if !w.in_array(&p) { continue; }
                    let (c, i) = w.cell(&p);
                    touched.push(get_chunk_key("p", &w.meta, &c));
                    w.chunks.entry(c).or_insert_with(|| vec![-7; 4])[i] = a[[o[0] as usize, o[1] as usize].as_ref()];
                }
                for (op, key) in s.log.borrow().iter() {
                    check!(*op == "get" || touched.contains(key), "{} of {} which does not intersect the region", op, key);
                }
                check_store(&w, &s).map_err(|e| format!("chunks present {:04b}: {}", present, e))?;
            }
            Ok(())
        });
    } } } } }
}

pub fn c05(ctx: &mut Ctx) {
    for_types!(run(ctx, 5, 4));
    ctx.case("fill", || "fill values of every type, and defaults".into(), false, || {
        let s = MemStore::new();
        macro_rules! fill { ($t:ty, $d:expr, $json:expr, $v:expr) => {{
            let mut m = Meta::new(&[3], &[2], $d);
            let bb = BoundingBox::new(smallvec![0], smallvec![3]);
            let a = s.read_ndarray::<$t>("f", &m.build(), &bb).map_err(|e| e.to_string())?;
            check!(a.iter().all(|x| *x == <$t>::default()) && a.len() == 3, "default fill of {}: {:?}", $d, a);
            m.fill = Some($json);
            let a = s.read_ndarray::<$t>("f", &m.build(), &bb).map_err(|e| e.to_string())?;
            check!(a.iter().all(|x| *x == $v), "fill of {}: {:?}", $d, a);
            m.fill = Some(serde_json::json!("x"));
            check!(s.read_ndarray::<$t>("f", &m.build(), &bb).is_err(), "invalid fill value of {} accepted", $d);
        }} }
        use serde_json::json;
        fill!(bool, "bool", json!(true), true);
        fill!(u8, "u1", json!(255), 255);
        fill!(i8, "i1", json!(-128), -128);
        fill!(u16, ">u2", json!(65535), 65535);
        fill!(i64, "<i8", json!(i64::MIN), i64::MIN);
        fill!(u64, "<u8", json!(u64::MAX), u64::MAX);
        fill!(f32, ">f4", json!(-1.5), -1.5);
        fill!(f64, "<f8", json!(1e300), 1e300);
        let mut m = Meta::new(&[3], &[2], "u1");
        m.fill = Some(json!(256));
        check!(s.read_ndarray::<u8>("f", &m.build(), &BoundingBox::new(smallvec![0], smallvec![3])).is_err(), "out-of-range fill value accepted");
        Ok(())
    });
    // Corrupt chunks are errors wherever they are in the region.
    for k in 0..4u64 {
        ctx.case("corrupt chunk", || format!("chunk {} of 4 truncated", k), false, || {
            let m = Meta::new(&[4, 4], &[2, 2], "<u2").build();
            let s = MemStore::new();
            for j in 0..4u64 { s.map.borrow_mut().insert(get_chunk_key("p", &m, &[j / 2, j % 2]), vec![1; if j == k { 7 } else { 8 }]); }
            check!(s.read_ndarray::<u16>("p", &m, &BoundingBox::new(smallvec![0, 0], smallvec![4, 4])).is_err(), "region over a truncated chunk read successfully");
            check!(s.write_ndarray::<u16, _>("p", &m, smallvec![1, 1], &strided(0, &[2, 2], 3u16)).is_err(), "partial write over a truncated chunk succeeded");
            Ok(())
        });
    }
}
