//! C01, C02, C03: grid arithmetic, enumeration and boxes.
use crate::util::*;
use crate::{check, check_eq};
use zarr::ndarray::BoundingBox;
use zarr::prelude::*;
use zarr::smallvec::SmallVec;

fn meta(s: &[u64], c: &[u32]) -> ArrayMetadata {
    ArrayMetadata::new(SmallVec::from_slice(s), SmallVec::from_slice(c), u8::ZARR_TYPE, CompressionType::default())
}
fn cdiv(a: u64, b: u32) -> u64 { ((a as u128 + b as u128 - 1) / b as u128) as u64 }

const BIG: &[u64] = &[0, 1, 2, 3, 4, 5, 7, 10, 31, 100, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 63) - 1, 1 << 63, u64::MAX - 5, u64::MAX - 1, u64::MAX];
const CH: &[u32] = &[1, 2, 3, 4, 5, 7, 10, 64, 255, 65536, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];

fn partial_product_fits(v: &[u64]) -> Option<u64> {
    let mut p: u128 = 1;
    for &x in v { p *= x as u128; if p > u64::MAX as u128 { return None; } }
    Some(p as u64)
}

fn c01_one(ctx: &mut Ctx, group: &str, s: &[u64], c: &[u32]) {
    ctx.case(group, || format!("shape {:?} chunk {:?}", s, c), s.is_empty() || s.iter().all(|&x| x == 0), || {
        let m = meta(s, c);
        let ext: Vec<u64> = s.iter().zip(c).map(|(&a, &b)| cdiv(a, b)).collect();
        check_eq!(m.get_grid_extent()[..], ext[..], "grid extent");
        check_eq!(m.get_ndim(), s.len(), "rank");
        check_eq!(m.get_shape(), s, "shape");
        check_eq!(m.get_chunk_shape(), c, "chunk shape");
        if let Some(p) = partial_product_fits(&ext) { check_eq!(m.get_num_chunks(), p, "number of chunks"); }
        if let Some(p) = partial_product_fits(s) { check_eq!(m.get_num_elements() as u64, p, "number of elements"); }
        let c64: Vec<u64> = c.iter().map(|&x| x as u64).collect();
        if let Some(p) = partial_product_fits(&c64) { check_eq!(m.get_chunk_num_elements() as u64, p, "number of chunk elements"); }
        // Positions around the corner, in every dimension.
        let mut cands: Vec<Vec<u64>> = vec![vec![]];
        for &e in &ext {
            let mut opts = vec![0, e, e.wrapping_add(1), u64::MAX];
            if e > 0 { opts.push(e - 1); }
            if e > 2 { opts.push(e / 2); }
            let mut next = vec![];
            for t in &cands { for &o in &opts { let mut t2 = t.clone(); t2.push(o); next.push(t2); } }
            if next.len() > 2000 { next.truncate(2000); }
            cands = next;
        }
        for p in &cands {
            if p.len() != ext.len() { continue; }
            let want = p.iter().zip(&ext).all(|(a, b)| a < b);
            check_eq!(m.in_bounds(&SmallVec::from_slice(p)), want, "in_bounds {:?}", p);
        }
        // Wrong ranks.
        if !s.is_empty() {
            check!(!m.in_bounds(&SmallVec::from_vec(vec![0; s.len() - 1])), "in_bounds accepts a position of too small rank");
            check!(!m.in_bounds(&SmallVec::new()), "in_bounds accepts an empty position");
        }
        check!(!m.in_bounds(&SmallVec::from_vec(vec![0; s.len() + 1])), "in_bounds accepts a position of too large rank");
        Ok(())
    });
}

pub fn c01(ctx: &mut Ctx) {
    c01_one(ctx, "rank 0", &[], &[]);
    let hi = ctx.n(40).min(160);
    for a in 0..=hi { for b in 1..=(hi as u32 / 2 + 1) { c01_one(ctx, "rank 1 small", &[a], &[b]); } }
    for &a in BIG { for &b in CH { c01_one(ctx, "rank 1 large", &[a], &[b]); } }
    for a in 0..=6 { for a2 in 0..=6 { for b in 1..=4 { for b2 in 1..=4 { c01_one(ctx, "rank 2 small", &[a, a2], &[b, b2]); } } } }
    let mut r = ctx.rng(101);
    for _ in 0..ctx.n(1500) {
        let n = r.range(1, 8) as usize;
        let s: Vec<u64> = (0..n).map(|_| match r.below(4) { 0 => *r.pick(BIG), 1 => r.next() >> r.below(64), _ => r.below(50) }).collect();
        let c: Vec<u32> = (0..n).map(|_| match r.below(4) { 0 => *r.pick(CH), 1 => ((r.next() as u32) >> r.below(32)).max(1), _ => r.range(1, 12) as u32 }).collect();
        c01_one(ctx, "random", &s, &c);
    }
}

/// Drain an exact-size iterator, checking its length at every step.
fn drain(it: impl Iterator<Item = Vec<u64>> + ExactSizeIterator, expected: &[Vec<u64>]) -> Result<(), String> {
    let mut it = it;
    let mut got: Vec<Vec<u64>> = vec![];
    loop {
        let left = expected.len().checked_sub(got.len()).ok_or_else(|| format!("too many coordinates: {:?}", got))?;
        check_eq!(it.size_hint(), (left, Some(left)), "size hint after {} items", got.len());
        check_eq!(it.len(), left, "len after {} items", got.len());
        match it.next() { Some(c) => got.push(c), None => break }
    }
    check_eq!(got[..], *expected, "coordinates");
    for _ in 0..3 {
        check_eq!(it.next(), None, "next after the end");
        check_eq!(it.len(), 0, "len after the end");
    }
    Ok(())
}

fn c02_full(ctx: &mut Ctx, s: &[u64], c: &[u32]) {
    ctx.case("all chunks", || format!("shape {:?} chunk {:?}", s, c), s.contains(&0), || {
        let ext: Vec<u64> = s.iter().zip(c).map(|(&a, &b)| cdiv(a, b)).collect();
        let m = meta(s, c);
        drain(m.coord_iter(), &positions(&vec![0; s.len()], &ext))?;
        check_eq!(m.coord_iter().count() as u64, m.get_num_chunks(), "count of enumerated chunks against the number of chunks");
        for p in m.coord_iter() { check!(m.in_bounds(&SmallVec::from_vec(p.clone())), "enumerated position {:?} is out of bounds", p); }
        Ok(())
    });
}

fn c02_box(ctx: &mut Ctx, group: &str, s: &[u64], c: &[u32], o: &[u64], z: &[u64]) {
    ctx.case(group, || format!("shape {:?} chunk {:?} region at {:?} of {:?}", s, c, o, z), z.contains(&0), || {
        // Oracle: the grid positions whose chunk shares an in-array element with the region.
        let mut empty = false;
        let (mut lo, mut hi) = (vec![], vec![]);
        for d in 0..s.len() {
            let a = o[d] as u128;
            let b = (o[d] as u128 + z[d] as u128).min(s[d] as u128);
            if a >= b { empty = true; lo.push(0); hi.push(0); }
            else { lo.push((a / c[d] as u128) as u64); hi.push(((b - 1) / c[d] as u128) as u64 + 1); }
        }
        let want = if empty { vec![] } else { positions(&lo, &hi) };
        let m = meta(s, c);
        let bb = BoundingBox::new(SmallVec::from_slice(o), SmallVec::from_slice(z));
        drain(m.bounded_coord_iter(&bb), &want)
    });
}

pub fn c02(ctx: &mut Ctx) {
    c02_full(ctx, &[], &[]);
    c02_box(ctx, "region rank 0", &[], &[], &[], &[]);
    for a in 0..=12 { for b in 1..=14 { c02_full(ctx, &[a], &[b]); } }
    for a in 0..=5 { for a2 in 0..=5 { for b in 1..=3 { for b2 in 1..=3 { c02_full(ctx, &[a, a2], &[b, b2]); } } } }
    for s in 0..=7 { for c in 1..=8 { for o in 0..=9 { for z in 0..=9 { c02_box(ctx, "region rank 1", &[s], &[c], &[o], &[z]); } } } }
    // Near the end of the coordinate range, with few chunks.
    let m = u64::MAX;
    for &s in &[m, m - 1, m - 4, 1 << 63, (1 << 32) + 5] {
        for &c in &[u32::MAX, 1 << 31, 3, 1] {
            for back in 0..6u64 { for z in 0..=back.min(5) {
                let o = m - back;
                c02_box(ctx, "region at the range end", &[s], &[c], &[o], &[z]);
                if s > 10 { c02_box(ctx, "region at the array end", &[s], &[c], &[s - 1 - back.min(s - 1)], &[(z + 1).min(m - (s - 1 - back.min(s - 1)))]); }
            } }
        }
    }
    ctx.case("huge grid", || "shape [2^64-1] chunk [2^32-1]".into(), false, || {
        let mm = meta(&[m], &[u32::MAX]);
        let mut it = mm.coord_iter();
        check_eq!(it.len(), (1usize << 32) + 1, "len");
        check_eq!(it.next(), Some(vec![0]), "first");
        check_eq!(it.next(), Some(vec![1]), "second");
        check_eq!(it.len(), (1usize << 32) - 1, "len after two");
        Ok(())
    });
    let mut r = ctx.rng(201);
    for _ in 0..ctx.n(400) {
        let n = r.range(1, 4) as usize;
        let s: Vec<u64> = (0..n).map(|_| r.below(9)).collect();
        let c: Vec<u32> = (0..n).map(|_| r.range(1, 6) as u32).collect();
        c02_full(ctx, &s, &c);
    }
    for _ in 0..ctx.n(4000) {
        let n = r.range(1, 4) as usize;
        let s: Vec<u64> = (0..n).map(|_| r.below(12)).collect();
        let c: Vec<u32> = (0..n).map(|_| r.range(1, 6) as u32).collect();
        let o: Vec<u64> = (0..n).map(|_| r.below(14)).collect();
        let z: Vec<u64> = (0..n).map(|_| r.below(10)).collect();
        c02_box(ctx, "region random", &s, &c, &o, &z);
    }
    for _ in 0..ctx.n(300) {
        // Many dimensions.
        let n = r.range(5, 9) as usize;
        let s: Vec<u64> = (0..n).map(|_| if r.chance(1, 8) { r.range(3, 4) } else { r.range(1, 2) }).collect();
        let c: Vec<u32> = (0..n).map(|_| r.range(1, 2) as u32).collect();
        let o: Vec<u64> = (0..n).map(|_| r.below(2) * r.below(2)).collect();
        let z: Vec<u64> = (0..n).map(|_| if r.chance(1, 40) { 0 } else { r.range(1, 3) }).collect();
        c02_box(ctx, "region of many dimensions", &s, &c, &o, &z);
        if r.chance(1, 4) { c02_full(ctx, &s, &c); }
    }
    for _ in 0..ctx.n(1500) {
        // Far from the origin, but few chunks.
        let n = r.range(1, 3) as usize;
        let c: Vec<u32> = (0..n).map(|_| (r.next() as u32 >> r.below(32)).max(1)).collect();
        let s: Vec<u64> = (0..n).map(|_| r.next() >> r.below(60)).collect();
        let o: Vec<u64> = (0..n).map(|d| if s[d] == 0 { r.below(9) } else { (r.below(s[d])).saturating_sub(r.below(5)) }).collect();
        let z: Vec<u64> = (0..n).map(|d| (r.below(4) * c[d] as u64 + r.below(3)).min(u64::MAX - o[d]).min(4 * c[d] as u64)).collect();
        c02_box(ctx, "region far", &s, &c, &o, &z);
    }
}

fn bb(o: &[u64], z: &[u64]) -> BoundingBox { BoundingBox::new(SmallVec::from_slice(o), SmallVec::from_slice(z)) }

fn c03_pair(ctx: &mut Ctx, group: &str, o1: &[u64], z1: &[u64], o2: &[u64], z2: &[u64]) {
    ctx.case(group, || format!("boxes {:?}+{:?} and {:?}+{:?}", o1, z1, o2, z2), z1.contains(&0) || z2.contains(&0), || {
        let n = o1.len();
        let (a, b) = (bb(o1, z1), bb(o2, z2));
        // Intersection.
        let lo: Vec<u64> = (0..n).map(|d| o1[d].max(o2[d])).collect();
        let hi: Vec<u64> = (0..n).map(|d| (o1[d] + z1[d]).min(o2[d] + z2[d])).collect();
        let empty = (0..n).any(|d| lo[d] >= hi[d]);
        let mut i = a.clone();
        i.intersect(&b);
        check_eq!(i.is_empty(), empty, "emptiness of the intersection {:?}", i);
        if !empty {
            let z: Vec<u64> = (0..n).map(|d| hi[d] - lo[d]).collect();
            check_eq!(i, bb(&lo, &z), "intersection");
        }
        let mut j = b.clone();
        j.intersect(&a);
        check_eq!(j.is_empty(), empty, "emptiness of the reverse intersection");
        if !empty { check_eq!(i, j, "intersection is not commutative"); }
        // Union.
        let lo: Vec<u64> = (0..n).map(|d| o1[d].min(o2[d])).collect();
        let z: Vec<u64> = (0..n).map(|d| (o1[d] + z1[d]).max(o2[d] + z2[d]) - lo[d]).collect();
        let mut u = a.clone();
        u.union(&b);
        check_eq!(u, bb(&lo, &z), "union");
        Ok(())
    });
}

fn c03_one(ctx: &mut Ctx, group: &str, o: &[u64], z: &[u64], t: &[u64]) {
    ctx.case(group, || format!("box {:?}+{:?} by {:?}", o, z, t), o.is_empty(), || {
        let n = o.len();
        let a = bb(o, z);
        let ends: Vec<u64> = (0..n).map(|d| o[d] + z[d]).collect();
        check_eq!(a.end().collect::<Vec<_>>(), ends, "end");
        check_eq!(a.is_empty(), z.contains(&0), "is_empty");
        let usz: Vec<usize> = z.iter().map(|&x| x as usize).collect();
        check_eq!(a.shape_ndarray_shape()[..], usz[..], "ndarray shape");
        if z.iter().all(|&x| x <= u32::MAX as u64) {
            let c: Vec<u32> = z.iter().map(|&x| x as u32).collect();
            check_eq!(a.shape_chunk()[..], c[..], "chunk shape");
        }
        if ends.iter().all(|&x| x <= i64::MAX as u64) {
            let sl = a.to_ndarray_slice();
            check_eq!(sl.len(), n, "slice rank");
            for d in 0..n {
                let want = ::ndarray::SliceOrIndex::Slice { start: o[d] as isize, end: Some(ends[d] as isize), step: 1 };
                check_eq!(sl[d], want, "ndarray slice in dimension {}", d);
            }
        }
        let tt: Vec<u64> = (0..n).map(|d| t[d].min(o[d])).collect();
        let moved = a.clone() - &SmallVec::from_slice(&tt);
        let oo: Vec<u64> = (0..n).map(|d| o[d] - tt[d]).collect();
        check_eq!(moved, bb(&oo, z), "translation by {:?}", tt);
        check_eq!(a, bb(o, z), "the box itself after use");
        Ok(())
    });
}

fn c03_chunk(ctx: &mut Ctx, group: &str, s: &[u64], c: &[u32], g: &[u64]) {
    ctx.case(group, || format!("shape {:?} chunk {:?} position {:?}", s, c, g), s.is_empty(), || {
        let m = meta(s, c);
        check_eq!(m.get_bounds(), bb(&vec![0; s.len()], s), "array box");
        let o: Vec<u64> = g.iter().zip(c).map(|(&a, &b)| a * b as u64).collect();
        let z: Vec<u64> = c.iter().map(|&b| b as u64).collect();
        check_eq!(m.get_chunk_bounds(g), bb(&o, &z), "chunk box");
        let chunk = VecDataChunk::<u8>::new(SmallVec::from_slice(g), vec![]);
        check_eq!(chunk.get_bounds(&m), bb(&o, &z), "box of a chunk");
        Ok(())
    });
}

pub fn c03(ctx: &mut Ctx) {
    c03_pair(ctx, "pair rank 0", &[], &[], &[], &[]);
    c03_one(ctx, "box rank 0", &[], &[], &[]);
    for a in 0..=6 { for b in 0..=6 { for c in 0..=6 { for d in 0..=6 { c03_pair(ctx, "pair rank 1", &[a], &[b], &[c], &[d]); } } } }
    for o in 0..=6 { for z in 0..=6 { for t in 0..=6 { c03_one(ctx, "box rank 1", &[o], &[z], &[t]); } } }
    let m = u64::MAX;
    let far = |r: &mut Rng| -> (u64, u64) {
        let o = match r.below(4) { 0 => m - r.below(5), 1 => r.next() >> r.below(64), 2 => (1 << 32) - 3 + r.below(6), _ => r.below(8) };
        let z = match r.below(4) { 0 => m - o, 1 => (r.next() >> r.below(64)).min(m - o), _ => r.below(8).min(m - o) };
        (o, z)
    };
    let mut r = ctx.rng(301);
    for _ in 0..ctx.n(8000) {
        let n = if r.chance(1, 4) { r.range(6, 10) } else { r.range(1, 5) } as usize;
        let small = r.chance(1, 2);
        let g = |r: &mut Rng| -> (Vec<u64>, Vec<u64>) { (0..n).map(|_| if small { (r.below(7), r.below(7)) } else { far(r) }).unzip() };
        let (o1, z1) = g(&mut r);
        let (o2, z2) = g(&mut r);
        c03_pair(ctx, "pair random", &o1, &z1, &o2, &z2);
        c03_one(ctx, "box random", &o1, &z1, &o2);
    }
    for _ in 0..ctx.n(1500) {
        let n = if r.chance(1, 4) { r.range(6, 10) } else { r.below(5) } as usize;
        let s: Vec<u64> = (0..n).map(|_| r.next() >> r.below(64)).collect();
        let c: Vec<u32> = (0..n).map(|_| (r.next() as u32 >> r.below(32)).max(1)).collect();
        let g: Vec<u64> = (0..n).map(|d| { let lim = m / c[d] as u64; if r.chance(1, 2) { r.below(10).min(lim) } else { r.below(lim) } }).collect();
        c03_chunk(ctx, "chunk box", &s, &c, &g);
    }
}
