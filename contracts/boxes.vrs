@@include grid.vrs
verus! {
pub mod ndarray_shim {
    // The data type of ndarray's slices; its meaning is ndarray's.
    pub enum SliceOrIndex { Slice { start: isize, end: Option<isize>, step: isize }, Index(isize) }
}
pub use ndarray_shim::SliceOrIndex;

pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);

@@struct src/ndarray.rs BoundingBox

impl BoundingBox {
    pub open spec fn wf(self) -> bool { self.offset@.len() == self.shape@.len() }
    // The end of the box fits in 64 bits.
    pub open spec fn fits(self) -> bool { self.wf() && forall|i: int| 0 <= i < self.offset@.len() ==> #[trigger] self.offset@[i] + self.shape@[i] <= u64::MAX }
    pub open spec fn end_at(self, i: int) -> int { self.offset@[i] + self.shape@[i] }
    // The set of positions of the box.
    pub open spec fn has(self, p: Seq<int>) -> bool {
        p.len() == self.offset@.len() && forall|i: int| 0 <= i < p.len() ==> self.offset@[i] <= #[trigger] p[i] < self.end_at(i)
    }
    pub open spec fn empty(self) -> bool { exists|i: int| 0 <= i < self.shape@.len() && #[trigger] self.shape@[i] == 0 }
}
// Emptiness is the absence of positions.
pub proof fn empty_is_no_position(b: BoundingBox)
    requires b.wf()
    ensures b.empty() <==> forall|p: Seq<int>| !b.has(p)
{
    let c = Seq::new(b.offset@.len(), |i: int| b.offset@[i] as int);
    if !b.empty() { assert forall|i: int| 0 <= i < c.len() implies b.offset@[i] <= #[trigger] c[i] < b.end_at(i) by { assert(b.shape@[i] != 0); } assert(b.has(c)); }
    if b.empty() {
        let i = choose|i: int| 0 <= i < b.shape@.len() && #[trigger] b.shape@[i] == 0;
        assert forall|p: Seq<int>| !b.has(p) by { if b.has(p) { assert(b.offset@[i] <= p[i] < b.end_at(i)); } }
    }
}
pub open spec fn is_intersection(r: BoundingBox, a: BoundingBox, b: BoundingBox) -> bool {
    r.wf() && r.offset@.len() == a.offset@.len()
    && forall|p: Seq<int>| #![trigger r.has(p)] #![trigger a.has(p)] #![trigger b.has(p)] r.has(p) <==> a.has(p) && b.has(p)
}
pub open spec fn meet_at(r: BoundingBox, a: BoundingBox, b: BoundingBox, i: int) -> bool {
    let lo = if a.offset@[i] <= b.offset@[i] { b.offset@[i] } else { a.offset@[i] };
    let hi = if a.end_at(i) <= b.end_at(i) { a.end_at(i) } else { b.end_at(i) };
    r.offset@[i] == lo && r.shape@[i] == (if lo <= hi { hi - lo } else { 0 })
}
pub proof fn meet_is_intersection(r: BoundingBox, a: BoundingBox, b: BoundingBox)
    requires r.wf(), a.wf(), b.wf(), r.offset@.len() == a.offset@.len() == b.offset@.len(), forall|i: int| 0 <= i < r.offset@.len() ==> #[trigger] meet_at(r, a, b, i)
    ensures is_intersection(r, a, b)
{
    assert forall|p: Seq<int>| r.has(p) <==> a.has(p) && b.has(p) by {
        if r.has(p) { assert forall|i: int| 0 <= i < p.len() implies a.offset@[i] <= #[trigger] p[i] < a.end_at(i) && b.offset@[i] <= p[i] < b.end_at(i) by { assert(meet_at(r, a, b, i)); assert(r.offset@[i] <= p[i] < r.end_at(i)); } }
        if a.has(p) && b.has(p) { assert forall|i: int| 0 <= i < p.len() implies r.offset@[i] <= #[trigger] p[i] < r.end_at(i) by { assert(meet_at(r, a, b, i)); assert(a.offset@[i] <= p[i] < a.end_at(i)); assert(b.offset@[i] <= p[i] < b.end_at(i)); } }
    }
}
pub open spec fn join_at(r: BoundingBox, a: BoundingBox, b: BoundingBox, i: int) -> bool {
    r.offset@[i] == (if a.offset@[i] <= b.offset@[i] { a.offset@[i] } else { b.offset@[i] })
    && r.end_at(i) == (if a.end_at(i) <= b.end_at(i) { b.end_at(i) } else { a.end_at(i) })
}
pub open spec fn is_join(r: BoundingBox, a: BoundingBox, b: BoundingBox) -> bool {
    r.wf() && r.offset@.len() == a.offset@.len() && forall|i: int| 0 <= i < r.offset@.len() ==> #[trigger] join_at(r, a, b, i)
}
// The join contains both boxes, and any box that contains both (neither being empty) contains the join.
pub proof fn join_is_smallest(r: BoundingBox, a: BoundingBox, b: BoundingBox, c: BoundingBox)
    requires is_join(r, a, b), a.wf(), b.wf(), a.offset@.len() == b.offset@.len()
    ensures
        forall|p: Seq<int>| a.has(p) || b.has(p) ==> r.has(p),
        c.wf() && !a.empty() && !b.empty() && (forall|p: Seq<int>| a.has(p) || b.has(p) ==> c.has(p)) ==> forall|p: Seq<int>| r.has(p) ==> c.has(p),
{
    assert forall|p: Seq<int>| a.has(p) || b.has(p) implies r.has(p) by {
        assert forall|i: int| 0 <= i < p.len() implies r.offset@[i] <= #[trigger] p[i] < r.end_at(i) by { assert(join_at(r, a, b, i)); if a.has(p) { assert(a.offset@[i] <= p[i] < a.end_at(i)); } else { assert(b.offset@[i] <= p[i] < b.end_at(i)); } }
    }
    if c.wf() && !a.empty() && !b.empty() && (forall|p: Seq<int>| a.has(p) || b.has(p) ==> c.has(p)) {
        let n = a.offset@.len();
        let (la, lb) = (Seq::new(n, |i: int| a.offset@[i] as int), Seq::new(n, |i: int| b.offset@[i] as int));
        let (ha, hb) = (Seq::new(n, |i: int| a.end_at(i) - 1), Seq::new(n, |i: int| b.end_at(i) - 1));
        assert forall|i: int| 0 <= i < n implies a.shape@[i] > 0 && b.shape@[i] > 0 by { assert(a.shape@[i] != 0 && b.shape@[i] != 0); }
        assert(a.has(la) && a.has(ha) && b.has(lb) && b.has(hb));
        assert(c.has(la) && c.has(ha) && c.has(lb) && c.has(hb));
        assert forall|p: Seq<int>| r.has(p) implies c.has(p) by {
            assert forall|i: int| 0 <= i < p.len() implies c.offset@[i] <= #[trigger] p[i] < c.end_at(i) by {
                assert(join_at(r, a, b, i)); assert(r.offset@[i] <= p[i] < r.end_at(i));
                assert(c.offset@[i] <= la[i] && c.offset@[i] <= lb[i] && ha[i] < c.end_at(i) && hb[i] < c.end_at(i));
            }
        }
    }
}

@@eager end
impl BoundingBox {
@@fn src/ndarray.rs BoundingBox::new for C03
sig pub fn new(offset: GridCoord, shape: GridCoord) -> (r: BoundingBox)
spec
    requires offset@.len() == shape@.len()
    ensures r.wf(), r.offset == offset, r.shape == shape
@@end
@@fn src/ndarray.rs BoundingBox::shape_chunk for C03
sig pub fn shape_chunk(&self) -> (r: ChunkCoord)
spec
    requires forall|i: int| 0 <= i < self.shape@.len() ==> #[trigger] self.shape@[i] <= u32::MAX
    ensures nat32(r@) =~= nat64(self.shape@)
loop 0
    $s0@ == self.shape@, $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == self.shape@[k],
    forall|i: int| 0 <= i < self.shape@.len() ==> #[trigger] self.shape@[i] <= u32::MAX,
@@end
@@fn src/ndarray.rs BoundingBox::shape_ndarray_shape for C03
sig pub fn shape_ndarray_shape(&self) -> (r: CoordVec<usize>)
spec
    ensures r@.len() == self.shape@.len(), forall|i: int| 0 <= i < self.shape@.len() ==> #[trigger] r@[i] == self.shape@[i]
loop 0
    $s0@ == self.shape@, $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == self.shape@[k],
@@end
@@fn src/ndarray.rs BoundingBox::intersect for C03,C02
sig pub fn intersect(&mut self, other: &BoundingBox)
spec
    requires old(self).fits(), other.fits(), old(self).offset@.len() == other.offset@.len()
    ensures
        is_intersection(*final(self), *old(self), *other),
        forall|i: int| 0 <= i < final(self).offset@.len() ==> #[trigger] meet_at(*final(self), *old(self), *other, i),
        final(self).fits(),
loop 0
    self.wf(), self.offset@.len() == old(self).offset@.len() == other.offset@.len(), old(self).fits(), other.fits(), $s2@ == other.shape@, $s3@ == other.offset@,
    forall|k: int| 0 <= k < $i ==> #[trigger] meet_at(*self, *old(self), *other, k),
    forall|k: int| $i <= k < self.shape@.len() ==> #[trigger] self.shape@[k] == old(self).shape@[k],
    forall|k: int| $i <= k < self.shape@.len() ==> #[trigger] self.offset@[k] == old(self).offset@[k],
loop 0 start
    assert(old(self).offset@[$j as int] + old(self).shape@[$j as int] <= u64::MAX && other.offset@[$j as int] + other.shape@[$j as int] <= u64::MAX);
    let ghost before = *self;
loop 0 end
    assert forall|k: int| 0 <= k < $j implies #[trigger] meet_at(*self, *old(self), *other, k) by { assert(meet_at(before, *old(self), *other, k)); }
    assert(meet_at(*self, *old(self), *other, $j as int));
loop 0 after
    proof {
        meet_is_intersection(*self, *old(self), *other);
        assert forall|i: int| 0 <= i < self.offset@.len() implies #[trigger] self.offset@[i] + self.shape@[i] <= u64::MAX by { assert(meet_at(*self, *old(self), *other, i)); assert(old(self).offset@[i] + old(self).shape@[i] <= u64::MAX); assert(other.offset@[i] + other.shape@[i] <= u64::MAX); }
    }
@@end
@@fn src/ndarray.rs BoundingBox::union for C03
sig pub fn union(&mut self, other: &BoundingBox)
spec
    requires old(self).fits(), other.fits(), old(self).offset@.len() == other.offset@.len()
    ensures is_join(*final(self), *old(self), *other)
loop 0
    self.wf(), self.offset@.len() == old(self).offset@.len() == other.offset@.len(), old(self).fits(), other.fits(), $s2@ == other.shape@, $s3@ == other.offset@,
    forall|k: int| 0 <= k < $i ==> #[trigger] join_at(*self, *old(self), *other, k),
    forall|k: int| $i <= k < self.shape@.len() ==> #[trigger] self.shape@[k] == old(self).shape@[k],
    forall|k: int| $i <= k < self.shape@.len() ==> #[trigger] self.offset@[k] == old(self).offset@[k],
loop 0 start
    assert(old(self).offset@[$j as int] + old(self).shape@[$j as int] <= u64::MAX && other.offset@[$j as int] + other.shape@[$j as int] <= u64::MAX);
    let ghost before = *self;
loop 0 end
    assert forall|k: int| 0 <= k < $j implies #[trigger] join_at(*self, *old(self), *other, k) by { assert(join_at(before, *old(self), *other, k)); }
    assert(join_at(*self, *old(self), *other, $j as int));
@@end
@@fn src/ndarray.rs BoundingBox::end for C03
sig pub fn end(&self) -> (r: Vec<u64>)
spec
    requires self.fits()
    ensures r@.len() == self.offset@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.end_at(i)
hint
  iterator
loop 0
    self.fits(), $s0@ == self.offset@, $s1@ == self.shape@, $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == self.end_at(k),
loop 0 start
    assert(self.offset@[$j as int] + self.shape@[$j as int] <= u64::MAX);
@@end
@@fn src/ndarray.rs BoundingBox::to_ndarray_slice for C03
sig pub fn to_ndarray_slice(&self) -> (r: CoordVec<SliceOrIndex>)
spec
    requires self.fits(), forall|i: int| 0 <= i < self.offset@.len() ==> #[trigger] self.end_at(i) <= isize::MAX
    ensures r@.len() == self.offset@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (SliceOrIndex::Slice { start: self.offset@[i] as isize, end: Some(self.end_at(i) as isize), step: 1 })
loop 0
    self.fits(), $s0@ == self.offset@, $s1@.len() == self.offset@.len(), forall|i: int| 0 <= i < $s1@.len() ==> #[trigger] $s1@[i] == self.end_at(i),
    forall|i: int| 0 <= i < self.offset@.len() ==> #[trigger] self.end_at(i) <= isize::MAX,
    $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == (SliceOrIndex::Slice { start: self.offset@[k] as isize, end: Some(self.end_at(k) as isize), step: 1 }),
@@end
@@fn src/ndarray.rs BoundingBox::is_empty for C03
sig pub fn is_empty(&self) -> (r: bool)
spec
    ensures r == self.empty()
end
    proof { if self.shape@.contains(0) { let i = choose|i: int| 0 <= i < self.shape@.len() && self.shape@[i] == 0; assert(self.shape@[i] == 0); } }
@@end
@@fn src/ndarray.rs impl Sub for BoundingBox::sub for C03
sig pub fn sub(self, other: &GridCoord) -> (r: BoundingBox)
spec
    requires self.wf(), self.offset@.len() == other@.len(), forall|i: int| 0 <= i < other@.len() ==> #[trigger] other@[i] <= self.offset@[i]
    ensures r.shape@ == self.shape@, r.offset@.len() == self.offset@.len(), forall|i: int| 0 <= i < r.offset@.len() ==> #[trigger] r.offset@[i] == self.offset@[i] - other@[i]
loop 0
    self.wf(), $s0@ == self.offset@, self.offset@.len() == other@.len(), forall|i: int| 0 <= i < other@.len() ==> #[trigger] other@[i] <= self.offset@[i],
    $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == self.offset@[k] - other@[k],
loop 0 start
    assert(other@[$j as int] <= self.offset@[$j as int]);
@@end
}

impl ArrayMetadata {
@@fn src/ndarray.rs ArrayMetadata::get_bounds for C03,C02
sig pub fn get_bounds(&self) -> (r: BoundingBox)
spec
    ensures r.shape@ == self.shape@, r.wf(), forall|i: int| 0 <= i < r.offset@.len() ==> #[trigger] r.offset@[i] == 0
@@end
@@fn src/ndarray.rs ArrayMetadata::get_chunk_bounds for C03,C02
sig pub fn get_chunk_bounds(&self, coord: &[u64]) -> (r: BoundingBox)
spec
    requires coord@.len() == self.chunk_grid.chunk_shape@.len(), forall|i: int| 0 <= i < coord@.len() ==> #[trigger] coord@[i] * self.chunk_grid.chunk_shape@[i] <= u64::MAX
    ensures nat64(r.shape@) =~= self.chunk(), r.wf(), forall|i: int| 0 <= i < coord@.len() ==> #[trigger] r.offset@[i] == coord@[i] * self.chunk_grid.chunk_shape@[i]
loop 0
    $s0@ == self.chunk_grid.chunk_shape@, $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == self.chunk_grid.chunk_shape@[k],
loop 1
    coord@.len() == self.chunk_grid.chunk_shape@.len(), $s1@.len() == coord@.len(), $s0@ == coord@, forall|i: int| 0 <= i < coord@.len() ==> #[trigger] coord@[i] * self.chunk_grid.chunk_shape@[i] <= u64::MAX,
    forall|k: int| 0 <= k < $s1@.len() ==> #[trigger] $s1@[k] == self.chunk_grid.chunk_shape@[k],
    $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == coord@[k] * self.chunk_grid.chunk_shape@[k],
loop 1 start
    assert($s1@[$j as int] == self.chunk_grid.chunk_shape@[$j as int]); assert(coord@[$j as int] * self.chunk_grid.chunk_shape@[$j as int] <= u64::MAX);
@@end
}
}
