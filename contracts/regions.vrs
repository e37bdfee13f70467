// C04, C05: regions of arrays, over ndarray's arrays.
@@given chunks.vrs
@@given coords.vrs
@@type T T
@@type Self Self
verus! {
// Trusted: ndarray's arrays and views, as functions from positions to elements.  A mutable view is a reference to what it shows.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxArr<T> { _p: PhantomData<T> }
pub open spec fn inside(p: Seq<int>, d: Seq<nat>) -> bool { p.len() == d.len() && forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < d[i] }
// The index of a position in row-major order.
pub open spec fn ri(d: Seq<nat>, p: Seq<int>) -> int decreases d.len()
{ if d.len() == 0 { 0 } else { ri(d.drop_last(), p.drop_last()) * d.last() + p.last() } }
// A shape, with the order in which the elements are laid out.
pub struct VxShape { pub ghost dims: Seq<nat>, pub ghost col: bool }
pub open spec fn laid(s: VxShape, p: Seq<int>) -> int { if s.col { ri(s.dims.reverse(), p.reverse()) } else { ri(s.dims, p) } }
pub open spec fn nat_sizes(s: Seq<usize>) -> Seq<nat> { Seq::new(s.len(), |i: int| s[i] as nat) }
// The number of elements where no dimension is 0; ndarray's limit is on this.
pub open spec fn volume(d: Seq<nat>) -> nat { prod(Seq::new(d.len(), |i: int| if d[i] == 0 { 1 } else { d[i] })) }
pub struct VxSlice { pub v: Vec<SliceOrIndex> }
pub struct ShapeError;
pub open spec fn slices(v: Seq<SliceOrIndex>, lo: Seq<nat>, n: Seq<nat>) -> bool {
    v.len() == lo.len() == n.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] matches SliceOrIndex::Slice { start, end, step } && step == 1 && start == lo[i] && end == Some((lo[i] + n[i]) as isize) && lo[i] + n[i] <= isize::MAX)
}
impl VxSlice {
    pub fn as_ref(&self) -> (r: &VxSlice) ensures r == self { self }
}
// Slices with any number of dimensions.
pub fn vx_slice_info(v: Vec<SliceOrIndex>) -> (r: Result<VxSlice, ShapeError>) ensures r == Ok::<VxSlice, ShapeError>(VxSlice { v }) { Ok(VxSlice { v }) }
pub open spec fn plus(p: Seq<int>, lo: Seq<nat>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i] + lo[i]) }
pub open spec fn minus(p: Seq<int>, lo: Seq<nat>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i] - lo[i]) }
pub open spec fn box_in(p: Seq<int>, lo: Seq<nat>, n: Seq<nat>) -> bool { inside(minus(p, lo), n) }
pub open spec fn slice_fits(lo: Seq<nat>, n: Seq<nat>, d: Seq<nat>) -> bool { lo.len() == n.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> #[trigger] lo[i] + n[i] <= d[i] }
pub open spec fn lows(v: Seq<SliceOrIndex>) -> Seq<nat> { Seq::new(v.len(), |i: int| v[i]->start as nat) }
pub open spec fn sizes_of(v: Seq<SliceOrIndex>) -> Seq<nat> { Seq::new(v.len(), |i: int| (v[i]->end->Some_0 - v[i]->start) as nat) }
// The elements in row-major order.
pub open spec fn row_major<T>(s: Seq<T>, a: VxArr<T>) -> bool { s.len() == prod(a.dims()) && forall|p: Seq<int>| #[trigger] inside(p, a.dims()) ==> s[ri(a.dims(), p)] == a.at(p) }
pub open spec fn transposed<T>(r: VxArr<T>, a: VxArr<T>) -> bool { r.dims() == a.dims().reverse() && forall|p: Seq<int>| #[trigger] inside(p, r.dims()) ==> r.at(p) == a.at(p.reverse()) }
#[verifier::reject_recursive_types(T)] pub struct VxIter<'a, T> { pub s: &'a VxArr<T> }
impl<'a, T> VxIter<'a, T> { pub fn vx_cloned(self) -> (r: VxIter<'a, T>) ensures r == self { self } }
impl<T> VxArr<T> {
    pub uninterp spec fn dims(self) -> Seq<nat>;
    pub uninterp spec fn at(self, p: Seq<int>) -> T;
    #[verifier::external_body]
    pub fn ndim(&self) -> (r: usize) ensures r == self.dims().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn shape(&self) -> (r: &[usize]) ensures nat_sizes(r@) == self.dims() { unimplemented!() }
    #[verifier::external_body]
    pub fn view_mut(&mut self) -> (r: &mut VxArr<T>) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn view(&self) -> (r: &VxArr<T>) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self, s: &VxSlice) -> (r: &VxArr<T>)
        requires slices(s.v@, lows(s.v@), sizes_of(s.v@)), slice_fits(lows(s.v@), sizes_of(s.v@), self.dims())
        ensures r.dims() == sizes_of(s.v@), forall|p: Seq<int>| #[trigger] inside(p, r.dims()) ==> r.at(p) == self.at(plus(p, lows(s.v@)))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_mut(&mut self, s: &VxSlice) -> (r: &mut VxArr<T>)
        requires slices(s.v@, lows(s.v@), sizes_of(s.v@)), slice_fits(lows(s.v@), sizes_of(s.v@), old(self).dims())
        ensures
            r.dims() == sizes_of(s.v@), forall|p: Seq<int>| #[trigger] inside(p, r.dims()) ==> r.at(p) == old(self).at(plus(p, lows(s.v@))),
            final(self).dims() == old(self).dims(),
            final(r).dims() == r.dims() ==> forall|p: Seq<int>| #[trigger] inside(p, old(self).dims()) ==> final(self).at(p) == if box_in(p, lows(s.v@), sizes_of(s.v@)) { final(r).at(minus(p, lows(s.v@))) } else { old(self).at(p) },
    { unimplemented!() }
    // Also broadcasts; here the shapes are always the same.
    #[verifier::external_body]
    pub fn assign(&mut self, o: &VxArr<T>)
        requires old(self).dims() == o.dims()
        ensures final(self).dims() == old(self).dims(), forall|p: Seq<int>| #[trigger] inside(p, o.dims()) ==> final(self).at(p) == o.at(p)
    { unimplemented!() }
    // Only where the elements lie in memory in row-major order.
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Option<&[T]>) ensures r matches Some(s) ==> row_major(s@, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn t(&self) -> (r: &VxArr<T>) ensures transposed(*r, *self) { unimplemented!() }
    pub fn vx_iter(&self) -> (r: VxIter<'_, T>) ensures r.s == self { VxIter { s: self } }
    // In the order of memory, which is not specified here.
    #[verifier::external_body]
    pub fn into_raw_vec(self) -> (r: Vec<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_from_elem<T>(s: VxShape, x: T) -> (r: VxArr<T>)
    requires volume(s.dims) * 8 <= isize::MAX
    ensures r.dims() == s.dims, forall|p: Seq<int>| #[trigger] inside(p, s.dims) ==> r.at(p) == x
{ unimplemented!() }
pub trait VxIntoShape { spec fn shaped(self) -> VxShape; }
impl VxIntoShape for VxShape { open spec fn shaped(self) -> VxShape { self } }
impl VxIntoShape for &[usize] { open spec fn shaped(self) -> VxShape { VxShape { dims: nat_sizes(self@), col: false } } }
pub open spec fn arranged<T>(a: VxArr<T>, s: VxShape, v: Seq<T>) -> bool { a.dims() == s.dims && forall|p: Seq<int>| #[trigger] inside(p, s.dims) ==> a.at(p) == v[laid(s, p)] }
#[verifier::external_body]
pub fn vx_from_shape_vec<T, S: VxIntoShape>(s: S, v: Vec<T>) -> (r: Result<VxArr<T>, ShapeError>)
    ensures match r { Ok(a) => arranged(a, s.shaped(), v@), Err(_) => v@.len() != prod(s.shaped().dims) || volume(s.shaped().dims) > isize::MAX }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_from_shape<T, S: VxIntoShape>(s: S, v: &[T]) -> (r: Result<&VxArr<T>, ShapeError>)
    ensures match r { Ok(a) => arranged(*a, s.shaped(), v@), Err(_) => v@.len() != prod(s.shaped().dims) || volume(s.shaped().dims) > isize::MAX }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_expect<T, E>(x: Result<T, E>, m: &str) -> (r: T) requires x is Ok ensures r == x->Ok_0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_unwrap<T, E>(x: Result<T, E>) -> (r: T) requires x is Ok ensures r == x->Ok_0 { unimplemented!() }
pub trait VxShapes { fn f(self) -> (r: VxShape) ensures r == self.col(); spec fn col(self) -> VxShape; }
impl VxShapes for Vec<usize> {
    open spec fn col(self) -> VxShape { VxShape { dims: nat_sizes(self@), col: true } }
    #[verifier::external_body] fn f(self) -> (r: VxShape) { unimplemented!() }
}
pub trait VxRowShape { fn vx_into_shape(&self) -> (r: VxShape) ensures r == self.row(); spec fn row(&self) -> VxShape; }
impl VxRowShape for [usize] {
    open spec fn row(&self) -> VxShape { VxShape { dims: nat_sizes(self@), col: false } }
    #[verifier::external_body] fn vx_into_shape(&self) -> (r: VxShape) { unimplemented!() }
}
pub fn vx_all<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { v.as_slice() }
#[verifier::external_body]
pub fn vx_same_sizes(a: &[usize], b: &[usize]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_grid_coord(s: &[u64]) -> (r: GridCoord) ensures r@ == s@ { unimplemented!() }
impl VxInto<GridCoord> for Vec<u64> {
    open spec fn conv(self, t: GridCoord) -> bool { t@ == self@ }
    fn vx_into(self) -> (r: GridCoord) { self }
}
impl<'a, T> VxInto<&'a VxArr<T>> for &'a VxArr<T> {
    open spec fn conv(self, t: &'a VxArr<T>) -> bool { t == self }
    fn vx_into(self) -> (r: &'a VxArr<T>) { self }
}
pub trait VxClone: Sized { spec fn twin(&self, r: Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures self.twin(r); }
impl VxClone for BoundingBox {
    open spec fn twin(&self, r: BoundingBox) -> bool { r.offset@ == self.offset@ && r.shape@ == self.shape@ }
    #[verifier::external_body] fn vx_clone(&self) -> (r: BoundingBox) { unimplemented!() }
}
impl VxClone for Vec<u64> {
    open spec fn twin(&self, r: Vec<u64>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_clone(&self) -> (r: Vec<u64>) { unimplemented!() }
}
impl VxClone for Value {
    open spec fn twin(&self, r: Value) -> bool { r == *self }
    #[verifier::external_body] fn vx_clone(&self) -> (r: Value) { unimplemented!() }
}
impl<T: ReflectedType> VxClone for T {
    open spec fn twin(&self, r: T) -> bool { r == *self }
    fn vx_clone(&self) -> (r: T) { *self }
}
impl PartialEq for BoundingBox { #[verifier::external_body] fn eq(&self, o: &BoundingBox) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BoundingBox {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BoundingBox) -> bool { self.offset@ == o.offset@ && self.shape@ == o.shape@ }
}
pub trait VxVecs<T>: Sized {
    spec fn all(self) -> Seq<T>;
    fn vx_extend(&mut self, i: VxIter<T>) ensures exists|s: Seq<T>| #[trigger] row_major(s, *i.s) && (*final(self)).all() == (*old(self)).all() + s;
    fn vx_resize(&mut self, n: usize, x: T) ensures (*final(self)).all().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] (*final(self)).all()[i] == if i < (*old(self)).all().len() { (*old(self)).all()[i] } else { x };
}
impl<T> VxVecs<T> for Vec<T> {
    open spec fn all(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, i: VxIter<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_resize(&mut self, n: usize, x: T) { unimplemented!() }
}
// A loop over the coordinates takes those that are still to come, in order.
impl VxItems<Vec<u64>> for CoordIterator {
    open spec fn count(&self) -> nat { self.rem().len() }
    open spec fn gives(&self, j: int, r: Vec<u64>) -> bool { nat64(r@) == self.rem()[j] }
}
impl View for CoordIterator { type V = Seq<Seq<nat>>; open spec fn view(&self) -> Seq<Seq<nat>> { self.rem() } }
impl CoordIterator {
    // ExactSizeIterator's: the size hint.
    pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.rem().len() { self.size_hint().0 }
}

// Geometry: positions, their chunks, their place in the chunk.
impl ArrayMetadata {
    pub open spec fn col(self) -> bool { self.chunk_memory_layout is ColumnMajor }
    // Where an element lies in the data of its chunk.
    pub open spec fn place(self, e: Seq<int>) -> int { laid(VxShape { dims: self.chunk(), col: self.col() }, self.local(e)) }
    pub open spec fn local(self, e: Seq<int>) -> Seq<int> { Seq::new(e.len(), |i: int| e[i] % (self.chunk_grid.chunk_shape@[i] as int)) }
    // The array's chunks can be enumerated and addressed with 64 bits.
    pub open spec fn regular(self) -> bool {
        self.enumerable() && sized(self) && sep_ok(self.chunk_grid.separator@) && forall|i: int| 0 <= i < self.shape@.len() ==> #[trigger] self.shape@[i] + self.chunk_grid.chunk_shape@[i] <= u64::MAX
    }
}
pub proof fn ri_bound(d: Seq<nat>, p: Seq<int>)
    requires inside(p, d)
    ensures 0 <= ri(d, p) < prod(d)
    decreases d.len()
{
    if d.len() > 0 {
        let (a, b) = (d.drop_last(), p.drop_last());
        assert(inside(b, a)) by { assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] b[i] < a[i] by { assert(0 <= p[i] < d[i]); } }
        ri_bound(a, b);
        let (x, n, y, m) = (ri(a, b), prod(a) as int, p.last(), d.last() as int);
        assert(0 <= p[p.len() - 1] < d[p.len() - 1]);
        assert(0 <= x * m + y < n * m) by (nonlinear_arith) requires 0 <= x < n, 0 <= y < m;
    }
}
pub proof fn prod_first(d: Seq<nat>)
    requires d.len() > 0
    ensures prod(d) == d.first() * prod(d.drop_first())
    decreases d.len()
{
    let (f, l) = (d.drop_first(), d.drop_last());
    assert(prod(d) == prod(l) * d.last());
    if d.len() > 1 {
        prod_first(l);
        assert(l.drop_first() =~= f.drop_last());
        assert(f.last() == d.last() && l.first() == d.first());
        assert(prod(f) == prod(f.drop_last()) * f.last());
        let (a, b, c) = (d.first() as int, prod(f.drop_last()) as int, d.last() as int);
        assert(prod(l) == a * b);
        assert(a * b * c == a * (b * c)) by (nonlinear_arith);
        assert(prod(f) == b * c && prod(d) == a * b * c);
        assert(d.first() * prod(f) == a * (b * c));
    } else {
        assert(f.len() == 0 && l.len() == 0);
        assert(prod(f) == 1 && prod(l) == 1);
        assert(d.first() == d.last());
        let (x, y, z, u) = (d.first() as int, prod(f) as int, prod(l) as int, d.last() as int);
        assert(z * u == x * y) by (nonlinear_arith) requires x == u, y == 1, z == 1;
        assert(prod(d) == z * u && d.first() * prod(f) == x * y);
    }
}
pub proof fn prod_reverse(d: Seq<nat>)
    ensures prod(d.reverse()) == prod(d)
    decreases d.len()
{
    if d.len() > 0 {
        prod_first(d);
        assert(d.reverse().drop_last() =~= d.drop_first().reverse());
        prod_reverse(d.drop_first());
        let (a, b) = (d.first() as int, prod(d.drop_first()) as int);
        assert(a * b == b * a) by (nonlinear_arith);
    } else { assert(d.reverse() =~= d); }
}
pub proof fn laid_bound(s: VxShape, p: Seq<int>)
    requires inside(p, s.dims)
    ensures 0 <= laid(s, p) < prod(s.dims), inside(p.reverse(), s.dims.reverse())
{
    let (q, e) = (p.reverse(), s.dims.reverse());
    assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < e[i] by { assert(0 <= p[p.len() - 1 - i] < s.dims[p.len() - 1 - i]); }
    prod_reverse(s.dims);
    if s.col { ri_bound(e, q); } else { ri_bound(s.dims, p); }
}
pub proof fn volume_pos(d: Seq<nat>)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] >= 1
    ensures volume(d) == prod(d)
{ assert(Seq::new(d.len(), |i: int| if d[i] == 0 { 1 } else { d[i] }) =~= d); }
pub open spec fn pos64(p: Seq<nat>) -> Seq<u64> { Seq::new(p.len(), |i: int| p[i] as u64) }
// The chunk at a position, as a box.
pub open spec fn chunk_box(m: ArrayMetadata, p: Seq<u64>, b: BoundingBox) -> bool {
    nat64(b.shape@) == m.chunk() && b.wf() && p.len() == m.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] b.offset@[i] == p[i] * m.chunk_grid.chunk_shape@[i]
}
pub proof fn chunk_fits(m: ArrayMetadata, p: Seq<u64>, b: BoundingBox)
    requires m.regular(), m.position_ok(p), chunk_box(m, p, b)
    ensures b.fits()
{
    in_grid(m, p);
    assert forall|i: int| 0 <= i < b.offset@.len() implies #[trigger] b.offset@[i] + b.shape@[i] <= u64::MAX by { assert(nat64(b.shape@)[i] == m.chunk()[i]); assert(p[i] * m.chunk_grid.chunk_shape@[i] <= u64::MAX - m.chunk_grid.chunk_shape@[i]); }
}
// Positions of chunks in the array can be multiplied out.
pub proof fn in_grid(m: ArrayMetadata, p: Seq<u64>)
    requires m.regular(), m.position_ok(p)
    ensures forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] * m.chunk_grid.chunk_shape@[i] <= u64::MAX - m.chunk_grid.chunk_shape@[i]
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] * m.chunk_grid.chunk_shape@[i] <= u64::MAX - m.chunk_grid.chunk_shape@[i] by {
        let (x, d, c) = (p[i] as int, m.shape@[i] as int, m.chunk_grid.chunk_shape@[i] as int);
        assert((p[i] as nat) < m.extent()[i]);
        assert(c >= 1);
        assert(m.shape@[i] + m.chunk_grid.chunk_shape@[i] <= u64::MAX);
        let q = (d + c - 1) / c;
        assert(q * c <= d + c - 1) by (nonlinear_arith) requires q == (d + c - 1) / c, c >= 1;
        assert(x * c <= q * c - c) by (nonlinear_arith) requires x <= q - 1, c >= 1;
    }
}
// An element is in a chunk's box just if that chunk is its chunk; then its offset in the box is its place.
pub proof fn in_box(m: ArrayMetadata, p: Seq<u64>, b: BoundingBox, e: Seq<int>)
    requires m.regular(), chunk_box(m, p, b), m.has(e)
    ensures b.has(e) <==> m.chunk_of(e) == nat64(p), b.has(e) ==> minus(e, nat64(b.offset@)) == m.local(e) && inside(m.local(e), m.chunk())
{
    let c = m.chunk_grid.chunk_shape@;
    assert forall|i: int| 0 <= i < e.len() implies (b.offset@[i] <= e[i] < b.end_at(i) <==> e[i] / (c[i] as int) == p[i]) && (e[i] / (c[i] as int) == p[i] ==> e[i] - b.offset@[i] == e[i] % (c[i] as int)) && 0 <= e[i] % (c[i] as int) < c[i] by {
        assert(c[i] >= 1); assert(nat64(b.shape@)[i] == m.chunk()[i]); assert(b.offset@[i] == p[i] * c[i]); assert(0 <= e[i] < m.shape@[i]);
        let (x, k, q) = (e[i], c[i] as int, p[i] as int);
        assert(q * k <= x < q * k + k <==> x / k == q) by (nonlinear_arith) requires k >= 1;
        assert(x / k == q ==> x - q * k == x % k) by (nonlinear_arith) requires k >= 1;
        assert(0 <= x % k < k) by (nonlinear_arith) requires k >= 1;
    }
    if b.has(e) {
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] m.chunk_of(e)[i] == nat64(p)[i] by { assert(b.offset@[i] <= e[i] < b.end_at(i)); }
        assert(m.chunk_of(e) =~= nat64(p));
        assert forall|i: int| 0 <= i < e.len() implies minus(e, nat64(b.offset@))[i] == m.local(e)[i] && 0 <= #[trigger] m.local(e)[i] < m.chunk()[i] by { assert(m.chunk_of(e)[i] == nat64(p)[i]); assert(b.offset@[i] <= e[i] < b.end_at(i)); }
        assert(minus(e, nat64(b.offset@)) =~= m.local(e));
    }
    if m.chunk_of(e) == nat64(p) {
        assert forall|i: int| 0 <= i < e.len() implies b.offset@[i] <= #[trigger] e[i] < b.end_at(i) by { assert(m.chunk_of(e)[i] == nat64(p)[i]); assert(0 <= e[i] < m.shape@[i]); assert(c[i] >= 1); assert(e[i] / (c[i] as int) >= 0) by (nonlinear_arith) requires e[i] >= 0, c[i] >= 1; }
    }
}
}
verus! {
// ndarray's sizes are at most isize::MAX.
pub axiom fn arr_sizes<T>(a: VxArr<T>)
    ensures forall|i: int| 0 <= i < a.dims().len() ==> #[trigger] a.dims()[i] <= isize::MAX;
// What a JSON value is as an element.
pub uninterp spec fn json_as<T>(v: Value) -> Option<T>;
#[verifier::external_body]
pub fn vx_from_value<T>(v: Value) -> (r: Result<T, Error>) ensures match r { Ok(x) => json_as::<T>(v) == Some(x), Err(_) => json_as::<T>(v) is None } { unimplemented!() }
// C05: the fill value; the type's default when none is given; none at all when the one given is not of the type.
pub open spec fn filling<T: ReflectedType>(m: ArrayMetadata) -> Option<T> { match m.fill_value { None => Some(T::zero()), Some(v) => json_as::<T>(v) } }
}
@@path serde_json::from_value vx_from_value
@@result from_value serde_json::from_value
@@method as_ref as_ref
@@method extend vx_extend
@@method resize vx_resize
@@method clone vx_clone
@@method [..] vx_all
@@method - sub
@@method expect fn:vx_expect
@@method unwrap fn:vx_unwrap
@@method into_shape vx_into_shape
@@path T::default T::default
@@path GridCoord::from vx_grid_coord
@@path Array::from_elem vx_from_elem
@@path Array::from_shape_vec vx_from_shape_vec
@@path ArrayView::from_shape vx_from_shape
@@path SliceInfo::<_,IxDyn>::new vx_slice_info
@@world exists get set erase erase_prefix list_dir uri vx_from_reader serde_json::from_reader read_chunk read_chunk_into write_chunk read_ndarray_into_with_buffer read_ndarray_into
verus! {
impl ArrayMetadata {
@@fn src/lib.rs ArrayMetadata::get_chunk_memory_layout for C04,C05
sig pub fn get_chunk_memory_layout(&self) -> (r: &Order)
spec
    ensures *r == self.chunk_memory_layout
@@end
@@fn src/lib.rs ArrayMetadata::get_fill_value for C04,C05
sig pub fn get_fill_value(&self) -> (r: Option<&Value>)
spec
    ensures match r { Some(v) => self.fill_value == Some(*v), None => self.fill_value is None }
@@end
@@fn src/lib.rs ArrayMetadata::get_effective_fill_value for C04,C05
sig pub fn get_effective_fill_value<T: ReflectedType>(&self) -> (r: Result<T, Error>)
spec
    ensures match r { Ok(x) => filling::<T>(*self) == Some(x), Err(_) => filling::<T>(*self) is None }
@@end
}
impl<T: ReflectedType, C> SliceDataChunk<T, C> {
@@fn src/chunk.rs impl SliceDataChunk<T,C>::into_data as SliceDataChunk::into_data for C04,C05
sig pub fn into_data(self) -> (r: C)
spec
    ensures r == self.data
@@end
}
impl<T: ReflectedType, C: VxMut<T>> SliceDataChunk<T, C> {
@@fn src/ndarray.rs SliceDataChunk::get_bounds as SliceDataChunk::get_bounds for C04,C05
sig pub fn get_bounds(&self, array_meta: &ArrayMetadata) -> (r: BoundingBox)
spec
    requires array_meta.regular(), array_meta.position_ok(self.coord())
    ensures chunk_box(*array_meta, self.coord(), r)
start
    proof { in_grid(*array_meta, self.coord()); assert forall|i: int| 0 <= i < self.coord().len() implies #[trigger] self.coord()[i] * array_meta.chunk_grid.chunk_shape@[i] <= u64::MAX by { assert(self.coord()[i] * array_meta.chunk_grid.chunk_shape@[i] <= u64::MAX - array_meta.chunk_grid.chunk_shape@[i]); } }
@@end
@@fn src/ndarray.rs SliceDataChunk::shape_ndarray_shape as SliceDataChunk::shape_ndarray_shape for C04,C05
sig fn shape_ndarray_shape(&self, array_meta: &ArrayMetadata) -> (r: VxShape)
spec
    requires array_meta.regular(), array_meta.position_ok(self.coord())
    ensures r == (VxShape { dims: array_meta.chunk(), col: array_meta.col() })
after let chunk_bb
    proof { assert forall|s: Seq<usize>| s.len() == chunk_bb.shape@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == chunk_bb.shape@[i]) implies #[trigger] nat_sizes(s) == array_meta.chunk() by { assert forall|i: int| 0 <= i < s.len() implies nat_sizes(s)[i] == #[trigger] array_meta.chunk()[i] by { assert(s[i] == chunk_bb.shape@[i]); assert(nat64(chunk_bb.shape@)[i] == array_meta.chunk()[i]); } assert(nat_sizes(s) =~= array_meta.chunk()); } }
@@end
@@fn src/ndarray.rs SliceDataChunk::as_ndarray as SliceDataChunk::as_ndarray for C05
sig pub fn as_ndarray(&self, array_meta: &ArrayMetadata) -> (r: &VxArr<T>)
spec
    requires array_meta.regular(), array_meta.position_ok(self.coord()), self.elems().len() == size(*array_meta)
    ensures arranged(*r, VxShape { dims: array_meta.chunk(), col: array_meta.col() }, self.elems())
start
    proof { volume_pos(array_meta.chunk()); }
@@end
}
impl<T: ReflectedType> SliceDataChunk<T, Vec<T>> {
@@fn src/ndarray.rs VecDataChunk::into_ndarray as SliceDataChunk::into_ndarray for C04
sig pub fn into_ndarray(self, array_meta: &ArrayMetadata) -> (r: VxArr<T>)
spec
    requires array_meta.regular(), array_meta.position_ok(self.coord()), self.elems().len() == size(*array_meta)
    ensures arranged(r, VxShape { dims: array_meta.chunk(), col: array_meta.col() }, self.elems())
start
    proof { volume_pos(array_meta.chunk()); }
@@end
}

// The boxes of a slice.
pub open spec fn boxed(v: Seq<SliceOrIndex>, b: BoundingBox) -> bool { v.len() == b.offset@.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == (SliceOrIndex::Slice { start: b.offset@[i] as isize, end: Some(b.end_at(i) as isize), step: 1 }) }
pub proof fn box_slices(v: Seq<SliceOrIndex>, b: BoundingBox)
    requires boxed(v, b), b.wf(), forall|i: int| 0 <= i < b.offset@.len() ==> #[trigger] b.end_at(i) <= isize::MAX
    ensures lows(v) == nat64(b.offset@), sizes_of(v) == nat64(b.shape@), slices(v, lows(v), sizes_of(v))
{
    assert forall|i: int| 0 <= i < v.len() implies lows(v)[i] == nat64(b.offset@)[i] && #[trigger] sizes_of(v)[i] == nat64(b.shape@)[i] by { assert(v[i] == (SliceOrIndex::Slice { start: b.offset@[i] as isize, end: Some(b.end_at(i) as isize), step: 1 })); assert(b.end_at(i) <= isize::MAX); }
    assert(lows(v) =~= nat64(b.offset@)); assert(sizes_of(v) =~= nat64(b.shape@));
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i] matches SliceOrIndex::Slice { start, end, step } && step == 1 && start == lows(v)[i] && end == Some((lows(v)[i] + sizes_of(v)[i]) as isize) && lows(v)[i] + sizes_of(v)[i] <= isize::MAX) by { assert(b.end_at(i) <= isize::MAX); }
}
// r is where a and b meet, and not empty.
pub open spec fn meeting(r: BoundingBox, a: BoundingBox, b: BoundingBox) -> bool {
    r.fits() && r.offset@.len() == a.offset@.len() == b.offset@.len() && a.wf() && b.wf() && !r.empty() && is_intersection(r, a, b)
    && forall|i: int| 0 <= i < r.offset@.len() ==> a.offset@[i] <= #[trigger] r.offset@[i] && b.offset@[i] <= r.offset@[i] && r.end_at(i) <= a.end_at(i) && r.end_at(i) <= b.end_at(i)
}
pub proof fn meets_here(m: ArrayMetadata, b: BoundingBox, a: BoundingBox, p: Seq<u64>, c: BoundingBox, r: BoundingBox)
    requires m.regular(), b.fits(), r.fits(), m.meets(b, nat64(p)), chunk_box(m, p, c), a.offset@ == b.offset@, a.shape@ == b.shape@,
        r.offset@.len() == b.offset@.len() == c.offset@.len(), forall|i: int| 0 <= i < r.offset@.len() ==> #[trigger] meet_at(r, a, c, i)
    ensures meeting(r, b, c)
{
    assert forall|i: int| 0 <= i < r.offset@.len() implies #[trigger] meet_at(r, b, c, i) by { assert(meet_at(r, a, c, i)); }
    meet_is_intersection(r, b, c);
    let e = choose|e: Seq<int>| #[trigger] m.has(e) && b.has(e) && nat64(p) == m.chunk_of(e);
    in_box(m, p, c, e);
    assert(r.has(e));
    empty_is_no_position(r);
    assert forall|i: int| 0 <= i < r.offset@.len() implies b.offset@[i] <= #[trigger] r.offset@[i] && c.offset@[i] <= r.offset@[i] && r.end_at(i) <= b.end_at(i) && r.end_at(i) <= c.end_at(i) by { assert(meet_at(r, b, c, i)); assert(r.shape@[i] != 0); }
}
// What is left of r when a's offset is subtracted.
pub open spec fn moved(q: BoundingBox, r: BoundingBox, o: Seq<u64>) -> bool { q.wf() && q.shape@ == r.shape@ && q.offset@.len() == r.offset@.len() == o.len() && forall|i: int| 0 <= i < q.offset@.len() ==> #[trigger] q.offset@[i] == r.offset@[i] - o[i] }

// C05: what reading an element shows: the stored element, or what was there before.
pub open spec fn shown<T: ReflectedType>(m: ArrayMetadata, v: Option<Seq<u8>>, e: Seq<int>, before: T, after: T) -> bool {
    match v { None => after == before, Some(b) => exists|s: Seq<T>| #[trigger] holds(m, s, wholly(m, b)) && after == s[m.place(e)] }
}
pub open spec fn readable<T: ReflectedType>(m: ArrayMetadata, v: Option<Seq<u8>>) -> bool { match v { None => true, Some(b) => typed::<T>(m) && wholly(m, b).len() >= need::<T>(m) } }
pub open spec fn off(e: Seq<int>, b: BoundingBox) -> Seq<int> { minus(e, nat64(b.offset@)) }
pub proof fn shapes(b: BoundingBox, d: Seq<nat>)
    requires b.wf()
    ensures
        same_shape(b, d) ==> d.len() == b.offset@.len() && forall|i: int| 0 <= i < b.shape@.len() ==> #[trigger] b.shape@[i] == d[i],
        d.len() != b.offset@.len() ==> !same_shape(b, d),
        forall|s: Seq<usize>| s.len() == b.shape@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b.shape@[i]) ==> #[trigger] nat_sizes(s) == nat64(b.shape@),
        forall|s: Seq<usize>, t: Seq<usize>| #[trigger] nat_sizes(s) == #[trigger] nat_sizes(t) ==> s == t,
{
    if same_shape(b, d) { assert forall|i: int| 0 <= i < b.shape@.len() implies #[trigger] b.shape@[i] == d[i] by { assert(nat64(b.shape@)[i] == d[i]); } }
    assert forall|s: Seq<usize>| s.len() == b.shape@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b.shape@[i]) implies #[trigger] nat_sizes(s) == nat64(b.shape@) by { assert(nat_sizes(s) =~= nat64(b.shape@)); }
    assert forall|s: Seq<usize>, t: Seq<usize>| #[trigger] nat_sizes(s) == #[trigger] nat_sizes(t) implies s == t by {
        assert(s.len() == nat_sizes(s).len() && t.len() == nat_sizes(t).len());
        assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(nat_sizes(s)[i] == nat_sizes(t)[i]); }
        assert(s =~= t);
    }
}
pub proof fn in_shape(b: BoundingBox, e: Seq<int>)
    requires b.wf(), b.has(e)
    ensures inside(off(e, b), nat64(b.shape@))
{ assert forall|i: int| 0 <= i < e.len() implies 0 <= #[trigger] off(e, b)[i] < nat64(b.shape@)[i] by { assert(b.offset@[i] <= e[i] < b.end_at(i)); } }
pub proof fn fits64(m: ArrayMetadata, p: Seq<nat>)
    requires p.len() == m.shape@.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < m.extent()[i], m.regular()
    ensures p == nat64(pos64(p)), pos64(p).len() == p.len()
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] <= u64::MAX by { assert(m.chunk_grid.chunk_shape@[i] >= 1); ceil_is_least_cover(m.shape@[i] as int, m.chunk_grid.chunk_shape@[i] as int); assert(p[i] < m.extent()[i]); }
    assert(p =~= nat64(pos64(p)));
}
pub proof fn at_position(m: ArrayMetadata, p: Seq<u64>)
    requires p.len() == m.shape@.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] nat64(p)[i] < m.extent()[i]
    ensures m.position_ok(p), pos64(nat64(p)) == p
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] (p[i] as nat) < m.extent()[i] by { assert(nat64(p)[i] < m.extent()[i]); }
    assert(pos64(nat64(p)) =~= p);
}
impl VxStore {
    pub open spec fn stored(self, w: VxWorld, path: Seq<char>, m: ArrayMetadata, p: Seq<nat>) -> Option<Seq<u8>> { w.at(self.ckey(path, m, pos64(p))) }
    pub open spec fn region_read<T: ReflectedType>(self, w: VxWorld, path: Seq<char>, m: ArrayMetadata, b: BoundingBox, a0: VxArr<T>, a1: VxArr<T>) -> bool {
        a1.dims() == a0.dims() && forall|e: Seq<int>| #[trigger] m.has(e) && b.has(e) ==> shown(m, self.stored(w, path, m, m.chunk_of(e)), e, a0.at(off(e, b)), a1.at(off(e, b)))
    }
    // The same when only the first n of the chunks have been read.
    pub open spec fn partly_read<T: ReflectedType>(self, w: VxWorld, path: Seq<char>, m: ArrayMetadata, b: BoundingBox, a0: VxArr<T>, a1: VxArr<T>, all: Seq<Seq<nat>>, n: int) -> bool {
        a1.dims() == a0.dims() && forall|e: Seq<int>, k: int| #[trigger] m.has(e) && b.has(e) && 0 <= k < all.len() && #[trigger] all[k] == m.chunk_of(e) ==>
            if k < n { shown(m, self.stored(w, path, m, m.chunk_of(e)), e, a0.at(off(e, b)), a1.at(off(e, b))) } else { a1.at(off(e, b)) == a0.at(off(e, b)) }
    }
    pub open spec fn unreadable<T: ReflectedType>(self, w: VxWorld, path: Seq<char>, m: ArrayMetadata, b: BoundingBox) -> bool { exists|p: Seq<nat>| #[trigger] m.meets(b, p) && !readable::<T>(m, self.stored(w, path, m, p)) }
}
pub open spec fn same_shape(b: BoundingBox, d: Seq<nat>) -> bool { nat64(b.shape@) == d }
// An element of the region in a chunk: where it is in the array and in the chunk.
pub proof fn in_region(m: ArrayMetadata, b: BoundingBox, p: Seq<u64>, c: BoundingBox, r: BoundingBox, q: BoundingBox, d: BoundingBox, e: Seq<int>)
    requires m.regular(), b.fits(), chunk_box(m, p, c), meeting(r, b, c), moved(q, r, b.offset@), moved(d, r, c.offset@), m.has(e), b.has(e)
    ensures
        inside(off(e, b), nat64(b.shape@)),
        box_in(off(e, b), nat64(q.offset@), nat64(q.shape@)) <==> m.chunk_of(e) == nat64(p),
        m.chunk_of(e) == nat64(p) ==> plus(minus(off(e, b), nat64(q.offset@)), nat64(d.offset@)) == m.local(e) && inside(m.local(e), m.chunk()) && minus(off(e, b), nat64(q.offset@)) == off(e, r),
{
    in_box(m, p, c, e);
    let x = off(e, b);
    assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < nat64(b.shape@)[i] by { assert(b.offset@[i] <= e[i] < b.end_at(i)); }
    let y = minus(x, nat64(q.offset@));
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] y[i] == e[i] - r.offset@[i] by { assert(q.offset@[i] == r.offset@[i] - b.offset@[i]); }
    assert(y =~= off(e, r));
    if box_in(x, nat64(q.offset@), nat64(q.shape@)) {
        assert forall|i: int| 0 <= i < e.len() implies r.offset@[i] <= #[trigger] e[i] < r.end_at(i) by { assert(0 <= y[i] < nat64(q.shape@)[i]); }
        assert(r.has(e)); assert(c.has(e));
    }
    if m.chunk_of(e) == nat64(p) {
        assert(r.has(e));
        assert forall|i: int| 0 <= i < e.len() implies 0 <= #[trigger] y[i] < nat64(q.shape@)[i] by { assert(r.offset@[i] <= e[i] < r.end_at(i)); }
        let z = plus(y, nat64(d.offset@));
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] z[i] == m.local(e)[i] by { assert(d.offset@[i] == r.offset@[i] - c.offset@[i]); assert(minus(e, nat64(c.offset@))[i] == m.local(e)[i]); }
        assert(z =~= m.local(e));
    }
}
// The slices of a region fit the array and the chunk.
pub proof fn region_fits(m: ArrayMetadata, b: BoundingBox, p: Seq<u64>, c: BoundingBox, r: BoundingBox, q: BoundingBox, d: BoundingBox)
    requires m.regular(), b.fits(), chunk_box(m, p, c), meeting(r, b, c), forall|i: int| 0 <= i < b.shape@.len() ==> #[trigger] b.shape@[i] <= isize::MAX
    ensures
        moved(q, r, b.offset@) ==> q.fits() && slice_fits(nat64(q.offset@), nat64(q.shape@), nat64(b.shape@)) && forall|i: int| 0 <= i < q.offset@.len() ==> #[trigger] q.end_at(i) <= isize::MAX,
        moved(d, r, c.offset@) ==> d.fits() && slice_fits(nat64(d.offset@), nat64(d.shape@), m.chunk()) && forall|i: int| 0 <= i < d.offset@.len() ==> #[trigger] d.end_at(i) <= isize::MAX,
{
    if moved(q, r, b.offset@) {
        assert forall|i: int| 0 <= i < q.offset@.len() implies #[trigger] q.offset@[i] + q.shape@[i] <= b.shape@[i] && b.shape@[i] <= isize::MAX by { assert(b.offset@[i] <= r.offset@[i]); assert(r.end_at(i) <= b.end_at(i)); assert(b.shape@[i] <= isize::MAX); }
        assert forall|i: int| 0 <= i < q.offset@.len() implies #[trigger] q.end_at(i) <= isize::MAX by { assert(q.offset@[i] + q.shape@[i] <= b.shape@[i]); }
        assert forall|i: int| 0 <= i < q.offset@.len() implies #[trigger] nat64(q.offset@)[i] + nat64(q.shape@)[i] <= nat64(b.shape@)[i] by { assert(q.offset@[i] + q.shape@[i] <= b.shape@[i]); }
    }
    if moved(d, r, c.offset@) {
        assert forall|i: int| 0 <= i < d.offset@.len() implies #[trigger] d.offset@[i] + d.shape@[i] <= c.shape@[i] && c.shape@[i] <= u32::MAX by { assert(c.offset@[i] <= r.offset@[i]); assert(r.end_at(i) <= c.end_at(i)); assert(nat64(c.shape@)[i] == m.chunk()[i]); }
        assert forall|i: int| 0 <= i < d.offset@.len() implies #[trigger] d.end_at(i) <= isize::MAX by { assert(d.offset@[i] + d.shape@[i] <= c.shape@[i]); }
        assert forall|i: int| 0 <= i < d.offset@.len() implies #[trigger] nat64(d.offset@)[i] + nat64(d.shape@)[i] <= m.chunk()[i] by { assert(d.offset@[i] + d.shape@[i] <= c.shape@[i]); assert(nat64(c.shape@)[i] == m.chunk()[i]); }
    }
}
// Parts of an array taken from a chunk.
pub open spec fn pasted<T>(a1: VxArr<T>, a2: VxArr<T>, lo: Seq<nat>, n: Seq<nat>, x: VxArr<T>, xlo: Seq<nat>) -> bool {
    a2.dims() == a1.dims() && forall|p: Seq<int>| #[trigger] inside(p, a1.dims()) ==> a2.at(p) == if box_in(p, lo, n) { x.at(plus(minus(p, lo), xlo)) } else { a1.at(p) }
}
impl VxStore {
    pub proof fn read_none<T: ReflectedType>(self, w: VxWorld, path: Seq<char>, m: ArrayMetadata, b: BoundingBox, a0: VxArr<T>, a1: VxArr<T>, all: Seq<Seq<nat>>, n: int)
        requires self.partly_read(w, path, m, b, a0, a1, all, n), 0 <= n < all.len(), all.no_duplicates(), self.stored(w, path, m, all[n]) is None
        ensures self.partly_read(w, path, m, b, a0, a1, all, n + 1)
    {}
    pub proof fn read_some<T: ReflectedType>(self, w: VxWorld, path: Seq<char>, m: ArrayMetadata, b: BoundingBox, a0: VxArr<T>, a1: VxArr<T>, a2: VxArr<T>, all: Seq<Seq<nat>>, n: int, p: Seq<u64>, c: BoundingBox, r: BoundingBox, q: BoundingBox, d: BoundingBox, x: VxArr<T>, s: Seq<T>)
        requires
            self.partly_read(w, path, m, b, a0, a1, all, n), 0 <= n < all.len(), all.no_duplicates(), all[n] == nat64(p), same_shape(b, a0.dims()),
            m.regular(), b.fits(), chunk_box(m, p, c), meeting(r, b, c), moved(q, r, b.offset@), moved(d, r, c.offset@),
            pasted(a1, a2, nat64(q.offset@), nat64(q.shape@), x, nat64(d.offset@)), arranged(x, VxShape { dims: m.chunk(), col: m.col() }, s),
            self.stored(w, path, m, all[n]) is Some, holds(m, s, wholly(m, self.stored(w, path, m, all[n])->Some_0)),
        ensures self.partly_read(w, path, m, b, a0, a2, all, n + 1)
    {
        assert forall|e: Seq<int>, k: int| #[trigger] m.has(e) && b.has(e) && 0 <= k < all.len() && #[trigger] all[k] == m.chunk_of(e) implies
            if k < n + 1 { shown(m, self.stored(w, path, m, m.chunk_of(e)), e, a0.at(off(e, b)), a2.at(off(e, b))) } else { a2.at(off(e, b)) == a0.at(off(e, b)) }
        by {
            in_region(m, b, p, c, r, q, d, e);
            assert(inside(off(e, b), a1.dims()));
            if k == n { assert(a2.at(off(e, b)) == x.at(m.local(e))); }
            else { assert(all[k] != all[n]); assert(a2.at(off(e, b)) == a1.at(off(e, b))); }
        }
    }
    pub proof fn read_all<T: ReflectedType>(self, w: VxWorld, path: Seq<char>, m: ArrayMetadata, b: BoundingBox, a0: VxArr<T>, a1: VxArr<T>, all: Seq<Seq<nat>>)
        requires self.partly_read(w, path, m, b, a0, a1, all, all.len() as int), forall|p: Seq<nat>| all.contains(p) <==> m.meets(b, p)
        ensures self.region_read(w, path, m, b, a0, a1)
    {
        assert forall|e: Seq<int>| #[trigger] m.has(e) && b.has(e) implies shown(m, self.stored(w, path, m, m.chunk_of(e)), e, a0.at(off(e, b)), a1.at(off(e, b))) by {
            assert(m.meets(b, m.chunk_of(e)));
            assert(all.contains(m.chunk_of(e)));
            let k = choose|k: int| 0 <= k < all.len() && all[k] == m.chunk_of(e);
            assert(all[k] == m.chunk_of(e));
        }
    }
@@fn src/ndarray.rs trait ZarrNdarrayReader::read_ndarray_into_with_buffer as VxStore::read_ndarray_into_with_buffer for C05
sig pub fn read_ndarray_into_with_buffer<T: ReflectedType>(&self, path_name: &str, array_meta: &ArrayMetadata, bbox: &BoundingBox, arr: &mut VxArr<T>, chunk_buff_opt: &mut Option<VecDataChunk<T>>, vx_w: &mut VxWorld) -> (r: Result<(), Error>) where SliceDataChunk<T, Vec<T>>: ReadableDataChunk<T>
spec
    requires array_meta.regular(), bbox.fits()
    ensures
        final(vx_w).same(*old(vx_w)),
        final(arr).dims() == old(arr).dims(),
        match r {
            Ok(_) => bbox.offset@.len() == array_meta.shape@.len() && same_shape(*bbox, old(arr).dims()) && self.region_read(*old(vx_w), path_name@, *array_meta, *bbox, *old(arr), *final(arr)),
            Err(_) => bbox.offset@.len() != array_meta.shape@.len() || !same_shape(*bbox, old(arr).dims()) || final(vx_w).faulted() || self.unreadable::<T>(*old(vx_w), path_name@, *array_meta, *bbox),
        },
        // Mismatches are rejected.
        bbox.offset@.len() != array_meta.shape@.len() || !same_shape(*bbox, old(arr).dims()) ==> r is Err && *final(arr) == *old(arr) && *final(chunk_buff_opt) == *old(chunk_buff_opt) && final(vx_w).faulted() == old(vx_w).faulted(),
start
    let ghost a0 = *arr;
    let ghost m = *array_meta;
    let ghost b = *bbox;
    let ghost w0 = *vx_w;
    let ghost path = path_name@;
    proof { arr_sizes(a0); shapes(b, a0.dims()); }
loop 0
    m == *array_meta, b == *bbox, path == path_name@, m.regular(), b.fits(), b.offset@.len() == m.shape@.len(), same_shape(b, a0.dims()),
    forall|i: int| 0 <= i < b.shape@.len() ==> #[trigger] b.shape@[i] <= isize::MAX,
    $s0.wf(), $s0@.no_duplicates(), forall|p: Seq<nat>| $s0@.contains(p) <==> m.meets(b, p), forall|p: Seq<nat>| m.meets(b, p) ==> p.len() == m.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < m.extent()[i],
    vx_w.same(w0),
    self.partly_read(w0, path, m, b, a0, *arr, $s0@, $i as int),
loop 0 start
    let ghost (all, n) = ($s0@, $j as int);
after let grid_pos
    let ghost p = coord@;
    let ghost g = nat64(p);
    proof { assert(g == all[n]); assert(all.contains(g)); assert(m.meets(b, g)); at_position(m, p); }
after let is_chunk
    proof { if !is_chunk { self.read_none(w0, path, m, b, a0, *arr, all, n); } }
after let read_bb
    let ghost rb0 = read_bb;
    proof { chunk_fits(m, p, chunk_bb); }
after .intersect
    proof { meets_here(m, b, rb0, p, chunk_bb, read_bb); }
before let arr_slice
    proof { region_fits(m, b, p, chunk_bb, read_bb, arr_read_bb, chunk_read_bb); }
after let arr_slice
    proof { box_slices(arr_slice@, arr_read_bb); }
    let ghost a1 = *arr;
after let chunk_slice
    proof { box_slices(chunk_slice@, chunk_read_bb); }
after .assign
    proof { self.read_some(w0, path, m, b, a0, a1, *arr, all, n, p, chunk_bb, read_bb, arr_read_bb, chunk_read_bb, *chunk_data, chunk.elems()); }
loop 0 after
    proof { self.read_all(w0, path, m, b, a0, *arr, $s0@); }
@@end
@@fn src/ndarray.rs trait ZarrNdarrayReader::read_ndarray_into as VxStore::read_ndarray_into for C05
sig pub fn read_ndarray_into<T: ReflectedType>(&self, path_name: &str, array_meta: &ArrayMetadata, bbox: &BoundingBox, arr: &mut VxArr<T>, vx_w: &mut VxWorld) -> (r: Result<(), Error>) where SliceDataChunk<T, Vec<T>>: ReadableDataChunk<T>
spec
    requires array_meta.regular(), bbox.fits()
    ensures
        final(vx_w).same(*old(vx_w)),
        final(arr).dims() == old(arr).dims(),
        match r {
            Ok(_) => bbox.offset@.len() == array_meta.shape@.len() && same_shape(*bbox, old(arr).dims()) && self.region_read(*old(vx_w), path_name@, *array_meta, *bbox, *old(arr), *final(arr)),
            Err(_) => bbox.offset@.len() != array_meta.shape@.len() || !same_shape(*bbox, old(arr).dims()) || final(vx_w).faulted() || self.unreadable::<T>(*old(vx_w), path_name@, *array_meta, *bbox),
        },
        bbox.offset@.len() != array_meta.shape@.len() || !same_shape(*bbox, old(arr).dims()) ==> r is Err && *final(arr) == *old(arr) && final(vx_w).faulted() == old(vx_w).faulted(),
@@end
@@fn src/ndarray.rs trait ZarrNdarrayReader::read_ndarray as VxStore::read_ndarray for C05
sig pub fn read_ndarray<T: ReflectedType>(&self, path_name: &str, array_meta: &ArrayMetadata, bbox: &BoundingBox, vx_w: &mut VxWorld) -> (r: Result<VxArr<T>, Error>) where SliceDataChunk<T, Vec<T>>: ReadableDataChunk<T>
spec
    requires array_meta.regular(), bbox.fits(), volume(nat64(bbox.shape@)) * 8 <= isize::MAX
    ensures
        final(vx_w).same(*old(vx_w)),
        match r {
            // Every element of the array in the region is the one stored, or the fill value.
            Ok(a) => bbox.offset@.len() == array_meta.shape@.len() && same_shape(*bbox, a.dims()) && filling::<T>(*array_meta) is Some
                && forall|e: Seq<int>| #[trigger] array_meta.has(e) && bbox.has(e) ==> shown(*array_meta, self.stored(*old(vx_w), path_name@, *array_meta, array_meta.chunk_of(e)), e, filling::<T>(*array_meta)->Some_0, a.at(off(e, *bbox))),
            Err(_) => filling::<T>(*array_meta) is None || bbox.offset@.len() != array_meta.shape@.len() || final(vx_w).faulted() || self.unreadable::<T>(*old(vx_w), path_name@, *array_meta, *bbox),
        },
start
    proof { shapes(*bbox, nat64(bbox.shape@)); assert forall|e: Seq<int>| #[trigger] bbox.has(e) implies inside(off(e, *bbox), nat64(bbox.shape@)) by { in_shape(*bbox, e); } }
@@end
}

// C04: writing.  An element of the region that is written: its position in the array of values is in the values' shape.
pub open spec fn hit(e: Seq<int>, o: Seq<u64>, d: Seq<nat>) -> bool { inside(minus(e, nat64(o)), d) }
pub open spec fn touches(m: ArrayMetadata, o: Seq<u64>, d: Seq<nat>, p: Seq<nat>) -> bool { exists|e: Seq<int>| #[trigger] m.has(e) && hit(e, o, d) && p == m.chunk_of(e) }
// What an element of a chunk is after the write: the value given, or what was there before.
pub open spec fn becomes<T: ReflectedType>(m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, v0: Option<Seq<u8>>, e: Seq<int>, x: T) -> bool {
    if hit(e, o, a.dims()) { x == a.at(minus(e, nat64(o))) } else { filling::<T>(m) is Some && shown(m, v0, e, filling::<T>(m)->Some_0, x) }
}
pub open spec fn filled_in<T: ReflectedType>(m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, p: Seq<nat>, v0: Option<Seq<u8>>, s: Seq<T>) -> bool {
    s.len() == size(m) && forall|e: Seq<int>| #[trigger] m.has(e) && m.chunk_of(e) == p ==> becomes(m, o, a, v0, e, s[m.place(e)])
}
// A chunk as it is written: all of its elements.
pub open spec fn written<T: ReflectedType>(m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, p: Seq<nat>, v0: Option<Seq<u8>>, v1: Option<Seq<u8>>) -> bool {
    v1 is Some && typed::<T>(m) && exists|s: Seq<T>| #[trigger] encodes(format(m.compressor), v1->Some_0, encs(s, big(m))) && filled_in(m, o, a, p, v0, s)
}
// A chunk's elements, in the array's layout.
pub open spec fn laid_out<T>(s: Seq<T>, m: ArrayMetadata, a: VxArr<T>) -> bool { s.len() == prod(a.dims()) && forall|p: Seq<int>| #[trigger] inside(p, a.dims()) ==> s[laid(VxShape { dims: a.dims(), col: m.col() }, p)] == a.at(p) }
// Being in the region is being hit.
pub proof fn hits(m: ArrayMetadata, b: BoundingBox)
    requires b.fits()
    ensures
        forall|e: Seq<int>| #[trigger] b.has(e) <==> hit(e, b.offset@, nat64(b.shape@)),
        forall|p: Seq<nat>| #[trigger] touches(m, b.offset@, nat64(b.shape@), p) <==> m.meets(b, p),
{
    assert forall|e: Seq<int>| #[trigger] b.has(e) <==> hit(e, b.offset@, nat64(b.shape@)) by {
        let x = minus(e, nat64(b.offset@));
        if b.has(e) { in_shape(b, e); }
        if hit(e, b.offset@, nat64(b.shape@)) { assert forall|i: int| 0 <= i < e.len() implies b.offset@[i] <= #[trigger] e[i] < b.end_at(i) by { assert(0 <= x[i] < nat64(b.shape@)[i]); } }
    }
    assert forall|p: Seq<nat>| #[trigger] touches(m, b.offset@, nat64(b.shape@), p) <==> m.meets(b, p) by {
        if touches(m, b.offset@, nat64(b.shape@), p) { let e = choose|e: Seq<int>| #[trigger] m.has(e) && hit(e, b.offset@, nat64(b.shape@)) && p == m.chunk_of(e); assert(b.has(e)); }
        if m.meets(b, p) { let e = choose|e: Seq<int>| #[trigger] m.has(e) && b.has(e) && p == m.chunk_of(e); assert(hit(e, b.offset@, nat64(b.shape@))); }
    }
}
// An element of a chunk: in the region just if its place in the chunk is in what is written of the chunk.
pub proof fn out_region(m: ArrayMetadata, b: BoundingBox, p: Seq<u64>, c: BoundingBox, r: BoundingBox, q: BoundingBox, d: BoundingBox, e: Seq<int>)
    requires m.regular(), b.fits(), chunk_box(m, p, c), meeting(r, b, c), moved(q, r, b.offset@), moved(d, r, c.offset@), m.has(e), m.chunk_of(e) == nat64(p)
    ensures
        inside(m.local(e), m.chunk()), m.place(e) == laid(VxShape { dims: m.chunk(), col: m.col() }, m.local(e)),
        box_in(m.local(e), nat64(d.offset@), nat64(d.shape@)) <==> b.has(e),
        b.has(e) ==> plus(minus(m.local(e), nat64(d.offset@)), nat64(q.offset@)) == off(e, b),
{
    in_box(m, p, c, e);
    let x = m.local(e);
    let y = minus(x, nat64(d.offset@));
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] y[i] == e[i] - r.offset@[i] by { assert(d.offset@[i] == r.offset@[i] - c.offset@[i]); assert(minus(e, nat64(c.offset@))[i] == x[i]); }
    if b.has(e) {
        assert(r.has(e));
        assert forall|i: int| 0 <= i < y.len() implies 0 <= #[trigger] y[i] < nat64(d.shape@)[i] by { assert(r.offset@[i] <= e[i] < r.end_at(i)); }
        let z = plus(y, nat64(q.offset@));
        assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] == off(e, b)[i] by { assert(q.offset@[i] == r.offset@[i] - b.offset@[i]); }
        assert(z =~= off(e, b));
    }
    if box_in(x, nat64(d.offset@), nat64(d.shape@)) {
        assert forall|i: int| 0 <= i < e.len() implies r.offset@[i] <= #[trigger] e[i] < r.end_at(i) by { assert(0 <= y[i] < nat64(d.shape@)[i]); }
        assert(r.has(e));
    }
}
pub open spec fn twin_boxes(a: BoundingBox, b: BoundingBox) -> bool { a.offset@ == b.offset@ && a.shape@ == b.shape@ }
// A part of the values.
pub open spec fn part<T>(x: VxArr<T>, a: VxArr<T>, q: BoundingBox) -> bool { x.dims() == nat64(q.shape@) && forall|i: Seq<int>| #[trigger] inside(i, x.dims()) ==> x.at(i) == a.at(plus(i, nat64(q.offset@))) }
// A chunk that is covered by the region.
pub proof fn covered<T: ReflectedType>(m: ArrayMetadata, b: BoundingBox, a: VxArr<T>, p: Seq<u64>, c: BoundingBox, r: BoundingBox, q: BoundingBox, x: VxArr<T>, v0: Option<Seq<u8>>, s: Seq<T>)
    requires m.regular(), b.fits(), same_shape(b, a.dims()), chunk_box(m, p, c), meeting(r, b, c), moved(q, r, b.offset@), twin_boxes(r, c), part(x, a, q), laid_out(s, m, x)
    ensures filled_in(m, b.offset@, a, nat64(p), v0, s)
{
    hits(m, b);
    assert(x.dims() == m.chunk());
    assert forall|e: Seq<int>| #[trigger] m.has(e) && m.chunk_of(e) == nat64(p) implies becomes(m, b.offset@, a, v0, e, s[m.place(e)]) by {
        in_box(m, p, c, e);
        assert(r.has(e)) by { assert forall|i: int| 0 <= i < e.len() implies r.offset@[i] <= #[trigger] e[i] < r.end_at(i) by { assert(c.offset@[i] <= e[i] < c.end_at(i)); } }
        assert(b.has(e));
        let z = plus(m.local(e), nat64(q.offset@));
        assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] == off(e, b)[i] by { assert(q.offset@[i] == r.offset@[i] - b.offset@[i]); assert(minus(e, nat64(c.offset@))[i] == m.local(e)[i]); }
        assert(z =~= off(e, b));
        assert(inside(m.local(e), x.dims()));
    }
}
// What a chunk's elements are before the write.
pub open spec fn at_first<T: ReflectedType>(m: ArrayMetadata, p: Seq<nat>, v0: Option<Seq<u8>>, x: VxArr<T>) -> bool {
    x.dims() == m.chunk() && filling::<T>(m) is Some && forall|e: Seq<int>| #[trigger] m.has(e) && m.chunk_of(e) == p ==> shown(m, v0, e, filling::<T>(m)->Some_0, x.at(m.local(e)))
}
pub proof fn first_stored<T: ReflectedType>(m: ArrayMetadata, p: Seq<u64>, c: BoundingBox, v0: Option<Seq<u8>>, x: VxArr<T>, t: Seq<T>)
    requires m.regular(), chunk_box(m, p, c), filling::<T>(m) is Some, v0 is Some, holds(m, t, wholly(m, v0->Some_0)), arranged(x, VxShape { dims: m.chunk(), col: m.col() }, t)
    ensures at_first(m, nat64(p), v0, x)
{
    assert forall|e: Seq<int>| #[trigger] m.has(e) && m.chunk_of(e) == nat64(p) implies shown(m, v0, e, filling::<T>(m)->Some_0, x.at(m.local(e))) by { in_box(m, p, c, e); assert(x.at(m.local(e)) == t[m.place(e)]); }
}
pub proof fn first_fill<T: ReflectedType>(m: ArrayMetadata, p: Seq<u64>, c: BoundingBox, v0: Option<Seq<u8>>, x: VxArr<T>, t: Seq<T>)
    requires m.regular(), chunk_box(m, p, c), filling::<T>(m) is Some, v0 is None, arranged(x, VxShape { dims: m.chunk(), col: false }, t), t.len() == size(m), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == filling::<T>(m)->Some_0
    ensures at_first(m, nat64(p), v0, x)
{
    assert forall|e: Seq<int>| #[trigger] m.has(e) && m.chunk_of(e) == nat64(p) implies shown(m, v0, e, filling::<T>(m)->Some_0, x.at(m.local(e))) by { in_box(m, p, c, e); let h = VxShape { dims: m.chunk(), col: false }; laid_bound(h, m.local(e)); assert(t[laid(h, m.local(e))] == filling::<T>(m)->Some_0); }
}
// A chunk that the region covers in part.
pub proof fn patched<T: ReflectedType>(m: ArrayMetadata, b: BoundingBox, a: VxArr<T>, p: Seq<u64>, c: BoundingBox, r: BoundingBox, q: BoundingBox, d: BoundingBox, x0: VxArr<T>, x1: VxArr<T>, v0: Option<Seq<u8>>, s: Seq<T>)
    requires m.regular(), b.fits(), same_shape(b, a.dims()), chunk_box(m, p, c), meeting(r, b, c), moved(q, r, b.offset@), moved(d, r, c.offset@),
        at_first(m, nat64(p), v0, x0), pasted(x0, x1, nat64(d.offset@), nat64(d.shape@), a, nat64(q.offset@)), laid_out(s, m, x1)
    ensures filled_in(m, b.offset@, a, nat64(p), v0, s)
{
    hits(m, b);
    assert forall|e: Seq<int>| #[trigger] m.has(e) && m.chunk_of(e) == nat64(p) implies becomes(m, b.offset@, a, v0, e, s[m.place(e)]) by {
        out_region(m, b, p, c, r, q, d, e);
        assert(s[m.place(e)] == x1.at(m.local(e)));
    }
}
pub proof fn of_array<T>(b: BoundingBox, a: VxArr<T>)
    requires b.wf(), nat64(b.shape@) == a.dims(), forall|i: int| 0 <= i < b.offset@.len() ==> #[trigger] b.offset@[i] + a.dims()[i] <= u64::MAX, forall|i: int| 0 <= i < a.dims().len() ==> #[trigger] a.dims()[i] <= isize::MAX
    ensures b.fits(), forall|i: int| 0 <= i < b.shape@.len() ==> #[trigger] b.shape@[i] <= isize::MAX
{
    assert forall|i: int| 0 <= i < b.shape@.len() implies #[trigger] b.shape@[i] <= isize::MAX by { assert(nat64(b.shape@)[i] == a.dims()[i]); assert(a.dims()[i] <= isize::MAX); }
    assert forall|i: int| 0 <= i < b.offset@.len() implies #[trigger] b.offset@[i] + b.shape@[i] <= u64::MAX by { assert(nat64(b.shape@)[i] == a.dims()[i]); assert(b.offset@[i] + a.dims()[i] <= u64::MAX); }
}
pub open spec fn listed(m: ArrayMetadata, o: Seq<u64>, d: Seq<nat>, all: Seq<Seq<nat>>) -> bool {
        m.regular() && all.no_duplicates() && (forall|p: Seq<nat>| all.contains(p) <==> touches(m, o, d, p)) && forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).len() == m.shape@.len() && (forall|j: int| 0 <= j < all[i].len() ==> #[trigger] all[i][j] < m.extent()[j])
}
pub proof fn lists(m: ArrayMetadata, b: BoundingBox)
    requires m.regular(), b.fits()
    ensures forall|all: Seq<Seq<nat>>| all.no_duplicates() && (forall|p: Seq<nat>| all.contains(p) <==> m.meets(b, p)) && (forall|p: Seq<nat>| m.meets(b, p) ==> p.len() == m.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < m.extent()[i]) ==> #[trigger] listed(m, b.offset@, nat64(b.shape@), all)
{
    hits(m, b);
    assert forall|all: Seq<Seq<nat>>| all.no_duplicates() && (forall|p: Seq<nat>| all.contains(p) <==> m.meets(b, p)) && (forall|p: Seq<nat>| m.meets(b, p) ==> p.len() == m.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < m.extent()[i]) implies #[trigger] listed(m, b.offset@, nat64(b.shape@), all) by {
        assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).len() == m.shape@.len() && (forall|j: int| 0 <= j < all[i].len() ==> #[trigger] all[i][j] < m.extent()[j]) by { assert(all.contains(all[i])); assert(m.meets(b, all[i])); }
    }
}
// The elements in row-major order, of the array or of its transpose, are laid out in the array's layout.
pub proof fn in_order<T>(m: ArrayMetadata, a: VxArr<T>)
    ensures
        !m.col() ==> forall|s: Seq<T>| #[trigger] row_major(s, a) ==> laid_out(s, m, a),
        m.col() ==> forall|s: Seq<T>, x: VxArr<T>| #[trigger] row_major(s, x) && transposed(x, a) ==> laid_out(s, m, a),
{
    if m.col() {
        assert forall|s: Seq<T>, x: VxArr<T>| #[trigger] row_major(s, x) && transposed(x, a) implies laid_out(s, m, a) by {
            prod_reverse(a.dims());
            assert forall|p: Seq<int>| #[trigger] inside(p, a.dims()) implies s[laid(VxShape { dims: a.dims(), col: m.col() }, p)] == a.at(p) by {
                laid_bound(VxShape { dims: a.dims(), col: true }, p);
                assert(inside(p.reverse(), x.dims()));
                assert(p.reverse().reverse() =~= p);
            }
        }
    }
}
impl VxStore {
    pub open spec fn only_touched(self, w0: VxWorld, w: VxWorld, path: Seq<char>, m: ArrayMetadata, o: Seq<u64>, d: Seq<nat>) -> bool {
        forall|k: Seq<char>| (forall|p: Seq<nat>| touches(m, o, d, p) ==> k != #[trigger] self.ckey(path, m, pos64(p))) ==> #[trigger] w.at(k) == w0.at(k)
    }
    // The first n chunks are written, and nothing else.
    pub open spec fn partly_written<T: ReflectedType>(self, w0: VxWorld, w: VxWorld, path: Seq<char>, m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, all: Seq<Seq<nat>>, n: int) -> bool {
        &&& forall|k: Seq<char>| (forall|j: int| 0 <= j < n ==> k != self.ckey(path, m, pos64(#[trigger] all[j]))) ==> #[trigger] w.at(k) == w0.at(k)
        &&& forall|j: int| 0 <= j < n ==> written(m, o, a, #[trigger] all[j], self.stored(w0, path, m, all[j]), self.stored(w, path, m, all[j]))
    }
    pub proof fn keys_distinct(self, path: Seq<char>, m: ArrayMetadata, all: Seq<Seq<nat>>, o: Seq<u64>, d: Seq<nat>, i: int, j: int)
        requires listed(m, o, d, all), 0 <= i < all.len(), 0 <= j < all.len(), i != j
        ensures self.ckey(path, m, pos64(all[i])) != self.ckey(path, m, pos64(all[j]))
    {
        let (g, h) = (pos64(all[i]), pos64(all[j]));
        if self.ckey(path, m, g) == self.ckey(path, m, h) {
            let s = m.chunk_grid.separator@;
            chunk_keys_differ(path, path, s, s, g, h);
            fits64(m, all[i]); fits64(m, all[j]);
            assert(all[i] =~= all[j]);
        }
    }
    // The next chunk has not been touched, and nothing but it will be.
    pub proof fn next_chunk<T: ReflectedType>(self, w0: VxWorld, w: VxWorld, path: Seq<char>, m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, all: Seq<Seq<nat>>, n: int)
        requires self.partly_written(w0, w, path, m, o, a, all, n), listed(m, o, a.dims(), all), 0 <= n < all.len()
        ensures
            self.stored(w, path, m, all[n]) == self.stored(w0, path, m, all[n]),
            touches(m, o, a.dims(), all[n]),
            forall|v: VxWorld| #[trigger] v.same(w) ==> self.only_touched(w0, v, path, m, o, a.dims()),
            forall|v: VxWorld, u: VxWorld| #![trigger v.same_but(u, self.ckey(path, m, pos64(all[n]))), u.same(w)] u.same(w) && v.same_but(u, self.ckey(path, m, pos64(all[n]))) ==> self.only_touched(w0, v, path, m, o, a.dims()),
    {
        let kn = self.ckey(path, m, pos64(all[n]));
        assert forall|j: int| 0 <= j < n implies kn != self.ckey(path, m, pos64(#[trigger] all[j])) by { self.keys_distinct(path, m, all, o, a.dims(), n, j); }
        assert(all.contains(all[n]));
        assert forall|k: Seq<char>| (forall|p: Seq<nat>| touches(m, o, a.dims(), p) ==> k != #[trigger] self.ckey(path, m, pos64(p))) implies #[trigger] w.at(k) == w0.at(k) && k != kn by {
            assert forall|j: int| 0 <= j < n implies k != self.ckey(path, m, pos64(#[trigger] all[j])) by { assert(all.contains(all[j])); }
        }
        assert forall|v: VxWorld| #[trigger] v.same(w) implies self.only_touched(w0, v, path, m, o, a.dims()) by {
            assert forall|k: Seq<char>| (forall|p: Seq<nat>| touches(m, o, a.dims(), p) ==> k != #[trigger] self.ckey(path, m, pos64(p))) implies #[trigger] v.at(k) == w0.at(k) by { assert(w.at(k) == w0.at(k)); }
        }
        assert forall|v: VxWorld, u: VxWorld| #![trigger v.same_but(u, kn), u.same(w)] u.same(w) && v.same_but(u, kn) implies self.only_touched(w0, v, path, m, o, a.dims()) by {
            assert forall|k: Seq<char>| (forall|p: Seq<nat>| touches(m, o, a.dims(), p) ==> k != #[trigger] self.ckey(path, m, pos64(p))) implies #[trigger] v.at(k) == w0.at(k) by { assert(w.at(k) == w0.at(k)); assert(u.at(k) == w.at(k)); }
        }
    }
    pub proof fn wrote<T: ReflectedType>(self, w0: VxWorld, w: VxWorld, u: VxWorld, v: VxWorld, path: Seq<char>, m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, all: Seq<Seq<nat>>, n: int, p: Seq<u64>, s: Seq<T>)
        requires
            self.partly_written(w0, w, path, m, o, a, all, n), listed(m, o, a.dims(), all), 0 <= n < all.len(), all[n] == nat64(p), pos64(all[n]) == p, u.same(w), typed::<T>(m),
            exists|b: Seq<u8>| #[trigger] encodes(format(m.compressor), b, encs(s, big(m))) && v.put(u, self.ckey(path, m, p), Some(b)),
            filled_in(m, o, a, nat64(p), self.stored(w0, path, m, all[n]), s),
        ensures self.partly_written(w0, v, path, m, o, a, all, n + 1)
    {
        let kn = self.ckey(path, m, p);
        let b = choose|b: Seq<u8>| #[trigger] encodes(format(m.compressor), b, encs(s, big(m))) && v.put(u, kn, Some(b));
        assert forall|k: Seq<char>| (forall|j: int| 0 <= j < n + 1 ==> k != self.ckey(path, m, pos64(#[trigger] all[j]))) implies #[trigger] v.at(k) == w0.at(k) by { assert(k != self.ckey(path, m, pos64(all[n]))); assert(u.at(k) == w.at(k)); assert(w.at(k) == w0.at(k)); }
        assert forall|j: int| 0 <= j < n + 1 implies written(m, o, a, #[trigger] all[j], self.stored(w0, path, m, all[j]), self.stored(v, path, m, all[j])) by {
            if j < n {
                self.keys_distinct(path, m, all, o, a.dims(), j, n);
                let k = self.ckey(path, m, pos64(all[j]));
                assert(v.at(k) == u.at(k) && u.at(k) == w.at(k));
                assert(self.stored(v, path, m, all[j]) == self.stored(w, path, m, all[j]));
                assert(written(m, o, a, all[j], self.stored(w0, path, m, all[j]), self.stored(w, path, m, all[j])));
            } else {
                assert(v.at(kn) == Some(b));
                assert(encodes(format(m.compressor), b, encs(s, big(m))));
                let v1 = Some(b);
                assert(encodes(format(m.compressor), v1->Some_0, encs(s, big(m))));
                assert(typed::<T>(m));
                assert(filled_in(m, o, a, all[n], self.stored(w0, path, m, all[n]), s));
                assert(written(m, o, a, all[n], self.stored(w0, path, m, all[n]), Some(b)));
            }
        }
    }
    pub proof fn wrote_all<T: ReflectedType>(self, w0: VxWorld, w: VxWorld, path: Seq<char>, m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, all: Seq<Seq<nat>>)
        requires self.partly_written(w0, w, path, m, o, a, all, all.len() as int), listed(m, o, a.dims(), all)
        ensures
            self.only_touched(w0, w, path, m, o, a.dims()),
            forall|p: Seq<nat>| #[trigger] touches(m, o, a.dims(), p) ==> written(m, o, a, p, self.stored(w0, path, m, p), self.stored(w, path, m, p)),
    {
        assert forall|k: Seq<char>| (forall|p: Seq<nat>| touches(m, o, a.dims(), p) ==> k != #[trigger] self.ckey(path, m, pos64(p))) implies #[trigger] w.at(k) == w0.at(k) by {
            assert forall|j: int| 0 <= j < all.len() implies k != self.ckey(path, m, pos64(#[trigger] all[j])) by { assert(all.contains(all[j])); }
        }
        assert forall|p: Seq<nat>| #[trigger] touches(m, o, a.dims(), p) implies written(m, o, a, p, self.stored(w0, path, m, p), self.stored(w, path, m, p)) by {
            assert(all.contains(p));
            let j = choose|j: int| 0 <= j < all.len() && all[j] == p;
            assert(all[j] == p);
        }
    }
@@fn src/ndarray.rs trait ZarrNdarrayWriter::write_ndarray as VxStore::write_ndarray for C04
sig pub fn write_ndarray<T: ReflectedType>(&self, path_name: &str, array_meta: &ArrayMetadata, offset: GridCoord, array: &VxArr<T>, vx_w: &mut VxWorld) -> (r: Result<(), Error>) where SliceDataChunk<T, Vec<T>>: ReadableDataChunk<T> + WriteableDataChunk<T>
spec
    requires array_meta.regular(), offset@.len() == array.dims().len(), forall|i: int| 0 <= i < offset@.len() ==> #[trigger] offset@[i] + array.dims()[i] <= u64::MAX
    ensures
        // Only chunks that the region touches in the array are affected.
        self.only_touched(*old(vx_w), *final(vx_w), path_name@, *array_meta, offset@, array.dims()),
        match r {
            Ok(_) => array.dims().len() == array_meta.shape@.len() && forall|p: Seq<nat>| #[trigger] touches(*array_meta, offset@, array.dims(), p) ==> written(*array_meta, offset@, *array, p, self.stored(*old(vx_w), path_name@, *array_meta, p), self.stored(*final(vx_w), path_name@, *array_meta, p)),
            Err(_) => array.dims().len() != array_meta.shape@.len() || filling::<T>(*array_meta) is None || !typed::<T>(*array_meta) || final(vx_w).faulted()
                || exists|p: Seq<nat>| #[trigger] touches(*array_meta, offset@, array.dims(), p) && !readable::<T>(*array_meta, self.stored(*old(vx_w), path_name@, *array_meta, p)),
        },
        array.dims().len() != array_meta.shape@.len() ==> r is Err && final(vx_w).same(*old(vx_w)) && final(vx_w).faulted() == old(vx_w).faulted(),
start
    let ghost m = *array_meta;
    let ghost a = *array;
    let ghost o = offset@;
    let ghost w0 = *vx_w;
    let ghost path = path_name@;
    proof { arr_sizes(a); }
loop 0
    nat_sizes($s0@) == a.dims(), $acc@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == a.dims()[k],
loop 0 start
    assert(nat_sizes($s0@)[$j as int] == $s0@[$j as int]);
after let bbox
    let ghost b = bbox;
    proof { assert(nat64(b.shape@) =~= a.dims()); of_array(b, a); hits(m, b); lists(m, b); }
loop 1
    m == *array_meta, b == bbox, a == *array, path == path_name@, o == b.offset@, m.regular(), b.fits(), b.offset@.len() == m.shape@.len(), same_shape(b, a.dims()),
    forall|i: int| 0 <= i < b.shape@.len() ==> #[trigger] b.shape@[i] <= isize::MAX, filling::<T>(m) == Some(fill_value),
    $s0.wf(), listed(m, o, a.dims(), $s0@),
    self.partly_written(w0, *vx_w, path, m, o, a, $s0@, $i as int),
loop 1 start
    let ghost (all, n) = ($s0@, $j as int);
    let ghost w = *vx_w;
after let grid_coord
    let ghost p = coord@;
    let ghost v0 = self.stored(w0, path, m, nat64(p));
    proof { assert(nat64(p) == all[n]); self.next_chunk(w0, w, path, m, o, a, all, n); hits(m, b); at_position(m, p); in_grid(m, p); }
after let nom_chunk_bb
    let ghost c = nom_chunk_bb;
    proof { chunk_fits(m, p, c); }
after let write_bb
    let ghost wb0 = write_bb;
after .intersect
    let ghost r = write_bb;
    proof { assert forall|i: int| 0 <= i < r.offset@.len() implies #[trigger] meet_at(r, b, c, i) by { assert(meet_at(r, wb0, b, i)); } meets_here(m, b, b, p, c, r); }
after let arr_bb
    let ghost q = arr_bb;
    proof { region_fits(m, b, p, c, r, q, q); }
after let arr_slice
    proof { box_slices(arr_slice@, q); }
after let arr_view
    assert(part(*arr_view, a, q));
before let chunk
    proof { assert(chunk_vec@ =~= Seq::<T>::empty() + chunk_vec@); let s = choose|s: Seq<T>| #[trigger] laid_out(s, m, *arr_view) && chunk_vec@ == Seq::<T>::empty() + s; assert(s =~= chunk_vec@); covered(m, b, a, p, c, r, q, *arr_view, v0, chunk_vec@); }
after chunk_vec =
    proof { self.wrote(w0, w, w, *vx_w, path, m, o, a, all, n, p, chunk_vec@); }
after let chunk_opt
    let ghost t = existing_chunk.elems();
    let ghost u = *vx_w;
after let chunk_shape_usize
    proof { assert(nat_sizes(chunk_shape_usize@) =~= m.chunk()); volume_pos(m.chunk()); }
loop 2
    nat_sizes(chunk_shape_usize@) == m.chunk(), sized(m), $acc == prod(m.chunk().take($i as int)),
loop 2 start
    proof { prod_step(m.chunk(), $j as int); assert(nat_sizes(chunk_shape_usize@)[$j as int] == chunk_shape_usize@[$j as int]); }
loop 2 after
    proof { assert(m.chunk().take(m.chunk().len() as int) =~= m.chunk()); }
before let chunk_array #2
    let ghost f = existing_chunk_vec@;
after let chunk_array #2
    proof { first_fill(m, p, c, v0, chunk_array, f); }
before let chunk_write_bb
    let ghost x0 = chunk_array;
    proof { if v0 is Some { first_stored(m, p, c, v0, x0, t); } else { assert(at_first(m, nat64(p), v0, x0)); } }
after let chunk_write_bb
    let ghost d = chunk_write_bb;
    proof { region_fits(m, b, p, c, r, q, d); }
after let chunk_slice
    proof { box_slices(chunk_slice@, d); }
after .assign
    let ghost x1 = chunk_array;
    assert(pasted(x0, x1, nat64(d.offset@), nat64(d.shape@), a, nat64(q.offset@)));
after chunk_vec = #2
    proof { let s = choose|s: Seq<T>| #[trigger] laid_out(s, m, x1) && chunk_vec@ == Seq::<T>::empty() + s; assert(s =~= chunk_vec@); patched(m, b, a, p, c, r, q, d, x0, x1, v0, chunk_vec@); self.wrote(w0, w, u, *vx_w, path, m, o, a, all, n, p, chunk_vec@); }
loop 1 after
    proof { self.wrote_all(w0, *vx_w, path, m, o, a, $s0@); }
closure 0
    fn $name<T: ReflectedType>(v: &mut Vec<T>, view: &VxArr<T>, array_meta: &ArrayMetadata)
    ensures exists|s: Seq<T>| #[trigger] laid_out(s, *array_meta, *view) && final(v)@ == old(v)@ + s
    start
    proof { in_order(*array_meta, *view); }
@@end
}
// What reading shows is determined by what is stored, bit for bit.
pub proof fn shown_once<T: ReflectedType>(m: ArrayMetadata, v: Option<Seq<u8>>, e: Seq<int>, before: T, x: T, y: T)
    requires m.regular(), m.has(e), shown(m, v, e, before, x), shown(m, v, e, before, y)
    ensures x.bits() == y.bits()
{
    if v is Some {
        let d = wholly(m, v->Some_0);
        let s = choose|s: Seq<T>| #[trigger] holds(m, s, d) && x == s[m.place(e)];
        let t = choose|t: Seq<T>| #[trigger] holds(m, t, d) && y == t[m.place(e)];
        placed(m, e);
        let b = d.take(need::<T>(m) as int);
        let i = m.place(e);
        assert(s[i].reads(word(b, T::width(), i), big(m)) && t[i].reads(word(b, T::width(), i), big(m)));
        s[i].agree(t[i], word(b, T::width(), i), big(m));
    }
}
// An element has a place in its chunk, and its chunk a place in the grid.
pub proof fn placed(m: ArrayMetadata, e: Seq<int>)
    requires m.regular(), m.has(e)
    ensures 0 <= m.place(e) < size(m), m.chunk_of(e).len() == m.shape@.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] m.chunk_of(e)[i] < m.extent()[i]
{
    let c = m.chunk_grid.chunk_shape@;
    assert forall|i: int| 0 <= i < e.len() implies 0 <= #[trigger] m.local(e)[i] < m.chunk()[i] && m.chunk_of(e)[i] < m.extent()[i] by {
        assert(c[i] >= 1); assert(0 <= e[i] < m.shape@[i]);
        let (x, k, d) = (e[i], c[i] as int, m.shape@[i] as int);
        ceil_is_least_cover(d, k);
        let n = ceil(d, k);
        assert(0 <= x % k < k) by (nonlinear_arith) requires k >= 1;
        assert(0 <= x / k < n) by (nonlinear_arith) requires 0 <= x < d, d <= n * k, k >= 1;
    }
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] m.chunk_of(e)[i] < m.extent()[i] by { assert(m.local(e)[i] < m.chunk()[i]); }
    laid_bound(VxShape { dims: m.chunk(), col: m.col() }, m.local(e));
}
impl VxStore {
    // C04: what is read after a write: in the region the values given, elsewhere what was read before.
    pub proof fn write_then_read<T: ReflectedType>(self, w0: VxWorld, w1: VxWorld, path: Seq<char>, m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, e: Seq<int>, f: T, y: T, z: T)
        requires
            m.regular(), o.len() == a.dims().len() == m.shape@.len(), filling::<T>(m) == Some(f), self.only_touched(w0, w1, path, m, o, a.dims()),
            forall|p: Seq<nat>| #[trigger] touches(m, o, a.dims(), p) ==> written(m, o, a, p, self.stored(w0, path, m, p), self.stored(w1, path, m, p)),
            m.has(e), shown(m, self.stored(w0, path, m, m.chunk_of(e)), e, f, y), shown(m, self.stored(w1, path, m, m.chunk_of(e)), e, f, z),
        ensures z.bits() == if hit(e, o, a.dims()) { a.at(minus(e, nat64(o))).bits() } else { y.bits() }
    {
        let p = m.chunk_of(e);
        let (v0, v1) = (self.stored(w0, path, m, p), self.stored(w1, path, m, p));
        placed(m, e);
        fits64(m, p);
        if touches(m, o, a.dims(), p) {
            let b = v1->Some_0;
            let s = choose|s: Seq<T>| #[trigger] encodes(format(m.compressor), b, encs(s, big(m))) && filled_in(m, o, a, p, v0, s);
            let t = choose|t: Seq<T>| #[trigger] holds(m, t, wholly(m, b)) && z == t[m.place(e)];
            round_trip(m, s, b, t);
            assert(becomes(m, o, a, v0, e, s[m.place(e)]));
            if !hit(e, o, a.dims()) { shown_once(m, v0, e, f, y, s[m.place(e)]); }
        } else {
            let k = self.ckey(path, m, pos64(p));
            assert forall|q: Seq<nat>| touches(m, o, a.dims(), q) implies k != #[trigger] self.ckey(path, m, pos64(q)) by {
                let x = choose|x: Seq<int>| #[trigger] m.has(x) && hit(x, o, a.dims()) && q == m.chunk_of(x);
                placed(m, x);
                fits64(m, q);
                if k == self.ckey(path, m, pos64(q)) { let s = m.chunk_grid.separator@; chunk_keys_differ(path, path, s, s, pos64(p), pos64(q)); assert(p == q); }
            }
            assert(w1.at(k) == w0.at(k));
            shown_once(m, v0, e, f, y, z);
        }
    }
    // ... and a chunk that was written can be read.
    pub proof fn written_readable<T: ReflectedType>(self, m: ArrayMetadata, o: Seq<u64>, a: VxArr<T>, p: Seq<nat>, v0: Option<Seq<u8>>, v1: Option<Seq<u8>>)
        requires written(m, o, a, p, v0, v1)
        ensures readable::<T>(m, v1)
    { let s = choose|s: Seq<T>| #[trigger] encodes(format(m.compressor), v1->Some_0, encs(s, big(m))) && filled_in(m, o, a, p, v0, s); long_enough(m, s, v1->Some_0); }
}
}
