// C02: enumeration of chunk coordinates.
@@include boxes.vrs
verus! {
// The coordinates lo <= p < hi in row-major order (the last dimension varies fastest).
pub open spec fn width(lo: nat, hi: nat) -> nat { if lo < hi { (hi - lo) as nat } else { 0 } }
pub open spec fn widths(lo: Seq<nat>, hi: Seq<nat>) -> Seq<nat> { Seq::new(lo.len(), |i: int| width(lo[i], hi[i])) }
pub open spec fn cart(lo: Seq<nat>, hi: Seq<nat>) -> Seq<Seq<nat>> decreases lo.len()
{
    if lo.len() == 0 { seq![Seq::<nat>::empty()] }
    else {
        let inner = cart(lo.drop_last(), hi.drop_last());
        let n = width(lo.last(), hi.last());
        Seq::new(inner.len() * n, |k: int| inner[k / (n as int)].push((lo.last() + k % (n as int)) as nat))
    }
}
pub open spec fn within(p: Seq<nat>, lo: Seq<nat>, hi: Seq<nat>) -> bool {
    p.len() == lo.len() && forall|i: int| 0 <= i < p.len() ==> lo[i] <= #[trigger] p[i] < hi[i]
}
// Row-major order.
pub open spec fn before(a: Seq<nat>, b: Seq<nat>) -> bool {
    a.len() == b.len() && exists|j: int| 0 <= j < a.len() && #[trigger] a[j] < b[j] && forall|i: int| 0 <= i < j ==> a[i] == b[i]
}
pub proof fn cart_index(lo: Seq<nat>, hi: Seq<nat>, k: int)
    requires lo.len() == hi.len(), lo.len() > 0, 0 <= k < cart(lo, hi).len()
    ensures ({
        let inner = cart(lo.drop_last(), hi.drop_last());
        let n = width(lo.last(), hi.last()) as int;
        n > 0 && 0 <= k / n < inner.len() && 0 <= k % n < n && k == (k / n) * n + k % n && cart(lo, hi)[k] == inner[k / n].push((lo.last() + k % n) as nat)
    })
{
    let m = cart(lo.drop_last(), hi.drop_last()).len() as int;
    let n = width(lo.last(), hi.last()) as int;
    assert(cart(lo, hi).len() == m * n);
    assert(n > 0) by (nonlinear_arith) requires 0 <= k < m * n, n >= 0, m >= 0;
    assert(0 <= k / n < m && 0 <= k % n < n && k == (k / n) * n + k % n) by (nonlinear_arith) requires n > 0, 0 <= k < m * n;
}
// Every coordinate within the bounds is there, and no other; their number is the product of the widths.
pub proof fn cart_is_exact(lo: Seq<nat>, hi: Seq<nat>)
    requires lo.len() == hi.len()
    ensures
        cart(lo, hi).len() == prod(widths(lo, hi)),
        forall|k: int| 0 <= k < cart(lo, hi).len() ==> within(#[trigger] cart(lo, hi)[k], lo, hi),
        forall|p: Seq<nat>| within(p, lo, hi) ==> cart(lo, hi).contains(p),
    decreases lo.len()
{
    if lo.len() == 0 {
        assert forall|p: Seq<nat>| within(p, lo, hi) implies cart(lo, hi).contains(p) by { assert(p =~= Seq::<nat>::empty()); assert(cart(lo, hi)[0] == p); }
    } else {
        let (lo0, hi0) = (lo.drop_last(), hi.drop_last());
        cart_is_exact(lo0, hi0);
        let inner = cart(lo0, hi0);
        let n = width(lo.last(), hi.last()) as int;
        assert(widths(lo, hi).drop_last() =~= widths(lo0, hi0));
        assert forall|k: int| 0 <= k < cart(lo, hi).len() implies within(#[trigger] cart(lo, hi)[k], lo, hi) by {
            cart_index(lo, hi, k);
            let q = inner[k / n];
            assert(within(q, lo0, hi0));
            let p = cart(lo, hi)[k];
            assert forall|i: int| 0 <= i < p.len() implies lo[i] <= #[trigger] p[i] < hi[i] by { if i < lo0.len() { assert(p[i] == q[i]); assert(lo0[i] == lo[i] && hi0[i] == hi[i]); } }
        }
        assert forall|p: Seq<nat>| within(p, lo, hi) implies cart(lo, hi).contains(p) by {
            let q = p.drop_last();
            assert forall|i: int| 0 <= i < q.len() implies lo0[i] <= #[trigger] q[i] < hi0[i] by { assert(p[i] == q[i]); }
            assert(within(q, lo0, hi0));
            let a = choose|a: int| 0 <= a < inner.len() && inner[a] == q;
            assert(lo[lo.len() - 1] <= p[p.len() - 1] < hi[lo.len() - 1]);
            let b = p.last() - lo.last();
            let k = a * n + b;
            let m = inner.len() as int;
            assert(0 <= a * n <= m * n - n) by (nonlinear_arith) requires 0 <= a < m, n > 0;
            assert(k / n == a && k % n == b) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, n, a, b); }
            assert(q.push(p.last()) =~= p);
            assert(cart(lo, hi)[k] == p);
        }
    }
}
// They are in row-major order, so none appears twice.
pub proof fn cart_is_ordered(lo: Seq<nat>, hi: Seq<nat>)
    requires lo.len() == hi.len()
    ensures forall|a: int, b: int| 0 <= a < b < cart(lo, hi).len() ==> before(#[trigger] cart(lo, hi)[a], #[trigger] cart(lo, hi)[b]), cart(lo, hi).no_duplicates()
    decreases lo.len()
{
    if lo.len() > 0 {
        let (lo0, hi0) = (lo.drop_last(), hi.drop_last());
        cart_is_ordered(lo0, hi0);
        cart_is_exact(lo0, hi0);
        let inner = cart(lo0, hi0);
        let n = width(lo.last(), hi.last()) as int;
        assert forall|a: int, b: int| 0 <= a < b < cart(lo, hi).len() implies before(#[trigger] cart(lo, hi)[a], #[trigger] cart(lo, hi)[b]) by {
            cart_index(lo, hi, a);
            cart_index(lo, hi, b);
            let (p, q) = (cart(lo, hi)[a], cart(lo, hi)[b]);
            let (p0, q0) = (inner[a / n], inner[b / n]);
            assert(within(p0, lo0, hi0) && within(q0, lo0, hi0));
            assert(a / n <= b / n) by (nonlinear_arith) requires a < b, n > 0;
            if a / n == b / n {
                assert(a % n < b % n) by (nonlinear_arith) requires a < b, a / n == b / n, a == (a / n) * n + a % n, b == (b / n) * n + b % n;
                let j = lo0.len() as int;
                assert(p[j] < q[j]);
                assert forall|i: int| 0 <= i < j implies p[i] == q[i] by { assert(p[i] == p0[i] && q[i] == q0[i]); }
            } else {
                assert(before(p0, q0));
                let j = choose|j: int| 0 <= j < p0.len() && #[trigger] p0[j] < q0[j] && forall|i: int| 0 <= i < j ==> p0[i] == q0[i];
                assert(p[j] == p0[j] && q[j] == q0[j]);
                assert forall|i: int| 0 <= i < j implies p[i] == q[i] by { assert(p[i] == p0[i] && q[i] == q0[i]); }
            }
        }
    }
    assert forall|a: int, b: int| 0 <= a < cart(lo, hi).len() && 0 <= b < cart(lo, hi).len() && a != b implies cart(lo, hi)[a] != cart(lo, hi)[b] by {
        if a < b { assert(before(cart(lo, hi)[a], cart(lo, hi)[b])); } else { assert(before(cart(lo, hi)[b], cart(lo, hi)[a])); }
    }
}

// Trusted: itertools' product of ranges, which starts over after its end unless fused.
#[verifier::external_body] pub struct MultiProduct { _p: () }
impl MultiProduct {
    pub uninterp spec fn view(&self) -> Seq<Seq<nat>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Vec<u64>>)
        ensures match r { Some(v) => old(self)@.len() > 0 && nat64(v@) == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fuse(self) -> (r: Fuse) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct Fuse { _p: () }
impl Fuse {
    pub uninterp spec fn view(&self) -> Seq<Seq<nat>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Vec<u64>>)
        ensures match r { Some(v) => old(self)@.len() > 0 && nat64(v@) == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
pub open spec fn range_starts(r: Seq<Range<u64>>) -> Seq<nat> { Seq::new(r.len(), |i: int| r[i].start as nat) }
pub open spec fn range_ends(r: Seq<Range<u64>>) -> Seq<nat> { Seq::new(r.len(), |i: int| r[i].end as nat) }
#[verifier::external_body]
pub fn vx_multi_product(r: Vec<Range<u64>>) -> (p: MultiProduct)
    ensures p@ == (if r@.len() == 0 { Seq::<Seq<nat>>::empty() } else { cart(range_starts(r@), range_ends(r@)) })
{ unimplemented!() }

@@sink multi_cartesian_product vx_multi_product
@@type T Fuse
@@struct src/ndarray.rs CoordIterator nogenerics

impl CoordIterator {
    // What is still to come.
    pub open spec fn rem(self) -> Seq<Seq<nat>> { if self.iter@.len() == 0 && self.accumulator < self.total_coords { seq![Seq::<nat>::empty()] } else { self.iter@ } }
    pub open spec fn wf(self) -> bool { self.accumulator <= self.total_coords && self.total_coords - self.accumulator == self.rem().len() }
@@fn src/ndarray.rs CoordIterator::new as CoordIterator::new for C02
sig pub fn new(ceil: &[u64]) -> (r: CoordIterator)
spec
    requires prod_fits(nat64(ceil@))
    ensures r.wf(), r.rem() == cart(Seq::new(ceil@.len(), |i: int| 0nat), nat64(ceil@))
start
    let ghost zeros = Seq::new(ceil@.len(), |i: int| 0nat);
    proof { cart_is_exact(zeros, nat64(ceil@)); assert(widths(zeros, nat64(ceil@)) =~= nat64(ceil@)); assert(nat64(ceil@).take(ceil@.len() as int) =~= nat64(ceil@)); }
loop 0
    $acc@.len() == $i, $s0@ == ceil@, forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == (Range { start: 0u64, end: ceil@[k] }),
loop 0 after
    proof { assert(range_starts($acc@) =~= zeros); assert(range_ends($acc@) =~= nat64(ceil@)); }
loop 1
    $acc == prod(nat64(ceil@).take($i as int)), $s0@ == ceil@, prod_fits(nat64(ceil@)),
loop 1 start
    proof { prod_step(nat64(ceil@), $j as int); assert(prod(nat64(ceil@).take($j + 1)) <= u64::MAX); }
@@end
@@fn src/ndarray.rs CoordIterator::floor_ceil as CoordIterator::floor_ceil for C02
sig pub fn floor_ceil(floor: &[u64], ceil: &[u64]) -> (r: CoordIterator)
spec
    requires floor@.len() == ceil@.len(), prod_fits(widths(nat64(floor@), nat64(ceil@)))
    ensures r.wf(), r.rem() == cart(nat64(floor@), nat64(ceil@))
start
    let ghost w = widths(nat64(floor@), nat64(ceil@));
    proof { cart_is_exact(nat64(floor@), nat64(ceil@)); assert(w.take(w.len() as int) =~= w); }
loop 0
    $acc == prod(w.take($i as int)), $s0@ == floor@, $s1@ == ceil@, prod_fits(w), w == widths(nat64(floor@), nat64(ceil@)), floor@.len() == ceil@.len(),
loop 0 start
    proof { prod_step(w, $j as int); assert(prod(w.take($j + 1)) <= u64::MAX); }
loop 1
    $acc@.len() == $i, $s0@ == floor@, $s1@ == ceil@, floor@.len() == ceil@.len(), forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == (Range { start: floor@[k], end: ceil@[k] }),
loop 1 after
    proof { assert(range_starts($acc@) =~= nat64(floor@)); assert(range_ends($acc@) =~= nat64(ceil@)); }
@@end
@@fn src/ndarray.rs impl Iterator for CoordIterator::next as CoordIterator::next for C02
sig pub fn next(&mut self) -> (r: Option<Vec<u64>>)
spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r { Some(v) => old(self).rem().len() > 0 && nat64(v@) == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1), None => old(self).rem().len() == 0 && final(self).rem().len() == 0 },
end
    proof {
        if v_result is Some {
            assert(nat64(v_result->Some_0@) =~= old(self).rem()[0]);
            assert(self.rem() =~= old(self).rem().skip(1));
        }
    }
@@end
@@fn src/ndarray.rs impl Iterator for CoordIterator::size_hint as CoordIterator::size_hint for C02
sig pub fn size_hint(&self) -> (r: (usize, Option<usize>))
spec
    requires self.wf()
    ensures r.0 == self.rem().len(), r.1 == Some(r.0)
@@end
}

pub proof fn prod_mono(a: Seq<nat>, b: Seq<nat>, k: int)
    requires a.len() == b.len(), 0 <= k <= a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= b[i]
    ensures prod(a.take(k)) <= prod(b.take(k))
    decreases k
{
    if k > 0 {
        prod_mono(a, b, k - 1);
        prod_step(a, k - 1);
        prod_step(b, k - 1);
        assert(a[k - 1] <= b[k - 1]);
        assert(prod(a.take(k)) <= prod(b.take(k))) by (nonlinear_arith) requires prod(a.take(k)) == prod(a.take(k - 1)) * a[k - 1], prod(b.take(k)) == prod(b.take(k - 1)) * b[k - 1], prod(a.take(k - 1)) <= prod(b.take(k - 1)), a[k - 1] <= b[k - 1];
    } else { assert(a.take(0) =~= b.take(0)); }
}

impl ArrayMetadata {
    pub open spec fn has(self, e: Seq<int>) -> bool { e.len() == self.shape@.len() && forall|i: int| 0 <= i < e.len() ==> 0 <= #[trigger] e[i] < self.shape@[i] }
    // The chunk of an element.
    pub open spec fn chunk_of(self, e: Seq<int>) -> Seq<nat> { Seq::new(e.len(), |i: int| (e[i] / (self.chunk_grid.chunk_shape@[i] as int)) as nat) }
    // Chunk p shares an in-array element with the region.
    pub open spec fn meets(self, region: BoundingBox, p: Seq<nat>) -> bool { exists|e: Seq<int>| #[trigger] self.has(e) && region.has(e) && p == self.chunk_of(e) }
}
pub proof fn div_between(o: int, s: int, c: int, p: int)
    requires c >= 1, s >= 1, o >= 0, p >= 0
    ensures
        o / c <= p < (o + s - 1) / c + 1 ==> ({ let e = if o <= p * c { p * c } else { o }; o <= e < o + s && e / c == p }),
        forall|e: int| o <= e < o + s ==> o / c <= #[trigger] (e / c) < (o + s - 1) / c + 1,
{
    assert forall|e: int| o <= e < o + s implies o / c <= #[trigger] (e / c) < (o + s - 1) / c + 1 by {
        assert(o / c <= e / c && e / c <= (o + s - 1) / c) by (nonlinear_arith) requires o <= e <= o + s - 1, c >= 1;
    }
    if o / c <= p < (o + s - 1) / c + 1 {
        let (t, q) = (o + s - 1, (o + s - 1) / c);
        assert(q * c <= t) by (nonlinear_arith) requires q == t / c, c >= 1;
        assert(p * c <= q * c) by (nonlinear_arith) requires p <= q, c >= 1;
        assert((p * c) / c == p) by (nonlinear_arith) requires c >= 1;
        if o > p * c {
            let a = o / c;
            assert(o < a * c + c) by (nonlinear_arith) requires a == o / c, c >= 1;
            assert(a * c <= p * c) by (nonlinear_arith) requires a <= p, c >= 1;
            assert(a == p) by (nonlinear_arith) requires a <= p, p * c < o, o < a * c + c, c >= 1;
        }
    }
}
pub open spec fn lo_of(b: BoundingBox, c: Seq<u32>) -> Seq<nat> { Seq::new(b.offset@.len(), |i: int| (b.offset@[i] as int / c[i] as int) as nat) }
pub open spec fn hi_of(b: BoundingBox, c: Seq<u32>) -> Seq<nat> { Seq::new(b.offset@.len(), |i: int| (if b.shape@[i] == 0 { b.offset@[i] as int / c[i] as int } else { (b.offset@[i] + b.shape@[i] - 1) / (c[i] as int) + 1 }) as nat) }
pub proof fn range_is_meeting(m: ArrayMetadata, region: BoundingBox, b: BoundingBox, whole: BoundingBox)
    requires m.wf(), region.fits(), b.fits(), whole.wf(), whole.shape@ == m.shape@, forall|i: int| 0 <= i < m.shape@.len() ==> #[trigger] whole.offset@[i] == 0,
        region.offset@.len() == m.shape@.len(), is_intersection(b, whole, region), forall|i: int| 0 <= i < b.offset@.len() ==> #[trigger] meet_at(b, whole, region, i)
    ensures
        forall|p: Seq<nat>| within(p, lo_of(b, m.chunk_grid.chunk_shape@), hi_of(b, m.chunk_grid.chunk_shape@)) <==> m.meets(region, p),
        forall|i: int| 0 <= i < m.shape@.len() ==> width(lo_of(b, m.chunk_grid.chunk_shape@)[i], hi_of(b, m.chunk_grid.chunk_shape@)[i]) <= #[trigger] m.extent()[i],
        forall|p: Seq<nat>| m.meets(region, p) ==> p.len() == m.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < m.extent()[i],
{
    let c = m.chunk_grid.chunk_shape@;
    let (lo, hi) = (lo_of(b, c), hi_of(b, c));
    assert forall|e: Seq<int>| whole.has(e) <==> #[trigger] m.has(e) by {
        if m.has(e) { assert forall|i: int| 0 <= i < e.len() implies whole.offset@[i] <= #[trigger] e[i] < whole.end_at(i) by { assert(0 <= e[i] < m.shape@[i]); assert(whole.offset@[i] == 0); } }
        if whole.has(e) { assert forall|i: int| 0 <= i < e.len() implies 0 <= #[trigger] e[i] < m.shape@[i] by { assert(whole.offset@[i] <= e[i] < whole.end_at(i)); assert(whole.offset@[i] == 0); } }
    }
    assert forall|p: Seq<nat>| within(p, lo, hi) <==> m.meets(region, p) by {
        if within(p, lo, hi) {
            let e = Seq::new(p.len(), |i: int| if b.offset@[i] <= p[i] * c[i] { (p[i] * c[i]) as int } else { b.offset@[i] as int });
            assert forall|i: int| 0 <= i < p.len() implies b.offset@[i] <= #[trigger] e[i] < b.end_at(i) && e[i] / (c[i] as int) == p[i] by {
                assert(lo[i] <= p[i] < hi[i]);
                assert(c[i] >= 1);
                div_between(b.offset@[i] as int, b.shape@[i] as int, c[i] as int, p[i] as int);
            }
            assert(b.has(e));
            assert(whole.has(e) && region.has(e));
            assert(m.has(e));
            assert(m.chunk_of(e) =~= p);
        }
        if m.meets(region, p) {
            let e = choose|e: Seq<int>| #[trigger] m.has(e) && region.has(e) && p == m.chunk_of(e);
            assert(b.has(e));
            assert forall|i: int| 0 <= i < p.len() implies lo[i] <= #[trigger] p[i] < hi[i] by {
                assert(b.offset@[i] <= e[i] < b.end_at(i));
                assert(c[i] >= 1);
                assert(b.shape@[i] >= 1);
                div_between(b.offset@[i] as int, b.shape@[i] as int, c[i] as int, 0);
                assert(b.offset@[i] as int / c[i] as int <= e[i] / (c[i] as int));
            }
        }
    }
    assert forall|i: int| 0 <= i < m.shape@.len() implies width(lo[i], hi[i]) <= #[trigger] m.extent()[i] by {
        assert(meet_at(b, whole, region, i)); assert(whole.offset@[i] == 0); assert(c[i] >= 1);
        let (o, s, d, k) = (b.offset@[i] as int, b.shape@[i] as int, m.shape@[i] as int, c[i] as int);
        ceil_is_least_cover(d, k);
        if s > 0 {
            assert(o + s <= d);
            assert((o + s - 1) / k + 1 <= (d + k - 1) / k) by (nonlinear_arith) requires o + s <= d, k >= 1, o >= 0, s >= 1;
            assert(o / k >= 0) by (nonlinear_arith) requires o >= 0, k >= 1;
        }
    }
    assert forall|p: Seq<nat>| m.meets(region, p) implies p.len() == m.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < m.extent()[i] by {
        let e = choose|e: Seq<int>| #[trigger] m.has(e) && region.has(e) && p == m.chunk_of(e);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < m.extent()[i] by {
            assert(0 <= e[i] < m.shape@[i]); assert(c[i] >= 1);
            let (x, d, k) = (e[i], m.shape@[i] as int, c[i] as int);
            assert(0 <= x / k < (d + k - 1) / k) by (nonlinear_arith) requires 0 <= x < d, k >= 1;
        }
    }
}

impl ArrayMetadata {
    // The number of chunks, taken dimension by dimension, fits in 64 bits.
    pub open spec fn enumerable(self) -> bool { self.wf() && prod_fits(self.extent()) }
@@fn src/ndarray.rs ArrayMetadata::coord_iter for C02
sig pub fn coord_iter(&self) -> (r: CoordIterator)
spec
    requires self.enumerable()
    ensures
        r.wf(),
        r.rem().no_duplicates(),
        forall|a: int, b: int| 0 <= a < b < r.rem().len() ==> before(#[trigger] r.rem()[a], #[trigger] r.rem()[b]),
        forall|p: Seq<nat>| r.rem().contains(p) <==> p.len() == self.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < self.extent()[i],
end
    proof {
        let zeros = Seq::new(self.shape@.len(), |i: int| 0nat);
        cart_is_exact(zeros, self.extent());
        cart_is_ordered(zeros, self.extent());
        assert forall|p: Seq<nat>| v_result.rem().contains(p) <==> p.len() == self.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < self.extent()[i] by {
            if v_result.rem().contains(p) { let k = choose|k: int| 0 <= k < v_result.rem().len() && v_result.rem()[k] == p; assert(within(cart(zeros, self.extent())[k], zeros, self.extent())); }
            if p.len() == self.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < self.extent()[i] { assert(within(p, zeros, self.extent())); }
        }
    }
@@end
@@fn src/ndarray.rs ArrayMetadata::bounded_coord_iter for C02
sig pub fn bounded_coord_iter(&self, unbounded_bbox: &BoundingBox) -> (r: CoordIterator)
spec
    requires self.enumerable(), unbounded_bbox.fits(), unbounded_bbox.offset@.len() == self.shape@.len()
    ensures
        r.wf(),
        r.rem().no_duplicates(),
        forall|a: int, b: int| 0 <= a < b < r.rem().len() ==> before(#[trigger] r.rem()[a], #[trigger] r.rem()[b]),
        forall|p: Seq<nat>| r.rem().contains(p) <==> self.meets(*unbounded_bbox, p),
        forall|p: Seq<nat>| self.meets(*unbounded_bbox, p) ==> p.len() == self.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < self.extent()[i],
after let bbox
    let ghost whole = bbox;
after .intersect
    let ghost c = self.chunk_grid.chunk_shape@;
    proof { range_is_meeting(*self, *unbounded_bbox, bbox, whole); }
loop 0
    self.wf(), bbox.fits(), bbox.offset@.len() == self.shape@.len(), $s0@ == bbox.offset@, $s1@ == c, c == self.chunk_grid.chunk_shape@, $acc@.len() == $i,
    forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == lo_of(bbox, c)[k],
loop 0 start
    assert(c[$j as int] >= 1);
loop 1
    self.wf(), bbox.fits(), bbox.offset@.len() == self.shape@.len(), $s0@ == bbox.offset@, $s1@ == bbox.shape@, $s2@ == c, c == self.chunk_grid.chunk_shape@, $acc@.len() == $i,
    forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == hi_of(bbox, c)[k],
loop 1 start
    assert(c[$j as int] >= 1);
    proof {
        assert(bbox.offset@[$j as int] + bbox.shape@[$j as int] <= u64::MAX);
        let (o, s, k) = (bbox.offset@[$j as int] as int, bbox.shape@[$j as int] as int, c[$j as int] as int);
        assert(meet_at(bbox, whole, *unbounded_bbox, $j as int));
        assert(whole.offset@[$j as int] == 0);
        if s > 0 { assert((o + s - 1) / k <= o + s - 1) by (nonlinear_arith) requires k >= 1, o >= 0, s >= 1; assert((o + s - 1) / k >= 0) by (nonlinear_arith) requires k >= 1, o >= 0, s >= 1; }
    }
after let ceil_coord
    let ghost (lo, hi) = (nat64(floor_coord@), nat64(ceil_coord@));
    proof {
        assert(lo =~= lo_of(bbox, c));
        assert(hi =~= hi_of(bbox, c));
        assert forall|k: int| 0 <= k <= widths(lo, hi).len() implies #[trigger] prod(widths(lo, hi).take(k)) <= u64::MAX by {
            assert forall|i: int| 0 <= i < widths(lo, hi).len() implies #[trigger] widths(lo, hi)[i] <= self.extent()[i] by { assert(width(lo[i], hi[i]) <= self.extent()[i]); }
            prod_mono(widths(lo, hi), self.extent(), k);
            assert(prod(self.extent().take(k)) <= u64::MAX);
        }
        cart_is_exact(lo, hi);
        cart_is_ordered(lo, hi);
        assert forall|p: Seq<nat>| cart(lo, hi).contains(p) <==> self.meets(*unbounded_bbox, p) by {
            if cart(lo, hi).contains(p) { let k = choose|k: int| 0 <= k < cart(lo, hi).len() && cart(lo, hi)[k] == p; assert(within(cart(lo, hi)[k], lo, hi)); }
            if self.meets(*unbounded_bbox, p) { assert(within(p, lo, hi)); }
        }
    }
@@end
}
}
