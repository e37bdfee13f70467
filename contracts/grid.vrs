@@include base.vrs
@@include meta.vrs
verus! {
@@path u64::from u64::from

// C01: the extent is the least number of chunks that covers the array in a dimension.
pub proof fn ceil_is_least_cover(d: int, c: int)
    requires 0 <= d, 1 <= c
    ensures 0 <= ceil(d, c) <= d, d <= ceil(d, c) * c, forall|n: int| #[trigger] (n * c) >= d && n >= 0 ==> n >= ceil(d, c)
{
    let q = ceil(d, c);
    assert(q * c <= d + c - 1 < q * c + c && q >= 0) by (nonlinear_arith) requires q == (d + c - 1) / c, c >= 1, d >= 0;
    assert forall|n: int| #[trigger] (n * c) >= d && n >= 0 implies n >= q by {
        if n < q { assert(n * c <= (q - 1) * c) by (nonlinear_arith) requires n <= q - 1, c >= 1; assert((q - 1) * c == q * c - c) by (nonlinear_arith); }
    }
    assert(d * c >= d) by (nonlinear_arith) requires d >= 0, c >= 1;
}
pub proof fn ceil_div(d: int, c: int)
    requires 0 <= d, 1 <= c
    ensures ceil(d, c) == d / c + (if d % c != 0 { 1int } else { 0 })
{
    let (q, r) = (d / c, d % c);
    assert(d == q * c + r && 0 <= r < c && q >= 0) by (nonlinear_arith) requires q == d / c, r == d % c, c >= 1, d >= 0;
    if r == 0 {
        assert((q * c + c - 1) / c == q) by (nonlinear_arith) requires c >= 1, q >= 0;
    } else {
        assert((q * c + r + c - 1) / c == q + 1) by (nonlinear_arith) requires c >= 1, q >= 0, 1 <= r < c;
    }
}

@@fn src/lib.rs u64_ceil_div for C01
sig pub fn u64_ceil_div(a: u64, b: u64) -> (r: u64)
spec
    requires b >= 1
    ensures r == ceil(a as int, b as int)
start
    proof { ceil_div(a as int, b as int); ceil_is_least_cover(a as int, b as int); }
@@end

impl ArrayMetadata {
@@fn src/lib.rs ArrayMetadata::get_shape for C01
sig pub fn get_shape(&self) -> (r: &[u64])
spec
    ensures r@ == self.shape@
@@end
@@fn src/lib.rs ArrayMetadata::get_chunk_shape for C01,C03
sig pub fn get_chunk_shape(&self) -> (r: &[u32])
spec
    ensures r@ == self.chunk_grid.chunk_shape@
@@end
@@fn src/lib.rs ArrayMetadata::get_ndim for C01
sig pub fn get_ndim(&self) -> (r: usize)
spec
    ensures r == self.shape@.len()
@@end
@@fn src/lib.rs ArrayMetadata::get_num_elements for C01
sig pub fn get_num_elements(&self) -> (r: usize)
spec
    requires prod_fits(self.dims())
    ensures r == prod(self.dims())
loop 0
    $acc == prod(self.dims().take($i as int)), $s0@ == self.shape@, prod_fits(self.dims()),
loop 0 start
    proof { prod_step(self.dims(), $j as int); assert(prod(self.dims().take($j + 1)) <= u64::MAX); }
loop 0 after
    proof { assert(self.dims().take($i as int) =~= self.dims()); }
@@end
@@fn src/lib.rs ArrayMetadata::get_chunk_num_elements for C01,C07
sig pub fn get_chunk_num_elements(&self) -> (r: usize)
spec
    requires prod_fits(self.chunk())
    ensures r == prod(self.chunk())
loop 0
    $acc == prod(self.chunk().take($i as int)), $s0@ == self.chunk_grid.chunk_shape@, prod_fits(self.chunk()),
loop 0 start
    proof { prod_step(self.chunk(), $j as int); assert(prod(self.chunk().take($j + 1)) <= u64::MAX); }
loop 0 after
    proof { assert(self.chunk().take($i as int) =~= self.chunk()); }
@@end
@@fn src/lib.rs ArrayMetadata::get_grid_extent for C01,C02
sig pub fn get_grid_extent(&self) -> (r: GridCoord)
spec
    requires self.wf()
    ensures nat64(r@) =~= self.extent()
loop 0
    $acc@.len() == $i, $s0@ == self.shape@, $s1@ == self.chunk_grid.chunk_shape@, self.wf(),
    forall|k: int| 0 <= k < $i ==> #[trigger] $acc@[k] == ceil(self.shape@[k] as int, self.chunk_grid.chunk_shape@[k] as int),
@@end
@@fn src/lib.rs ArrayMetadata::get_num_chunks for C01
sig pub fn get_num_chunks(&self) -> (r: u64)
spec
    requires self.wf(), prod_fits(self.extent())
    ensures r == prod(self.extent())
loop 0
    $acc == prod(self.extent().take($i as int)), nat64($s0@) =~= self.extent(), prod_fits(self.extent()), $s0@.len() == self.extent().len(),
loop 0 start
    proof { prod_step(self.extent(), $j as int); assert(prod(self.extent().take($j + 1)) <= u64::MAX); assert(nat64($s0@)[$j as int] == $s0@[$j as int]); }
loop 0 after
    proof { assert(self.extent().take($i as int) =~= self.extent()); }
@@end
@@fn src/lib.rs ArrayMetadata::in_bounds for C01
sig pub fn in_bounds(&self, grid_position: &GridCoord) -> (r: bool)
spec
    requires self.wf()
    ensures r == self.position_ok(grid_position@)
loop 0
    nat64($s0@) =~= self.extent(), $s1@ == grid_position@, grid_position@.len() == self.shape@.len(), $s0@.len() == self.shape@.len(),
    $acc ==> forall|k: int| 0 <= k < $i ==> #[trigger] (grid_position@[k] as nat) < self.extent()[k],
    !$acc ==> !self.position_ok(grid_position@),
loop 0 start
    proof { assert(nat64($s0@)[$j as int] == $s0@[$j as int]); }
@@end
}
}
