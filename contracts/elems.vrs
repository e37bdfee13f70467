@@include types.vrs
@@include errors.vrs
@@include streams.vrs
// C06: the bytes of a chunk's elements.
@@method as_ref as_ref
verus! {
// What the library knows of an element type; `bits` is its bit pattern.
pub trait ReflectedType: Sized + Copy {
    spec fn width() -> nat;
    spec fn bits(self) -> nat;
    // What the bytes of an element stand for.
    spec fn reads(self, b: Seq<u8>, big: bool) -> bool;
    spec fn zt() -> DataType;
    spec fn zero() -> Self;
    fn zarr_type() -> (r: DataType) ensures r == Self::zt();
    fn default() -> (r: Self) ensures r == Self::zero();
    // Its bits fit its width; it stands for its own encoding and for no other bits; its data type has its width.
    proof fn sound(self, b: Seq<u8>, big: bool)
        ensures
            1 <= Self::width() <= 8, self.bits() < pow256(Self::width()), self.reads(num(self.bits(), Self::width(), big), big),
            bytes_of(Self::zt()) == Self::width(), Self::width() > 1 ==> order_of(Self::zt()) is Some,
            self.reads(b, big) ==> b.len() == Self::width(), Self::width() == 1 ==> self.reads(b, true) == self.reads(b, false);
    // Elements that stand for the encoding of the same element have its bits.
    proof fn exact(self, o: Self, big: bool)
        requires o.reads(num(self.bits(), Self::width(), big), big)
        ensures o.bits() == self.bits();
    // Bytes stand for one bit pattern only.
    proof fn agree(self, o: Self, b: Seq<u8>, big: bool)
        requires self.reads(b, big), o.reads(b, big)
        ensures o.bits() == self.bits();
}
pub open spec fn pow256(w: nat) -> nat decreases w { if w == 0 { 1 } else { 256 * pow256((w - 1) as nat) } }
pub proof fn pow256_values()
    ensures pow256(1) == 256, pow256(2) == 65536, pow256(4) == 4294967296, pow256(8) == 18446744073709551616
{ reveal_with_fuel(pow256, 9); }
// The bytes of a number, the most significant first.
pub open spec fn be(n: nat, w: nat) -> Seq<u8> decreases w { if w == 0 { seq![] } else { be(n / 256, (w - 1) as nat).push((n % 256) as u8) } }
// The bytes of a number, the least significant first.
pub open spec fn le(n: nat, w: nat) -> Seq<u8> { be(n, w).reverse() }
pub open spec fn num(n: nat, w: nat, big: bool) -> Seq<u8> { if big { be(n, w) } else { le(n, w) } }
pub open spec fn enc<T: ReflectedType>(x: T, big: bool) -> Seq<u8> { num(x.bits(), T::width(), big) }
// The bytes of elements, in order and nothing else.
pub open spec fn encs<T: ReflectedType>(s: Seq<T>, big: bool) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { seq![] } else { encs(s.drop_last(), big) + enc(s.last(), big) } }
pub open spec fn word(b: Seq<u8>, w: nat, i: int) -> Seq<u8> { b.subrange(i * w, i * w + w) }
// The bytes stand for the elements.
pub open spec fn decs<T: ReflectedType>(s: Seq<T>, b: Seq<u8>, big: bool) -> bool
{ b.len() == s.len() * T::width() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).reads(word(b, T::width(), i), big) }

pub proof fn be_len(n: nat, w: nat)
    ensures be(n, w).len() == w
    decreases w
{ if w > 0 { be_len(n / 256, (w - 1) as nat); } }
pub proof fn be_exact(a: nat, b: nat, w: nat)
    requires be(a, w) == be(b, w), a < pow256(w), b < pow256(w)
    ensures a == b
    decreases w
{
    if w > 0 {
        be_len(a / 256, (w - 1) as nat); be_len(b / 256, (w - 1) as nat);
        let (p, q) = (be(a / 256, (w - 1) as nat), be(b / 256, (w - 1) as nat));
        assert(p.push((a % 256) as u8).last() == q.push((b % 256) as u8).last());
        assert(p =~= be(a, w).drop_last()); assert(q =~= be(b, w).drop_last());
        be_exact(a / 256, b / 256, (w - 1) as nat);
    }
}
pub proof fn le_exact(a: nat, b: nat, w: nat)
    requires le(a, w) == le(b, w), a < pow256(w), b < pow256(w)
    ensures a == b
{
    be_len(a, w); be_len(b, w);
    assert(be(a, w) =~= le(a, w).reverse()); assert(be(b, w) =~= le(b, w).reverse());
    be_exact(a, b, w);
}
pub proof fn num_exact(a: nat, b: nat, w: nat, big: bool)
    requires num(a, w, big) == num(b, w, big), a < pow256(w), b < pow256(w)
    ensures a == b
{ if big { be_exact(a, b, w); } else { le_exact(a, b, w); } }
pub proof fn num_len(n: nat, w: nat, big: bool)
    ensures num(n, w, big).len() == w
{ be_len(n, w); }
pub proof fn enc_len<T: ReflectedType>(x: T, big: bool)
    ensures enc(x, big).len() == T::width()
{ num_len(x.bits(), T::width(), big); }
pub proof fn encs_len<T: ReflectedType>(s: Seq<T>, big: bool)
    ensures encs(s, big).len() == s.len() * T::width()
    decreases s.len()
{
    if s.len() > 0 {
        encs_len(s.drop_last(), big); enc_len(s.last(), big);
        assert((s.len() - 1) * T::width() + T::width() == s.len() * T::width()) by (nonlinear_arith);
    }
}
pub proof fn encs_add<T: ReflectedType>(a: Seq<T>, b: Seq<T>, big: bool)
    ensures encs(a + b, big) == encs(a, big) + encs(b, big)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(encs(a, big) + encs(b, big) =~= encs(a, big)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        encs_add(a, b.drop_last(), big);
        assert(encs(a, big) + (encs(b.drop_last(), big) + enc(b.last(), big)) =~= (encs(a, big) + encs(b.drop_last(), big)) + enc(b.last(), big));
    }
}
// The i-th word of the encoding is the encoding of the i-th element.
pub proof fn encs_word<T: ReflectedType>(s: Seq<T>, big: bool, i: int)
    requires 0 <= i < s.len()
    ensures word(encs(s, big), T::width(), i) == enc(s[i], big)
    decreases s.len()
{
    let (p, w) = (s.drop_last(), T::width() as int);
    encs_len(p, big); encs_len(s, big); enc_len(s.last(), big);
    assert(p.len() * w + w == s.len() * w) by (nonlinear_arith) requires p.len() + 1 == s.len();
    if i == p.len() { assert(word(encs(s, big), T::width(), i) =~= enc(s.last(), big)); }
    else {
        encs_word(p, big, i);
        assert(i * w + w <= p.len() * w && 0 <= i * w) by (nonlinear_arith) requires 0 <= i < p.len(), w >= 0;
        assert(word(encs(s, big), T::width(), i) =~= word(encs(p, big), T::width(), i));
    }
}
// The encoding stands for the elements.
pub proof fn encs_decs<T: ReflectedType>(s: Seq<T>, big: bool)
    ensures decs(s, encs(s, big), big)
{
    encs_len(s, big);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).reads(word(encs(s, big), T::width(), i), big) by { encs_word(s, big, i); s[i].sound(seq![], big); }
}
// C06: decoding inverts encoding, bit for bit.
pub proof fn decoding_inverts<T: ReflectedType>(s: Seq<T>, t: Seq<T>, big: bool)
    requires decs(t, encs(s, big), big)
    ensures t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).bits() == s[i].bits()
{
    encs_len(s, big);
    let w = T::width();
    if s.len() > 0 { s[0].sound(seq![], big); } else if t.len() > 0 { t[0].sound(seq![], big); }
    assert(t.len() == s.len()) by (nonlinear_arith) requires t.len() * w == s.len() * w, w >= 1 || (s.len() == 0 && t.len() == 0);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]).bits() == s[i].bits() by { encs_word(s, big, i); s[i].exact(t[i], big); }
}
// Parts of a stream stand for parts of the elements.
pub proof fn decs_add<T: ReflectedType>(a: Seq<T>, b: Seq<T>, x: Seq<u8>, y: Seq<u8>, big: bool)
    requires decs(a, x, big), decs(b, y, big)
    ensures decs(a + b, x + y, big)
{
    let w = T::width() as int;
    assert(a.len() * w + b.len() * w == (a.len() + b.len()) * w) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).reads(word(x + y, T::width(), i), big) by {
        if i < a.len() {
            assert(0 <= i * w && i * w + w <= a.len() * w) by (nonlinear_arith) requires 0 <= i < a.len(), w >= 0;
            assert(word(x + y, T::width(), i) =~= word(x, T::width(), i)); assert(a[i].reads(word(x, T::width(), i), big));
        } else {
            let k = i - a.len();
            assert(i * w == a.len() * w + k * w && 0 <= k * w && k * w + w <= b.len() * w) by (nonlinear_arith) requires i == a.len() + k, 0 <= k < b.len(), w >= 0;
            assert(word(x + y, T::width(), i) =~= word(y, T::width(), k)); assert(b[k].reads(word(y, T::width(), k), big));
        }
    }
}

// For elements of one byte the byte order is immaterial.
pub proof fn narrow<T: ReflectedType>()
    requires T::width() == 1
    ensures forall|s: Seq<T>, b: Seq<u8>| decs(s, b, true) == #[trigger] decs(s, b, false), forall|s: Seq<T>| encs(s, true) == #[trigger] encs(s, false)
{
    assert forall|s: Seq<T>, b: Seq<u8>| decs(s, b, true) == #[trigger] decs(s, b, false) by {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).reads(word(b, T::width(), i), true) == s[i].reads(word(b, T::width(), i), false) by { s[i].sound(word(b, T::width(), i), true); }
    }
    assert forall|s: Seq<T>| encs(s, true) == #[trigger] encs(s, false) by { narrow_encs(s); }
}
pub proof fn narrow_encs<T: ReflectedType>(s: Seq<T>)
    requires T::width() == 1
    ensures encs(s, true) == encs(s, false)
    decreases s.len()
{ if s.len() > 0 { narrow_encs(s.drop_last()); single(s.last().bits()); } }
// The bytes of u8 elements are the elements.
pub proof fn plain_bytes(s: Seq<u8>, big: bool)
    ensures encs(s, big) == s
    decreases s.len()
{
    if s.len() > 0 { plain_bytes(s.drop_last(), big); single(s.last() as nat); assert(seq![s.last()] =~= enc(s.last(), big)); assert(s =~= s.drop_last() + seq![s.last()]); }
    else { assert(encs(s, big) =~= s); }
}
pub proof fn plain_decs(s: Seq<u8>, big: bool)
    ensures decs(s, s, big)
{ plain_bytes(s, big); encs_decs(s, big); }

pub open spec fn n0(i: int, n: int) -> int { if i * 256 < n { i * 256 } else { n } }
pub proof fn flags(s: Seq<bool>, b: Seq<u8>, big: bool)
    requires s.len() == b.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] b[k] == (if s[k] { 1u8 } else { 0u8 })
    ensures encs(s, big) == b
    decreases s.len()
{
    if s.len() > 0 { flags(s.drop_last(), b.drop_last(), big); single(s.last().bits()); assert(b =~= b.drop_last() + seq![b.last()]); assert(enc(s.last(), big) =~= seq![b.last()]); }
    else { assert(encs(s, big) =~= b); }
}

// Containers of elements: AsRef and AsMut.
pub trait VxMut<T>: Sized {
    spec fn items(self) -> Seq<T>;
    fn as_mut(&mut self) -> (r: &mut [T]) ensures r@ == old(self).items(), final(self).items() == final(r)@;
    fn as_ref(&self) -> (r: &[T]) ensures r@ == self.items();
}
impl<T> VxMut<T> for Vec<T> {
    open spec fn items(self) -> Seq<T> { self@ }
    fn as_mut(&mut self) -> (r: &mut [T]) { self.as_mut_slice() }
    fn as_ref(&self) -> (r: &[T]) { self.as_slice() }
}
pub open spec fn chunk_end(len: int, n: int, j: int) -> int { if (j + 1) * n < len { (j + 1) * n } else { len } }
#[verifier::external_body]
pub fn vx_chunk_count(len: usize, n: usize) -> (r: usize)
    requires n > 0
    ensures r == (len + n - 1) / (n as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_chunk_mut<T>(s: &mut [T], n: usize, j: usize) -> (r: &mut [T])
    requires n > 0, j * n < old(s)@.len()
    ensures
        r@ == old(s)@.subrange(j * n, chunk_end(old(s)@.len() as int, n as int, j as int)),
        final(r)@.len() == r@.len() ==> final(s)@ == old(s)@.take(j * n) + final(r)@ + old(s)@.skip(chunk_end(old(s)@.len() as int, n as int, j as int)),
{ unimplemented!() }
// The parts of a slice, of n elements each but for the last.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxChunks<'a, T> { _p: &'a [T] }
impl<'a, T> View for VxChunks<'a, T> { type V = Seq<Seq<T>>; uninterp spec fn view(&self) -> Seq<Seq<T>>; }
impl<'a, T> VxChunks<'a, T> {
    pub uninterp spec fn all(self) -> Seq<T>;
    pub uninterp spec fn step(self) -> int;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<'a, T> VxItems<&'a [T]> for VxChunks<'a, T> {
    open spec fn count(&self) -> nat { self@.len() }
    open spec fn gives(&self, j: int, r: &'a [T]) -> bool { 0 <= j * self.step() < self.all().len() && 1 <= r@.len() <= self.step() && r@ == self.all().subrange(j * self.step(), chunk_end(self.all().len() as int, self.step(), j)) }
}
#[verifier::external_body]
pub fn vx_chunks<'a, T>(s: &'a [T], n: usize) -> (r: VxChunks<'a, T>)
    requires n > 0
    ensures r.all() == s@, r.step() == n, r@.len() == (s@.len() + n - 1) / (n as int)
{ unimplemented!() }
}
@@method chunks fn:vx_chunks
verus! {
// The element types.
impl ReflectedType for u8 {
    open spec fn width() -> nat { 1 }
    open spec fn bits(self) -> nat { self as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::UInt { size: IntSize::B1, endian: Endian::Little } }
    open spec fn zero() -> u8 { 0 }
    fn zarr_type() -> (r: DataType) { zarr_type_u8() }
    fn default() -> (r: u8) { 0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 1, big); single(self.bits()); }
    proof fn exact(self, o: u8, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 1, big); }
    proof fn agree(self, o: u8, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
impl ReflectedType for u16 {
    open spec fn width() -> nat { 2 }
    open spec fn bits(self) -> nat { self as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::UInt { size: IntSize::B2, endian: Endian::Little } }
    open spec fn zero() -> u16 { 0 }
    fn zarr_type() -> (r: DataType) { zarr_type_u16() }
    fn default() -> (r: u16) { 0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 2, big); }
    proof fn exact(self, o: u16, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 2, big); }
    proof fn agree(self, o: u16, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
impl ReflectedType for u32 {
    open spec fn width() -> nat { 4 }
    open spec fn bits(self) -> nat { self as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::UInt { size: IntSize::B4, endian: Endian::Little } }
    open spec fn zero() -> u32 { 0 }
    fn zarr_type() -> (r: DataType) { zarr_type_u32() }
    fn default() -> (r: u32) { 0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 4, big); }
    proof fn exact(self, o: u32, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 4, big); }
    proof fn agree(self, o: u32, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
impl ReflectedType for u64 {
    open spec fn width() -> nat { 8 }
    open spec fn bits(self) -> nat { self as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::UInt { size: IntSize::B8, endian: Endian::Little } }
    open spec fn zero() -> u64 { 0 }
    fn zarr_type() -> (r: DataType) { zarr_type_u64() }
    fn default() -> (r: u64) { 0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 8, big); }
    proof fn exact(self, o: u64, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 8, big); }
    proof fn agree(self, o: u64, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
impl ReflectedType for i8 {
    open spec fn width() -> nat { 1 }
    open spec fn bits(self) -> nat { (if self < 0 { self + 256 } else { self as int }) as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::Int { size: IntSize::B1, endian: Endian::Little } }
    open spec fn zero() -> i8 { 0 }
    fn zarr_type() -> (r: DataType) { zarr_type_i8() }
    fn default() -> (r: i8) { 0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 1, big); single(self.bits()); }
    proof fn exact(self, o: i8, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 1, big); }
    proof fn agree(self, o: i8, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
impl ReflectedType for i16 {
    open spec fn width() -> nat { 2 }
    open spec fn bits(self) -> nat { (if self < 0 { self + 65536 } else { self as int }) as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::Int { size: IntSize::B2, endian: Endian::Little } }
    open spec fn zero() -> i16 { 0 }
    fn zarr_type() -> (r: DataType) { zarr_type_i16() }
    fn default() -> (r: i16) { 0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 2, big); }
    proof fn exact(self, o: i16, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 2, big); }
    proof fn agree(self, o: i16, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
impl ReflectedType for i32 {
    open spec fn width() -> nat { 4 }
    open spec fn bits(self) -> nat { (if self < 0 { self + 4294967296 } else { self as int }) as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::Int { size: IntSize::B4, endian: Endian::Little } }
    open spec fn zero() -> i32 { 0 }
    fn zarr_type() -> (r: DataType) { zarr_type_i32() }
    fn default() -> (r: i32) { 0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 4, big); }
    proof fn exact(self, o: i32, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 4, big); }
    proof fn agree(self, o: i32, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
impl ReflectedType for i64 {
    open spec fn width() -> nat { 8 }
    open spec fn bits(self) -> nat { (if self < 0 { self + 18446744073709551616 } else { self as int }) as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::Int { size: IntSize::B8, endian: Endian::Little } }
    open spec fn zero() -> i64 { 0 }
    fn zarr_type() -> (r: DataType) { zarr_type_i64() }
    fn default() -> (r: i64) { 0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 8, big); }
    proof fn exact(self, o: i64, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 8, big); }
    proof fn agree(self, o: i64, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
impl ReflectedType for f16 {
    open spec fn width() -> nat { 2 }
    open spec fn bits(self) -> nat { self.0 as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::Float { size: FloatSize::B2, endian: Endian::Little } }
    open spec fn zero() -> f16 { f16(0) }
    fn zarr_type() -> (r: DataType) { zarr_type_f16() }
     fn default() -> (r: f16) { f16(0) }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 2, big); }
    proof fn exact(self, o: f16, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 2, big); }
    proof fn agree(self, o: f16, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
// The IEEE bit pattern.
pub uninterp spec fn f32_bits(x: f32) -> u32;
impl ReflectedType for f32 {
    open spec fn width() -> nat { 4 }
    open spec fn bits(self) -> nat { f32_bits(self) as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::Float { size: FloatSize::B4, endian: Endian::Little } }
    open spec fn zero() -> f32 { f32_zero() }
    fn zarr_type() -> (r: DataType) { zarr_type_f32() }
    #[verifier::external_body] fn default() -> (r: f32) { 0.0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 4, big); }
    proof fn exact(self, o: f32, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 4, big); }
    proof fn agree(self, o: f32, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
pub uninterp spec fn f32_zero() -> f32;
// The IEEE bit pattern.
pub uninterp spec fn f64_bits(x: f64) -> u64;
impl ReflectedType for f64 {
    open spec fn width() -> nat { 8 }
    open spec fn bits(self) -> nat { f64_bits(self) as nat }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b == num(self.bits(), Self::width(), big) }
    open spec fn zt() -> DataType { DataType::Float { size: FloatSize::B8, endian: Endian::Little } }
    open spec fn zero() -> f64 { f64_zero() }
    fn zarr_type() -> (r: DataType) { zarr_type_f64() }
    #[verifier::external_body] fn default() -> (r: f64) { 0.0 }
    proof fn sound(self, b: Seq<u8>, big: bool) { pow256_values(); num_len(self.bits(), 8, big); }
    proof fn exact(self, o: f64, big: bool) { pow256_values(); num_exact(o.bits(), self.bits(), 8, big); }
    proof fn agree(self, o: f64, b: Seq<u8>, big: bool) { self.exact(o, big); }
}
pub uninterp spec fn f64_zero() -> f64;
// Any byte but zero is true; a boolean is written as exactly 0 or 1.
impl ReflectedType for bool {
    open spec fn width() -> nat { 1 }
    open spec fn bits(self) -> nat { if self { 1 } else { 0 } }
    open spec fn reads(self, b: Seq<u8>, big: bool) -> bool { b.len() == 1 && self == (b[0] != 0) }
    open spec fn zt() -> DataType { DataType::Bool }
    open spec fn zero() -> bool { false }
    fn zarr_type() -> (r: DataType) { zarr_type_bool() }
    fn default() -> (r: bool) { false }
    proof fn sound(self, b: Seq<u8>, big: bool) { reveal_with_fuel(pow256, 2); num_len(self.bits(), 1, big); single(self.bits()); }
    proof fn exact(self, o: bool, big: bool) { single(self.bits()); single(o.bits()); }
    proof fn agree(self, o: bool, b: Seq<u8>, big: bool) {  }
}
// The encoding of a type of one byte.
pub proof fn single(n: nat)
    ensures forall|big: bool| #[trigger] num(n, 1, big) == seq![(n % 256) as u8]
{
    reveal_with_fuel(be, 2);
    assert(be(n, 1) =~= seq![(n % 256) as u8]);
    assert(le(n, 1) =~= seq![(n % 256) as u8]);
}

// byteorder.
pub trait VxByteOrder: Sized {
    spec fn big() -> bool;
    #[verifier::external_body]
    fn write_u16_into(src: &[u16], dst: &mut [u8])
        requires old(dst)@.len() == src@.len() * u16::width()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn write_u32_into(src: &[u32], dst: &mut [u8])
        requires old(dst)@.len() == src@.len() * u32::width()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn write_u64_into(src: &[u64], dst: &mut [u8])
        requires old(dst)@.len() == src@.len() * u64::width()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn write_i8_into(src: &[i8], dst: &mut [u8])
        requires old(dst)@.len() == src@.len()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn write_i16_into(src: &[i16], dst: &mut [u8])
        requires old(dst)@.len() == src@.len() * i16::width()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn write_i32_into(src: &[i32], dst: &mut [u8])
        requires old(dst)@.len() == src@.len() * i32::width()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn write_i64_into(src: &[i64], dst: &mut [u8])
        requires old(dst)@.len() == src@.len() * i64::width()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn write_f32_into(src: &[f32], dst: &mut [u8])
        requires old(dst)@.len() == src@.len() * f32::width()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn write_f64_into(src: &[f64], dst: &mut [u8])
        requires old(dst)@.len() == src@.len() * f64::width()
        ensures final(dst)@ == encs(src@, Self::big())
    { unimplemented!() }
}
pub struct BigEndian; pub struct LittleEndian;
impl VxByteOrder for BigEndian { open spec fn big() -> bool { true } }
impl VxByteOrder for LittleEndian { open spec fn big() -> bool { false } }
pub open spec fn taken<T: ReflectedType, R: VxRead>(before: R, n: nat, now: Seq<T>, after: R, ok: bool, big: bool) -> bool {
    let k = (n * T::width()) as int;
    now.len() == n && if ok { before.rest().len() >= k && decs(now, before.rest().take(k), big) && after.rest() == before.rest().skip(k) } else { before.rest().len() < k }
}
pub trait VxReadNums: VxRead {
    #[verifier::external_body]
    fn read_u16_into<B: VxByteOrder>(&mut self, dst: &mut [u16]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_u32_into<B: VxByteOrder>(&mut self, dst: &mut [u32]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_u64_into<B: VxByteOrder>(&mut self, dst: &mut [u64]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_i8_into(&mut self, dst: &mut [i8]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, true), taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, false)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_i16_into<B: VxByteOrder>(&mut self, dst: &mut [i16]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_i32_into<B: VxByteOrder>(&mut self, dst: &mut [i32]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_i64_into<B: VxByteOrder>(&mut self, dst: &mut [i64]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_f32_into<B: VxByteOrder>(&mut self, dst: &mut [f32]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_f64_into<B: VxByteOrder>(&mut self, dst: &mut [f64]) -> (r: Result<(), Error>)
        ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
    { unimplemented!() }
}
impl<R: VxRead> VxReadNums for R {}
pub trait VxReadI8: VxReadNums {
@@fn src/chunk.rs trait ReadBytesExtI8::read_i8_into_wrapper as read_i8_into_wrapper for C06
sig fn read_i8_into_wrapper<B: VxByteOrder>(&mut self, dst: &mut [i8]) -> (r: Result<(), Error>)
spec
    ensures taken(*old(self), old(dst)@.len(), final(dst)@, *final(self), r is Ok, B::big())
@@end
}
impl<R: VxRead> VxReadI8 for R {}
impl f16 {
    #[verifier::external_body] pub fn from_be_bytes(b: [u8; 2]) -> (r: f16) ensures b@ == enc(r, true) { unimplemented!() }
    #[verifier::external_body] pub fn from_le_bytes(b: [u8; 2]) -> (r: f16) ensures b@ == enc(r, false) { unimplemented!() }
    #[verifier::external_body] pub fn to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == enc(self, true) { unimplemented!() }
    #[verifier::external_body] pub fn to_le_bytes(self) -> (r: [u8; 2]) ensures r@ == enc(self, false) { unimplemented!() }
}
impl VxInto<u8> for bool {
    open spec fn conv(self, t: u8) -> bool { t == if self { 1u8 } else { 0u8 } }
    fn vx_into(self) -> (r: u8) { if self { 1 } else { 0 } }
}

// Chunks.
use std::marker::PhantomData;
@@struct src/chunk.rs SliceDataChunk
pub type VecDataChunk<T> = SliceDataChunk<T, Vec<T>>;
// The declared byte order of an array, if its type has one.
pub open spec fn order(m: ArrayMetadata) -> Option<Endian> { match m.data_type.core() { Some(d) => order_of(d), None => None } }
pub open spec fn big(m: ArrayMetadata) -> bool { order(m) == Some(Endian::Big) }
// Whether the byte order of a type's elements is declared, or immaterial.
pub open spec fn ordered<T: ReflectedType>(m: ArrayMetadata) -> bool { T::width() == 1 || order(m) is Some }
pub trait DataChunk<T: ReflectedType>: Sized {
    spec fn coord(self) -> Seq<u64>;
    spec fn elems(self) -> Seq<T>;
    fn get_grid_position(&self) -> (r: &[u64]) ensures r@ == self.coord();
    fn get_data(&self) -> (r: &[T]) ensures r@ == self.elems();
    fn get_num_elements(&self) -> (r: u32) ensures r == self.elems().len() as u32;
}
pub trait ReadableDataChunk<T: ReflectedType>: DataChunk<T> {
    fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
        ensures
            (*final(self)).coord() == (*old(self)).coord(), (*final(self)).elems().len() == (*old(self)).elems().len(),
            ({ let k = ((*old(self)).elems().len() * T::width()) as int; match r {
                Ok(_) => source.rest().len() >= k && (ordered::<T>(*array_meta) ==> decs((*final(self)).elems(), source.rest().take(k), big(*array_meta))),
                // Fails only for a stream that is too short, or for an unknown type.
                Err(_) => source.rest().len() < k || array_meta.data_type.core() is None,
            } });
}
pub trait WriteableDataChunk<T: ReflectedType>: DataChunk<T> {
    fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
        ensures
            (*final(target)).key() == (*old(target)).key(),
            match r {
                Ok(_) => (ordered::<T>(*array_meta) ==> (*final(target)).written() == (*old(target)).written() + encs(self.elems(), big(*array_meta))) && (*final(target)).failed() == (*old(target)).failed(),
                Err(_) => (*final(target)).failed() || array_meta.data_type.core() is None,
            };
}
impl<T: ReflectedType, C> SliceDataChunk<T, C> {
@@fn src/chunk.rs impl SliceDataChunk<T,C>::new as SliceDataChunk::new for C07
sig pub fn new(grid_position: GridCoord, data: C) -> (r: SliceDataChunk<T, C>)
spec
    ensures r.grid_position == grid_position, r.data == data
@@end
}
impl<T: ReflectedType, C: VxMut<T>> DataChunk<T> for SliceDataChunk<T, C> {
    open spec fn coord(self) -> Seq<u64> { self.grid_position@ }
    open spec fn elems(self) -> Seq<T> { self.data.items() }
@@fn src/chunk.rs impl DataChunk for SliceDataChunk::get_grid_position as get_grid_position for C07
sig fn get_grid_position(&self) -> (r: &[u64])
@@end
@@fn src/chunk.rs impl DataChunk for SliceDataChunk::get_data as get_data for C06,C07
sig fn get_data(&self) -> (r: &[T])
@@end
@@fn src/chunk.rs impl DataChunk for SliceDataChunk::get_num_elements as get_num_elements for C07
sig fn get_num_elements(&self) -> (r: u32)
@@end
}
// u16
impl<C: VxMut<u16>> ReadableDataChunk<u16> for SliceDataChunk<u16, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#u16 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_u16 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
@@end
}
impl<C: VxMut<u16>> WriteableDataChunk<u16> for SliceDataChunk<u16, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#u16 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_u16 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<u16>()) == n * 2 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<u16>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<u16>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// u32
impl<C: VxMut<u32>> ReadableDataChunk<u32> for SliceDataChunk<u32, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#u32 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_u32 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
@@end
}
impl<C: VxMut<u32>> WriteableDataChunk<u32> for SliceDataChunk<u32, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#u32 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_u32 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<u32>()) == n * 4 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<u32>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<u32>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// u64
impl<C: VxMut<u64>> ReadableDataChunk<u64> for SliceDataChunk<u64, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#u64 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_u64 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
@@end
}
impl<C: VxMut<u64>> WriteableDataChunk<u64> for SliceDataChunk<u64, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#u64 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_u64 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<u64>()) == n * 8 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<u64>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<u64>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// i8
impl<C: VxMut<i8>> ReadableDataChunk<i8> for SliceDataChunk<i8, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#i8 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_i8 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    proof { narrow::<i8>(); }
@@end
}
impl<C: VxMut<i8>> WriteableDataChunk<i8> for SliceDataChunk<i8, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#i8 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_i8 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); narrow::<i8>(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<i8>()) == n * 1 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<i8>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<i8>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// i16
impl<C: VxMut<i16>> ReadableDataChunk<i16> for SliceDataChunk<i16, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#i16 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_i16 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
@@end
}
impl<C: VxMut<i16>> WriteableDataChunk<i16> for SliceDataChunk<i16, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#i16 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_i16 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<i16>()) == n * 2 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<i16>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<i16>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// i32
impl<C: VxMut<i32>> ReadableDataChunk<i32> for SliceDataChunk<i32, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#i32 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_i32 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
@@end
}
impl<C: VxMut<i32>> WriteableDataChunk<i32> for SliceDataChunk<i32, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#i32 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_i32 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<i32>()) == n * 4 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<i32>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<i32>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// i64
impl<C: VxMut<i64>> ReadableDataChunk<i64> for SliceDataChunk<i64, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#i64 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_i64 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
@@end
}
impl<C: VxMut<i64>> WriteableDataChunk<i64> for SliceDataChunk<i64, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#i64 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_i64 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<i64>()) == n * 8 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<i64>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<i64>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// f32
impl<C: VxMut<f32>> ReadableDataChunk<f32> for SliceDataChunk<f32, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#f32 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_f32 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
@@end
}
impl<C: VxMut<f32>> WriteableDataChunk<f32> for SliceDataChunk<f32, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#f32 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_f32 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<f32>()) == n * 4 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<f32>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<f32>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// f64
impl<C: VxMut<f64>> ReadableDataChunk<f64> for SliceDataChunk<f64, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#f64 impl ReadableDataChunk for SliceDataChunk::read_data as read_data_f64 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
@@end
}
impl<C: VxMut<f64>> WriteableDataChunk<f64> for SliceDataChunk<f64, C> {
@@fn src/chunk.rs macro vec_data_chunk_impl#f64 impl WriteableDataChunk for SliceDataChunk::write_data as write_data_f64 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); assert forall|n: int| #[trigger] (n * core::mem::size_of::<f64>()) == n * 8 by {} }
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<f64>(*array_meta) ==> (*target).written() == before + encs(all.take(if vi0 * 256 < all.len() { vi0 * 256 } else { all.len() as int }), big(*array_meta)),
loop 0 start
    let ghost written = (*target).written();
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), big(*array_meta));
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        encs_len(all.subrange(lo, hi), big(*array_meta));
        if ordered::<f64>(*array_meta) { assert((*target).written() =~= before + encs(all.take(hi), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
// u8
impl<C: VxMut<u8>> ReadableDataChunk<u8> for SliceDataChunk<u8, C> {
@@fn src/chunk.rs impl ReadableDataChunk for SliceDataChunk<u8,C>::read_data as read_data_u8 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, _array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    let ghost n = self.data.items().len() as int;
    proof { if source.rest().len() >= n { plain_decs(source.rest().take(n), big(*_array_meta)); } }
@@end
}
impl<C: VxMut<u8>> WriteableDataChunk<u8> for SliceDataChunk<u8, C> {
@@fn src/chunk.rs impl WriteableDataChunk for SliceDataChunk<u8,C>::write_data as write_data_u8 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, _array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    proof { plain_bytes(self.data.items(), big(*_array_meta)); }
@@end
}
// bool
impl<C: VxMut<bool>> ReadableDataChunk<bool> for SliceDataChunk<bool, C> {
@@fn src/chunk.rs impl ReadableDataChunk for SliceDataChunk<bool,C>::read_data as read_data_bool for C06
sig fn read_data<R: VxRead>(&mut self, source: R, _array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    let ghost (all, n) = (source.rest(), self.data.items().len() as int);
loop 0
        vs0_0@.len() == n, n0(vi0 as int, n) <= all.len(),
        source.rest() == all.skip(n0(vi0 as int, n)),
        forall|k: int| 0 <= k < n0(vi0 as int, n) ==> #[trigger] vs0_0@[k] == (all[k] != 0),
loop 0 start
    let ghost seen = vs0_0@;
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(n, 256, vj0 as int));
        assert(hi == n0(vi0 as int, n) && lo == n0(vj0 as int, n));
        assert forall|k: int| 0 <= k < hi implies #[trigger] vs0_0@[k] == (all[k] != 0) by { if k < lo { assert(vs0_0@[k] == seen[k]); } else { assert(all[k] == all.skip(lo).take(len as int)[k - lo]); } }
    }
loop 1
        (*$s0)@.len() == len, len <= 256, forall|k: int| 0 <= k < vi1 ==> #[trigger] (*$s0)@[k] == (buf@[k] != 0),
@@end
}
impl<C: VxMut<bool>> WriteableDataChunk<bool> for SliceDataChunk<bool, C> {
@@fn src/chunk.rs impl WriteableDataChunk for SliceDataChunk<bool,C>::write_data as write_data_bool for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, _array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
    let ghost o = big(*_array_meta);
loop 0
        (*target).key() == key, (*target).failed() == failed,
        (*target).written() == before + encs(all.take(n0(vi0 as int, all.len() as int)), o),
loop 0 end
    proof {
        let (lo, hi) = (vj0 * 256, chunk_end(all.len() as int, 256, vj0 as int));
        encs_add(all.take(lo), all.subrange(lo, hi), o);
        assert(all.take(lo) + all.subrange(lo, hi) =~= all.take(hi));
        flags(all.subrange(lo, hi), buf@.take(hi - lo), o);
        assert((*target).written() =~= before + encs(all.take(hi), o));
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
loop 1
        (*$s1)@.len() == c@.len(),
        forall|k: int| 0 <= k < vi1 ==> #[trigger] (*$s1)@[k] == (if c@[k] { 1u8 } else { 0u8 }),
@@end
}
// f16
impl<C: VxMut<f16>> ReadableDataChunk<f16> for SliceDataChunk<f16, C> {
@@fn src/chunk.rs impl ReadableDataChunk for SliceDataChunk<f16,C>::read_data as read_data_f16 for C06
sig fn read_data<R: VxRead>(&mut self, source: R, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    let ghost (all, cnt) = (source.rest(), self.data.items().len() as int);
loop 0
        vs0_0@.len() == cnt, vi0 * 2 <= all.len(),
        source.rest() == all.skip(vi0 * 2),
        order(*array_meta) is Some ==> forall|k: int| 0 <= k < vi0 ==> (#[trigger] vs0_0@[k]).reads(word(all, 2, k), big(*array_meta)),
loop 0 end
    proof { assert(all.skip(vj0 * 2).take(2) =~= word(all, 2, vj0 as int)); }
loop 0 after
    proof { assert forall|k: int| 0 <= k < cnt implies #[trigger] word(all.take(cnt * 2), 2, k) =~= word(all, 2, k) by {} }
@@end
}
impl<C: VxMut<f16>> WriteableDataChunk<f16> for SliceDataChunk<f16, C> {
@@fn src/chunk.rs impl WriteableDataChunk for SliceDataChunk<f16,C>::write_data as write_data_f16 for C06
sig fn write_data<W: VxWrite>(&self, target: &mut W, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
start
    let ghost (before, all, key, failed) = ((*target).written(), self.data.items(), (*target).key(), (*target).failed());
loop 0
        (*target).key() == key, (*target).failed() == failed,
        ordered::<f16>(*array_meta) ==> (*target).written() == before + encs(all.take(vi0 as int), big(*array_meta)),
loop 0 end
    proof {
        assert(all.take(vj0 + 1).drop_last() =~= all.take(vj0 as int));
        if ordered::<f16>(*array_meta) { assert((*target).written() =~= before + encs(all.take(vj0 + 1), big(*array_meta))); }
    }
loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
@@end
}
}
