@@include keys.vrs
@@include codecs.vrs
@@include elems.vrs
@@include grid.vrs
@@include store.vrs
@@drops encoder
// C07: chunks, from elements to the store.
verus! {
pub trait ReinitDataChunk<T: ReflectedType>: DataChunk<T> {
    fn reinitialize(&mut self, grid_position: &GridCoord, num_el: u32)
        ensures (*final(self)).coord() == grid_position@, (*final(self)).elems().len() == num_el;
    fn reinitialize_with<B: DataChunk<T>>(&mut self, other: &B)
        ensures (*final(self)).coord() == other.coord(), (*final(self)).elems() == other.elems();
}
// Shims for vectors.
pub struct VxDefault;
pub trait VxVec<T>: Sized {
    spec fn vec(self) -> Seq<T>;
    fn vx_resize_with(&mut self, n: usize, d: VxDefault) ensures (*final(self)).vec().len() == n;
    fn vx_extend_from_slice(&mut self, s: &[T]) ensures (*final(self)).vec() == (*old(self)).vec() + s@;
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vec(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_resize_with(&mut self, n: usize, d: VxDefault) { unimplemented!() }
    #[verifier::external_body] fn vx_extend_from_slice(&mut self, s: &[T]) { unimplemented!() }
}
impl VxInto<Vec<u64>> for &[u64] {
    open spec fn conv(self, t: Vec<u64>) -> bool { t@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: Vec<u64>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_coord(g: &GridCoord) -> (r: GridCoord) ensures r@ == g@ { unimplemented!() }
pub fn vx_transpose<T, E>(x: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match x { None => Ok(None), Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e) })
{ match x { None => Ok(None), Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e) } }
}
@@method resize_with vx_resize_with
@@method extend_from_slice vx_extend_from_slice
@@method clone fn:vx_coord
@@method transpose fn:vx_transpose
@@path Default::default VxDefault
@@path T::ZARR_TYPE T::zarr_type()
@@path T::create_data_chunk create_data_chunk::<T>
@@path Self::default T::default
@@type Self T
verus! {
impl<T: ReflectedType> ReinitDataChunk<T> for SliceDataChunk<T, Vec<T>> {
@@fn src/chunk.rs impl ReinitDataChunk for VecDataChunk::reinitialize as reinitialize for C05,C07
sig fn reinitialize(&mut self, grid_position: &GridCoord, num_el: u32)
@@end
@@fn src/chunk.rs impl ReinitDataChunk for VecDataChunk::reinitialize_with as reinitialize_with for C05,C07
sig fn reinitialize_with<B: DataChunk<T>>(&mut self, other: &B)
start
    broadcast use vstd::seq::group_seq_axioms;
end
    proof { assert(self.data@ =~= other.elems()); }
@@end
}
@@fn src/data_type.rs trait ReflectedType::create_data_chunk as create_data_chunk for C07
sig pub fn create_data_chunk<T: ReflectedType>(grid_position: &GridCoord, num_el: u32) -> (r: VecDataChunk<T>)
spec
    ensures r.coord() == grid_position@, r.elems().len() == num_el
@@end

// The array's type is the element type, up to byte order.
pub open spec fn typed<T: ReflectedType>(m: ArrayMetadata) -> bool { match m.data_type.core() { Some(d) => same_kind(d, T::zt()), None => false } }
pub proof fn typed_ordered<T: ReflectedType>(m: ArrayMetadata)
    requires typed::<T>(m)
    ensures ordered::<T>(m), T::width() >= 1, m.data_type.core() is Some
{ T::zero().sound(seq![], true); }
// The number of elements of a chunk.
pub open spec fn size(m: ArrayMetadata) -> nat { prod(m.chunk()) }
pub open spec fn need<T: ReflectedType>(m: ArrayMetadata) -> nat { size(m) * T::width() }
pub open spec fn sized(m: ArrayMetadata) -> bool { prod_fits(m.chunk()) && size(m) <= u32::MAX }
// The chunk has the array's type and size.
pub open spec fn fits<T: ReflectedType, B: DataChunk<T>>(m: ArrayMetadata, c: B) -> bool { typed::<T>(m) && c.elems().len() == size(m) }
// Elements with what comes before it in a stream: the first elements of the data.
pub open spec fn holds<T: ReflectedType>(m: ArrayMetadata, s: Seq<T>, d: Seq<u8>) -> bool {
    let k = need::<T>(m) as int;
    s.len() == size(m) && d.len() >= k && decs(s, d.take(k), big(m))
}
@@fn src/chunk.rs check_array_type for C07
sig pub fn check_array_type<T: ReflectedType>(array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
spec
    ensures (r is Ok) == typed::<T>(*array_meta)
@@end
@@fn src/chunk.rs check_chunk for C07
sig pub fn check_chunk<T: ReflectedType, B: DataChunk<T>>(array_meta: &ArrayMetadata, chunk: &B) -> (r: Result<(), Error>)
spec
    requires sized(*array_meta), chunk.elems().len() <= u32::MAX
    ensures (r is Ok) == fits::<T, B>(*array_meta, *chunk)
@@end
@@fn src/chunk.rs trait DefaultChunkReader::read_chunk as default_read_chunk for C07,C18
sig pub fn default_read_chunk<T: ReflectedType, R: VxRead>(buffer: R, array_meta: &ArrayMetadata, grid_position: GridCoord) -> (r: Result<VecDataChunk<T>, Error>) where SliceDataChunk<T, Vec<T>>: ReadableDataChunk<T>
spec
    requires sized(*array_meta)
    ensures ({ let d = decoded(format(array_meta.compressor), buffer.rest(), buffer.fails()).0; match r {
        Ok(c) => typed::<T>(*array_meta) && c.coord() == grid_position@ && holds(*array_meta, c.elems(), d),
        Err(_) => !typed::<T>(*array_meta) || d.len() < need::<T>(*array_meta),
    } })
start
    proof { if typed::<T>(*array_meta) { typed_ordered::<T>(*array_meta); } }
@@end
@@fn src/chunk.rs trait DefaultChunkReader::read_chunk_into as default_read_chunk_into for C05,C07,C18
sig pub fn default_read_chunk_into<T: ReflectedType, R: VxRead, B: ReinitDataChunk<T> + ReadableDataChunk<T>>(buffer: R, array_meta: &ArrayMetadata, grid_position: GridCoord, chunk: &mut B) -> (r: Result<(), Error>)
spec
    requires sized(*array_meta)
    ensures ({ let d = decoded(format(array_meta.compressor), buffer.rest(), buffer.fails()).0; match r {
        Ok(_) => typed::<T>(*array_meta) && final(chunk).coord() == grid_position@ && holds(*array_meta, final(chunk).elems(), d),
        Err(_) => !typed::<T>(*array_meta) || d.len() < need::<T>(*array_meta),
    } })
start
    proof { if typed::<T>(*array_meta) { typed_ordered::<T>(*array_meta); } }
@@end
@@fn src/chunk.rs trait DefaultChunkWriter::write_chunk as default_write_chunk for C07,C08,C18
sig pub fn default_write_chunk<T: ReflectedType, W: VxWrite, B: WriteableDataChunk<T>>(buffer: &mut W, array_meta: &ArrayMetadata, chunk: &B) -> (r: Result<(), Error>)
spec
    requires sized(*array_meta), chunk.elems().len() <= u32::MAX
    ensures final(buffer).key() == old(buffer).key(), match r {
        // What is written is an encoding of the chunk's elements, and all of it was delivered.
        Ok(_) => fits::<T, B>(*array_meta, *chunk) && final(buffer).flushed() && final(buffer).failed() == old(buffer).failed()
            && exists|b: Seq<u8>| final(buffer).written() == old(buffer).written() + b && #[trigger] encodes(format(array_meta.compressor), b, encs(chunk.elems(), big(*array_meta))),
        Err(_) => !fits::<T, B>(*array_meta, *chunk) || final(buffer).failed(),
    }
start
    proof { if typed::<T>(*array_meta) { typed_ordered::<T>(*array_meta); } }
@@end
}
@@path <..>::read_chunk default_read_chunk
@@path <..>::read_chunk_into default_read_chunk_into
@@path <..>::write_chunk default_write_chunk
@@path crate::chunk::check_chunk check_chunk
verus! {
// What is decoded from a stream over a value is a part of what the value decodes to; all of it, if the stream does not fail.
pub proof fn reading(f: Format, r: VxReader)
    ensures ({ let (d, v) = (decoded(f, r.rest(), r.fails()).0, decoded(f, r.content(), false).0); d.len() <= v.len() && d == v.take(d.len() as int) && (!r.fails() ==> d == v) })
{ reader_yields(r); streaming(f, r.content(), r.rest().len() as int, r.fails()); }
// What a value decodes to.
pub open spec fn wholly(m: ArrayMetadata, v: Seq<u8>) -> Seq<u8> { decoded(format(m.compressor), v, false).0 }
pub proof fn vx_reading<T: ReflectedType>(m: ArrayMetadata)
    ensures
        forall|r: VxReader| !r.fails() ==> #[trigger] decoded(format(m.compressor), r.rest(), r.fails()).0 == wholly(m, r.content()),
        forall|r: VxReader, s: Seq<T>| #[trigger] holds(m, s, decoded(format(m.compressor), r.rest(), r.fails()).0) ==> holds(m, s, wholly(m, r.content())),
{
    assert forall|r: VxReader| !r.fails() implies #[trigger] decoded(format(m.compressor), r.rest(), r.fails()).0 == wholly(m, r.content()) by { reading(format(m.compressor), r); }
    assert forall|r: VxReader, s: Seq<T>| #[trigger] holds(m, s, decoded(format(m.compressor), r.rest(), r.fails()).0) implies holds(m, s, wholly(m, r.content())) by {
        reading(format(m.compressor), r);
        let (d, v, k) = (decoded(format(m.compressor), r.rest(), r.fails()).0, wholly(m, r.content()), need::<T>(m) as int);
        assert(d.take(k) =~= v.take(k));
    }
}
impl VxStore {
    pub open spec fn ckey(self, p: Seq<char>, m: ArrayMetadata, g: Seq<u64>) -> Seq<char> { chunk_key(p, m.chunk_grid.separator@, g) }
@@fn src/storage.rs impl HierarchyReader for S::read_chunk as VxStore::read_chunk for C05,C07,C18
sig pub fn read_chunk<T: ReflectedType>(&self, path_name: &str, array_meta: &ArrayMetadata, grid_position: GridCoord, vx_w: &mut VxWorld) -> (r: Result<Option<VecDataChunk<T>>, Error>) where SliceDataChunk<T, Vec<T>>: ReadableDataChunk<T>
spec
    requires array_meta.wf(), array_meta.position_ok(grid_position@), sized(*array_meta)
    ensures final(vx_w).untouched(*old(vx_w)), ({ let v = old(vx_w).at(self.ckey(path_name@, *array_meta, grid_position@)); match r {
        Ok(None) => v is None && final(vx_w).faulted() == old(vx_w).faulted(),
        Ok(Some(c)) => v is Some && typed::<T>(*array_meta) && c.coord() == grid_position@ && holds(*array_meta, c.elems(), wholly(*array_meta, v->Some_0)),
        Err(_) => final(vx_w).faulted() || (v is Some && (!typed::<T>(*array_meta) || wholly(*array_meta, v->Some_0).len() < need::<T>(*array_meta))),
    } })
start
    proof { vx_reading::<T>(*array_meta); }
@@end
@@fn src/storage.rs impl HierarchyReader for S::read_chunk_into as VxStore::read_chunk_into for C05,C07,C18
sig pub fn read_chunk_into<T: ReflectedType, B: ReinitDataChunk<T> + ReadableDataChunk<T>>(&self, path_name: &str, array_meta: &ArrayMetadata, grid_position: GridCoord, chunk: &mut B, vx_w: &mut VxWorld) -> (r: Result<Option<()>, Error>)
spec
    requires array_meta.wf(), array_meta.position_ok(grid_position@), sized(*array_meta)
    ensures final(vx_w).untouched(*old(vx_w)), ({ let v = old(vx_w).at(self.ckey(path_name@, *array_meta, grid_position@)); match r {
        Ok(None) => v is None && final(vx_w).faulted() == old(vx_w).faulted() && *final(chunk) == *old(chunk),
        Ok(Some(_)) => v is Some && typed::<T>(*array_meta) && final(chunk).coord() == grid_position@ && holds(*array_meta, final(chunk).elems(), wholly(*array_meta, v->Some_0)),
        Err(_) => final(vx_w).faulted() || (v is Some && (!typed::<T>(*array_meta) || wholly(*array_meta, v->Some_0).len() < need::<T>(*array_meta))),
    } })
start
    proof { vx_reading::<T>(*array_meta); }
@@end
@@fn src/storage.rs impl HierarchyWriter for S::write_chunk as VxStore::write_chunk for C06,C07,C18,C20
sig pub fn write_chunk<T: ReflectedType, B: WriteableDataChunk<T>>(&self, path_name: &str, array_meta: &ArrayMetadata, chunk: &B, vx_w: &mut VxWorld) -> (r: Result<(), Error>)
spec
    requires sized(*array_meta), chunk.elems().len() <= u32::MAX
    // C20: at most one operation changes anything, so there is no state between the old one and the new.
    ensures final(vx_w).changes() <= old(vx_w).changes() + 1, ({ let k = self.ckey(path_name@, *array_meta, chunk.coord()); &&& final(vx_w).same_but(*old(vx_w), k) &&& match r {
        Ok(_) => fits::<T, B>(*array_meta, *chunk) && final(vx_w).faulted() == old(vx_w).faulted()
            && exists|b: Seq<u8>| #[trigger] encodes(format(array_meta.compressor), b, encs(chunk.elems(), big(*array_meta))) && final(vx_w).put(*old(vx_w), k, Some(b)),
        Err(_) => final(vx_w).faulted() || (!fits::<T, B>(*array_meta, *chunk) && final(vx_w).same(*old(vx_w))),
    } }), !fits::<T, B>(*array_meta, *chunk) ==> final(vx_w).same(*old(vx_w)) && final(vx_w).faulted() == old(vx_w).faulted()
closure 0
    fn $name<T: ReflectedType, B: WriteableDataChunk<T>>(writer: &mut VxWriter, array_meta: &ArrayMetadata, chunk: &B) -> (r: Result<(), Error>)
    requires sized(*array_meta), chunk.elems().len() <= u32::MAX
    ensures final(writer).key() == old(writer).key(), match r {
        Ok(_) => fits::<T, B>(*array_meta, *chunk) && final(writer).flushed() && final(writer).failed() == old(writer).failed()
            && exists|b: Seq<u8>| final(writer).written() == old(writer).written() + b && #[trigger] encodes(format(array_meta.compressor), b, encs(chunk.elems(), big(*array_meta))),
        Err(_) => !fits::<T, B>(*array_meta, *chunk) || final(writer).failed(),
    }
@@end
}
// C06, C07, C08: what was written is read back, bit for bit.
pub proof fn round_trip<T: ReflectedType>(m: ArrayMetadata, x: Seq<T>, v: Seq<u8>, y: Seq<T>)
    requires typed::<T>(m), x.len() == size(m), encodes(format(m.compressor), v, encs(x, big(m))), holds(m, y, decoded(format(m.compressor), v, false).0)
    ensures y.len() == x.len(), forall|i: int| 0 <= i < x.len() ==> (#[trigger] y[i]).bits() == x[i].bits()
{
    lossless(format(m.compressor), v, encs(x, big(m)));
    encs_len(x, big(m));
    let d = encs(x, big(m));
    assert(d.take(need::<T>(m) as int) =~= d);
    decoding_inverts(x, y, big(m));
}
// ... and what was written is long enough to be read.
pub proof fn long_enough<T: ReflectedType>(m: ArrayMetadata, x: Seq<T>, v: Seq<u8>)
    requires x.len() == size(m), encodes(format(m.compressor), v, encs(x, big(m)))
    ensures decoded(format(m.compressor), v, false).0.len() >= need::<T>(m)
{ lossless(format(m.compressor), v, encs(x, big(m))); encs_len(x, big(m)); }
}
@@method clone clone
verus! {
// C20: of what a write comes to leave when its process ends, a beginning of the value, a read makes the chunk that was written or an error.
pub proof fn torn<T: ReflectedType>(m: ArrayMetadata, v: Seq<u8>, n: int)
    requires 0 <= n <= v.len()
    ensures forall|s: Seq<T>| #[trigger] holds(m, s, wholly(m, v.take(n))) ==> holds(m, s, wholly(m, v))
{
    streaming(format(m.compressor), v, n, false);
    assert forall|s: Seq<T>| #[trigger] holds(m, s, wholly(m, v.take(n))) implies holds(m, s, wholly(m, v)) by {
        let (d, w, k) = (wholly(m, v.take(n)), wholly(m, v), need::<T>(m) as int);
        assert(d.take(k) =~= w.take(k));
    }
}
fn read_torn_chunk<T: ReflectedType>(s: &VxStore, path_name: &str, array_meta: &ArrayMetadata, grid_position: GridCoord, v: Ghost<Seq<u8>>, n: Ghost<int>, vx_w: &mut VxWorld) -> (r: Result<Option<VecDataChunk<T>>, Error>) where SliceDataChunk<T, Vec<T>>: ReadableDataChunk<T>
    requires array_meta.wf(), array_meta.position_ok(grid_position@), sized(*array_meta), 0 <= n@ <= v@.len(), old(vx_w).at(s.ckey(path_name@, *array_meta, grid_position@)) == Some(v@.take(n@))
    ensures r matches Ok(c) ==> c is Some && holds(*array_meta, c->Some_0.elems(), wholly(*array_meta, v@))
{
    proof { torn::<T>(*array_meta, v@, n@); }
    s.read_chunk::<T>(path_name, array_meta, grid_position, vx_w)
}
}
