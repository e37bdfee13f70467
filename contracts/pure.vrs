@@include base.vrs
@@include streams.vrs
// C08 with the feature lz_pure: the codec on `lz_fear`, which is trusted to decode what it encodes, given legal parameters.
verus! {
@@struct src/compression/lz_pure.rs Lz4Compression Copy, Clone, PartialEq, Eq, Structural
pub uninterp spec fn encodes(b: Seq<u8>, d: Seq<u8>) -> bool;
// What the reader makes of a stream, and whether that ends by failing.
pub uninterp spec fn decoded(b: Seq<u8>, fails: bool) -> (Seq<u8>, bool);
pub axiom fn lossless(b: Seq<u8>, d: Seq<u8>)
    requires encodes(b, d)
    ensures decoded(b, false) == (d, false);

// What the functions return as a boxed Read.
#[verifier::external_body] pub struct VxDecoder { _p: () }
impl VxDecoder {
    pub uninterp spec fn rest(self) -> Seq<u8>;
    pub uninterp spec fn fails(self) -> bool;
    pub open spec fn decodes<R: VxRead>(self, r: R) -> bool { (self.rest(), self.fails()) == decoded(r.rest(), r.fails()) }
}
pub trait VxBoxed<T> { spec fn is(self, t: T) -> bool; fn boxed(self) -> (t: T) where Self: Sized ensures self.is(t); }
pub fn vx_boxed<T, S: VxBoxed<T>>(s: S) -> (t: T) ensures s.is(t) { s.boxed() }
impl VxBoxed<VxDecoder> for VxDecoder { open spec fn is(self, t: VxDecoder) -> bool { t == self } fn boxed(self) -> (t: VxDecoder) { self } }

// The library's reader of frames, and its errors.
#[verifier::external_body] pub struct VxHeaderError { _p: () }
impl VxInto<Error> for VxHeaderError {
    open spec fn conv(self, t: Error) -> bool { true }
    #[verifier::external_body] fn vx_into(self) -> (r: Error) { unimplemented!() }
}
#[verifier::external_body] pub struct LZ4FrameReader { _p: () }
impl LZ4FrameReader {
    pub uninterp spec fn of(self) -> (Seq<u8>, bool);
    // It reads the header of the frame; without one there is nothing to decode.
    #[verifier::external_body]
    pub fn new<R: VxRead>(r: R) -> (d: Result<LZ4FrameReader, VxHeaderError>)
        ensures match d { Ok(d) => d.of() == (r.rest(), r.fails()), Err(_) => decoded(r.rest(), r.fails()) == (Seq::<u8>::empty(), true) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_read(self) -> (d: VxDecoder) ensures (d.rest(), d.fails()) == decoded(self.of().0, self.of().1) { unimplemented!() }
}
@@struct src/compression/lz_pure.rs FailedReader
impl VxBoxed<VxDecoder> for FailedReader {
    // As a stream it has nothing and fails: `read` below never succeeds.
    open spec fn is(self, t: VxDecoder) -> bool { t.rest() == Seq::<u8>::empty() && t.fails() }
    #[verifier::external_body] fn boxed(self) -> (t: VxDecoder) { unimplemented!() }
}
impl FailedReader {
@@fn src/compression/lz_pure.rs impl Read for FailedReader::read as FailedReader::read for C08
sig pub fn read(&mut self, _buffer: &mut [u8]) -> (r: Result<usize, Error>)
spec
    ensures r is Err
@@end
}

// The memory that chunks are encoded into; it takes everything.
#[verifier::external_body] pub struct VxMem<'a> { _p: &'a mut Vec<u8> }
impl<'a> VxMem<'a> { pub uninterp spec fn held(self) -> Seq<u8>; }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct CompressionSettings { _p: () }
impl CompressionSettings {
    // Legal sizes of blocks.
    pub uninterp spec fn legal(self) -> bool;
    #[verifier::external_body] pub fn default() -> (r: CompressionSettings) ensures r.legal() { unimplemented!() }
    #[verifier::external_body]
    pub fn block_size(&mut self, n: usize) -> (r: &mut CompressionSettings)
        requires n == 65536 || n == 262144 || n == 1048576 || n == 4194304
        ensures (*old(self)).legal() ==> (*r).legal() && (*final(r)).legal() == (*final(self)).legal()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn independent_blocks(&mut self, b: bool) -> (r: &mut CompressionSettings)
        ensures (*old(self)).legal() ==> (*final(self)).legal()
    { unimplemented!() }
    // A whole frame.
    #[verifier::external_body]
    pub fn compress<'a>(&self, d: &[u8], w: &mut VxMem<'a>) -> (r: Result<(), Error>)
        requires self.legal()
        ensures r is Ok, exists|b: Seq<u8>| (*final(w)).held() == (*old(w)).held() + b && #[trigger] encodes(b, d@)
    { unimplemented!() }
}
@@method [..] vx_all
pub fn vx_all(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == v@ { v.as_slice() }
pub struct Wrapper<'a> { pub writer: VxMem<'a>, pub settings: CompressionSettings, pub data: Vec<u8> }
impl<'a> VxBoxed<Wrapper<'a>> for Wrapper<'a> { open spec fn is(self, t: Wrapper<'a>) -> bool { t == self } fn boxed(self) -> (t: Wrapper<'a>) { self } }
@@path Box::new vx_boxed
impl<'a> Wrapper<'a> {
// Everything written is kept ...
@@fn src/compression/lz_pure.rs impl Write for Wrapper::write as Wrapper::write for C08
sig pub fn write(&mut self, buffer: &[u8]) -> (r: Result<usize, Error>)
spec
    ensures r matches Ok(n) && n <= buffer@.len() && (buffer@.len() > 0 ==> n > 0) && final(self).data@ == old(self).data@ + buffer@.take(n as int), final(self).writer == old(self).writer, final(self).settings == old(self).settings
@@end
@@fn src/compression/lz_pure.rs impl Write for Wrapper::flush as Wrapper::flush for C08
sig pub fn flush(&mut self) -> (r: Result<(), Error>)
spec
    ensures r is Ok, final(self).data@ == old(self).data@, final(self).settings == old(self).settings, final(self).writer == old(self).writer
@@end
// ... and encoded in the end.
@@fn src/compression/lz_pure.rs impl Drop for Wrapper::drop as Wrapper::close for C08
sig pub fn close(&mut self)
spec
    requires old(self).settings.legal()
    ensures exists|b: Seq<u8>| (*final(self)).writer.held() == (*old(self)).writer.held() + b && #[trigger] encodes(b, old(self).data@)
@@end
}
@@fn src/compression/lz_pure.rs default_lz4_block_size for C08,C21
sig pub fn default_lz4_block_size() -> (r: i32)
spec
    ensures r == 65536
@@end
impl Lz4Compression {
@@fn src/compression/lz_pure.rs Lz4Compression::get_effective_block_size for C08
sig pub fn get_effective_block_size(&self) -> (r: usize)
spec
    ensures r == 65536 || r == 262144 || r == 1048576 || r == 4194304,
        // The smallest that is large enough.
        self.block_size <= 4194304 ==> self.block_size <= r, 65536 < r ==> self.block_size * 4 > r
@@end
@@fn src/compression/lz_pure.rs impl Compression for Lz4Compression::decoder as Lz4Compression::decoder for C08
sig pub fn decoder<R: VxRead>(&self, r: R) -> (d: VxDecoder)
spec
    ensures d.decodes(r)
@@end
@@fn src/compression/lz_pure.rs impl Compression for Lz4Compression::encoder as Lz4Compression::encoder for C08
sig pub fn encoder<'a>(&self, writer: VxMem<'a>) -> (e: Wrapper<'a>)
spec
    ensures e.writer == writer, e.settings.legal(), e.data@.len() == 0
@@end
@@fn src/compression/lz_pure.rs impl Default for Lz4Compression::default as Lz4Compression::default for C08,C21
sig pub fn default() -> (r: Lz4Compression)
spec
    ensures r.block_size == 65536
@@end
}
}
