@@include meta.vrs
@@include paths.vrs
@@include streams.vrs
// C08: codecs.  The compression libraries are trusted to decode what they encode, given legal parameters.
verus! {
pub enum Format { Raw, Bzip2, Gzip, Lz4, Xz }
// The bytes are an encoding of the data.
pub uninterp spec fn encodes(f: Format, b: Seq<u8>, d: Seq<u8>) -> bool;
// What a decoder makes of a stream, and whether that ends by failing.
pub uninterp spec fn decoded(f: Format, b: Seq<u8>, fails: bool) -> (Seq<u8>, bool);
pub axiom fn lossless(f: Format, b: Seq<u8>, d: Seq<u8>)
    requires encodes(f, b, d)
    ensures decoded(f, b, false) == (d, false);
pub axiom fn raw_is_plain(b: Seq<u8>, d: Seq<u8>, fails: bool)
    ensures encodes(Format::Raw, b, d) == (b == d), decoded(Format::Raw, b, fails) == (b, fails);

// Decoders stream: what a part of a stream decodes to is a part of what the whole does.
pub axiom fn streaming(f: Format, b: Seq<u8>, n: int, fails: bool)
    requires 0 <= n <= b.len()
    ensures ({ let (p, d) = (decoded(f, b.take(n), fails).0, decoded(f, b, false).0); p.len() <= d.len() && p == d.take(p.len() as int) });

// A decoder over a stream.
#[verifier::external_body] pub struct VxDecoder { _p: () }
impl VxRead for VxDecoder {
    uninterp spec fn rest(self) -> Seq<u8>;
    uninterp spec fn fails(self) -> bool;
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
}
impl VxDecoder {
    pub open spec fn decodes<R: VxRead>(self, f: Format, r: R) -> bool { (self.rest(), self.fails()) == decoded(f, r.rest(), r.fails()) }
}
// An encoder into a buffer, which it completes when it is dropped.
#[verifier::external_body] pub struct VxEncoder<'a> { _p: &'a mut Vec<u8> }
impl<'a> VxWrite for VxEncoder<'a> {
    uninterp spec fn key(self) -> Seq<char>;
    uninterp spec fn written(self) -> Seq<u8>;
    uninterp spec fn flushed(self) -> bool;
    // Memory takes everything.
    open spec fn failed(self) -> bool { false }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), Error>) { unimplemented!() }
}
impl<'a> VxEncoder<'a> {
    // An encoder's key carries what does not change: its format, what the buffer held, and what it will hold.
    pub uninterp spec fn format_of(k: Seq<char>) -> Format;
    pub uninterp spec fn before(k: Seq<char>) -> Seq<u8>;
    #[verifier::prophetic] pub uninterp spec fn after(k: Seq<char>) -> Seq<u8>;
    #[verifier::prophetic] pub open spec fn fresh(self, f: Format, w: &'a mut Vec<u8>) -> bool {
        VxEncoder::format_of(self.key()) == f && VxEncoder::before(self.key()) == (*w)@ && VxEncoder::after(self.key()) == (*final(w))@ && self.written().len() == 0 && !self.failed()
    }
}
// The encoder goes out of scope.
#[verifier::external_body]
pub fn vx_drop<'a>(e: VxEncoder<'a>)
    ensures e.completed()
{ unimplemented!() }

pub open spec fn format(c: CompressionType) -> Format {
    match c { CompressionType::Raw(_) => Format::Raw, CompressionType::Bzip2(_) => Format::Bzip2, CompressionType::Gzip(_) => Format::Gzip, CompressionType::Lz4(_) => Format::Lz4, CompressionType::Xz(_) => Format::Xz }
}
pub trait VxCompression: Sized { spec fn standard() -> Self; fn default() -> (r: Self) ensures r == Self::standard(); }

// Raw.
#[verifier::external_body]
pub fn vx_plain_decoder<R: VxRead>(r: R) -> (d: VxDecoder) ensures d.decodes(Format::Raw, r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_plain_encoder<'a>(w: &'a mut Vec<u8>) -> (e: VxEncoder<'a>) ensures e.fresh(Format::Raw, w) { unimplemented!() }
impl VxCompression for RawCompression {
    open spec fn standard() -> RawCompression { RawCompression }
    fn default() -> (r: RawCompression) { RawCompression }
}
impl RawCompression {
@@path Box::new vx_plain_decoder
@@fn src/compression/raw.rs impl Compression for RawCompression::decoder as RawCompression::decoder for C08
sig pub fn decoder<R: VxRead>(&self, r: R) -> (d: VxDecoder)
spec
    ensures d.decodes(Format::Raw, r)
@@end
@@path Box::new vx_plain_encoder
@@fn src/compression/raw.rs impl Compression for RawCompression::encoder as RawCompression::encoder for C08
sig pub fn encoder<'a>(&self, w: &'a mut Vec<u8>) -> (e: VxEncoder<'a>)
spec
    ensures e.fresh(Format::Raw, w)
@@end
}
@@path Box::new vx_same
// Bzip2.
#[verifier::external_body] pub struct BzCompression { _p: () }
impl BzCompression { #[verifier::external_body] pub fn new(level: u32) -> (r: BzCompression) requires 1 <= level <= 9 { unimplemented!() } }
pub struct BzDecoder; pub struct BzEncoder;
impl BzDecoder { #[verifier::external_body] pub fn new<R: VxRead>(r: R) -> (d: VxDecoder) ensures d.decodes(Format::Bzip2, r) { unimplemented!() } }
impl BzEncoder { #[verifier::external_body] pub fn new<'a>(w: &'a mut Vec<u8>, c: BzCompression) -> (e: VxEncoder<'a>) ensures e.fresh(Format::Bzip2, w) { unimplemented!() } }
@@fn src/compression/bzip.rs default_bzip_block_size for C08,C21
sig pub fn default_bzip_block_size() -> (r: u8)
spec
    ensures r == 9
@@end
impl Bzip2Compression {
@@fn src/compression/bzip.rs Bzip2Compression::get_effective_block_size for C08
sig pub fn get_effective_block_size(&self) -> (r: u8)
spec
    ensures 1 <= r <= 9, 1 <= self.block_size <= 9 ==> r == self.block_size
@@end
@@fn src/compression/bzip.rs impl Compression for Bzip2Compression::decoder as Bzip2Compression::decoder for C08
sig pub fn decoder<R: VxRead>(&self, r: R) -> (d: VxDecoder)
spec
    ensures d.decodes(Format::Bzip2, r)
@@end
@@fn src/compression/bzip.rs impl Compression for Bzip2Compression::encoder as Bzip2Compression::encoder for C08
sig pub fn encoder<'a>(&self, w: &'a mut Vec<u8>) -> (e: VxEncoder<'a>)
spec
    ensures e.fresh(Format::Bzip2, w)
@@end
}
impl VxCompression for Bzip2Compression {
    open spec fn standard() -> Bzip2Compression { Bzip2Compression { block_size: 9 } }
@@fn src/compression/bzip.rs impl Default for Bzip2Compression::default as Bzip2Compression::default for C08,C21
sig fn default() -> (r: Bzip2Compression)
@@end
}
// Gzip.
#[verifier::external_body] pub struct GzCompression { _p: () }
impl GzCompression {
    #[verifier::external_body] pub fn new(level: u32) -> (r: GzCompression) requires level <= 9 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: GzCompression) { unimplemented!() }
}
pub struct GzDecoder; pub struct GzEncoder;
impl GzDecoder { #[verifier::external_body] pub fn new<R: VxRead>(r: R) -> (d: VxDecoder) ensures d.decodes(Format::Gzip, r) { unimplemented!() } }
impl GzEncoder { #[verifier::external_body] pub fn new<'a>(w: &'a mut Vec<u8>, c: GzCompression) -> (e: VxEncoder<'a>) ensures e.fresh(Format::Gzip, w) { unimplemented!() } }
@@fn src/compression/gzip.rs default_gzip_level for C08,C21
sig pub fn default_gzip_level() -> (r: i32)
spec
    ensures r == -1
@@end
impl GzipCompression {
@@fn src/compression/gzip.rs GzipCompression::get_effective_level for C08
sig pub fn get_effective_level(&self) -> (r: GzCompression)
@@end
@@fn src/compression/gzip.rs impl Compression for GzipCompression::decoder as GzipCompression::decoder for C08
sig pub fn decoder<R: VxRead>(&self, r: R) -> (d: VxDecoder)
spec
    ensures d.decodes(Format::Gzip, r)
@@end
@@fn src/compression/gzip.rs impl Compression for GzipCompression::encoder as GzipCompression::encoder for C08
sig pub fn encoder<'a>(&self, w: &'a mut Vec<u8>) -> (e: VxEncoder<'a>)
spec
    ensures e.fresh(Format::Gzip, w)
@@end
}
impl VxCompression for GzipCompression {
    open spec fn standard() -> GzipCompression { GzipCompression { level: -1i32 } }
@@fn src/compression/gzip.rs impl Default for GzipCompression::default as GzipCompression::default for C08,C21
sig fn default() -> (r: GzipCompression)
@@end
}
// Xz.
pub struct XzDecoder; pub struct XzEncoder;
impl XzDecoder { #[verifier::external_body] pub fn new<R: VxRead>(r: R) -> (d: VxDecoder) ensures d.decodes(Format::Xz, r) { unimplemented!() } }
impl XzEncoder { #[verifier::external_body] pub fn new<'a>(w: &'a mut Vec<u8>, level: u32) -> (e: VxEncoder<'a>) requires level <= 9 ensures e.fresh(Format::Xz, w) { unimplemented!() } }
@@fn src/compression/xz.rs default_xz_preset for C08,C21
sig pub fn default_xz_preset() -> (r: i32)
spec
    ensures r == 6
@@end
impl XzCompression {
@@fn src/compression/xz.rs XzCompression::get_effective_preset for C08
sig pub fn get_effective_preset(&self) -> (r: i32)
spec
    ensures 0 <= r <= 9, 0 <= self.preset <= 9 ==> r == self.preset
@@end
@@fn src/compression/xz.rs impl Compression for XzCompression::decoder as XzCompression::decoder for C08
sig pub fn decoder<R: VxRead>(&self, r: R) -> (d: VxDecoder)
spec
    ensures d.decodes(Format::Xz, r)
@@end
@@fn src/compression/xz.rs impl Compression for XzCompression::encoder as XzCompression::encoder for C08
sig pub fn encoder<'a>(&self, w: &'a mut Vec<u8>) -> (e: VxEncoder<'a>)
spec
    ensures e.fresh(Format::Xz, w)
@@end
}
impl VxCompression for XzCompression {
    open spec fn standard() -> XzCompression { XzCompression { preset: 6 } }
@@fn src/compression/xz.rs impl Default for XzCompression::default as XzCompression::default for C08,C21
sig fn default() -> (r: XzCompression)
@@end
}
// Lz4.
#[derive(Copy, Clone)]
pub enum BlockSize { Default, Max64KB, Max256KB, Max1MB, Max4MB }
impl BlockSize {
    #[verifier::external_body]
    pub fn get_size(&self) -> (r: usize) ensures r == (match *self { BlockSize::Default => 65536int, BlockSize::Max64KB => 65536, BlockSize::Max256KB => 262144, BlockSize::Max1MB => 1048576, BlockSize::Max4MB => 4194304 }) { unimplemented!() }
}
pub enum BlockMode { Linked, Independent }
pub struct Decoder; pub struct EncoderBuilder;
impl Decoder { #[verifier::external_body] pub fn new<R: VxRead>(r: R) -> (d: Result<VxDecoder, Error>) ensures d matches Ok(d) && d.decodes(Format::Lz4, r) { unimplemented!() } }
impl EncoderBuilder {
    #[verifier::external_body] pub fn new() -> (r: EncoderBuilder) { unimplemented!() }
    #[verifier::external_body] pub fn block_size(&mut self, s: BlockSize) -> (r: &mut EncoderBuilder) { unimplemented!() }
    #[verifier::external_body] pub fn block_mode(&mut self, s: BlockMode) -> (r: &mut EncoderBuilder) { unimplemented!() }
    #[verifier::external_body] pub fn build<'a>(&self, w: &'a mut Vec<u8>) -> (e: Result<VxEncoder<'a>, Error>) ensures e matches Ok(e) && e.fresh(Format::Lz4, w) { unimplemented!() }
}
pub struct Wrapper<'a> { pub s: Option<VxEncoder<'a>> }
impl<'a> VxEncoder<'a> {
    // What `write` accepts is a part of what it was given.
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8]) -> (r: Result<usize, Error>)
        ensures (*final(self)).key() == (*old(self)).key(), match r { Ok(n) => n <= b@.len() && (*final(self)).written() == (*old(self)).written() + b@.take(n as int) && (*final(self)).failed() == (*old(self)).failed(), Err(_) => (*final(self)).failed() }
    { unimplemented!() }
    // The library's encoder for Lz4 must be told to complete its stream.
    #[verifier::external_body]
    pub fn finish(self) -> (r: ((), Result<(), Error>))
        ensures r.1 is Ok, self.completed()
    { unimplemented!() }
    #[verifier::prophetic] pub open spec fn completed(self) -> bool {
        !self.failed() ==> exists|b: Seq<u8>| VxEncoder::after(self.key()) == VxEncoder::before(self.key()) + b && #[trigger] encodes(VxEncoder::format_of(self.key()), b, self.written())
    }
}
impl<'a> Wrapper<'a> {
@@fn src/compression/lz.rs impl Write for Wrapper::write as Wrapper::write for C08
sig pub fn write(&mut self, buffer: &[u8]) -> (r: Result<usize, Error>)
spec
    requires old(self).s is Some
    ensures final(self).s is Some, ({ let (e, f) = (old(self).s->Some_0, final(self).s->Some_0);
        f.key() == e.key() && match r { Ok(n) => n <= buffer@.len() && f.written() == e.written() + buffer@.take(n as int) && f.failed() == e.failed(), Err(_) => f.failed() } })
@@end
@@fn src/compression/lz.rs impl Write for Wrapper::flush as Wrapper::flush for C08
sig pub fn flush(&mut self) -> (r: Result<(), Error>)
spec
    requires old(self).s is Some
    ensures final(self).s is Some, final(self).s->Some_0.key() == old(self).s->Some_0.key(), match r { Ok(_) => final(self).s->Some_0.flushed() && final(self).s->Some_0.written() == old(self).s->Some_0.written() && final(self).s->Some_0.failed() == old(self).s->Some_0.failed(), Err(_) => final(self).s->Some_0.failed() }
@@end
@@fn src/compression/lz.rs impl Drop for Wrapper::drop as Wrapper::close for C08
sig pub fn close(&mut self)
spec
    ensures old(self).s matches Some(e) ==> e.completed()
@@end
}
pub fn vx_wrapped<'a>(w: Wrapper<'a>) -> (e: VxEncoder<'a>) requires w.s is Some ensures e == w.s->Some_0 { match w.s { Some(e) => e, None => vx_panic() } }
@@fn src/compression/lz.rs default_lz4_block_size for C08,C21
sig pub fn default_lz4_block_size() -> (r: i32)
spec
    ensures r == 65536
@@end
impl Lz4Compression {
@@fn src/compression/lz.rs Lz4Compression::get_effective_block_size for C08
sig pub fn get_effective_block_size(&self) -> (r: BlockSize)
@@end
@@fn src/compression/lz.rs impl Compression for Lz4Compression::decoder as Lz4Compression::decoder for C08
sig pub fn decoder<R: VxRead>(&self, r: R) -> (d: VxDecoder)
spec
    ensures d.decodes(Format::Lz4, r)
@@end
@@path Box::new vx_wrapped
@@fn src/compression/lz.rs impl Compression for Lz4Compression::encoder as Lz4Compression::encoder for C08
sig pub fn encoder<'a>(&self, w: &'a mut Vec<u8>) -> (e: VxEncoder<'a>)
spec
    ensures e.fresh(Format::Lz4, w)
@@end
}
impl VxCompression for Lz4Compression {
    open spec fn standard() -> Lz4Compression { Lz4Compression { block_size: 65536 } }
@@fn src/compression/lz.rs impl Default for Lz4Compression::default as Lz4Compression::default for C08,C21
sig fn default() -> (r: Lz4Compression)
@@end
}
impl CompressionType {
@@fn src/compression/mod.rs macro compression_from_impl#Raw impl From for CompressionType::from as CompressionType::from_Raw for C08,C21
sig pub fn from_Raw(c: RawCompression) -> (r: CompressionType)
spec
    ensures r == CompressionType::Raw(c)
@@end
}
impl VxInto<CompressionType> for RawCompression {
    open spec fn conv(self, t: CompressionType) -> bool { t == CompressionType::Raw(self) }
    fn vx_into(self) -> (r: CompressionType) { CompressionType::from_Raw(self) }
}
impl CompressionType {
@@fn src/compression/mod.rs macro compression_from_impl#Bzip2 impl From for CompressionType::from as CompressionType::from_Bzip2 for C08
sig pub fn from_Bzip2(c: Bzip2Compression) -> (r: CompressionType)
spec
    ensures r == CompressionType::Bzip2(c)
@@end
}
impl VxInto<CompressionType> for Bzip2Compression {
    open spec fn conv(self, t: CompressionType) -> bool { t == CompressionType::Bzip2(self) }
    fn vx_into(self) -> (r: CompressionType) { CompressionType::from_Bzip2(self) }
}
impl CompressionType {
@@fn src/compression/mod.rs macro compression_from_impl#Gzip impl From for CompressionType::from as CompressionType::from_Gzip for C08
sig pub fn from_Gzip(c: GzipCompression) -> (r: CompressionType)
spec
    ensures r == CompressionType::Gzip(c)
@@end
}
impl VxInto<CompressionType> for GzipCompression {
    open spec fn conv(self, t: CompressionType) -> bool { t == CompressionType::Gzip(self) }
    fn vx_into(self) -> (r: CompressionType) { CompressionType::from_Gzip(self) }
}
impl CompressionType {
@@fn src/compression/mod.rs macro compression_from_impl#Xz impl From for CompressionType::from as CompressionType::from_Xz for C08
sig pub fn from_Xz(c: XzCompression) -> (r: CompressionType)
spec
    ensures r == CompressionType::Xz(c)
@@end
}
impl VxInto<CompressionType> for XzCompression {
    open spec fn conv(self, t: CompressionType) -> bool { t == CompressionType::Xz(self) }
    fn vx_into(self) -> (r: CompressionType) { CompressionType::from_Xz(self) }
}
impl CompressionType {
@@fn src/compression/mod.rs macro compression_from_impl#Lz4 impl From for CompressionType::from as CompressionType::from_Lz4 for C08
sig pub fn from_Lz4(c: Lz4Compression) -> (r: CompressionType)
spec
    ensures r == CompressionType::Lz4(c)
@@end
}
impl VxInto<CompressionType> for Lz4Compression {
    open spec fn conv(self, t: CompressionType) -> bool { t == CompressionType::Lz4(self) }
    fn vx_into(self) -> (r: CompressionType) { CompressionType::from_Lz4(self) }
}

// The choice of codec, and names.
pub open spec fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower_char(s[i])) }
#[verifier::external_body]
pub fn vx_lower<'a>(s: &'a str) -> (r: &'a str) ensures r@ == lower(s@) { unimplemented!() }
@@method to_ascii_lowercase fn:vx_lower
@@method as_str fn:vx_same
pub open spec fn name_of(f: Format) -> Seq<char> { match f { Format::Raw => seq!['R', 'a', 'w'], Format::Bzip2 => seq!['B', 'z', 'i', 'p', '2'], Format::Gzip => seq!['G', 'z', 'i', 'p'], Format::Xz => seq!['X', 'z'], Format::Lz4 => seq!['L', 'z', '4'] } }
pub open spec fn standard(f: Format) -> CompressionType { match f { Format::Raw => CompressionType::Raw(RawCompression::standard()), Format::Bzip2 => CompressionType::Bzip2(Bzip2Compression::standard()), Format::Gzip => CompressionType::Gzip(GzipCompression::standard()), Format::Xz => CompressionType::Xz(XzCompression::standard()), Format::Lz4 => CompressionType::Lz4(Lz4Compression::standard()) } }
impl VxInto<Error> for ErrorKind {
    open spec fn conv(self, t: Error) -> bool { t.kind_of() == self }
    #[verifier::external_body] fn vx_into(self) -> (r: Error) { unimplemented!() }
}
@@path std::io::ErrorKind::InvalidInput ErrorKind::InvalidInput
pub struct VxFmtError;
#[verifier::external_body] pub fn vx_formatted() -> Result<(), VxFmtError> { unimplemented!() }
impl CompressionType {
@@fn src/compression/mod.rs CompressionType::new for C08,C21
sig pub fn new<T: VxCompression + VxInto<CompressionType>>() -> (r: CompressionType)
spec
    ensures T::standard().conv(r)
@@end
@@fn src/compression/mod.rs impl Default for CompressionType::default as CompressionType::default for C08,C21
sig pub fn default() -> (r: CompressionType)
spec
    ensures r == CompressionType::Raw(RawCompression)
@@end
@@fn src/compression/mod.rs CompressionType::is_default for C08,C21
sig pub fn is_default(&self) -> (r: bool)
spec
    ensures r == (format(*self) == Format::Raw)
@@end
@@fn src/compression/mod.rs impl Compression for CompressionType::decoder as CompressionType::decoder for C08
sig pub fn decoder<R: VxRead>(&self, r: R) -> (d: VxDecoder)
spec
    ensures d.decodes(format(*self), r)
@@end
@@fn src/compression/mod.rs impl Compression for CompressionType::encoder as CompressionType::encoder for C08
sig pub fn encoder<'a>(&self, w: &'a mut Vec<u8>) -> (e: VxEncoder<'a>)
spec
    ensures e.fresh(format(*self), w)
@@end
@@fn src/compression/mod.rs impl Display for CompressionType::fmt as CompressionType::fmt for C08
sig pub fn fmt(&self, f: &mut VxBuf) -> (r: Result<(), VxFmtError>)
spec
    ensures final(f)@ == old(f)@ + name_of(format(*self))
hint
    formatter
    strings
start
    proof {
        reveal_strlit("Raw"); reveal_strlit("Bzip2"); reveal_strlit("Gzip"); reveal_strlit("Xz"); reveal_strlit("Lz4");
        assert("Raw"@ =~= name_of(Format::Raw)); assert("Bzip2"@ =~= name_of(Format::Bzip2)); assert("Gzip"@ =~= name_of(Format::Gzip)); assert("Xz"@ =~= name_of(Format::Xz)); assert("Lz4"@ =~= name_of(Format::Lz4));
    }
@@end
@@fn src/compression/mod.rs impl FromStr for CompressionType::from_str as CompressionType::from_str for C08
sig pub fn from_str(s: &str) -> (r: Result<CompressionType, Error>)
spec
    ensures match r {
        Ok(c) => exists|f: Format| lower(s@) == #[trigger] lower(name_of(f)) && c == standard(f),
        Err(_) => forall|f: Format| lower(s@) != #[trigger] lower(name_of(f)),
    }
hint
    strings
start
    proof {
        reveal_strlit("raw"); reveal_strlit("bzip2"); reveal_strlit("gzip"); reveal_strlit("xz"); reveal_strlit("lz4");
        assert("raw"@ =~= lower(name_of(Format::Raw))); assert("bzip2"@ =~= lower(name_of(Format::Bzip2))); assert("gzip"@ =~= lower(name_of(Format::Gzip))); assert("xz"@ =~= lower(name_of(Format::Xz))); assert("lz4"@ =~= lower(name_of(Format::Lz4)));
    }
@@end
}
// The names of two formats differ, even ignoring case.
pub proof fn names_differ(f: Format, g: Format)
    requires lower(name_of(f)) == lower(name_of(g))
    ensures f == g
{
    assert(lower(name_of(f)).len() == name_of(f).len() && lower(name_of(g)).len() == name_of(g).len());
    assert(lower(name_of(f))[0] == lower_char(name_of(f)[0]) && lower(name_of(g))[0] == lower_char(name_of(g)[0]));
    assert(lower_char('R') == 'r' && lower_char('L') == 'l');
    assert(lower(name_of(f))[0] == lower(name_of(g))[0]);
}
}
