// The metadata types, extracted; types of dependencies are opaque.
verus! {
pub type GridCoord = Vec<u64>;
pub type ChunkCoord = Vec<u32>;
pub type CoordVec<T> = Vec<T>;
// A JSON value: the library only looks into objects.
pub enum Value { Object(JsonObject), Array(Vec<Value>), Leaf(VxLeaf) }
#[verifier::external_body] pub struct VxLeaf { _p: () }
#[verifier::external_body] pub struct JsonObject { _p: () }
@@struct src/compression/raw.rs RawCompression Copy, Clone, PartialEq, Eq, Structural
@@struct src/compression/bzip.rs Bzip2Compression Copy, Clone, PartialEq, Eq, Structural
@@struct src/compression/gzip.rs GzipCompression Copy, Clone, PartialEq, Eq, Structural
@@struct src/compression/lz.rs Lz4Compression Copy, Clone, PartialEq, Eq, Structural
@@struct src/compression/xz.rs XzCompression Copy, Clone, PartialEq, Eq, Structural
@@enum src/compression/mod.rs CompressionType Copy, Clone, PartialEq, Eq, Structural
@@struct src/lib.rs ExtensionMetadata
@@enum src/lib.rs MetadataError
@@enum src/data_type.rs IntSize Copy, Clone, PartialEq, Eq, Structural
@@enum src/data_type.rs FloatSize Copy, Clone, PartialEq, Eq, Structural
@@enum src/data_type.rs Endian Copy, Clone, PartialEq, Eq, Structural
#[allow(inconsistent_fields)]
@@enum src/data_type.rs DataType Copy, Clone, PartialEq, Eq, Structural
@@enum src/data_type.rs ExtensibleDataType
@@struct src/lib.rs ChunkGridMetadata
@@enum src/lib.rs Order
@@struct src/lib.rs ArrayMetadata

pub open spec fn nat64(s: Seq<u64>) -> Seq<nat> { Seq::new(s.len(), |i: int| s[i] as nat) }
pub open spec fn nat32(s: Seq<u32>) -> Seq<nat> { Seq::new(s.len(), |i: int| s[i] as nat) }

// Product of a sequence, taken dimension by dimension from the first.
pub open spec fn prod(s: Seq<nat>) -> nat decreases s.len()
{ if s.len() == 0 { 1 } else { prod(s.drop_last()) * s.last() } }
// All the products on the way fit.
pub open spec fn prod_fits(s: Seq<nat>) -> bool { forall|k: int| 0 <= k <= s.len() ==> #[trigger] prod(s.take(k)) <= u64::MAX }
pub proof fn prod_step(s: Seq<nat>, k: int)
    requires 0 <= k < s.len()
    ensures prod(s.take(k + 1)) == prod(s.take(k)) * s[k]
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }

// The number of chunks of size c that cover d elements.
pub open spec fn ceil(d: int, c: int) -> int { (d + c - 1) / c }

impl ArrayMetadata {
    pub open spec fn chunk(self) -> Seq<nat> { nat32(self.chunk_grid.chunk_shape@) }
    pub open spec fn dims(self) -> Seq<nat> { nat64(self.shape@) }
    // One chunk dimension of at least 1 per array dimension.
    pub open spec fn wf(self) -> bool {
        self.shape@.len() == self.chunk_grid.chunk_shape@.len() && forall|i: int| 0 <= i < self.chunk_grid.chunk_shape@.len() ==> #[trigger] self.chunk_grid.chunk_shape@[i] >= 1
    }
    pub open spec fn extent(self) -> Seq<nat> { Seq::new(self.shape@.len(), |i: int| ceil(self.shape@[i] as int, self.chunk_grid.chunk_shape@[i] as int) as nat) }
    pub open spec fn position_ok(self, p: Seq<u64>) -> bool {
        p.len() == self.shape@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] (p[i] as nat) < self.extent()[i]
    }
}
}
