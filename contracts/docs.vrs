@@include paths.vrs
@@include json.vrs
@@given codecs.vrs
@@given dtype.vrs
// C21: metadata documents.  What the derive macros of serde generate is extracted by the rules of extract/src/derive.rs.
verus! {
@@struct src/lib.rs EntryPointMetadata
@@struct src/lib.rs GroupMetadata

// Leaves of a document.
pub uninterp spec fn json_str(v: Value) -> Option<Seq<char>>;
pub uninterp spec fn json_int(v: Value) -> Option<int>;
pub uninterp spec fn json_bool(v: Value) -> Option<bool>;
pub uninterp spec fn json_null(v: Value) -> bool;
pub axiom fn kinds(v: Value)
    ensures !(v is Leaf) ==> json_str(v) is None && json_int(v) is None && json_bool(v) is None && !json_null(v),
        json_null(v) ==> json_str(v) is None && json_int(v) is None && json_bool(v) is None;

pub trait VxSerde: Sized {
    // Values the format can represent.
    spec fn ok(&self) -> bool;
    // The document reads as this value.
    spec fn reads(&self, v: Value) -> bool;
    // The document is this value's own: nothing more, nothing less.
    spec fn own(&self, v: Value) -> bool;
    spec fn same(&self, o: &Self) -> bool;
    // What a missing entry reads as.
    spec fn absent(&self) -> bool;
    // Its document is not null.
    spec fn solid(&self) -> bool;
    proof fn reflexive(&self)
        ensures self.same(self);
    proof fn unique(v: Value, a: Self, b: Self)
        requires a.reads(v), b.reads(v)
        ensures a.same(&b);
    proof fn one_absent(a: Self, b: Self)
        requires a.absent(), b.absent()
        ensures a.same(&b);
    proof fn not_null(&self, v: Value)
        requires self.reads(v), self.solid()
        ensures !json_null(v);
    fn vx_ser(&self) -> (r: Value)
        requires self.ok()
        ensures self.reads(r), self.own(r);
    fn vx_read(v: &Value) -> (r: Option<Self>)
        ensures match r { Some(m) => m.reads(*v), None => forall|m: Self| !(#[trigger] m.reads(*v)) };
    fn vx_missing() -> (r: Option<Self>)
        ensures match r { Some(m) => m.absent(), None => forall|m: Self| !(#[trigger] m.absent()) };
}
pub fn vx_de<T: VxSerde>(v: &Value) -> (r: Option<T>)
    ensures match r { Some(m) => m.reads(*v), None => forall|m: T| !(#[trigger] m.reads(*v)) }
{ T::vx_read(v) }
pub fn vx_missing<T: VxSerde>() -> (r: Option<T>)
    ensures match r { Some(m) => m.absent(), None => forall|m: T| !(#[trigger] m.absent()) }
{ T::vx_missing() }
// Documents of other forms that serde takes too, e.g., the fields of a structure as an array.
pub uninterp spec fn other<T>(v: Value) -> Option<T>;
#[verifier::external_body]
pub fn vx_de_other<T>(v: &Value) -> (r: Option<T>) ensures r == other::<T>(*v) { unimplemented!() }

// Scalars, strings, options, sequences and JSON values: serde and serde_json.
#[verifier::external_body]
pub fn vx_json_str(s: &'static str) -> (r: Value) ensures json_str(r) == Some(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_as_str(v: &Value) -> (r: Option<VxString>) ensures match r { Some(s) => json_str(*v) == Some(s@), None => json_str(*v) is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_json_int(i: i128) -> (r: Value) ensures json_int(r) == Some(i as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_as_int(v: &Value) -> (r: Option<i128>) ensures match r { Some(i) => json_int(*v) == Some(i as int), None => json_int(*v) is None || !(i128::MIN <= json_int(*v)->0 <= i128::MAX) } { unimplemented!() }
#[verifier::external_body]
pub fn vx_json_bool(b: bool) -> (r: Value) ensures json_bool(r) == Some(b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_as_bool(v: &Value) -> (r: Option<bool>) ensures r == json_bool(*v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unit() -> (r: Value) ensures json_null(r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_null(v: &Value) -> (r: bool) ensures r == json_null(*v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_value(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
pub fn vx_de_unit<T>(v: &Value, t: T) -> (r: Option<T>) ensures r == (if json_null(*v) { Some(t) } else { None }) { if vx_is_null(v) { Some(t) } else { None } }

impl VxSerde for VxString {
    open spec fn ok(&self) -> bool { true }
    open spec fn reads(&self, v: Value) -> bool { json_str(v) == Some(self@) }
    open spec fn own(&self, v: Value) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { self@ == o@ }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) {  }
    proof fn unique(v: Value, a: Self, b: Self) { }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
    fn vx_ser(&self) -> (r: Value) { vx_json_str(*self) }
    fn vx_read(v: &Value) -> (r: Option<Self>) { vx_as_str(v) }
    fn vx_missing() -> (r: Option<Self>) { None }
}
impl VxSerde for bool {
    open spec fn ok(&self) -> bool { true }
    open spec fn reads(&self, v: Value) -> bool { json_bool(v) == Some(*self) }
    open spec fn own(&self, v: Value) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) {  }
    proof fn unique(v: Value, a: Self, b: Self) { }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
    fn vx_ser(&self) -> (r: Value) { vx_json_bool(*self) }
    fn vx_read(v: &Value) -> (r: Option<Self>) { vx_as_bool(v) }
    fn vx_missing() -> (r: Option<Self>) { None }
}
macro_rules! ints { ($($t:ty),*) => { $(verus! {
impl VxSerde for $t {
    open spec fn ok(&self) -> bool { true }
    open spec fn reads(&self, v: Value) -> bool { json_int(v) == Some(*self as int) }
    open spec fn own(&self, v: Value) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) {  }
    proof fn unique(v: Value, a: Self, b: Self) { }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
    fn vx_ser(&self) -> (r: Value) { vx_json_int(*self as i128) }
    fn vx_read(v: &Value) -> (r: Option<Self>) { match vx_as_int(v) { Some(i) => if <$t>::MIN as i128 <= i && i <= <$t>::MAX as i128 { Some(i as $t) } else { None }, None => None } }
    fn vx_missing() -> (r: Option<Self>) { None }
}
})* } }
ints!(u64, u32, i32, u8);
impl VxSerde for Value {
    open spec fn ok(&self) -> bool { true }
    open spec fn reads(&self, v: Value) -> bool { v == *self }
    open spec fn own(&self, v: Value) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { !json_null(*self) }
    proof fn reflexive(&self) {  }
    proof fn unique(v: Value, a: Self, b: Self) { }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { }
    fn vx_ser(&self) -> (r: Value) { vx_clone_value(self) }
    fn vx_read(v: &Value) -> (r: Option<Self>) { Some(vx_clone_value(v)) }
    fn vx_missing() -> (r: Option<Self>) { None }
}
impl VxSerde for JsonObject {
    open spec fn ok(&self) -> bool { true }
    open spec fn reads(&self, v: Value) -> bool { v matches Value::Object(o) && o@ == self@ }
    open spec fn own(&self, v: Value) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { self@ == o@ }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) {  }
    proof fn unique(v: Value, a: Self, b: Self) { }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
    fn vx_ser(&self) -> (r: Value) { Value::Object(self.clone()) }
    fn vx_read(v: &Value) -> (r: Option<Self>) { match v { Value::Object(o) => Some(o.clone()), _ => None } }
    fn vx_missing() -> (r: Option<Self>) { None }
}
impl<T: VxSerde> VxSerde for Option<T> {
    open spec fn ok(&self) -> bool { *self matches Some(x) ==> x.ok() && x.solid() }
    open spec fn reads(&self, v: Value) -> bool { match *self { None => json_null(v), Some(x) => !json_null(v) && x.reads(v) } }
    open spec fn own(&self, v: Value) -> bool { *self matches Some(x) ==> x.own(v) }
    open spec fn same(&self, o: &Self) -> bool { match (*self, *o) { (None, None) => true, (Some(x), Some(y)) => x.same(&y), _ => false } }
    open spec fn absent(&self) -> bool { *self is None }
    open spec fn solid(&self) -> bool { *self matches Some(x) && x.solid() }
    proof fn reflexive(&self) { if let Some(x) = self { x.reflexive(); } }
    proof fn unique(v: Value, a: Self, b: Self) { if a is Some && b is Some { T::unique(v, a->0, b->0); } }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { }
    fn vx_ser(&self) -> (r: Value) { match self { None => vx_unit(), Some(x) => { let r = x.vx_ser(); proof { x.not_null(r); } r } } }
    fn vx_read(v: &Value) -> (r: Option<Self>) {
        if vx_is_null(v) { Some(None) } else { match T::vx_read(v) {
            Some(x) => Some(Some(x)),
            None => { proof { assert forall|m: Option<T>| !(#[trigger] m.reads(*v)) by { if m is Some { assert(!m->0.reads(*v)); } } } None }
        } }
    }
    fn vx_missing() -> (r: Option<Self>) { Some(None) }
}
impl<T: VxSerde> VxSerde for Vec<T> {
    open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).ok() }
    open spec fn reads(&self, v: Value) -> bool { v matches Value::Array(a) && a@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).reads(a@[i]) }
    open spec fn own(&self, v: Value) -> bool { v matches Value::Array(a) && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).own(a@[i]) }
    open spec fn same(&self, o: &Self) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).same(&o@[i]) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { assert forall|i: int| 0 <= i < self@.len() implies (#[trigger] self@[i]).same(&self@[i]) by { self@[i].reflexive(); } }
    proof fn unique(v: Value, a: Self, b: Self) {
        let w = v->Array_0;
        assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] a@[i]).same(&b@[i]) by { assert(b@[i].reads(w@[i])); T::unique(w@[i], a@[i], b@[i]); }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
    fn vx_ser(&self) -> (r: Value) {
        let mut a: Vec<Value> = Vec::new();
        let mut i = 0;
        while i < self.len()
            invariant i <= self@.len(), a@.len() == i, self.ok(), forall|k: int| 0 <= k < i ==> (#[trigger] self@[k]).reads(a@[k]) && self@[k].own(a@[k])
            decreases self@.len() - i
        { assert(self@[i as int].ok()); a.push(self[i].vx_ser()); i += 1; }
        Value::Array(a)
    }
    fn vx_read(v: &Value) -> (r: Option<Self>) {
        match v {
            Value::Array(a) => {
                let mut r: Vec<T> = Vec::new();
                let mut i = 0;
                while i < a.len()
                    invariant i <= a@.len(), r@.len() == i, *v == Value::Array(*a), forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]).reads(a@[k])
                    decreases a@.len() - i
                {
                    match T::vx_read(&a[i]) {
                        Some(x) => { r.push(x); }
                        None => { proof { assert forall|m: Vec<T>| !(#[trigger] m.reads(*v)) by { if m.reads(*v) { assert(m@[i as int].reads(a@[i as int])); } } } return None; }
                    }
                    i += 1;
                }
                Some(r)
            }
            _ => None,
        }
    }
    fn vx_missing() -> (r: Option<Self>) { None }
}

// The data type: a string.
pub struct VxToJson;
#[verifier::external_body] pub struct VxSerError { _p: () }
pub uninterp spec fn str_value(s: Seq<char>) -> Value;
pub axiom fn str_value_is(s: Seq<char>) ensures json_str(str_value(s)) == Some(s);
impl VxSerializer for VxToJson {
    type Ok = Value;
    type Error = VxSerError;
    open spec fn answer(self, s: Seq<char>) -> Result<Value, VxSerError> { Ok(str_value(s)) }
    #[verifier::external_body]
    fn serialize_str(self, v: &str) -> (r: Result<Value, VxSerError>) { unimplemented!() }
}
pub struct VxFromJson<'a> { pub v: &'a Value }
#[verifier::external_body] pub struct VxDeError { _p: () }
impl DeError for VxDeError { #[verifier::external_body] fn invalid_value(u: Unexpected, v: &DataTypeVisitor) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn vx_de_error() -> VxDeError { unimplemented!() }
impl<'a> VxFromJson<'a> {
    pub fn deserialize_str(self, visitor: DataTypeVisitor) -> (r: Result<DataType, VxDeError>)
        ensures match r { Ok(d) => json_str(*self.v) matches Some(s) && denotes(s) == Some(d), Err(_) => json_str(*self.v) matches Some(s) ==> denotes(s) is None }
    { match vx_as_str(self.v) { Some(s) => visitor.visit_str(s), None => Err(vx_de_error()) } }
}
impl DataType {
@@fn src/data_type.rs impl Deserialize for DataType::deserialize as DataType::deserialize for C21,C09
sig pub fn deserialize(deserializer: VxFromJson) -> (r: Result<DataType, VxDeError>)
spec
    ensures match r { Ok(d) => json_str(*deserializer.v) matches Some(s) && denotes(s) == Some(d), Err(_) => json_str(*deserializer.v) matches Some(s) ==> denotes(s) is None }
@@end
}
impl VxSerde for DataType {
    open spec fn ok(&self) -> bool { *self matches DataType::Raw { size } ==> size % 8 == 0 }
    open spec fn reads(&self, v: Value) -> bool { json_str(v) matches Some(s) && reads_back(s, *self) }
    open spec fn own(&self, v: Value) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { *self == *o || one_byte(*self) && one_byte(*o) && same_kind(*self, *o) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) {  }
    proof fn unique(v: Value, a: Self, b: Self) { }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
    fn vx_ser(&self) -> (r: Value) {
        let r = self.serialize(VxToJson);
        match r { Ok(v) => { proof { let s = choose|s: Seq<char>| #[trigger] reads_back(s, *self) && r == VxToJson.answer(s); str_value_is(s); } v } Err(_) => vx_panic() }
    }
    fn vx_read(v: &Value) -> (r: Option<Self>) { match DataType::deserialize(VxFromJson { v }) { Ok(d) => Some(d), Err(_) => None } }
    fn vx_missing() -> (r: Option<Self>) { None }
}
}
verus! {
impl VxSerde for RawCompression {
    open spec fn ok(&self) -> bool { true }
    open spec fn reads(&self, v: Value) -> bool { json_null(v) }
    open spec fn own(&self, v: Value) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { true }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { false }
    proof fn reflexive(&self) { }
    proof fn unique(v: Value, a: Self, b: Self) { }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { }
@@fn src/compression/raw.rs derive Serialize for RawCompression as RawCompression::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
@@end
@@fn src/compression/raw.rs derive Deserialize for RawCompression as RawCompression::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { assert(forall|m: RawCompression| (#[trigger] m.reads(*v)) == json_null(*v)); }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
// The order of elements: "C" or "F".
impl VxSerde for Order {
    open spec fn ok(&self) -> bool { true }
    open spec fn reads(&self, v: Value) -> bool {
        match json_str(v) { Some(s) => match *self { Order::RowMajor => s == "C"@, Order::ColumnMajor => s == "F"@ }, None => v is Object && other::<Order>(v) == Some(*self) }
    }
    open spec fn own(&self, v: Value) -> bool { json_str(v) is Some }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { }
    proof fn unique(v: Value, a: Self, b: Self) { reveal_strlit("C"); reveal_strlit("F"); assert("C"@[0] != "F"@[0]); }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/lib.rs derive Serialize for Order as Order::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
@@end
@@fn src/lib.rs derive Deserialize for Order as Order::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { reveal_strlit("C"); reveal_strlit("F"); assert("C"@[0] != "F"@[0]); kinds(*v); }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
// The codec and its configuration.
pub open spec fn codec_id(f: Format) -> Seq<char> { match f { Format::Raw => "raw"@, Format::Bzip2 => "bzip2"@, Format::Gzip => "https://purl.org/zarr/spec/codec/gzip/1.0"@, Format::Lz4 => "lz4"@, Format::Xz => "xz"@ } }
proof fn codec_ids()
    ensures forall|f: Format, g: Format| #![trigger codec_id(f), codec_id(g)] codec_id(f) == codec_id(g) ==> f == g, "codec"@ != "configuration"@,
        forall|f: Format| #![trigger codec_id(f)] codec_id(f) == "raw"@ ==> f is Raw,
        forall|f: Format| #![trigger codec_id(f)] codec_id(f) == "bzip2"@ ==> f is Bzip2,
        forall|f: Format| #![trigger codec_id(f)] codec_id(f) == "https://purl.org/zarr/spec/codec/gzip/1.0"@ ==> f is Gzip,
        forall|f: Format| #![trigger codec_id(f)] codec_id(f) == "lz4"@ ==> f is Lz4,
        forall|f: Format| #![trigger codec_id(f)] codec_id(f) == "xz"@ ==> f is Xz,
{
    reveal_strlit("raw"); reveal_strlit("bzip2"); reveal_strlit("https://purl.org/zarr/spec/codec/gzip/1.0"); reveal_strlit("lz4"); reveal_strlit("xz"); reveal_strlit("codec"); reveal_strlit("configuration");
    assert("codec"@.len() != "configuration"@.len());
    assert("raw"@[0] == 'r' && "bzip2"@[0] == 'b' && "https://purl.org/zarr/spec/codec/gzip/1.0"@[0] == 'h' && "lz4"@[0] == 'l' && "xz"@[0] == 'x');
    assert forall|f: Format, g: Format| #![trigger codec_id(f), codec_id(g)] codec_id(f) == codec_id(g) implies f == g by { assert(codec_id(f)[0] == codec_id(g)[0]); }
}
impl CompressionType {
    pub open spec fn config_reads(self, v: Value) -> bool { match self { CompressionType::Raw(c) => c.reads(v), CompressionType::Bzip2(c) => c.reads(v), CompressionType::Gzip(c) => c.reads(v), CompressionType::Lz4(c) => c.reads(v), CompressionType::Xz(c) => c.reads(v) } }
    pub open spec fn config_own(self, v: Value) -> bool { match self { CompressionType::Raw(c) => c.own(v), CompressionType::Bzip2(c) => c.own(v), CompressionType::Gzip(c) => c.own(v), CompressionType::Lz4(c) => c.own(v), CompressionType::Xz(c) => c.own(v) } }
}
impl VxSerde for CompressionType {
    open spec fn ok(&self) -> bool { true }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => o@.contains_key("codec"@) && match json_str(o@["codec"@]) {
                Some(s) => s == codec_id(format(*self)) && o@.contains_key("configuration"@) && self.config_reads(o@["configuration"@]),
                None => o@["codec"@] is Object && other::<CompressionType>(v) == Some(*self),
            },
            Value::Array(_) => other::<CompressionType>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("codec"@) && json_str(o@["codec"@]) is Some && o@.contains_key("configuration"@) && self.config_own(o@["configuration"@])
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "codec"@ || k == "configuration"@)
    }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { }
    proof fn unique(v: Value, a: Self, b: Self) {
        codec_ids();
        if let Value::Object(o) = v { if json_str(o@["codec"@]) is Some {
            let c = o@["configuration"@];
            assert(format(a) == format(b));
            match (a, b) {
                (CompressionType::Bzip2(x), CompressionType::Bzip2(y)) => { VxSerde::unique(c, x, y); }
                (CompressionType::Gzip(x), CompressionType::Gzip(y)) => { VxSerde::unique(c, x, y); }
                (CompressionType::Lz4(x), CompressionType::Lz4(y)) => { VxSerde::unique(c, x, y); }
                (CompressionType::Xz(x), CompressionType::Xz(y)) => { VxSerde::unique(c, x, y); }
                _ => { }
            }
        } }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/compression/mod.rs derive Serialize for CompressionType as CompressionType::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    proof { codec_ids(); }
@@end
@@fn src/compression/mod.rs derive Deserialize for CompressionType as CompressionType::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { codec_ids(); if let Value::Object(o) = v { if o@.contains_key("codec"@) { kinds(o@["codec"@]); } } }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
// A core data type is a string, an extended one an object.
proof fn names_extended()
    ensures "extension"@ != "type"@ && "extension"@ != "fallback"@ && "type"@ != "fallback"@
{
    reveal_strlit("extension"); reveal_strlit("type"); reveal_strlit("fallback");
    assert("extension"@.len() != "type"@.len() && "extension"@.len() != "fallback"@.len() && "type"@.len() != "fallback"@.len());
}
proof fn all_kinds()
    ensures forall|v: Value| (#[trigger] json_str(v)) is Some ==> v is Leaf
{ assert forall|v: Value| (#[trigger] json_str(v)) is Some implies v is Leaf by { kinds(v); } }
pub open spec fn names_type(v: Value) -> bool { json_str(v) matches Some(s) && denotes(s) is Some }
impl VxSerde for ExtensibleDataType {
    open spec fn ok(&self) -> bool { match *self { ExtensibleDataType::Core(d) => d.ok(), ExtensibleDataType::Extended { extension, type_string, fallback } => fallback.ok() } }
    open spec fn reads(&self, v: Value) -> bool {
        if names_type(v) { *self matches ExtensibleDataType::Core(d) && d.reads(v) }
        else {
            match v {
                Value::Object(o) => *self matches ExtensibleDataType::Extended { extension, type_string, fallback }
                    && (if o@.contains_key("extension"@) { extension.reads(o@["extension"@]) } else { extension.absent() })
                    && (if o@.contains_key("type"@) { type_string.reads(o@["type"@]) } else { type_string.absent() })
                    && (if o@.contains_key("fallback"@) { fallback.reads(o@["fallback"@]) } else { fallback.absent() }),
                Value::Array(_) => other::<ExtensibleDataType>(v) == Some(*self),
                _ => false,
            }
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        match *self {
            ExtensibleDataType::Core(d) => d.own(v),
            ExtensibleDataType::Extended { extension, type_string, fallback } => v matches Value::Object(o) && o@.contains_key("extension"@) && o@.contains_key("type"@) && o@.contains_key("fallback"@) == (fallback is Some)
                && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "extension"@ || k == "type"@ || k == "fallback"@),
        }
    }
    open spec fn same(&self, o: &Self) -> bool {
        match (*self, *o) {
            (ExtensibleDataType::Core(d), ExtensibleDataType::Core(e)) => d.same(&e),
            (ExtensibleDataType::Extended { extension: a, type_string: b, fallback: c }, ExtensibleDataType::Extended { extension: d, type_string: e, fallback: f }) => a.same(&d) && b.same(&e) && c.same(&f),
            _ => false,
        }
    }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { match self { ExtensibleDataType::Core(d) => { d.reflexive(); } ExtensibleDataType::Extended { extension, type_string, fallback } => { fallback.reflexive(); } } }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if names_type(v) { VxSerde::unique(v, a->Core_0, b->Core_0); }
        else if let Value::Object(o) = v {
            if o@.contains_key("fallback"@) { VxSerde::unique(o@["fallback"@], a->fallback, b->fallback); }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/data_type.rs derive Serialize for ExtensibleDataType as ExtensibleDataType::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    proof { names_extended(); all_kinds(); }
@@end
@@fn src/data_type.rs derive Deserialize for ExtensibleDataType as ExtensibleDataType::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { names_extended(); kinds(*v); }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
}
verus! {
impl VxSerde for GzipCompression {
    open spec fn ok(&self) -> bool { self.level.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("level"@) { self.level.reads(o@["level"@]) } else { self.level.same(&-1i32) }),
            Value::Array(_) => other::<GzipCompression>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("level"@)
            && (o@.contains_key("level"@) ==> self.level.own(o@["level"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "level"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.level.same(&o.level) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.level.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("level"@) { VxSerde::unique(o@["level"@], a.level, b.level); } else {  }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/compression/gzip.rs derive Serialize for GzipCompression as GzipCompression::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    
@@end
@@fn src/compression/gzip.rs derive Deserialize for GzipCompression as GzipCompression::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
impl VxSerde for Bzip2Compression {
    open spec fn ok(&self) -> bool { self.block_size.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("blockSize"@) { self.block_size.reads(o@["blockSize"@]) } else { self.block_size.same(&9u8) }),
            Value::Array(_) => other::<Bzip2Compression>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("blockSize"@)
            && (o@.contains_key("blockSize"@) ==> self.block_size.own(o@["blockSize"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "blockSize"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.block_size.same(&o.block_size) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.block_size.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("blockSize"@) { VxSerde::unique(o@["blockSize"@], a.block_size, b.block_size); } else {  }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/compression/bzip.rs derive Serialize for Bzip2Compression as Bzip2Compression::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    
@@end
@@fn src/compression/bzip.rs derive Deserialize for Bzip2Compression as Bzip2Compression::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
impl VxSerde for Lz4Compression {
    open spec fn ok(&self) -> bool { self.block_size.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("blockSize"@) { self.block_size.reads(o@["blockSize"@]) } else { self.block_size.same(&65536i32) }),
            Value::Array(_) => other::<Lz4Compression>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("blockSize"@)
            && (o@.contains_key("blockSize"@) ==> self.block_size.own(o@["blockSize"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "blockSize"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.block_size.same(&o.block_size) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.block_size.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("blockSize"@) { VxSerde::unique(o@["blockSize"@], a.block_size, b.block_size); } else {  }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/compression/lz.rs derive Serialize for Lz4Compression as Lz4Compression::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    
@@end
@@fn src/compression/lz.rs derive Deserialize for Lz4Compression as Lz4Compression::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
// The codec with the feature lz_pure.
pub mod pure {
use super::*;
verus! {
@@struct src/compression/lz_pure.rs Lz4Compression Copy, Clone
@@fn src/compression/lz_pure.rs default_lz4_block_size as pure::default_lz4_block_size for C21
sig pub fn default_lz4_block_size() -> (r: i32)
spec
    ensures r == 65536
@@end
impl VxSerde for Lz4Compression {
    open spec fn ok(&self) -> bool { self.block_size.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("blockSize"@) { self.block_size.reads(o@["blockSize"@]) } else { self.block_size.same(&65536i32) }),
            Value::Array(_) => other::<Lz4Compression>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("blockSize"@)
            && (o@.contains_key("blockSize"@) ==> self.block_size.own(o@["blockSize"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "blockSize"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.block_size.same(&o.block_size) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.block_size.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("blockSize"@) { VxSerde::unique(o@["blockSize"@], a.block_size, b.block_size); } else {  }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/compression/lz_pure.rs derive Serialize for Lz4Compression as pure::Lz4Compression::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    
@@end
@@fn src/compression/lz_pure.rs derive Deserialize for Lz4Compression as pure::Lz4Compression::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
}
}
impl VxSerde for XzCompression {
    open spec fn ok(&self) -> bool { self.preset.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("preset"@) { self.preset.reads(o@["preset"@]) } else { self.preset.same(&6i32) }),
            Value::Array(_) => other::<XzCompression>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("preset"@)
            && (o@.contains_key("preset"@) ==> self.preset.own(o@["preset"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "preset"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.preset.same(&o.preset) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.preset.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("preset"@) { VxSerde::unique(o@["preset"@], a.preset, b.preset); } else {  }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/compression/xz.rs derive Serialize for XzCompression as XzCompression::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    
@@end
@@fn src/compression/xz.rs derive Deserialize for XzCompression as XzCompression::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
proof fn names_extensionmetadata()
    ensures "extension"@ != "must_understand"@ && "extension"@ != "configuration"@ && "must_understand"@ != "configuration"@
{
    reveal_strlit("extension"); reveal_strlit("must_understand"); reveal_strlit("configuration");
    assert("extension"@.len() != "must_understand"@.len());
    assert("extension"@.len() != "configuration"@.len());
    assert("must_understand"@.len() != "configuration"@.len());
}
impl VxSerde for ExtensionMetadata {
    open spec fn ok(&self) -> bool { self.extension.ok() && self.must_understand.ok() && self.configuration.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("extension"@) { self.extension.reads(o@["extension"@]) } else { self.extension.absent() })
                && (if o@.contains_key("must_understand"@) { self.must_understand.reads(o@["must_understand"@]) } else { self.must_understand.absent() })
                && (if o@.contains_key("configuration"@) { self.configuration.reads(o@["configuration"@]) } else { self.configuration.absent() }),
            Value::Array(_) => other::<ExtensionMetadata>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("extension"@)
            && (o@.contains_key("extension"@) ==> self.extension.own(o@["extension"@]))
            && o@.contains_key("must_understand"@)
            && (o@.contains_key("must_understand"@) ==> self.must_understand.own(o@["must_understand"@]))
            && o@.contains_key("configuration"@) == !(self.configuration is None)
            && (o@.contains_key("configuration"@) ==> self.configuration.own(o@["configuration"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "extension"@ || k == "must_understand"@ || k == "configuration"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.extension.same(&o.extension) && self.must_understand.same(&o.must_understand) && self.configuration.same(&o.configuration) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.extension.reflexive(); self.must_understand.reflexive(); self.configuration.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("extension"@) { VxSerde::unique(o@["extension"@], a.extension, b.extension); } else { VxSerde::one_absent(a.extension, b.extension); }
            if o@.contains_key("must_understand"@) { VxSerde::unique(o@["must_understand"@], a.must_understand, b.must_understand); } else { VxSerde::one_absent(a.must_understand, b.must_understand); }
            if o@.contains_key("configuration"@) { VxSerde::unique(o@["configuration"@], a.configuration, b.configuration); } else { VxSerde::one_absent(a.configuration, b.configuration); }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/lib.rs derive Serialize for ExtensionMetadata as ExtensionMetadata::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    proof { names_extensionmetadata(); }
@@end
@@fn src/lib.rs derive Deserialize for ExtensionMetadata as ExtensionMetadata::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { names_extensionmetadata(); }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
proof fn names_entrypointmetadata()
    ensures "zarr_format"@ != "metadata_encoding"@ && "zarr_format"@ != "metadata_key_suffix"@ && "zarr_format"@ != "extensions"@ && "metadata_encoding"@ != "metadata_key_suffix"@ && "metadata_encoding"@ != "extensions"@ && "metadata_key_suffix"@ != "extensions"@
{
    reveal_strlit("zarr_format"); reveal_strlit("metadata_encoding"); reveal_strlit("metadata_key_suffix"); reveal_strlit("extensions");
    assert("zarr_format"@.len() != "metadata_encoding"@.len());
    assert("zarr_format"@.len() != "metadata_key_suffix"@.len());
    assert("zarr_format"@.len() != "extensions"@.len());
    assert("metadata_encoding"@.len() != "metadata_key_suffix"@.len());
    assert("metadata_encoding"@.len() != "extensions"@.len());
    assert("metadata_key_suffix"@.len() != "extensions"@.len());
}
impl VxSerde for EntryPointMetadata {
    open spec fn ok(&self) -> bool { self.zarr_format.ok() && self.metadata_encoding.ok() && self.metadata_key_suffix.ok() && self.extensions.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("zarr_format"@) { self.zarr_format.reads(o@["zarr_format"@]) } else { self.zarr_format.absent() })
                && (if o@.contains_key("metadata_encoding"@) { self.metadata_encoding.reads(o@["metadata_encoding"@]) } else { self.metadata_encoding.absent() })
                && (if o@.contains_key("metadata_key_suffix"@) { self.metadata_key_suffix.reads(o@["metadata_key_suffix"@]) } else { self.metadata_key_suffix.absent() })
                && (if o@.contains_key("extensions"@) { self.extensions.reads(o@["extensions"@]) } else { self.extensions.absent() }),
            Value::Array(_) => other::<EntryPointMetadata>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("zarr_format"@)
            && (o@.contains_key("zarr_format"@) ==> self.zarr_format.own(o@["zarr_format"@]))
            && o@.contains_key("metadata_encoding"@)
            && (o@.contains_key("metadata_encoding"@) ==> self.metadata_encoding.own(o@["metadata_encoding"@]))
            && o@.contains_key("metadata_key_suffix"@)
            && (o@.contains_key("metadata_key_suffix"@) ==> self.metadata_key_suffix.own(o@["metadata_key_suffix"@]))
            && o@.contains_key("extensions"@)
            && (o@.contains_key("extensions"@) ==> self.extensions.own(o@["extensions"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "zarr_format"@ || k == "metadata_encoding"@ || k == "metadata_key_suffix"@ || k == "extensions"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.zarr_format.same(&o.zarr_format) && self.metadata_encoding.same(&o.metadata_encoding) && self.metadata_key_suffix.same(&o.metadata_key_suffix) && self.extensions.same(&o.extensions) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.zarr_format.reflexive(); self.metadata_encoding.reflexive(); self.metadata_key_suffix.reflexive(); self.extensions.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("zarr_format"@) { VxSerde::unique(o@["zarr_format"@], a.zarr_format, b.zarr_format); } else { VxSerde::one_absent(a.zarr_format, b.zarr_format); }
            if o@.contains_key("metadata_encoding"@) { VxSerde::unique(o@["metadata_encoding"@], a.metadata_encoding, b.metadata_encoding); } else { VxSerde::one_absent(a.metadata_encoding, b.metadata_encoding); }
            if o@.contains_key("metadata_key_suffix"@) { VxSerde::unique(o@["metadata_key_suffix"@], a.metadata_key_suffix, b.metadata_key_suffix); } else { VxSerde::one_absent(a.metadata_key_suffix, b.metadata_key_suffix); }
            if o@.contains_key("extensions"@) { VxSerde::unique(o@["extensions"@], a.extensions, b.extensions); } else { VxSerde::one_absent(a.extensions, b.extensions); }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/lib.rs derive Serialize for EntryPointMetadata as EntryPointMetadata::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    proof { names_entrypointmetadata(); }
@@end
@@fn src/lib.rs derive Deserialize for EntryPointMetadata as EntryPointMetadata::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { names_entrypointmetadata(); }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
proof fn names_groupmetadata()
    ensures "extensions"@ != "attributes"@
{
    reveal_strlit("extensions"); reveal_strlit("attributes");
    assert("extensions"@[0] != "attributes"@[0]);
}
impl VxSerde for GroupMetadata {
    open spec fn ok(&self) -> bool { self.extensions.ok() && self.attributes.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("extensions"@) { self.extensions.reads(o@["extensions"@]) } else { self.extensions.absent() })
                && (if o@.contains_key("attributes"@) { self.attributes.reads(o@["attributes"@]) } else { self.attributes.absent() }),
            Value::Array(_) => other::<GroupMetadata>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("extensions"@)
            && (o@.contains_key("extensions"@) ==> self.extensions.own(o@["extensions"@]))
            && o@.contains_key("attributes"@)
            && (o@.contains_key("attributes"@) ==> self.attributes.own(o@["attributes"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "extensions"@ || k == "attributes"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.extensions.same(&o.extensions) && self.attributes.same(&o.attributes) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.extensions.reflexive(); self.attributes.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("extensions"@) { VxSerde::unique(o@["extensions"@], a.extensions, b.extensions); } else { VxSerde::one_absent(a.extensions, b.extensions); }
            if o@.contains_key("attributes"@) { VxSerde::unique(o@["attributes"@], a.attributes, b.attributes); } else { VxSerde::one_absent(a.attributes, b.attributes); }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/lib.rs derive Serialize for GroupMetadata as GroupMetadata::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    proof { names_groupmetadata(); }
@@end
@@fn src/lib.rs derive Deserialize for GroupMetadata as GroupMetadata::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { names_groupmetadata(); }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
proof fn names_chunkgridmetadata()
    ensures "type"@ != "chunk_shape"@ && "type"@ != "separator"@ && "chunk_shape"@ != "separator"@
{
    reveal_strlit("type"); reveal_strlit("chunk_shape"); reveal_strlit("separator");
    assert("type"@.len() != "chunk_shape"@.len());
    assert("type"@.len() != "separator"@.len());
    assert("chunk_shape"@.len() != "separator"@.len());
}
impl VxSerde for ChunkGridMetadata {
    open spec fn ok(&self) -> bool { self.grid_type.ok() && self.chunk_shape.ok() && self.separator.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("type"@) { self.grid_type.reads(o@["type"@]) } else { self.grid_type.absent() })
                && (if o@.contains_key("chunk_shape"@) { self.chunk_shape.reads(o@["chunk_shape"@]) } else { self.chunk_shape.absent() })
                && (if o@.contains_key("separator"@) { self.separator.reads(o@["separator"@]) } else { self.separator.absent() }),
            Value::Array(_) => other::<ChunkGridMetadata>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("type"@)
            && (o@.contains_key("type"@) ==> self.grid_type.own(o@["type"@]))
            && o@.contains_key("chunk_shape"@)
            && (o@.contains_key("chunk_shape"@) ==> self.chunk_shape.own(o@["chunk_shape"@]))
            && o@.contains_key("separator"@)
            && (o@.contains_key("separator"@) ==> self.separator.own(o@["separator"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "type"@ || k == "chunk_shape"@ || k == "separator"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.grid_type.same(&o.grid_type) && self.chunk_shape.same(&o.chunk_shape) && self.separator.same(&o.separator) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.grid_type.reflexive(); self.chunk_shape.reflexive(); self.separator.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("type"@) { VxSerde::unique(o@["type"@], a.grid_type, b.grid_type); } else { VxSerde::one_absent(a.grid_type, b.grid_type); }
            if o@.contains_key("chunk_shape"@) { VxSerde::unique(o@["chunk_shape"@], a.chunk_shape, b.chunk_shape); } else { VxSerde::one_absent(a.chunk_shape, b.chunk_shape); }
            if o@.contains_key("separator"@) { VxSerde::unique(o@["separator"@], a.separator, b.separator); } else { VxSerde::one_absent(a.separator, b.separator); }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/lib.rs derive Serialize for ChunkGridMetadata as ChunkGridMetadata::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    proof { names_chunkgridmetadata(); }
@@end
@@fn src/lib.rs derive Deserialize for ChunkGridMetadata as ChunkGridMetadata::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { names_chunkgridmetadata(); }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
proof fn names_arraymetadata()
    ensures "shape"@ != "data_type"@ && "shape"@ != "chunk_grid"@ && "shape"@ != "chunk_memory_layout"@ && "shape"@ != "fill_value"@ && "shape"@ != "extensions"@ && "shape"@ != "attributes"@ && "shape"@ != "compressor"@ && "data_type"@ != "chunk_grid"@ && "data_type"@ != "chunk_memory_layout"@ && "data_type"@ != "fill_value"@ && "data_type"@ != "extensions"@ && "data_type"@ != "attributes"@ && "data_type"@ != "compressor"@ && "chunk_grid"@ != "chunk_memory_layout"@ && "chunk_grid"@ != "fill_value"@ && "chunk_grid"@ != "extensions"@ && "chunk_grid"@ != "attributes"@ && "chunk_grid"@ != "compressor"@ && "chunk_memory_layout"@ != "fill_value"@ && "chunk_memory_layout"@ != "extensions"@ && "chunk_memory_layout"@ != "attributes"@ && "chunk_memory_layout"@ != "compressor"@ && "fill_value"@ != "extensions"@ && "fill_value"@ != "attributes"@ && "fill_value"@ != "compressor"@ && "extensions"@ != "attributes"@ && "extensions"@ != "compressor"@ && "attributes"@ != "compressor"@
{
    reveal_strlit("shape"); reveal_strlit("data_type"); reveal_strlit("chunk_grid"); reveal_strlit("chunk_memory_layout"); reveal_strlit("fill_value"); reveal_strlit("extensions"); reveal_strlit("attributes"); reveal_strlit("compressor");
    assert("shape"@.len() != "data_type"@.len());
    assert("shape"@.len() != "chunk_grid"@.len());
    assert("shape"@.len() != "chunk_memory_layout"@.len());
    assert("shape"@.len() != "fill_value"@.len());
    assert("shape"@.len() != "extensions"@.len());
    assert("shape"@.len() != "attributes"@.len());
    assert("shape"@.len() != "compressor"@.len());
    assert("data_type"@.len() != "chunk_grid"@.len());
    assert("data_type"@.len() != "chunk_memory_layout"@.len());
    assert("data_type"@.len() != "fill_value"@.len());
    assert("data_type"@.len() != "extensions"@.len());
    assert("data_type"@.len() != "attributes"@.len());
    assert("data_type"@.len() != "compressor"@.len());
    assert("chunk_grid"@.len() != "chunk_memory_layout"@.len());
    assert("chunk_grid"@[0] != "fill_value"@[0]);
    assert("chunk_grid"@[0] != "extensions"@[0]);
    assert("chunk_grid"@[0] != "attributes"@[0]);
    assert("chunk_grid"@[1] != "compressor"@[1]);
    assert("chunk_memory_layout"@.len() != "fill_value"@.len());
    assert("chunk_memory_layout"@.len() != "extensions"@.len());
    assert("chunk_memory_layout"@.len() != "attributes"@.len());
    assert("chunk_memory_layout"@.len() != "compressor"@.len());
    assert("fill_value"@[0] != "extensions"@[0]);
    assert("fill_value"@[0] != "attributes"@[0]);
    assert("fill_value"@[0] != "compressor"@[0]);
    assert("extensions"@[0] != "attributes"@[0]);
    assert("extensions"@[0] != "compressor"@[0]);
    assert("attributes"@[0] != "compressor"@[0]);
}
impl VxSerde for ArrayMetadata {
    open spec fn ok(&self) -> bool { self.shape.ok() && self.data_type.ok() && self.chunk_grid.ok() && self.chunk_memory_layout.ok() && self.fill_value.ok() && self.extensions.ok() && self.attributes.ok() && self.compressor.ok() }
    open spec fn reads(&self, v: Value) -> bool {
        match v {
            Value::Object(o) => (if o@.contains_key("shape"@) { self.shape.reads(o@["shape"@]) } else { self.shape.absent() })
                && (if o@.contains_key("data_type"@) { self.data_type.reads(o@["data_type"@]) } else { self.data_type.absent() })
                && (if o@.contains_key("chunk_grid"@) { self.chunk_grid.reads(o@["chunk_grid"@]) } else { self.chunk_grid.absent() })
                && (if o@.contains_key("chunk_memory_layout"@) { self.chunk_memory_layout.reads(o@["chunk_memory_layout"@]) } else { self.chunk_memory_layout.absent() })
                && (if o@.contains_key("fill_value"@) { self.fill_value.reads(o@["fill_value"@]) } else { self.fill_value.absent() })
                && (if o@.contains_key("extensions"@) { self.extensions.reads(o@["extensions"@]) } else { self.extensions.absent() })
                && (if o@.contains_key("attributes"@) { self.attributes.reads(o@["attributes"@]) } else { self.attributes.absent() })
                && (if o@.contains_key("compressor"@) { self.compressor.reads(o@["compressor"@]) } else { self.compressor.same(&CompressionType::Raw(RawCompression)) }),
            Value::Array(_) => other::<ArrayMetadata>(v) == Some(*self),
            _ => false,
        }
    }
    open spec fn own(&self, v: Value) -> bool {
        v matches Value::Object(o) && o@.contains_key("shape"@)
            && (o@.contains_key("shape"@) ==> self.shape.own(o@["shape"@]))
            && o@.contains_key("data_type"@)
            && (o@.contains_key("data_type"@) ==> self.data_type.own(o@["data_type"@]))
            && o@.contains_key("chunk_grid"@)
            && (o@.contains_key("chunk_grid"@) ==> self.chunk_grid.own(o@["chunk_grid"@]))
            && o@.contains_key("chunk_memory_layout"@)
            && (o@.contains_key("chunk_memory_layout"@) ==> self.chunk_memory_layout.own(o@["chunk_memory_layout"@]))
            && o@.contains_key("fill_value"@)
            && (o@.contains_key("fill_value"@) ==> self.fill_value.own(o@["fill_value"@]))
            && o@.contains_key("extensions"@)
            && (o@.contains_key("extensions"@) ==> self.extensions.own(o@["extensions"@]))
            && o@.contains_key("attributes"@)
            && (o@.contains_key("attributes"@) ==> self.attributes.own(o@["attributes"@]))
            && o@.contains_key("compressor"@) == !(format(self.compressor) == Format::Raw)
            && (o@.contains_key("compressor"@) ==> self.compressor.own(o@["compressor"@]))
            && (forall|k: Seq<char>| #[trigger] o@.contains_key(k) ==> k == "shape"@ || k == "data_type"@ || k == "chunk_grid"@ || k == "chunk_memory_layout"@ || k == "fill_value"@ || k == "extensions"@ || k == "attributes"@ || k == "compressor"@)
    }
    open spec fn same(&self, o: &Self) -> bool { self.shape.same(&o.shape) && self.data_type.same(&o.data_type) && self.chunk_grid.same(&o.chunk_grid) && self.chunk_memory_layout.same(&o.chunk_memory_layout) && self.fill_value.same(&o.fill_value) && self.extensions.same(&o.extensions) && self.attributes.same(&o.attributes) && self.compressor.same(&o.compressor) }
    open spec fn absent(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    proof fn reflexive(&self) { self.shape.reflexive(); self.data_type.reflexive(); self.chunk_grid.reflexive(); self.chunk_memory_layout.reflexive(); self.fill_value.reflexive(); self.extensions.reflexive(); self.attributes.reflexive(); self.compressor.reflexive(); }
    proof fn unique(v: Value, a: Self, b: Self) {
        a.reflexive();
        if let Value::Object(o) = v {
            if o@.contains_key("shape"@) { VxSerde::unique(o@["shape"@], a.shape, b.shape); } else { VxSerde::one_absent(a.shape, b.shape); }
            if o@.contains_key("data_type"@) { VxSerde::unique(o@["data_type"@], a.data_type, b.data_type); } else { VxSerde::one_absent(a.data_type, b.data_type); }
            if o@.contains_key("chunk_grid"@) { VxSerde::unique(o@["chunk_grid"@], a.chunk_grid, b.chunk_grid); } else { VxSerde::one_absent(a.chunk_grid, b.chunk_grid); }
            if o@.contains_key("chunk_memory_layout"@) { VxSerde::unique(o@["chunk_memory_layout"@], a.chunk_memory_layout, b.chunk_memory_layout); } else { VxSerde::one_absent(a.chunk_memory_layout, b.chunk_memory_layout); }
            if o@.contains_key("fill_value"@) { VxSerde::unique(o@["fill_value"@], a.fill_value, b.fill_value); } else { VxSerde::one_absent(a.fill_value, b.fill_value); }
            if o@.contains_key("extensions"@) { VxSerde::unique(o@["extensions"@], a.extensions, b.extensions); } else { VxSerde::one_absent(a.extensions, b.extensions); }
            if o@.contains_key("attributes"@) { VxSerde::unique(o@["attributes"@], a.attributes, b.attributes); } else { VxSerde::one_absent(a.attributes, b.attributes); }
            if o@.contains_key("compressor"@) { VxSerde::unique(o@["compressor"@], a.compressor, b.compressor); } else {  }
        }
    }
    proof fn one_absent(a: Self, b: Self) { }
    proof fn not_null(&self, v: Value) { kinds(v); }
@@fn src/lib.rs derive Serialize for ArrayMetadata as ArrayMetadata::vx_ser for C21
sig fn vx_ser(&self) -> (r: Value)
start
    proof { names_arraymetadata(); }
@@end
@@fn src/lib.rs derive Deserialize for ArrayMetadata as ArrayMetadata::vx_read for C21
sig fn vx_read(v: &Value) -> (r: Option<Self>)
start
    proof { names_arraymetadata(); }
@@end
    fn vx_missing() -> (r: Option<Self>) { None }
}
}
verus! {
// C21: what is written reads back as the same metadata.
fn array_round_trip(m: &ArrayMetadata) -> (r: Option<ArrayMetadata>)
    requires m.ok()
    ensures r matches Some(n) && n.same(m)
{
    let v = m.vx_ser();
    let r = ArrayMetadata::vx_read(&v);
    proof { if r is Some { VxSerde::unique(v, r->Some_0, *m); } }
    r
}
// A document without one of the required entries is rejected; one without a compressor reads as uncompressed.
proof fn array_required(o: JsonObject, m: ArrayMetadata)
    requires m.reads(Value::Object(o))
    ensures o@.contains_key("shape"@), o@.contains_key("data_type"@), o@.contains_key("chunk_grid"@), o@.contains_key("chunk_memory_layout"@), o@.contains_key("extensions"@), o@.contains_key("attributes"@),
        !o@.contains_key("compressor"@) ==> format(m.compressor) == Format::Raw,
        !o@.contains_key("fill_value"@) ==> m.fill_value is None
{ }
}
verus! {
// C21: a new array's metadata is what it was given, with the specification's regular grid and nothing else.
@@const src/lib.rs REGULAR_GRID_TYPE
@@method to_owned fn:vx_same
impl ArrayMetadata {
@@fn src/lib.rs ArrayMetadata::new for C21
sig pub fn new<D: VxInto<ExtensibleDataType>>(shape: Vec<u64>, chunk_shape: Vec<u32>, data_type: D, compressor: CompressionType) -> (r: ArrayMetadata)
spec
    requires shape@.len() == chunk_shape@.len()
    ensures r.shape == shape, r.chunk_grid.chunk_shape == chunk_shape, r.chunk_grid.grid_type@ == "regular"@, r.chunk_grid.separator@ == "/"@,
        data_type.conv(r.data_type), r.chunk_memory_layout == Order::ColumnMajor, r.fill_value is None,
        r.extensions@.len() == 0, r.attributes@ == Map::<Seq<char>, Value>::empty(), r.compressor == compressor
@@end
@@fn src/lib.rs ArrayMetadata::get_data_type for C21
sig pub fn get_data_type(&self) -> (r: &ExtensibleDataType)
spec
    ensures *r == self.data_type
@@end
@@fn src/lib.rs ArrayMetadata::get_compressor for C21
sig pub fn get_compressor(&self) -> (r: &CompressionType)
spec
    ensures *r == self.compressor
@@end
}
}
