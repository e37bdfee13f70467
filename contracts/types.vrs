@@include base.vrs
@@include meta.vrs
// Data types: their widths, byte orders and Rust counterparts.
verus! {
@@const src/data_type.rs NATIVE_ENDIAN
// The half-precision float of the crate `half`: two bytes.
#[allow(non_camel_case_types)] #[derive(Copy, Clone)] pub struct f16(pub u16);
pub axiom fn sizes()
    ensures core::mem::size_of::<u8>() == 1, core::mem::size_of::<u16>() == 2, core::mem::size_of::<u32>() == 4, core::mem::size_of::<u64>() == 8, core::mem::size_of::<i8>() == 1, core::mem::size_of::<i16>() == 2, core::mem::size_of::<i32>() == 4, core::mem::size_of::<i64>() == 8,
        core::mem::size_of::<f16>() == 2, core::mem::size_of::<f32>() == 4, core::mem::size_of::<f64>() == 8;

// The meaning of a type: its width in bytes, its byte order where it has one.
pub open spec fn int_bytes(s: IntSize) -> nat { match s { IntSize::B1 => 1, IntSize::B2 => 2, IntSize::B4 => 4, IntSize::B8 => 8 } }
pub open spec fn float_bytes(s: FloatSize) -> nat { match s { FloatSize::B2 => 2, FloatSize::B4 => 4, FloatSize::B8 => 8 } }
pub open spec fn bytes_of(d: DataType) -> nat {
    match d { DataType::Bool => 1, DataType::Int { size, .. } => int_bytes(size), DataType::UInt { size, .. } => int_bytes(size), DataType::Float { size, .. } => float_bytes(size), DataType::Raw { size } => size as nat / 8 }
}
pub open spec fn order_of(d: DataType) -> Option<Endian> {
    match d { DataType::Int { endian, .. } => Some(endian), DataType::UInt { endian, .. } => Some(endian), DataType::Float { endian, .. } => Some(endian), _ => None }
}
// The same type up to byte order.
pub open spec fn same_kind(a: DataType, b: DataType) -> bool {
    match (a, b) {
        (DataType::Bool, DataType::Bool) => true,
        (DataType::Int { size: s, .. }, DataType::Int { size: t, .. }) => s == t,
        (DataType::UInt { size: s, .. }, DataType::UInt { size: t, .. }) => s == t,
        (DataType::Float { size: s, .. }, DataType::Float { size: t, .. }) => s == t,
        (DataType::Raw { size: s }, DataType::Raw { size: t }) => s == t,
        _ => false,
    }
}
impl DataType {
@@fn src/data_type.rs DataType::size_of for C09
attr
    #[verifier::nonlinear]
sig pub fn size_of(self) -> (r: usize)
spec
    ensures r == bytes_of(self)
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); }
@@end
@@fn src/data_type.rs DataType::endian for C09,C06
sig pub fn endian(self) -> (r: Endian)
spec
    ensures match order_of(self) { Some(e) => r == e, None => true }
@@end
@@fn src/data_type.rs DataType::eq_modulo_endian for C09,C07
sig pub fn eq_modulo_endian(&self, other: &DataType) -> (r: bool)
spec
    ensures r == same_kind(*self, *other)
@@end
}
@@path serde_json::Value::String vx_json_string
#[verifier::external_body]
pub fn vx_json_string<T>(s: T) -> (r: Value) { unimplemented!() }
impl ExtensibleDataType {
    // The core type that stands for it, if any.
    pub open spec fn core(self) -> Option<DataType> { match self { ExtensibleDataType::Core(d) => Some(d), ExtensibleDataType::Extended { fallback, .. } => fallback } }
@@fn src/data_type.rs ExtensibleDataType::effective_type for C09,C06,C07
sig pub fn effective_type(&self) -> (r: Result<DataType, MetadataError>)
spec
    ensures match r { Ok(d) => self.core() == Some(d), Err(_) => self.core() is None }
@@end
@@fn src/data_type.rs impl From for ExtensibleDataType::from for C09
sig pub fn from(d: DataType) -> (r: ExtensibleDataType)
spec
    ensures r.core() == Some(d)
@@end
}
// The type each Rust type reflects; its size is the Rust type's.
@@fn src/data_type.rs macro reflected_type#bool impl ReflectedType for bool::ZARR_TYPE as zarr_type_bool for C09,C07
sig pub fn zarr_type_bool() -> (r: DataType)
spec
    ensures r == (DataType::Bool), bytes_of(r) == core::mem::size_of::<bool>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#u8 impl ReflectedType for u8::ZARR_TYPE as zarr_type_u8 for C09,C07
sig pub fn zarr_type_u8() -> (r: DataType)
spec
    ensures r == (DataType::UInt { size: IntSize::B1, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<u8>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#u16 impl ReflectedType for u16::ZARR_TYPE as zarr_type_u16 for C09,C07
sig pub fn zarr_type_u16() -> (r: DataType)
spec
    ensures r == (DataType::UInt { size: IntSize::B2, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<u16>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#u32 impl ReflectedType for u32::ZARR_TYPE as zarr_type_u32 for C09,C07
sig pub fn zarr_type_u32() -> (r: DataType)
spec
    ensures r == (DataType::UInt { size: IntSize::B4, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<u32>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#u64 impl ReflectedType for u64::ZARR_TYPE as zarr_type_u64 for C09,C07
sig pub fn zarr_type_u64() -> (r: DataType)
spec
    ensures r == (DataType::UInt { size: IntSize::B8, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<u64>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#i8 impl ReflectedType for i8::ZARR_TYPE as zarr_type_i8 for C09,C07
sig pub fn zarr_type_i8() -> (r: DataType)
spec
    ensures r == (DataType::Int { size: IntSize::B1, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<i8>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#i16 impl ReflectedType for i16::ZARR_TYPE as zarr_type_i16 for C09,C07
sig pub fn zarr_type_i16() -> (r: DataType)
spec
    ensures r == (DataType::Int { size: IntSize::B2, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<i16>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#i32 impl ReflectedType for i32::ZARR_TYPE as zarr_type_i32 for C09,C07
sig pub fn zarr_type_i32() -> (r: DataType)
spec
    ensures r == (DataType::Int { size: IntSize::B4, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<i32>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#i64 impl ReflectedType for i64::ZARR_TYPE as zarr_type_i64 for C09,C07
sig pub fn zarr_type_i64() -> (r: DataType)
spec
    ensures r == (DataType::Int { size: IntSize::B8, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<i64>()
start
    broadcast use vstd::layout::group_layout_axioms;
@@end
@@fn src/data_type.rs macro reflected_type#f16 impl ReflectedType for f16::ZARR_TYPE as zarr_type_f16 for C09,C07
sig pub fn zarr_type_f16() -> (r: DataType)
spec
    ensures r == (DataType::Float { size: FloatSize::B2, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<f16>()
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); }
@@end
@@fn src/data_type.rs macro reflected_type#f32 impl ReflectedType for f32::ZARR_TYPE as zarr_type_f32 for C09,C07
sig pub fn zarr_type_f32() -> (r: DataType)
spec
    ensures r == (DataType::Float { size: FloatSize::B4, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<f32>()
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); }
@@end
@@fn src/data_type.rs macro reflected_type#f64 impl ReflectedType for f64::ZARR_TYPE as zarr_type_f64 for C09,C07
sig pub fn zarr_type_f64() -> (r: DataType)
spec
    ensures r == (DataType::Float { size: FloatSize::B8, endian: Endian::Little }), bytes_of(r) == core::mem::size_of::<f64>()
start
    broadcast use vstd::layout::group_layout_axioms;
    proof { sizes(); }
@@end
@@fn src/data_type.rs macro reflected_type#[u8;1] impl ReflectedType for [u8;1]::ZARR_TYPE as zarr_type_raw1 for C09,C07
sig pub fn zarr_type_raw1() -> (r: DataType)
spec
    ensures r == (DataType::Raw { size: 8 })
@@end
@@fn src/data_type.rs macro reflected_type#[u8;2] impl ReflectedType for [u8;2]::ZARR_TYPE as zarr_type_raw2 for C09,C07
sig pub fn zarr_type_raw2() -> (r: DataType)
spec
    ensures r == (DataType::Raw { size: 16 })
@@end
@@fn src/data_type.rs macro reflected_type#[u8;3] impl ReflectedType for [u8;3]::ZARR_TYPE as zarr_type_raw3 for C09,C07
sig pub fn zarr_type_raw3() -> (r: DataType)
spec
    ensures r == (DataType::Raw { size: 24 })
@@end
@@fn src/data_type.rs macro reflected_type#[u8;4] impl ReflectedType for [u8;4]::ZARR_TYPE as zarr_type_raw4 for C09,C07
sig pub fn zarr_type_raw4() -> (r: DataType)
spec
    ensures r == (DataType::Raw { size: 32 })
@@end

}
