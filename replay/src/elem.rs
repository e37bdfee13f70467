//! Element types with an independent byte-level oracle, and array metadata built from JSON.
use half::f16;
use crate::util::Rng;
use serde_json::{json, Value};
use zarr::prelude::*;

pub trait Elem: ReflectedType + Copy + std::fmt::Debug + serde::Serialize {
    const SIZE: usize;
    const KIND: &'static str;
    /// Little-endian bytes.
    fn le(self) -> Vec<u8>;
    /// From little-endian bytes.
    fn of(b: &[u8]) -> Self;
    fn bytes(self, big: bool) -> Vec<u8> { let mut v = self.le(); if big { v.reverse(); } v }
    fn from(b: &[u8], big: bool) -> Self { let mut v = b.to_vec(); if big { v.reverse(); } Self::of(&v) }
    fn random(r: &mut Rng) -> Self { let b = match r.below(8) { 0 => vec![0; Self::SIZE], 1 => vec![255; Self::SIZE], 2 => { let mut b = vec![0; Self::SIZE]; let i = r.below(Self::SIZE as u64) as usize; b[i] = 1 << r.below(8); b } _ => r.bytes(Self::SIZE) }; Self::of(&b) }
    /// A value that survives JSON.
    fn jsonable(r: &mut Rng) -> (Self, Value);
}
macro_rules! elem_int { ($t:ty, $k:expr) => { impl Elem for $t {
    const SIZE: usize = std::mem::size_of::<$t>();
    const KIND: &'static str = $k;
    fn le(self) -> Vec<u8> { let mut x = self as i128; (0..Self::SIZE).map(|_| { let b = x as u8; x >>= 8; b }).collect() }
    fn of(b: &[u8]) -> Self { let mut x: u64 = 0; for (i, v) in b.iter().enumerate() { x |= (*v as u64) << (8 * i); } x as $t }
    fn jsonable(r: &mut Rng) -> (Self, Value) { let x = (r.next() >> r.below(64)) as $t; (x, json!(x)) }
} } }
elem_int!(u8, "u"); elem_int!(u16, "u"); elem_int!(u32, "u"); elem_int!(u64, "u");
elem_int!(i8, "i"); elem_int!(i16, "i"); elem_int!(i32, "i"); elem_int!(i64, "i");
impl Elem for bool {
    const SIZE: usize = 1; const KIND: &'static str = "bool";
    fn le(self) -> Vec<u8> { vec![if self { 1 } else { 0 }] }
    fn of(b: &[u8]) -> bool { b[0] != 0 }
    fn jsonable(r: &mut Rng) -> (bool, Value) { let b = r.chance(1, 2); (b, json!(b)) }
}
impl Elem for f32 {
    const SIZE: usize = 4; const KIND: &'static str = "f";
    fn le(self) -> Vec<u8> { <u32 as Elem>::le(self.to_bits()) }
    fn of(b: &[u8]) -> f32 { f32::from_bits(<u32 as Elem>::of(b)) }
    fn jsonable(r: &mut Rng) -> (f32, Value) { let x = r.below(1000) as f32 / 4.0; (x, json!(x)) }
}
impl Elem for f64 {
    const SIZE: usize = 8; const KIND: &'static str = "f";
    fn le(self) -> Vec<u8> { <u64 as Elem>::le(self.to_bits()) }
    fn of(b: &[u8]) -> f64 { f64::from_bits(<u64 as Elem>::of(b)) }
    fn jsonable(r: &mut Rng) -> (f64, Value) { let x = r.below(1000) as f64 / 8.0; (x, json!(x)) }
}
impl Elem for f16 {
    const SIZE: usize = 2; const KIND: &'static str = "f";
    fn le(self) -> Vec<u8> { <u16 as Elem>::le(self.to_bits()) }
    fn of(b: &[u8]) -> f16 { f16::from_bits(<u16 as Elem>::of(b)) }
    // `half` deserializes its bit pattern.
    fn jsonable(r: &mut Rng) -> (f16, Value) { let x = f16::from_bits(r.below(30000) as u16); (x, serde_json::to_value(x).unwrap()) }
}

pub fn type_string<T: Elem>(big: bool) -> String {
    if T::KIND == "bool" { return "bool".into(); }
    format!("{}{}{}", if big { ">" } else { "<" }, T::KIND, T::SIZE)
}


pub struct Meta { pub shape: Vec<u64>, pub chunk: Vec<u32>, pub dtype: Value, pub row_major: bool, pub sep: &'static str, pub fill: Option<Value>, pub codec: &'static str, pub extensions: Value, pub attributes: Value }
impl Meta {
    pub fn new(shape: &[u64], chunk: &[u32], dtype: &str) -> Meta {
        Meta { shape: shape.to_vec(), chunk: chunk.to_vec(), dtype: json!(dtype), row_major: true, sep: "/", fill: None, codec: "raw", extensions: json!([]), attributes: json!({}) }
    }
    pub fn json(&self) -> Value {
        let mut v = json!({
            "shape": self.shape, "data_type": self.dtype,
            "chunk_grid": {"type": "regular", "chunk_shape": self.chunk, "separator": self.sep},
            "chunk_memory_layout": if self.row_major { "C" } else { "F" },
            "fill_value": self.fill, "extensions": self.extensions, "attributes": self.attributes
        });
        if self.codec != "raw" { v["compressor"] = codec_json(self.codec); }
        v
    }
    pub fn build(&self) -> ArrayMetadata { serde_json::from_value(self.json()).expect("array metadata") }
}
pub const CODECS: &[&str] = &["raw", "gzip", "bzip2", "xz", "lz4"];
pub fn codec_json(name: &str) -> Value {
    match name {
        "raw" => json!({"codec": "raw", "configuration": null}),
        "gzip" => json!({"codec": "https://purl.org/zarr/spec/codec/gzip/1.0", "configuration": {"level": 1}}),
        "bzip2" => json!({"codec": "bzip2", "configuration": {"blockSize": 1}}),
        "xz" => json!({"codec": "xz", "configuration": {"preset": 0}}),
        "lz4" => json!({"codec": "lz4", "configuration": {"blockSize": 65536}}),
        _ => unreachable!(),
    }
}
#[macro_export]
macro_rules! for_types { ($f:ident ( $($a:expr),* )) => {{
    $f::<bool>($($a),*); $f::<u8>($($a),*); $f::<u16>($($a),*); $f::<u32>($($a),*); $f::<u64>($($a),*);
    $f::<i8>($($a),*); $f::<i16>($($a),*); $f::<i32>($($a),*); $f::<i64>($($a),*);
    $f::<half::f16>($($a),*); $f::<f32>($($a),*); $f::<f64>($($a),*);
}} }
