//! C09: data type strings.
use crate::util::*;
use crate::{check, check_eq};
use zarr::data_type::{DataType, Endian, ExtensibleDataType, FloatSize, IntSize, NATIVE_ENDIAN};
use zarr::ReflectedType;

/// The grammar of the property, independently of the implementation.
pub fn oracle(s: &str) -> Option<DataType> {
    let le = Endian::Little;
    match s { "bool" => return Some(DataType::Bool), "i1" => return Some(DataType::Int { size: IntSize::B1, endian: le }), "u1" => return Some(DataType::UInt { size: IntSize::B1, endian: le }), _ => () }
    let b = s.as_bytes();
    if b.first() == Some(&b'r') {
        let mut d = &b[1..];
        if d.first() == Some(&b'+') { d = &d[1..]; }
        if d.is_empty() { return None; }
        let mut n: u128 = 0;
        for c in d { if !c.is_ascii_digit() { return None; } n = n * 10 + (*c - b'0') as u128; if n > u64::MAX as u128 { return None; } }
        return if n % 8 == 0 { Some(DataType::Raw { size: n as usize }) } else { None };
    }
    if b.len() != 3 { return None; }
    let endian = match b[0] { b'<' => Endian::Little, b'>' => Endian::Big, _ => return None };
    let i = match b[2] { b'1' => Some(IntSize::B1), b'2' => Some(IntSize::B2), b'4' => Some(IntSize::B4), b'8' => Some(IntSize::B8), _ => None };
    let f = match b[2] { b'2' => Some(FloatSize::B2), b'4' => Some(FloatSize::B4), b'8' => Some(FloatSize::B8), _ => None };
    match b[1] { b'i' => i.map(|size| DataType::Int { size, endian }), b'u' => i.map(|size| DataType::UInt { size, endian }), b'f' => f.map(|size| DataType::Float { size, endian }), _ => None }
}

fn parse_case(ctx: &mut Ctx, group: &str, s: &str) {
    ctx.case(group, || format!("{:?}", s), oracle(s).is_none(), || {
        let want = oracle(s);
        let json = serde_json::to_string(s).unwrap();
        let got = serde_json::from_str::<DataType>(&json).ok();
        check_eq!(got, want, "parsed type");
        let got = serde_json::from_value::<DataType>(serde_json::Value::String(s.to_string())).ok();
        check_eq!(got, want, "parsed type from an owned string");
        let ext = serde_json::from_str::<ExtensibleDataType>(&json).ok();
        check_eq!(ext, want.map(ExtensibleDataType::Core), "parsed extensible type");
        Ok(())
    });
}

fn all_types() -> Vec<DataType> {
    let mut v = vec![DataType::Bool];
    for e in [Endian::Big, Endian::Little] {
        for s in [IntSize::B1, IntSize::B2, IntSize::B4, IntSize::B8] { v.push(DataType::Int { size: s, endian: e }); v.push(DataType::UInt { size: s, endian: e }); }
        for s in [FloatSize::B2, FloatSize::B4, FloatSize::B8] { v.push(DataType::Float { size: s, endian: e }); }
    }
    v
}
fn oneb(d: &DataType) -> bool { matches!(d, DataType::Int { size: IntSize::B1, .. } | DataType::UInt { size: IntSize::B1, .. }) }

fn print_case(ctx: &mut Ctx, d: DataType) {
    ctx.case("print", || format!("{:?}", d), false, || {
        let s = serde_json::to_value(&d).map_err(|e| format!("serialization failed: {}", e))?;
        let s = s.as_str().ok_or("not a string")?.to_string();
        let back = oracle(&s).ok_or_else(|| format!("printed as {:?}, which is not a type string", s))?;
        let back2: DataType = serde_json::from_str(&serde_json::to_string(&d).unwrap()).map_err(|e| format!("printed as {:?}, which does not parse: {}", s, e))?;
        for b in [back, back2] {
            if oneb(&d) { check!(std::mem::discriminant(&b) == std::mem::discriminant(&d) && oneb(&b), "{:?} printed as {:?}", d, s); }
            else { check_eq!(b, d, "type read back from {:?}", s); }
        }
        // Size and byte order.
        let (size, e) = match d {
            DataType::Bool => (1, NATIVE_ENDIAN),
            DataType::Int { size, endian } | DataType::UInt { size, endian } => (match size { IntSize::B1 => 1, IntSize::B2 => 2, IntSize::B4 => 4, IntSize::B8 => 8 }, endian),
            DataType::Float { size, endian } => (match size { FloatSize::B2 => 2, FloatSize::B4 => 4, FloatSize::B8 => 8 }, endian),
            DataType::Raw { size } => (size / 8, NATIVE_ENDIAN),
        };
        check_eq!(d.size_of(), size, "size_of");
        if size > 1 && !matches!(d, DataType::Raw { .. }) { check_eq!(d.endian(), e, "endian"); }
        let ext = ExtensibleDataType::from(d);
        check_eq!(ext.effective_type().ok(), Some(d), "effective type");
        Ok(())
    });
}

fn reflected<T: ReflectedType>(ctx: &mut Ctx, want: DataType) {
    ctx.case("reflection", || std::any::type_name::<T>().to_string(), false, || {
        check_eq!(T::ZARR_TYPE, want, "reflected type");
        check_eq!(T::ZARR_TYPE.size_of(), std::mem::size_of::<T>(), "reflected size");
        Ok(())
    });
}

pub fn c09(ctx: &mut Ctx) {
    let alpha: Vec<char> = "<>|=iufrbcV012348 9+-.é".chars().collect();
    let n = if ctx.thorough { 4 } else { 3 };
    for len in 0..=n { for t in tuples(len, alpha.len()) { let s: String = t.iter().map(|&i| alpha[i]).collect(); parse_case(ctx, "parse short", &s); } }
    for p in ["", "<", ">", "|", "=", "!"] { for k in ["i", "u", "f", "c", "m", "M", "b", "S", "U", "V", "I", "F"] { for z in 0..40 { parse_case(ctx, "parse forms", &format!("{}{}{}", p, k, z)); } } }
    for s in ["bool", "Bool", "bool ", " bool", "boole", "boo", "i1 ", "r", "r ", "r-8", "r+8", "r08", "r0", "r++8", "r8.0", "r8 ", "R8", "r18446744073709551608", "r18446744073709551615", "r18446744073709551616", "r99999999999999999999999", "r0000000000000000000000000000000000000000000008", "é1", "1é", "éi1", "<é", "€", "<€", "日", "<i\u{664}", "\u{10348}", "\0\0\0", "<i1\0", "<i1 ", "<<i1", "i2", "u2", "f4", "i8", "u8", "f8", "b1", "|b1", "|i1", "|u1"] { parse_case(ctx, "parse special", s); }
    for i in 0..ctx.n(700) { parse_case(ctx, "parse raw", &format!("r{}", i)); }
    let mut r = ctx.rng(901);
    for _ in 0..ctx.n(2000) {
        let base = *r.pick(&["bool", "i1", "u1", "<i2", ">u4", "<f8", ">f2", "r24", "r1024", ">i1"]);
        let mut c: Vec<char> = base.chars().collect();
        for _ in 0..r.range(1, 2) {
            let k = *r.pick(&alpha);
            let at = r.below(c.len() as u64 + 1) as usize;
            match r.below(3) { 0 => c.insert(at, k), 1 if at < c.len() => { c.remove(at); } _ if at < c.len() => c[at] = k, _ => c.push(k) }
        }
        let s: String = c.into_iter().collect();
        parse_case(ctx, "parse mutated", &s);
    }
    for j in ["1", "null", "[]", "true", "1.5", "{\"a\":1}"] {
        ctx.case("parse json", || j.to_string(), true, || { check!(serde_json::from_str::<DataType>(j).is_err(), "accepted"); Ok(()) });
    }
    for d in all_types() { print_case(ctx, d); }
    for i in 0..ctx.n(600) { print_case(ctx, DataType::Raw { size: i as usize * 8 }); }
    for s in [1usize << 20, 1 << 32, 1 << 60, usize::MAX - 7, (usize::MAX / 80) * 8, 12345678 * 8] { print_case(ctx, DataType::Raw { size: s }); }
    let e = NATIVE_ENDIAN;
    reflected::<bool>(ctx, DataType::Bool);
    reflected::<u8>(ctx, DataType::UInt { size: IntSize::B1, endian: e }); reflected::<u16>(ctx, DataType::UInt { size: IntSize::B2, endian: e });
    reflected::<u32>(ctx, DataType::UInt { size: IntSize::B4, endian: e }); reflected::<u64>(ctx, DataType::UInt { size: IntSize::B8, endian: e });
    reflected::<i8>(ctx, DataType::Int { size: IntSize::B1, endian: e }); reflected::<i16>(ctx, DataType::Int { size: IntSize::B2, endian: e });
    reflected::<i32>(ctx, DataType::Int { size: IntSize::B4, endian: e }); reflected::<i64>(ctx, DataType::Int { size: IntSize::B8, endian: e });
    reflected::<half::f16>(ctx, DataType::Float { size: FloatSize::B2, endian: e }); reflected::<f32>(ctx, DataType::Float { size: FloatSize::B4, endian: e }); reflected::<f64>(ctx, DataType::Float { size: FloatSize::B8, endian: e });
    reflected::<[u8; 1]>(ctx, DataType::Raw { size: 8 }); reflected::<[u8; 2]>(ctx, DataType::Raw { size: 16 }); reflected::<[u8; 3]>(ctx, DataType::Raw { size: 24 }); reflected::<[u8; 4]>(ctx, DataType::Raw { size: 32 });
    // Extended types.
    for d in all_types() {
        ctx.case("extended", || format!("fallback {:?}", d), false, || {
            let x = ExtensibleDataType::Extended { extension: "e".into(), type_string: "t".into(), fallback: Some(d) };
            check_eq!(x.effective_type().ok(), Some(d), "effective type");
            let s = serde_json::to_string(&x).map_err(|e| e.to_string())?;
            let y: ExtensibleDataType = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            if !oneb(&d) { check_eq!(y, x, "extended type read back"); }
            Ok(())
        });
    }
    ctx.case("extended", || "no fallback".into(), false, || {
        let x = ExtensibleDataType::Extended { extension: "e".into(), type_string: "t".into(), fallback: None };
        check!(x.effective_type().is_err(), "an extended type without fallback has a core type");
        Ok(())
    });
    // Equality ignoring byte order, observed through the type gate of chunk writes.
    use crate::elem::*;
    fn eq<T: Elem>(ctx: &mut Ctx) where zarr::chunk::VecDataChunk<T>: zarr::chunk::WriteableDataChunk {
        let strings: Vec<String> = all_types().iter().map(|d| serde_json::to_value(d).unwrap().as_str().unwrap().to_string()).chain(["r8", "r16", "r32", "r64"].iter().map(|s| s.to_string())).chain(["<i1", ">i1", "<u1", ">u1"].iter().map(|s| s.to_string())).collect();
        for s in strings {
            ctx.case("equal types", || format!("array {} elements {}", s, std::any::type_name::<T>()), false, || {
                let strip = |x: &str| x.trim_start_matches(|c| c == '<' || c == '>').to_string();
                let want = strip(&s) == strip(&type_string::<T>(false));
                let m = Meta::new(&[1], &[1], &s).build();
                let chunk = zarr::chunk::VecDataChunk::<T>::new(zarr::smallvec::smallvec![0], vec![T::default()]);
                let got = <zarr::chunk::DefaultChunk as zarr::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(std::io::sink(), &m, &chunk).is_ok();
                check_eq!(got, want, "types are equal ignoring byte order");
                Ok(())
            });
        }
    }
    crate::for_types!(eq(ctx));
    // Raw elements; the library has no chunks of its own for them.
    struct RawChunk<const N: usize>(Vec<[u8; N]>);
    impl<const N: usize> zarr::chunk::DataChunk<[u8; N]> for RawChunk<N> {
        fn get_grid_position(&self) -> &[u64] { &[0] }
        fn get_data(&self) -> &[[u8; N]] { &self.0 }
        fn get_num_elements(&self) -> u32 { self.0.len() as u32 }
    }
    impl<const N: usize> zarr::chunk::WriteableDataChunk for RawChunk<N> {
        fn write_data<W: std::io::Write>(&self, mut w: W, _: &zarr::ArrayMetadata) -> Result<(), std::io::Error> { for x in &self.0 { w.write_all(x)?; } Ok(()) }
    }
    fn raw<const N: usize>(ctx: &mut Ctx) where [u8; N]: ReflectedType {
        let core = all_types().into_iter().chain((0u64..12).chain([1 << 20, 1 << 40, 1 << 60]).map(|i| DataType::Raw { size: 8 * i as usize }));
        for s in core.map(|d| serde_json::to_value(d).unwrap().as_str().unwrap().to_string()) {
            ctx.case("equal raw types", || format!("array {} elements of {} bytes", s, N), false, || {
                let m = Meta::new(&[1], &[1], &s).build();
                let got = <zarr::chunk::DefaultChunk as zarr::chunk::DefaultChunkWriter<[u8; N], _, _>>::write_chunk(std::io::sink(), &m, &RawChunk(vec![[7u8; N]])).is_ok();
                check_eq!(got, s == format!("r{}", 8 * N), "types are equal ignoring byte order");
                Ok(())
            });
        }
    }
    raw::<1>(ctx); raw::<2>(ctx); raw::<3>(ctx); raw::<4>(ctx);
}
