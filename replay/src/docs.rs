//! C21: metadata documents.
use crate::dtype;
use crate::util::*;
use crate::{check, check_eq};
use serde_json::{json, Map, Value};
use zarr::compression::CompressionType;
use zarr::data_type::{DataType, ExtensibleDataType};
use zarr::smallvec::SmallVec;
use zarr::{ArrayMetadata, EntryPointMetadata, ExtensionMetadata, Order};

const GZIP: &str = "https://purl.org/zarr/spec/codec/gzip/1.0";

fn text(r: &mut Rng) -> String {
    let parts = ["", "a", "type", "codec", "C", "<f4", "\u{e9}\u{4e2d}", "\"\\\n\u{1}", "http://x.org/y/1.0", "null", "/", "r8"];
    let n = r.below(3);
    (0..=n).map(|_| *r.pick(&parts[..])).collect()
}
fn tree(r: &mut Rng, depth: u64) -> Value {
    match r.below(if depth == 0 { 7 } else { 9 }) {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(r.next()),
        3 => json!(-(r.below(1 << 62) as i64)),
        4 => json!((r.below(4096) as f64) / 16.0),
        5 | 6 => json!(text(r)),
        7 => Value::Array((0..r.below(4)).map(|_| tree(r, depth - 1)).collect()),
        _ => Value::Object(object(r, depth - 1)),
    }
}
fn object(r: &mut Rng, depth: u64) -> Map<String, Value> { (0..r.below(4)).map(|_| (text(r), tree(r, depth))).collect() }
const TYPES: &[&str] = &["bool", "i1", "u1", "<i2", ">i2", "<i4", ">i4", "<i8", ">i8", "<u2", ">u2", "<u4", ">u4", "<u8", ">u8", "<f2", ">f2", "<f4", ">f4", "<f8", ">f8", "r8", "r24", "r0", "r18446744073709551608"];
fn dtype_doc(r: &mut Rng) -> Value {
    if r.chance(2, 3) { return json!(*r.pick(TYPES)); }
    let mut o = Map::new();
    o.insert("extension".into(), json!(text(r)));
    o.insert("type".into(), json!(text(r)));
    if r.chance(1, 2) { o.insert("fallback".into(), json!(*r.pick(TYPES))); }
    Value::Object(o)
}
fn codec_doc(r: &mut Rng) -> Option<Value> {
    let i = *r.pick(&[i32::MIN, -1, 0, 1, 5, 6, 9, 10, 65_536, i32::MAX]);
    match r.below(6) {
        0 | 1 => None,
        2 => Some(json!({"codec": GZIP, "configuration": {"level": i}})),
        3 => Some(json!({"codec": "bzip2", "configuration": {"blockSize": r.below(256)}})),
        4 => Some(json!({"codec": "lz4", "configuration": {"blockSize": i}})),
        _ => Some(json!({"codec": "xz", "configuration": {"preset": i}})),
    }
}
fn extension_doc(r: &mut Rng) -> Value {
    let mut o = Map::new();
    o.insert("extension".into(), json!(text(r)));
    o.insert("must_understand".into(), json!(r.chance(1, 2)));
    if r.chance(1, 2) { o.insert("configuration".into(), Value::Object(object(r, 2))); }
    Value::Object(o)
}
/// The document that some array metadata is written as.
fn array_doc(r: &mut Rng) -> Map<String, Value> {
    let rank = r.below(6);
    let n64 = |r: &mut Rng| { let s = r.below(64); r.next() >> s };
    let mut o = Map::new();
    o.insert("shape".into(), (0..rank).map(|_| json!(n64(r))).collect::<Vec<_>>().into());
    o.insert("data_type".into(), dtype_doc(r));
    o.insert("chunk_grid".into(), json!({
        "type": if r.chance(2, 3) { "regular".to_string() } else { text(r) },
        "chunk_shape": (0..rank).map(|_| n64(r) as u32).collect::<Vec<_>>(),
        "separator": if r.chance(2, 3) { r.pick(&["/", "."]).to_string() } else { text(r) },
    }));
    o.insert("chunk_memory_layout".into(), json!(if r.chance(1, 2) { "C" } else { "F" }));
    o.insert("fill_value".into(), if r.chance(1, 3) { Value::Null } else { tree(r, 2) });
    o.insert("extensions".into(), (0..r.below(3)).map(|_| extension_doc(r)).collect::<Vec<_>>().into());
    o.insert("attributes".into(), Value::Object(object(r, 3)));
    if let Some(c) = codec_doc(r) { o.insert("compressor".into(), c); }
    o
}
fn read(o: &Value) -> Result<ArrayMetadata, String> { serde_json::from_value(o.clone()).map_err(|e| format!("rejected: {}", e)) }
/// The variant and parameter of a codec, as Debug prints them (the fields are private).
fn codec_is(c: &CompressionType, d: Option<&Value>) -> Result<(), String> {
    let got = serde_json::to_value(c).map_err(|e| e.to_string())?;
    match d {
        None => { check!(matches!(c, CompressionType::Raw(_)), "compressor: got {:?}, expected none", c); check!(c.is_default(), "raw is not the default"); }
        Some(d) => {
            check_eq!(got, *d, "compressor");
            check!(!c.is_default(), "{:?} counts as the default", c);
            let p = d["configuration"].as_object().unwrap().values().next().unwrap().to_string();
            check!(format!("{:?}", c).contains(&format!(": {}", p)), "{:?} does not carry the parameter {}", c, p);
            let ok = match d["codec"].as_str().unwrap() { GZIP => matches!(c, CompressionType::Gzip(_)), "bzip2" => matches!(c, CompressionType::Bzip2(_)), "lz4" => matches!(c, CompressionType::Lz4(_)), _ => matches!(c, CompressionType::Xz(_)) };
            check!(ok, "{} reads as {:?}", d["codec"], c);
        }
    }
    Ok(())
}
fn dtype_is(t: &ExtensibleDataType, d: &Value) -> Result<(), String> {
    let want = match d {
        Value::String(s) => ExtensibleDataType::Core(dtype::oracle(s).unwrap()),
        d => ExtensibleDataType::Extended { extension: d["extension"].as_str().unwrap().into(), type_string: d["type"].as_str().unwrap().into(), fallback: d.get("fallback").map(|f| dtype::oracle(f.as_str().unwrap()).unwrap()) },
    };
    check_eq!(*t, want, "data type");
    Ok(())
}

fn canonical(ctx: &mut Ctx, doc: Map<String, Value>) {
    let v = Value::Object(doc);
    ctx.case("document", || v.to_string(), false, || {
        let m = read(&v)?;
        // What the value says.
        check_eq!(json!(m.get_shape()), v["shape"], "shape");
        check_eq!(json!(m.get_chunk_shape()), v["chunk_grid"]["chunk_shape"], "chunk shape");
        check_eq!(*m.get_chunk_memory_layout(), if v["chunk_memory_layout"] == json!("C") { Order::RowMajor } else { Order::ColumnMajor }, "memory layout");
        check_eq!(m.get_fill_value(), if v["fill_value"].is_null() { None } else { Some(&v["fill_value"]) }, "fill value");
        dtype_is(m.get_data_type(), &v["data_type"])?;
        codec_is(m.get_compressor(), v.get("compressor"))?;
        // What it is written as, and that it is read back.
        check_eq!(serde_json::to_value(&m).map_err(|e| e.to_string())?, v, "written document");
        for s in [serde_json::to_string(&m), serde_json::to_string_pretty(&m)] {
            let s = s.map_err(|e| e.to_string())?;
            check_eq!(serde_json::from_str::<Value>(&s).unwrap(), v, "written text");
            check_eq!(serde_json::from_str::<ArrayMetadata>(&s).map_err(|e| format!("own text rejected: {}", e))?, m, "metadata from text");
            check_eq!(serde_json::from_reader::<_, ArrayMetadata>(s.as_bytes()).map_err(|e| format!("own text rejected: {}", e))?, m, "metadata from a stream");
        }
        // Entries the structure does not have are ignored.
        let mut w = v.clone();
        w["zz"] = json!(1);
        check_eq!(read(&w)?, m, "with a further entry");
        Ok(())
    });
}
fn constructed(ctx: &mut Ctx, r: &mut Rng) {
    let rank = r.below(5);
    let shape: SmallVec<[u64; 6]> = (0..rank).map(|_| { let s = r.below(64); r.next() >> s }).collect();
    let chunk: SmallVec<[u32; 6]> = (0..rank).map(|_| { let s = r.below(32); (r.next() as u32) >> s }).collect();
    let t = *r.pick(TYPES);
    let c = codec_doc(r);
    ctx.case("constructed", || format!("shape {:?}, chunk shape {:?}, type {}, codec {}", shape, chunk, t, json!(c)), false, || {
        let ct = match &c { None => CompressionType::default(), Some(c) => serde_json::from_value(c.clone()).map_err(|e| format!("codec rejected: {}", e))? };
        let m = ArrayMetadata::new(shape.clone(), chunk.clone(), dtype::oracle(t).unwrap(), ct);
        let mut want = json!({"shape": shape.to_vec(), "data_type": t, "chunk_grid": {"type": "regular", "chunk_shape": chunk.to_vec(), "separator": "/"}, "chunk_memory_layout": "F", "fill_value": null, "extensions": [], "attributes": {}});
        if let Some(c) = &c { want["compressor"] = c.clone(); }
        check_eq!(serde_json::to_value(&m).map_err(|e| e.to_string())?, want, "written document");
        check_eq!(read(&want)?, m, "metadata read back");
        Ok(())
    });
}
fn is_err<T: serde::de::DeserializeOwned + std::fmt::Debug>(v: &Value, what: &str) -> Result<(), String> {
    if let Ok(t) = serde_json::from_value::<T>(v.clone()) { return Err(format!("{} accepted as {:?}", what, t)); }
    if let Ok(t) = serde_json::from_str::<T>(&v.to_string()) { return Err(format!("{} accepted as {:?} from text", what, t)); }
    Ok(())
}
fn faulty(ctx: &mut Ctx, doc: Map<String, Value>) {
    let v = Value::Object(doc);
    ctx.case("faulty", || v.to_string(), false, || {
        let cut = |path: &[&str]| -> Value {
            let mut w = v.clone();
            let mut at = &mut w;
            for p in &path[..path.len() - 1] { at = at.get_mut(*p).unwrap(); }
            at.as_object_mut().unwrap().remove(path[path.len() - 1]);
            w
        };
        let put = |path: &[&str], x: Value| -> Value {
            let mut w = v.clone();
            let mut at = &mut w;
            for p in &path[..path.len() - 1] { at = at.get_mut(*p).unwrap(); }
            at[path[path.len() - 1]] = x;
            w
        };
        let required: &[&[&str]] = &[&["shape"], &["data_type"], &["chunk_grid"], &["chunk_memory_layout"], &["extensions"], &["attributes"], &["chunk_grid", "type"], &["chunk_grid", "chunk_shape"], &["chunk_grid", "separator"]];
        for p in required { is_err::<ArrayMetadata>(&cut(p), &format!("a document without {:?}", p))?; }
        let m = read(&cut(&["compressor"]))?;
        codec_is(m.get_compressor(), None)?;
        check_eq!(read(&cut(&["fill_value"]))?.get_fill_value(), None, "fill value of a document without one");
        for (p, bad) in [
            (&["shape"][..], json!(3)), (&["shape"], json!([-1])), (&["shape"], json!(["3"])), (&["shape"], json!([1.5])), (&["shape"], Value::Null),
            (&["data_type"], json!("f4")), (&["data_type"], json!(4)), (&["data_type"], json!({"extension": "x"})), (&["data_type"], json!({"type": "x"})), (&["data_type"], json!({"extension": "x", "type": "y", "fallback": "zz"})), (&["data_type"], Value::Null),
            (&["chunk_grid"], json!("regular")), (&["chunk_grid", "chunk_shape"], json!([4294967296u64])), (&["chunk_grid", "chunk_shape"], json!([-1])), (&["chunk_grid", "type"], json!(1)), (&["chunk_grid", "separator"], Value::Null),
            (&["chunk_memory_layout"], json!("c")), (&["chunk_memory_layout"], json!("RowMajor")), (&["chunk_memory_layout"], json!("ColumnMajor")), (&["chunk_memory_layout"], Value::Null),
            (&["extensions"], json!({})), (&["extensions"], json!([{"extension": "x"}])), (&["extensions"], json!([{"must_understand": true}])), (&["extensions"], json!([{"extension": 1, "must_understand": true}])), (&["extensions"], json!([{"extension": "x", "must_understand": 1}])), (&["extensions"], json!([{"extension": "x", "must_understand": true, "configuration": 3}])),
            (&["attributes"], json!([])), (&["attributes"], Value::Null),
            (&["compressor"], Value::Null), (&["compressor"], json!("raw")), (&["compressor"], json!({"codec": "gzip", "configuration": {}})), (&["compressor"], json!({"codec": "Bzip2", "configuration": {}})), (&["compressor"], json!({"codec": "lz4"})), (&["compressor"], json!({"configuration": {}})), (&["compressor"], json!({"codec": "xz", "configuration": {"preset": "6"}})), (&["compressor"], json!({"codec": "bzip2", "configuration": {"blockSize": 256}})), (&["compressor"], json!({"codec": "lz4", "configuration": {"blockSize": 2147483648u64}})),
        ] { is_err::<ArrayMetadata>(&put(p, bad.clone()), &format!("{:?} = {}", p, bad))?; }
        for (doc, full) in [
            (json!({"codec": GZIP, "configuration": {}}), json!({"codec": GZIP, "configuration": {"level": -1}})),
            (json!({"codec": "bzip2", "configuration": {"block_size": 3}}), json!({"codec": "bzip2", "configuration": {"blockSize": 9}})),
            (json!({"codec": "lz4", "configuration": {}}), json!({"codec": "lz4", "configuration": {"blockSize": 65536}})),
            (json!({"codec": "xz", "configuration": {}}), json!({"codec": "xz", "configuration": {"preset": 6}})),
        ] { codec_is(read(&put(&["compressor"], doc))?.get_compressor(), Some(&full))?; }
        let raw = read(&put(&["compressor"], json!({"codec": "raw", "configuration": null})))?;
        codec_is(raw.get_compressor(), None)?;
        check_eq!(serde_json::to_value(raw.get_compressor()).map_err(|e| e.to_string())?, json!({"codec": "raw", "configuration": null}), "the raw codec's document");
        check_eq!(raw, m, "explicitly raw");
        Ok(())
    });
}
fn parts(ctx: &mut Ctx, r: &mut Rng) {
    let d = extension_doc(r);
    ctx.case("extension", || d.to_string(), false, || {
        let m: ExtensionMetadata = serde_json::from_value(d.clone()).map_err(|e| format!("rejected: {}", e))?;
        check_eq!(json!(m.extension), d["extension"], "name");
        check_eq!(json!(m.must_understand), d["must_understand"], "must_understand");
        check_eq!(m.configuration.clone().map(Value::Object), d.get("configuration").cloned(), "configuration");
        check_eq!(serde_json::to_value(&m).map_err(|e| e.to_string())?, d, "written document");
        for k in ["extension", "must_understand"] { let mut w = d.clone(); w.as_object_mut().unwrap().remove(k); is_err::<ExtensionMetadata>(&w, &format!("a document without {}", k))?; }
        Ok(())
    });
    let e = json!({"zarr_format": text(r), "metadata_encoding": text(r), "metadata_key_suffix": text(r), "extensions": (0..r.below(3)).map(|_| extension_doc(r)).collect::<Vec<_>>()});
    ctx.case("entry point", || e.to_string(), false, || {
        let m: EntryPointMetadata = serde_json::from_value(e.clone()).map_err(|e| format!("rejected: {}", e))?;
        check_eq!(serde_json::to_value(&m).map_err(|e| e.to_string())?, e, "written document");
        for k in ["zarr_format", "metadata_encoding", "metadata_key_suffix", "extensions"] { let mut w = e.clone(); w.as_object_mut().unwrap().remove(k); is_err::<EntryPointMetadata>(&w, &format!("a document without {}", k))?; }
        Ok(())
    });
    let t = dtype_doc(r);
    ctx.case("data type", || t.to_string(), false, || {
        let m: ExtensibleDataType = serde_json::from_value(t.clone()).map_err(|e| format!("rejected: {}", e))?;
        dtype_is(&m, &t)?;
        check_eq!(serde_json::to_value(&m).map_err(|e| e.to_string())?, t, "written document");
        Ok(())
    });
    // Any type that the format can denote.
    let any = match r.below(3) { 0 => DataType::Bool, 1 => dtype::oracle(r.pick(TYPES)).unwrap(), _ => DataType::Raw { size: r.below(1 << 40) as usize * 8 } };
    ctx.case("type value", || format!("{:?}", any), false, || {
        let v = serde_json::to_value(&ExtensibleDataType::Core(any)).map_err(|e| e.to_string())?;
        check_eq!(serde_json::from_value::<ExtensibleDataType>(v).map_err(|e| format!("rejected: {}", e))?, ExtensibleDataType::Core(any), "read back");
        Ok(())
    });
}
/// The documents that a hierarchy writes.
fn stored(ctx: &mut Ctx, r: &mut Rng, k: u64) {
    let mut doc = Value::Object(array_doc(r));
    for x in doc["extensions"].as_array_mut().unwrap() { x["must_understand"] = json!(false); }
    ctx.case("stored", || doc.to_string(), false, || {
        use zarr::{HierarchyReader, HierarchyWriter};
        let dir = std::path::PathBuf::from(std::env::var("REPLAY_SCRATCH").unwrap()).join(format!("docs{}", k));
        let e = |e: std::io::Error| format!("unexpected error: {}", e);
        let res = (|| {
            let h = zarr::prelude::FilesystemHierarchy::open_or_create(&dir).map_err(e)?;
            let entry: Value = serde_json::from_slice(&std::fs::read(dir.join("zarr.json")).map_err(e)?).map_err(|e| e.to_string())?;
            check_eq!(entry["metadata_key_suffix"], json!(".json"), "suffix");
            let fields: Vec<&String> = entry.as_object().ok_or("no object")?.keys().collect();
            check_eq!(fields.len(), 4, "entries of zarr.json ({:?})", fields);
            let m = read(&doc)?;
            h.create_array("/a/b", &m).map_err(e)?;
            let w: Value = serde_json::from_slice(&std::fs::read(dir.join("meta/root/a/b.array.json")).map_err(e)?).map_err(|e| e.to_string())?;
            check_eq!(w, doc, "stored document");
            check_eq!(h.get_array_metadata("/a/b").map_err(e)?, m, "metadata of the stored array");
            Ok(())
        })();
        let _ = std::fs::remove_dir_all(&dir);
        res
    });
}

pub fn c21(ctx: &mut Ctx) {
    let mut r = ctx.rng(21);
    for _ in 0..ctx.n(600) { let d = array_doc(&mut r); canonical(ctx, d); }
    for _ in 0..ctx.n(200) { constructed(ctx, &mut r); }
    for _ in 0..ctx.n(60) { let d = array_doc(&mut r); faulty(ctx, d); }
    for _ in 0..ctx.n(300) { parts(ctx, &mut r); }
    for k in 0..ctx.n(40) { stored(ctx, &mut r, k); }
}
