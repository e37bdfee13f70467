//! C08: codecs.
use crate::chunks::{Choppy, ChoppyW};
use crate::elem::CODECS;
use crate::util::*;
use crate::{check, check_eq};
use serde_json::json;
use std::io::{Read, Write};
use zarr::compression::{Compression, CompressionType};

pub fn configs(thorough: bool) -> Vec<(&'static str, serde_json::Value)> {
    let mut out = vec![("raw", json!({"codec": "raw", "configuration": null}))];
    let ints: Vec<i64> = vec![i32::MIN as i64, -1000, -65536, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 31, 100, 255, 256, 65535, 65536, 65537, 262143, 262144, 262145, 1048575, 1048576, 1048577, 4194304, 4194305, 1 << 30, i32::MAX as i64];
    for &i in &ints {
        out.push(("gzip", json!({"codec": "https://purl.org/zarr/spec/codec/gzip/1.0", "configuration": {"level": i}})));
        out.push(("lz4", json!({"codec": "lz4", "configuration": {"blockSize": i}})));
        // Higher presets allocate hundreds of megabytes; they are legal and handled by the same path.
        out.push(("xz", json!({"codec": "xz", "configuration": {"preset": i}})));
    }
    for i in 0..=255 { if thorough || i < 20 || i % 16 == 0 || i > 250 { out.push(("bzip2", json!({"codec": "bzip2", "configuration": {"blockSize": i}}))); } }
    out.push(("gzip", json!({"codec": "https://purl.org/zarr/spec/codec/gzip/1.0", "configuration": {}})));
    out.push(("bzip2", json!({"codec": "bzip2", "configuration": {}})));
    out.push(("xz", json!({"codec": "xz", "configuration": {}})));
    out.push(("lz4", json!({"codec": "lz4", "configuration": {}})));
    out
}

fn magic(name: &str, b: &[u8], data: &[u8]) -> bool {
    match name {
        "raw" => b == data,
        "gzip" => b.starts_with(&[0x1f, 0x8b, 8]),
        "bzip2" => b.starts_with(b"BZh") && b.len() > 3 && (b'1'..=b'9').contains(&b[3]),
        "xz" => b.starts_with(&[0xfd, b'7', b'z', b'X', b'Z', 0]),
        "lz4" => b.starts_with(&[0x04, 0x22, 0x4d, 0x18]),
        _ => false,
    }
}

fn roundtrip(ct: &CompressionType, name: &str, data: &[u8], r: &mut Rng, mode: u64) -> Result<(), String> {
    let e = |e: std::io::Error| format!("unexpected error: {}", e);
    let (max, intr) = match mode { 0 => (0, false), 1 => (1, false), _ => (5000, true) };
    let mut sink = ChoppyW::new(r.clone(), max, false);
    {
        let mut w = ct.encoder(&mut sink);
        let mut rest = data;
        while !rest.is_empty() {
            let n = match mode { 0 => rest.len(), 1 => r.range(1, 700) as usize, _ => r.range(1, 70000) as usize }.min(rest.len());
            w.write_all(&rest[..n]).map_err(e)?;
            rest = &rest[n..];
        }
    }
    let enc = sink.data;
    check!(magic(name, &enc, data), "stream is not in {} format: {:?}", name, &enc[..enc.len().min(8)]);
    let mut back = vec![];
    {
        let mut d = ct.decoder(Choppy::new(&enc, r.clone(), max, intr));
        if mode == 2 { let mut b = [0u8; 113]; loop { match d.read(&mut b) { Ok(0) => break, Ok(n) => back.extend_from_slice(&b[..n]), Err(ref x) if x.kind() == std::io::ErrorKind::Interrupted => (), Err(x) => return Err(e(x)) } } }
        else { d.read_to_end(&mut back).map_err(e)?; }
    }
    check_eq!(back.len(), data.len(), "decoded length");
    check!(back == data, "decoded bytes differ");
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    let tag = if cfg!(feature = "pure") { "lz_pure " } else { "" };
    let g = format!("{}round trip", tag);
    let cfgs = configs(ctx.thorough);
    let mut salt = 800;
    for (name, j) in &cfgs {
        if cfg!(feature = "pure") && *name != "lz4" { continue; }
        let heavy = *name == "xz" && matches!(j["configuration"]["preset"].as_i64(), Some(7..=9));
        let mut datas: Vec<(&str, usize)> = vec![("empty", 0), ("one", 1), ("random", 300), ("runs", 5000)];
        if heavy && !ctx.thorough { datas = vec![("random", 300)]; }
        if ctx.thorough && !heavy { datas.push(("random", 70000)); datas.push(("mixed", 300000)); }
        for (kind, n) in datas { for mode in 0..if heavy { 1 } else { 3u64 } {
            salt += 1;
            let r0 = ctx.rng(salt);
            ctx.case(&g, || format!("{} {} bytes {} mode {}", j, kind, n, mode), n == 0, || {
                let ct: CompressionType = serde_json::from_value(j.clone()).map_err(|e| format!("configuration rejected: {}", e))?;
                let mut r = r0.clone();
                let data: Vec<u8> = match kind { "runs" => (0..n).map(|i| (i / 97) as u8).collect(), "mixed" => (0..n).map(|i| if (i / 4096) % 2 == 0 { 0 } else { r.next() as u8 }).collect(), _ => r.bytes(n) };
                roundtrip(&ct, name, &data, &mut r, mode)
            });
        } }
    }
    // One larger stream per codec.
    for name in CODECS {
        if cfg!(feature = "pure") && *name != "lz4" { continue; }
        let r0 = ctx.rng(850);
        ctx.case(&g, || format!("{} default, 9 MB", name), false, || {
            let ct: CompressionType = name.parse().map_err(|e| format!("{}", e))?;
            let mut r = r0.clone();
            let data: Vec<u8> = (0..9_000_000usize).map(|i| if (i / 5000) % 3 == 0 { r.next() as u8 } else { (i / 64) as u8 }).collect();
            roundtrip(&ct, name, &data, &mut r, 0)
        });
    }
    // Names.
    let g = format!("{}names", tag);
    for (name, shown) in [("raw", "Raw"), ("bzip2", "Bzip2"), ("gzip", "Gzip"), ("xz", "Xz"), ("lz4", "Lz4")] {
        ctx.case(&g, || name.to_string(), false, || {
            let want: CompressionType = match name {
                "raw" => CompressionType::new::<zarr::compression::raw::RawCompression>(),
                "bzip2" => CompressionType::new::<zarr::compression::bzip::Bzip2Compression>(),
                "gzip" => CompressionType::new::<zarr::compression::gzip::GzipCompression>(),
                "xz" => CompressionType::new::<zarr::compression::xz::XzCompression>(),
                _ => CompressionType::new::<zarr::compression::lz::Lz4Compression>(),
            };
            check_eq!(want.to_string(), shown, "printed name");
            // Every capitalisation.
            for mask in 0..(1u32 << name.len()) {
                let s: String = name.chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                let got: CompressionType = s.parse().map_err(|e| format!("{:?} rejected: {}", s, e))?;
                check_eq!(got, want, "codec named {:?}", s);
            }
            check_eq!(want.is_default(), name == "raw", "is_default");
            Ok(())
        });
    }
    for s in ["", " raw", "raw ", "gz", "gzip1", "gzi", "bzip", "bz2", "lz", "lz4 ", "xz2", "lzma", "zstd", "none", "default", "r\u{e4}w", "\u{212a}raw", "gzıp", "raw\0"] {
        ctx.case(&g, || format!("unknown {:?}", s), false, || { check!(s.parse::<CompressionType>().is_err(), "accepted"); Ok(()) });
    }
    for (name, j) in &cfgs {
        ctx.case(&format!("{}default", tag), || format!("{}", j), false, || {
            let ct: CompressionType = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
            check_eq!(ct.is_default(), *name == "raw", "is_default");
            check_eq!(ct.to_string().to_lowercase(), *name, "printed name");
            // Configuration survives its own serialization.
            let again: CompressionType = serde_json::from_value(serde_json::to_value(&ct).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            check_eq!(again, ct, "serialized configuration");
            Ok(())
        });
    }
}
