//! A model store with optional faults, and scratch filesystem hierarchies.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Write};
use std::path::PathBuf;
use std::rc::Rc;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};
use zarr::{EntryPointMetadata, Hierarchy};

pub type Map = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    /// The n-th store call fails.
    Op(u64),
    /// Readers fail after n bytes.
    Read(u64),
    /// Writers fail after n bytes.
    Write(u64),
    /// Writers accept zero bytes after n bytes.
    WriteZero(u64),
    /// Writers fail on flush.
    Flush,
}

pub struct MemStore {
    pub map: Rc<RefCell<Map>>,
    pub meta: EntryPointMetadata,
    pub fault: Cell<Fault>,
    pub ops: Cell<u64>,
    pub hit: Rc<Cell<bool>>,
    pub log: RefCell<Vec<(&'static str, String)>>,
    /// Readers and writers transfer at most this many bytes per call (0: all).
    pub step: Cell<usize>,
    /// The kind of injected errors.
    pub kind: Cell<ErrorKind>,
}

pub fn entry_meta(suffix: &str) -> EntryPointMetadata {
    serde_json::from_value(serde_json::json!({
        "zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_key_suffix": suffix, "extensions": []
    })).unwrap()
}

/// Lexical normal form of a key: its components.
pub fn norm(key: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in key.split('/') {
        match c { "" | "." => (), _ => out.push(c) }
    }
    format!("/{}", out.join("/"))
}

impl MemStore {
    pub fn new() -> MemStore { MemStore::with_suffix(".json") }
    pub fn with_suffix(s: &str) -> MemStore {
        MemStore {
            map: Default::default(), meta: entry_meta(s), fault: Cell::new(Fault::None), ops: Cell::new(0),
            hit: Default::default(), log: Default::default(), step: Cell::new(0), kind: Cell::new(ErrorKind::Other),
        }
    }
    pub fn snapshot(&self) -> Map { self.map.borrow().clone() }
    pub fn arm(&self, f: Fault) { self.fault.set(f); self.ops.set(0); self.hit.set(false); }
    fn op(&self, name: &'static str, key: &str) -> Result<(), Error> {
        self.log.borrow_mut().push((name, key.to_string()));
        let n = self.ops.get();
        self.ops.set(n + 1);
        if self.fault.get() == Fault::Op(n) { self.hit.set(true); return Err(Error::new(self.kind.get(), "injected")); }
        Ok(())
    }
}

pub struct MemReader { kind: ErrorKind, data: Vec<u8>, pos: usize, fail_at: Option<u64>, hit: Rc<Cell<bool>>, step: usize }
impl Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        if buf.is_empty() { return Ok(0); }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.step > 0 { n = n.min(self.step); }
        if let Some(f) = self.fail_at {
            let left = (f as usize).saturating_sub(self.pos);
            if left == 0 { self.hit.set(true); return Err(Error::new(self.kind, "injected")); }
            n = n.min(left);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct MemWriter { kind: ErrorKind, map: Rc<RefCell<Map>>, key: String, fault: Fault, hit: Rc<Cell<bool>>, written: u64, step: usize }
impl Write for MemWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize, Error> {
        if buf.is_empty() { return Ok(0); }
        let mut n = buf.len();
        if self.step > 0 { n = n.min(self.step); }
        match self.fault {
            Fault::Write(k) => {
                let left = k.saturating_sub(self.written) as usize;
                if left == 0 { self.hit.set(true); return Err(Error::new(self.kind, "injected")); }
                n = n.min(left);
            }
            Fault::WriteZero(k) => {
                let left = k.saturating_sub(self.written) as usize;
                if left == 0 { self.hit.set(true); return Ok(0); }
                n = n.min(left);
            }
            _ => (),
        }
        self.written += n as u64;
        self.map.borrow_mut().get_mut(&self.key).unwrap().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> {
        if self.fault == Fault::Flush { self.hit.set(true); return Err(Error::new(self.kind, "injected")); }
        Ok(())
    }
}

impl Hierarchy for MemStore {
    fn get_entry_point_metadata(&self) -> &EntryPointMetadata { &self.meta }
}
impl ReadableStore for MemStore {
    type GetReader = MemReader;
    fn exists(&self, key: &str) -> Result<bool, Error> {
        self.op("exists", key)?;
        Ok(self.map.borrow().contains_key(&norm(key)))
    }
    fn get(&self, key: &str) -> Result<Option<MemReader>, Error> {
        self.op("get", key)?;
        let fail_at = if let Fault::Read(n) = self.fault.get() { Some(n) } else { None };
        Ok(self.map.borrow().get(&norm(key)).map(|d| MemReader { kind: self.kind.get(), data: d.clone(), pos: 0, fail_at, hit: self.hit.clone(), step: self.step.get() }))
    }
    fn uri(&self, key: &str) -> Result<String, Error> {
        self.op("uri", key)?;
        Ok(format!("mem://{}", key))
    }
}
impl WriteableStore for MemStore {
    type SetWriter = MemWriter;
    fn set<F: FnOnce(MemWriter) -> Result<(), Error>>(&self, key: &str, value: F) -> Result<(), Error> {
        self.op("set", key)?;
        let key = norm(key);
        self.map.borrow_mut().insert(key.clone(), vec![]);
        value(MemWriter { kind: self.kind.get(), map: self.map.clone(), key, fault: self.fault.get(), hit: self.hit.clone(), written: 0, step: self.step.get() })
    }
    fn erase(&self, key: &str) -> Result<bool, Error> {
        self.op("erase", key)?;
        self.map.borrow_mut().remove(&norm(key));
        Ok(true)
    }
    fn erase_prefix(&self, p: &str) -> Result<bool, Error> {
        self.op("erase_prefix", p)?;
        // With a slash at the end the prefix only matches keys below it.
        let (dir, p) = (p.ends_with('/'), norm(p));
        self.map.borrow_mut().retain(|k, _| !under(k, &p) || (dir && *k == p));
        Ok(true)
    }
}
impl ListableStore for MemStore {
    fn list_dir(&self, prefix: &str) -> Result<(Vec<String>, Vec<String>), Error> {
        self.op("list_dir", prefix)?;
        let dir = norm(prefix);
        let base = if prefix.is_empty() || prefix.ends_with('/') { prefix.to_string() } else { format!("{}/", prefix) };
        let (mut keys, mut prefixes) = (vec![], vec![]);
        for k in self.map.borrow().keys() {
            if *k == dir || !under(k, &dir) { continue; }
            let rest = if dir == "/" { &k[1..] } else { &k[dir.len() + 1..] };
            match rest.find('/') {
                None => keys.push(format!("{}{}", base, rest)),
                Some(i) => {
                    let p = format!("{}{}", base, &rest[..i]);
                    if !prefixes.contains(&p) { prefixes.push(p); }
                }
            }
        }
        Ok((keys, prefixes))
    }
}

pub fn under(k: &str, p: &str) -> bool {
    k == p || p == "/" || (k.starts_with(p) && k.as_bytes()[p.len()] == b'/')
}

static COUNTER: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// A scratch directory, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("REPLAY_SCRATCH").expect("REPLAY_SCRATCH");
        let p = PathBuf::from(base).join(format!("s{}", COUNTER.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

/// All regular files below a directory, as keys.
pub fn dir_map(root: &std::path::Path) -> Map {
    fn walk(p: &std::path::Path, rel: &str, out: &mut Map) {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd {
                let e = e.unwrap();
                let name = format!("{}/{}", rel, e.file_name().to_str().unwrap());
                let t = std::fs::metadata(e.path());
                match t {
                    Ok(t) if t.is_dir() => walk(&e.path(), &name, out),
                    Ok(_) => { out.insert(name, std::fs::read(e.path()).unwrap_or_default()); }
                    Err(_) => (),
                }
            }
        }
    }
    let mut out = Map::new();
    walk(root, "", &mut out);
    out
}

/// A writable store whose whole content can be observed.
pub trait Probe: zarr::HierarchyReader + zarr::HierarchyWriter + zarr::HierarchyLister + ReadableStore + WriteableStore + ListableStore {
    /// Content except the entry point.
    fn content(&self) -> Map;
    fn name(&self) -> &'static str;
}
impl Probe for MemStore {
    fn content(&self) -> Map { self.snapshot() }
    fn name(&self) -> &'static str { "memory" }
}
pub struct FsStore { pub dir: Scratch, pub h: zarr::prelude::FilesystemHierarchy }
impl FsStore {
    pub fn new() -> FsStore {
        let dir = Scratch::new();
        let h = zarr::prelude::FilesystemHierarchy::open_or_create(dir.0.join("base")).unwrap();
        FsStore { dir, h }
    }
    pub fn base(&self) -> PathBuf { self.dir.0.join("base") }
}
impl Probe for zarr::prelude::FilesystemHierarchy {
    fn content(&self) -> Map {
        let uri = self.uri("").unwrap();
        let mut m = dir_map(std::path::Path::new(uri.strip_prefix("file://").unwrap()));
        m.remove("/zarr.json");
        m
    }
    fn name(&self) -> &'static str { "filesystem" }
}
