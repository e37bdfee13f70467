@@given within.vrs
@@include json.vrs
@@include errors.vrs
@@world vx_metadata metadata exists create_dir_all open lock_shared lock_exclusive unlock set_len vx_buf_writer call path_metadata vx_from_reader
@@path serde_json::from_reader vx_from_reader
@@path fs::metadata vx_metadata
@@method set_extension vx_other_extension
@@path fs::create_dir_all create_dir_all
@@path BufWriter::new vx_buf_writer
@@path BufReader::new vx_buf_reader
@@path File::open VxFile::open
@@path fs::OpenOptions::new VxOpen::new
@@path value value.call
@@type fs::Metadata VxMetadata
// C19: files that others use meanwhile.  Between any two steps anything may happen to a file, but for two rules that everyone keeps:
// bytes are changed only under the exclusive lock, and what is left when it is given up is a whole value.
verus! {
pub type Place = Seq<Seq<char>>;
// The file that a handle is open on; files that have been at a place.
pub uninterp spec fn inode(h: int) -> int;
pub uninterp spec fn linked(n: int, p: Place) -> bool;
#[verifier::external_body] pub struct VxFs { _p: () }
impl VxFs {
    // The lock that a handle holds: none, shared or exclusive.
    pub uninterp spec fn lock(self, h: int) -> nat;
    pub uninterp spec fn data(self, n: int) -> Seq<u8>;
    // Some `set` was given this value and has written it to the file.
    pub uninterp spec fn whole(self, n: int, b: Seq<u8>) -> bool;
    // What a file holds while nobody writes: one whole value; nothing, if none has been written yet.
    pub open spec fn settled(self, n: int) -> bool { self.whole(n, self.data(n)) || (self.data(n).len() == 0 && forall|b: Seq<u8>| !self.whole(n, b)) }
    // What may happen meanwhile: anything to files on which no lock is held.
    pub open spec fn later(self, o: VxFs) -> bool {
        (forall|h: int| #[trigger] self.lock(h) == o.lock(h)) && (forall|h: int| #[trigger] o.lock(h) > 0 ==> self.data(inode(h)) == o.data(inode(h)) && forall|b: Seq<u8>| #[trigger] self.whole(inode(h), b) == o.whole(inode(h), b))
    }
    pub open spec fn later_but(self, o: VxFs, h0: int) -> bool {
        (forall|h: int| h != h0 ==> #[trigger] self.lock(h) == o.lock(h)) && (forall|h: int| h != h0 && #[trigger] o.lock(h) > 0 && inode(h) != inode(h0) ==> self.data(inode(h)) == o.data(inode(h)) && forall|b: Seq<u8>| #[trigger] self.whole(inode(h), b) == o.whole(inode(h), b))
    }
}
pub struct VxMetadata { pub dir: bool, pub n: u64 }
impl VxMetadata {
    pub fn is_file(&self) -> (r: bool) ensures r == !self.dir { !self.dir }
    pub fn len(&self) -> (r: u64) ensures r == self.n { self.n }
    pub fn is_dir(&self) -> (r: bool) ensures r == self.dir { self.dir }
}
#[verifier::external_body]
pub fn vx_metadata<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<VxMetadata, Error>) ensures final(vx_w).later(*old(vx_w)) { unimplemented!() }
impl VxPath {
    #[verifier::external_body]
    pub fn exists(&self, vx_w: &mut VxFs) -> (r: bool) ensures final(vx_w).later(*old(vx_w)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_other_extension(&mut self, e: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&VxPath>)
        ensures match r { Some(q) => names(self@).len() > 0 && names(q@) == names(self@).drop_last(), None => names(self@).len() == 0 }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<(), Error>) ensures final(vx_w).later(*old(vx_w)) { unimplemented!() }
// Open files, with the locks of flock(2): a lock is waited for, belongs to the handle and goes with it.
#[verifier::external_body] pub struct VxFile { _p: () }
impl VxFile {
    pub uninterp spec fn id(self) -> int;
    pub uninterp spec fn writes(self) -> bool;
    pub uninterp spec fn appends(self) -> bool;
    #[verifier::external_body]
    pub fn open<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<VxFile, Error>)
        ensures final(vx_w).later(*old(vx_w)), r matches Ok(f) ==> linked(inode(f.id()), names(p.text())) && !f.writes() && final(vx_w).lock(f.id()) == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, vx_w: &mut VxFs) -> (r: Result<VxMetadata, Error>)
        ensures final(vx_w).later(*old(vx_w)), r matches Ok(m) ==> (old(vx_w).lock(self.id()) > 0 ==> m.n == old(vx_w).data(inode(self.id())).len())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_shared(&self, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        ensures final(vx_w).later_but(*old(vx_w), self.id()), r is Ok ==> final(vx_w).lock(self.id()) == 1 && final(vx_w).settled(inode(self.id())), r is Err ==> final(vx_w).lock(self.id()) == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_exclusive(&self, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        ensures final(vx_w).later_but(*old(vx_w), self.id()), r is Ok ==> final(vx_w).lock(self.id()) == 2 && final(vx_w).settled(inode(self.id())), r is Err ==> final(vx_w).lock(self.id()) == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn unlock(&self, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        requires old(vx_w).lock(self.id()) == 2 ==> old(vx_w).settled(inode(self.id()))
        ensures final(vx_w).later_but(*old(vx_w), self.id()), final(vx_w).lock(self.id()) == 0
    { unimplemented!() }
    // Changing the bytes of a file that others may be reading needs the exclusive lock.
    #[verifier::external_body]
    pub fn set_len(&self, n: u64, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        requires self.writes(), old(vx_w).lock(self.id()) == 2
        ensures final(vx_w).lock(self.id()) == 2, final(vx_w).later_but(*old(vx_w), self.id()),
            r is Ok && n <= old(vx_w).data(inode(self.id())).len() ==> final(vx_w).data(inode(self.id())) == old(vx_w).data(inode(self.id())).take(n as int),
    { unimplemented!() }
}
pub struct VxOpen { pub r: bool, pub w: bool, pub a: bool, pub c: bool, pub t: bool }
impl VxOpen {
    pub fn new() -> (o: VxOpen) ensures !o.r, !o.w, !o.a, !o.c, !o.t { VxOpen { r: false, w: false, a: false, c: false, t: false } }
    pub fn read(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { r: x, ..self }) { VxOpen { r: x, ..self } }
    pub fn write(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { w: x, ..self }) { VxOpen { w: x, ..self } }
    pub fn append(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { a: x, ..self }) { VxOpen { a: x, ..self } }
    pub fn create(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { c: x, ..self }) { VxOpen { c: x, ..self } }
    pub fn truncate(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { t: x, ..self }) { VxOpen { t: x, ..self } }
    // Truncating on opening needs no lock, so it is never safe.
    #[verifier::external_body]
    pub fn open<P: VxText>(self, p: P, vx_w: &mut VxFs) -> (r: Result<VxFile, Error>)
        requires !self.t
        ensures final(vx_w).later(*old(vx_w)), r matches Ok(f) ==> linked(inode(f.id()), names(p.text())) && f.writes() == self.w && f.appends() == self.a && final(vx_w).lock(f.id()) == 0
    { unimplemented!() }
}
// Reading takes its bytes from the file one after another, as long as the reader lives.
#[verifier::external_body] pub struct VxFileReader { _p: () }
impl VxFileReader { pub uninterp spec fn id(self) -> int; }
#[verifier::external_body]
pub fn vx_buf_reader(f: VxFile) -> (r: VxFileReader) ensures r.id() == f.id() { unimplemented!() }
// A document is read from a locked file to its end; then the file is closed.  What has been written stays so.
#[verifier::external_body]
pub fn vx_from_reader<T: VxParse>(r: VxFileReader, vx_w: &mut VxFs) -> (t: Result<T, Error>)
    requires old(vx_w).lock(r.id()) > 0
    ensures final(vx_w).later_but(*old(vx_w), r.id()), final(vx_w).lock(r.id()) == 0, forall|b: Seq<u8>| old(vx_w).whole(inode(r.id()), b) ==> #[trigger] final(vx_w).whole(inode(r.id()), b),
        t matches Ok(v) ==> T::parsed(old(vx_w).data(inode(r.id()))) == Some(v),
{ unimplemented!() }
#[verifier::external_body] pub struct VxFileWriter { _p: () }
impl VxFileWriter {
    pub uninterp spec fn id(self) -> int;
    pub uninterp spec fn written(self) -> Seq<u8>;
}
pub open spec fn overlaid(base: Seq<u8>, b: Seq<u8>) -> Seq<u8> { if b.len() >= base.len() { b } else { b + base.skip(b.len() as int) } }
#[verifier::external_body]
pub fn vx_buf_writer(f: VxFile, vx_w: &mut VxFs) -> (r: VxFileWriter)
    requires f.writes(), !f.appends()
    ensures final(vx_w).later(*old(vx_w)), r.id() == f.id(), r.written().len() == 0
{ unimplemented!() }
// The function given to `set`: what it writes and flushes, if it does not fail; at its end the file is closed.
pub trait VxValue: Sized {
    spec fn bytes(self) -> Option<Seq<u8>>;
    fn call(self, w: VxFileWriter, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        requires old(vx_w).lock(w.id()) == 2, self.bytes() matches Some(b) ==> overlaid(old(vx_w).data(inode(w.id())), w.written() + b) == b
        ensures r is Ok ==> self.bytes() is Some && final(vx_w).whole(inode(w.id()), self.bytes()->Some_0);
}
impl FilesystemHierarchy {
    pub open spec fn place(self, key: Seq<char>) -> Place { names(self.base_path@) + names(key) }
    pub open spec fn sound(self, key: Seq<char>) -> bool { names(key).len() + 2 < i32::MAX && inside(below(key)) }
@@fn src/store/filesystem.rs FilesystemHierarchy::path_metadata
sig pub fn path_metadata(path: &VxPath, vx_w: &mut VxFs) -> (r: Result<Option<VxMetadata>, Error>)
spec
    ensures final(vx_w).later(*old(vx_w))
@@end
@@fn src/store/filesystem.rs impl ReadableStore for FilesystemHierarchy::get as FilesystemHierarchy::get for C19
sig pub fn get(&self, key: &str, vx_w: &mut VxFs) -> (r: Result<Option<VxFileReader>, Error>)
spec
    requires self.sound(key@)
    // The file is locked as long as it is read, and what it holds is a whole value of the key.
    ensures r matches Ok(Some(c)) ==> final(vx_w).lock(c.id()) > 0 && final(vx_w).settled(inode(c.id())) && linked(inode(c.id()), self.place(key@))
@@end
@@fn src/store/filesystem.rs FilesystemHierarchy::get_attributes for C19
sig pub fn get_attributes(&self, key: &str, vx_w: &mut VxFs) -> (r: Result<Value, Error>)
spec
    requires self.sound(key@)
    // A document read from the key's file is one that was written whole.
    ensures r matches Ok(v) ==> (v matches Value::Object(o) && o@ == Map::<Seq<char>, Value>::empty())
        || exists|h: int, b: Seq<u8>| linked(#[trigger] inode(h), self.place(key@)) && #[trigger] json_parse(b) == Some(v) && (final(vx_w).whole(inode(h), b) || b.len() == 0)
@@end
@@fn src/store/filesystem.rs impl WriteableStore for FilesystemHierarchy::set as FilesystemHierarchy::set for C19
sig pub fn set<F: VxValue>(&self, key: &str, value: F, vx_w: &mut VxFs) -> (r: Result<(), Error>)
spec
    requires self.sound(key@)
    // The file that is or was the key's holds the value at the end, whoever else used it; it is only changed under the exclusive lock.
    ensures r is Ok ==> value.bytes() is Some && exists|n: int| linked(n, self.place(key@)) && #[trigger] final(vx_w).whole(n, value.bytes()->Some_0)
start
    proof { assert forall|b: Seq<u8>, w: Seq<u8>, a: Seq<u8>| b.len() == 0 && w.len() == 0 implies #[trigger] overlaid(b, w + a) == a by { assert(w + a =~= a); } }
@@end
}
}
