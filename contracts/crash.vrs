@@given within.vrs
@@include json.vrs
@@include errors.vrs
@@world vx_metadata metadata exists create_dir_all open lock_shared lock_exclusive unlock set_len vx_buf_writer call path_metadata
@@path fs::metadata vx_metadata
@@path fs::create_dir_all create_dir_all
@@path BufWriter::new vx_buf_writer
@@path fs::OpenOptions::new VxOpen::new
@@path value value.call
@@type fs::Metadata VxMetadata
// C20: what a file holds at every moment of a write.  Every operation that changes a file asks that whatever it may hold meanwhile fits.
verus! {
pub type Place = Seq<Seq<char>>;
// The file at the place may be found with these bytes, if the process ends now.
pub uninterp spec fn fits(p: Place, b: Seq<u8>) -> bool;
#[verifier::external_body] pub struct VxFs { _p: () }
impl VxFs {
    pub uninterp spec fn file(self, p: Place) -> Option<Seq<u8>>;
    pub open spec fn same(self, o: VxFs) -> bool { forall|q: Place| #[trigger] self.file(q) == o.file(q) }
    pub open spec fn same_but(self, o: VxFs, p: Place) -> bool { forall|q: Place| q != p ==> #[trigger] self.file(q) == o.file(q) }
}
pub struct VxMetadata { pub dir: bool, pub n: u64 }
impl VxMetadata {
    pub fn is_file(&self) -> (r: bool) ensures r == !self.dir { !self.dir }
    pub fn len(&self) -> (r: u64) ensures r == self.n { self.n }
    pub fn is_dir(&self) -> (r: bool) ensures r == self.dir { self.dir }
}
#[verifier::external_body]
pub fn vx_metadata<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<VxMetadata, Error>) ensures final(vx_w).same(*old(vx_w)), r matches Ok(m) ==> !m.dir == (old(vx_w).file(names(p.text())) is Some) { unimplemented!() }
impl VxPath {
    #[verifier::external_body]
    pub fn exists(&self, vx_w: &mut VxFs) -> (r: bool) ensures final(vx_w).same(*old(vx_w)) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&VxPath>) { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<(), Error>) ensures final(vx_w).same(*old(vx_w)) { unimplemented!() }
pub open spec fn cut(b: Seq<u8>, n: nat) -> Seq<u8> { if n <= b.len() { b.take(n as int) } else { b + Seq::new((n - b.len()) as nat, |i: int| 0u8) } }
#[verifier::external_body] pub struct VxFile { _p: () }
impl VxFile {
    pub uninterp spec fn place(self) -> Place;
    pub uninterp spec fn writes(self) -> bool;
    pub uninterp spec fn appends(self) -> bool;
    #[verifier::external_body]
    pub fn metadata(&self, vx_w: &mut VxFs) -> (r: Result<VxMetadata, Error>)
        ensures final(vx_w).same(*old(vx_w)), r matches Ok(m) ==> !m.dir && (old(vx_w).file(self.place()) matches Some(b) ==> m.n == b.len())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_shared(&self, vx_w: &mut VxFs) -> (r: Result<(), Error>) ensures final(vx_w).same(*old(vx_w)) { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_exclusive(&self, vx_w: &mut VxFs) -> (r: Result<(), Error>) ensures final(vx_w).same(*old(vx_w)) { unimplemented!() }
    #[verifier::external_body]
    pub fn unlock(&self, vx_w: &mut VxFs) -> (r: Result<(), Error>) ensures final(vx_w).same(*old(vx_w)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&self, n: u64, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        requires self.writes(), old(vx_w).file(self.place()) matches Some(b) ==> fits(self.place(), cut(b, n as nat))
        ensures final(vx_w).same_but(*old(vx_w), self.place()), match r { Ok(_) => old(vx_w).file(self.place()) matches Some(b) ==> final(vx_w).file(self.place()) == Some(cut(b, n as nat)), Err(_) => final(vx_w).same(*old(vx_w)) }
    { unimplemented!() }
}
pub struct VxOpen { pub r: bool, pub w: bool, pub a: bool, pub c: bool, pub t: bool }
impl VxOpen {
    pub fn new() -> (o: VxOpen) ensures !o.r, !o.w, !o.a, !o.c, !o.t { VxOpen { r: false, w: false, a: false, c: false, t: false } }
    pub fn read(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { r: x, ..self }) { VxOpen { r: x, ..self } }
    pub fn write(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { w: x, ..self }) { VxOpen { w: x, ..self } }
    pub fn append(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { a: x, ..self }) { VxOpen { a: x, ..self } }
    pub fn create(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { c: x, ..self }) { VxOpen { c: x, ..self } }
    pub fn truncate(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { t: x, ..self }) { VxOpen { t: x, ..self } }
    #[verifier::external_body]
    pub fn open<P: VxText>(self, p: P, vx_w: &mut VxFs) -> (r: Result<VxFile, Error>)
        // A file that is made or truncated is empty.
        requires self.t || (self.c && old(vx_w).file(names(p.text())) is None) ==> fits(names(p.text()), seq![])
        ensures match r {
            Ok(f) => final(vx_w).same_but(*old(vx_w), names(p.text())) && f.place() == names(p.text()) && f.writes() == self.w && f.appends() == self.a
                && final(vx_w).file(names(p.text())) == Some(match old(vx_w).file(names(p.text())) { Some(b) => if self.t { seq![] } else { b }, None => seq![] }),
            Err(_) => final(vx_w).same(*old(vx_w)),
        }
    { unimplemented!() }
}
#[verifier::external_body] pub struct VxFileWriter { _p: () }
impl VxFileWriter {
    pub uninterp spec fn place(self) -> Place;
    pub uninterp spec fn base(self) -> Seq<u8>;
    pub uninterp spec fn written(self) -> Seq<u8>;
}
pub open spec fn overlaid(base: Seq<u8>, b: Seq<u8>) -> Seq<u8> { if b.len() >= base.len() { b } else { b + base.skip(b.len() as int) } }
#[verifier::external_body]
pub fn vx_buf_writer(f: VxFile, vx_w: &mut VxFs) -> (r: VxFileWriter)
    requires f.writes(), !f.appends()
    ensures final(vx_w).same(*old(vx_w)), r.place() == f.place(), r.written().len() == 0, Some(r.base()) == old(vx_w).file(f.place())
{ unimplemented!() }
// The function given to `set`: all that it comes to write, in any number of steps, to the end or up to where it fails or the process ends.
pub trait VxValue: Sized {
    spec fn stream(self) -> Seq<u8>;
    fn call(self, w: VxFileWriter, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        requires forall|k: int| 0 <= k <= self.stream().len() ==> fits(w.place(), #[trigger] overlaid(w.base(), w.written() + self.stream().take(k)))
        ensures final(vx_w).same_but(*old(vx_w), w.place());
}
impl FilesystemHierarchy {
    pub open spec fn place(self, key: Seq<char>) -> Place { names(self.base_path@) + names(key) }
    pub open spec fn sound(self, key: Seq<char>) -> bool { names(key).len() + 2 < i32::MAX && inside(below(key)) }
@@fn src/store/filesystem.rs FilesystemHierarchy::path_metadata
sig pub fn path_metadata(path: &VxPath, vx_w: &mut VxFs) -> (r: Result<Option<VxMetadata>, Error>)
spec
    ensures final(vx_w).same(*old(vx_w))
@@end
@@fn src/store/filesystem.rs impl WriteableStore for FilesystemHierarchy::set as FilesystemHierarchy::set for C20
sig pub fn set<F: VxValue>(&self, key: &str, value: F, vx_w: &mut VxFs) -> (r: Result<(), Error>)
spec
    // At every moment the file of the key holds what it held before or a beginning of the new value, and no other file changes.
    requires self.sound(key@), forall|k: int| 0 <= k <= value.stream().len() ==> fits(self.place(key@), #[trigger] value.stream().take(k))
    ensures final(vx_w).same_but(*old(vx_w), self.place(key@))
start
    proof {
        let s = value.stream();
        assert(s.take(0) =~= seq![]);
        assert forall|b: Seq<u8>| #[trigger] cut(b, 0) == s.take(0) by { assert(cut(b, 0) =~= seq![]); }
        assert forall|b: Seq<u8>, w: Seq<u8>, k: int| b.len() == 0 && w.len() == 0 && 0 <= k <= s.len() implies #[trigger] overlaid(b, w + s.take(k)) == s.take(k) by { assert(w + s.take(k) =~= s.take(k)); }
    }
@@end
}
}
