@@include within.vrs
@@include json.vrs
@@include errors.vrs
@@include version.vrs
@@world vx_metadata exists create_dir_all open lock_shared lock_exclusive set_len vx_remove_file vx_remove_dir vx_walk vx_read_dir vx_buf_writer call flush vx_from_reader vx_to_writer path_metadata read_entry_point_metadata
@@path fs::metadata vx_metadata
@@path fs::remove_file vx_remove_file
@@path fs::remove_dir vx_remove_dir
@@path fs::create_dir_all create_dir_all
@@path WalkDir::new vx_walk
@@path fs::read_dir vx_read_dir
@@path BufWriter::new vx_buf_writer
@@path BufReader::new vx_buf_reader
@@path File::open VxFile::open
@@path fs::OpenOptions::new VxOpen::new
@@path value value.call
@@path serde_json::from_reader vx_from_reader
@@path serde_json::to_writer vx_to_writer
@@type fs::Metadata VxMetadata
@@method ends_with fn:vx_ends_with
// C17: the filesystem store, over a file system: a tree of named nodes, in a world that remembers whether anything failed.
verus! {
pub enum Node { File(Seq<u8>), Dir }
// Where a node is: the names that lead to it.  (Relative paths start at the working directory, absolute ones at the root; links are followed lexically.)
pub type Place = Seq<Seq<char>>;
pub open spec fn under(q: Place, p: Place) -> bool { q.len() >= p.len() && q.take(p.len() as int) == p }
pub open spec fn above(q: Place, p: Place) -> bool { q.len() < p.len() && p.take(q.len() as int) == q }
#[verifier::external_body] pub struct VxFs { _p: () }
impl VxFs {
    pub uninterp spec fn at(self, p: Place) -> Option<Node>;
    // Some call into the operating system has failed.
    pub uninterp spec fn faulted(self) -> bool;
    // The bytes of a file, if there is one.
    pub open spec fn file(self, p: Place) -> Option<Seq<u8>> { match self.at(p) { Some(Node::File(b)) => Some(b), _ => None } }
    pub open spec fn is_dir(self, p: Place) -> bool { self.at(p) == Some(Node::Dir) }
    // A failure is not forgotten.
    pub open spec fn kept(self, o: VxFs) -> bool { o.faulted() ==> self.faulted() }
    pub open spec fn same(self, o: VxFs) -> bool { forall|q: Place| #[trigger] self.at(q) == o.at(q) }
    pub open spec fn same_but(self, o: VxFs, p: Place) -> bool { forall|q: Place| q != p ==> #[trigger] self.at(q) == o.at(q) }
    // Directories above the place may have been made.
    pub open spec fn grown(self, o: VxFs, p: Place) -> bool { forall|q: Place| #[trigger] self.at(q) == o.at(q) || (o.at(q) is None && self.is_dir(q) && above(q, p)) }
    pub open spec fn grown_but(self, o: VxFs, p: Place) -> bool { forall|q: Place| q != p ==> #[trigger] self.at(q) == o.at(q) || (o.at(q) is None && self.is_dir(q) && above(q, p)) }
    // No file can be made at the place.
    pub open spec fn blocked(self, p: Place) -> bool { self.is_dir(p) || exists|q: Place| #[trigger] above(q, p) && self.file(q) is Some }
}
// Only directories contain anything.
pub axiom fn tree(w: VxFs, p: Place, q: Place)
    requires above(p, q), w.at(q) is Some
    ensures w.is_dir(p);
pub proof fn outer(p: Place, q: Place)
    requires under(p, q), p.len() > 0
    ensures p.len() == q.len() ==> p == q, p.len() > q.len() ==> above(q, p) && under(p.drop_last(), q)
{
    if p.len() == q.len() { assert(p.take(p.len() as int) =~= p); }
    else { assert(p.drop_last().take(q.len() as int) =~= p.take(q.len() as int)); }
}
pub proof fn parents(p: Place)
    requires p.len() > 0
    ensures above(p.drop_last(), p), forall|q: Place| #[trigger] under(p.drop_last(), q) ==> above(q, p)
{
    assert(p.take(p.len() - 1) =~= p.drop_last());
    assert forall|q: Place| #[trigger] under(p.drop_last(), q) implies above(q, p) by { assert(p.drop_last().take(q.len() as int) =~= p.take(q.len() as int)); }
}
pub struct VxMetadata { pub dir: bool }
pub struct VxFileType { pub dir: bool }
impl VxMetadata {
    pub fn is_file(&self) -> (r: bool) ensures r == !self.dir { !self.dir }
    pub fn is_dir(&self) -> (r: bool) ensures r == self.dir { self.dir }
    pub fn file_type(&self) -> (r: VxFileType) ensures r.dir == self.dir { VxFileType { dir: self.dir } }
}
impl VxFileType {
    pub fn is_file(&self) -> (r: bool) ensures r == !self.dir { !self.dir }
    pub fn is_dir(&self) -> (r: bool) ensures r == self.dir { self.dir }
}
#[verifier::external_body]
pub fn vx_metadata<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<VxMetadata, Error>)
    ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), match r {
        Ok(m) => final(vx_w).faulted() == old(vx_w).faulted() && (match old(vx_w).at(names(p.text())) { Some(Node::File(_)) => !m.dir, Some(Node::Dir) => m.dir, None => false }),
        Err(e) => final(vx_w).faulted() || ((e.kind_of() == ErrorKind::NotFound || e.kind_of() == ErrorKind::NotADirectory) && old(vx_w).at(names(p.text())) is None && final(vx_w).faulted() == old(vx_w).faulted()),
    },
    // Failures are not of those kinds.
    r matches Err(e) ==> (e.kind_of() == ErrorKind::NotFound || e.kind_of() == ErrorKind::NotADirectory) ==> old(vx_w).at(names(p.text())) is None && final(vx_w).faulted() == old(vx_w).faulted()
{ unimplemented!() }
impl VxPath {
    #[verifier::external_body]
    pub fn exists(&self, vx_w: &mut VxFs) -> (r: bool)
        ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), r ==> old(vx_w).at(names(self@)) is Some, !r ==> old(vx_w).at(names(self@)) is None || final(vx_w).faulted(),
            final(vx_w).faulted() == old(vx_w).faulted() || (!r && final(vx_w).faulted())
    { unimplemented!() }
    #[verifier::external_body]
    fn parent_path(&self) -> (r: Option<&VxPath>)
        ensures match r { Some(q) => names(self@).len() > 0 && names(q@) == names(self@).drop_last(), None => names(self@).len() == 0 }
    { unimplemented!() }
    pub fn parent(&self) -> (r: Option<&VxPath>)
        ensures match r { Some(q) => names(self@).len() > 0 && names(q@) == names(self@).drop_last(), None => names(self@).len() == 0 },
            names(self@).len() > 0 ==> above(names(self@).drop_last(), names(self@)) && forall|q: Place| #[trigger] under(names(self@).drop_last(), q) ==> above(q, names(self@)),
    {
        proof { if names(self@).len() > 0 { parents(names(self@)); } }
        self.parent_path()
    }
}
#[verifier::external_body]
pub fn create_dir_all<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<(), Error>)
    ensures final(vx_w).kept(*old(vx_w)),
        forall|q: Place| #[trigger] final(vx_w).at(q) == old(vx_w).at(q) || (old(vx_w).at(q) is None && final(vx_w).is_dir(q) && under(names(p.text()), q)),
        match r { Ok(_) => final(vx_w).is_dir(names(p.text())) && final(vx_w).faulted() == old(vx_w).faulted(), Err(_) => final(vx_w).faulted() || exists|q: Place| #[trigger] under(names(p.text()), q) && old(vx_w).file(q) is Some }
{ unimplemented!() }
// Open files.
#[verifier::external_body] pub struct VxFile { _p: () }
impl VxFile {
    pub uninterp spec fn place(self) -> Place;
    pub uninterp spec fn content(self) -> Seq<u8>;
    pub uninterp spec fn writes(self) -> bool;
    pub uninterp spec fn appends(self) -> bool;
    pub uninterp spec fn dir(self) -> bool;
    #[verifier::external_body]
    pub fn open<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<VxFile, Error>)
        ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), match r {
            Ok(f) => final(vx_w).faulted() == old(vx_w).faulted() && old(vx_w).at(names(p.text())) is Some && f.place() == names(p.text()) && !f.writes() && f.dir() == old(vx_w).is_dir(names(p.text())) && (old(vx_w).file(names(p.text())) matches Some(b) ==> f.content() == b),
            Err(e) => final(vx_w).faulted() || old(vx_w).at(names(p.text())) is None,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_shared(&self, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), match r { Ok(_) => final(vx_w).faulted() == old(vx_w).faulted(), Err(_) => final(vx_w).faulted() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_exclusive(&self, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), match r { Ok(_) => final(vx_w).faulted() == old(vx_w).faulted(), Err(_) => final(vx_w).faulted() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&self, n: u64, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        requires self.writes()
        ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same_but(*old(vx_w), self.place()), match r {
            Ok(_) => final(vx_w).faulted() == old(vx_w).faulted() && (old(vx_w).file(self.place()) matches Some(b) ==> n <= b.len() ==> final(vx_w).at(self.place()) == Some(Node::File(b.take(n as int)))),
            Err(_) => final(vx_w).faulted() && final(vx_w).same(*old(vx_w)),
        }
    { unimplemented!() }
}
// How a file is to be opened.
pub struct VxOpen { pub r: bool, pub w: bool, pub a: bool, pub c: bool, pub t: bool }
impl VxOpen {
    pub fn new() -> (o: VxOpen) ensures !o.r, !o.w, !o.a, !o.c, !o.t { VxOpen { r: false, w: false, a: false, c: false, t: false } }
    pub fn read(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { r: x, ..self }) { VxOpen { r: x, ..self } }
    pub fn write(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { w: x, ..self }) { VxOpen { w: x, ..self } }
    pub fn append(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { a: x, ..self }) { VxOpen { a: x, ..self } }
    pub fn create(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { c: x, ..self }) { VxOpen { c: x, ..self } }
    pub fn truncate(self, x: bool) -> (o: VxOpen) ensures o == (VxOpen { t: x, ..self }) { VxOpen { t: x, ..self } }
    #[verifier::external_body]
    pub fn open<P: VxText>(self, p: P, vx_w: &mut VxFs) -> (r: Result<VxFile, Error>)
        ensures final(vx_w).kept(*old(vx_w)), match r {
            Ok(f) => final(vx_w).same_but(*old(vx_w), names(p.text())) && final(vx_w).faulted() == old(vx_w).faulted() && f.place() == names(p.text()) && f.writes() == self.w && f.appends() == self.a
                && (match old(vx_w).at(names(p.text())) { Some(Node::File(b)) => final(vx_w).at(names(p.text())) == Some(Node::File(if self.t { seq![] } else { b })), Some(Node::Dir) => false, None => self.c && final(vx_w).at(names(p.text())) == Some(Node::File(seq![])) }),
            Err(_) => final(vx_w).same(*old(vx_w)) && (final(vx_w).faulted() || old(vx_w).blocked(names(p.text())) || (!self.c && old(vx_w).at(names(p.text())) is None) || (self.c && !self.w && !self.a) || (names(p.text()).len() > 0 && !old(vx_w).is_dir(names(p.text()).drop_last()))),
        }
    { unimplemented!() }
}
// Reading from a file.
#[verifier::external_body] pub struct VxFileReader { _p: () }
impl VxFileReader { pub uninterp spec fn content(self) -> Seq<u8>; pub uninterp spec fn dir(self) -> bool; }
#[verifier::external_body]
pub fn vx_buf_reader(f: VxFile) -> (r: VxFileReader) ensures r.content() == f.content(), r.dir() == f.dir() { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_reader<T: VxParse>(r: VxFileReader, vx_w: &mut VxFs) -> (t: Result<T, Error>)
    ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), match t { Ok(v) => !r.dir() && T::parsed(r.content()) == Some(v) && final(vx_w).faulted() == old(vx_w).faulted(), Err(_) => final(vx_w).faulted() || r.dir() || T::parsed(r.content()) is None }
{ unimplemented!() }
// Writing to a file, over what it holds; only what is flushed is sure to arrive.
#[verifier::external_body] pub struct VxFileWriter { _p: () }
impl VxFileWriter {
    pub uninterp spec fn place(self) -> Place;
    pub uninterp spec fn base(self) -> Seq<u8>;
    pub uninterp spec fn written(self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn flush(&mut self, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same_but(*old(vx_w), old(self).place()), final(self).place() == old(self).place(), final(self).base() == old(self).base(), final(self).written() == old(self).written(),
            match r { Ok(_) => final(vx_w).at(old(self).place()) == Some(Node::File(overlaid(old(self).base(), old(self).written()))) && final(vx_w).faulted() == old(vx_w).faulted(), Err(_) => final(vx_w).faulted() }
    { unimplemented!() }
}
pub open spec fn overlaid(base: Seq<u8>, b: Seq<u8>) -> Seq<u8> { if b.len() >= base.len() { b } else { b + base.skip(b.len() as int) } }
#[verifier::external_body]
pub fn vx_buf_writer(f: VxFile, vx_w: &mut VxFs) -> (r: VxFileWriter)
    requires f.writes(), !f.appends()
    ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), final(vx_w).faulted() == old(vx_w).faulted(), r.place() == f.place(), r.written().len() == 0, Some(r.base()) == old(vx_w).file(f.place())
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_to_writer<T: VxPrint + ?Sized>(w: &mut VxFileWriter, t: &T, vx_w: &mut VxFs) -> (r: Result<(), Error>)
    ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same_but(*old(vx_w), old(w).place()), final(w).place() == old(w).place(), final(w).base() == old(w).base(),
        match r { Ok(_) => final(w).written() == old(w).written() + t.printed() && final(vx_w).faulted() == old(vx_w).faulted(), Err(_) => final(vx_w).faulted() }
{ unimplemented!() }
// The function given to `set`: what it writes and flushes, if it does not fail.
pub trait VxValue: Sized {
    spec fn bytes(self) -> Option<Seq<u8>>;
    fn call(self, w: VxFileWriter, vx_w: &mut VxFs) -> (r: Result<(), Error>)
        ensures (*final(vx_w)).kept(*old(vx_w)), final(vx_w).same_but(*old(vx_w), w.place()), match r {
            Ok(_) => self.bytes() is Some && final(vx_w).at(w.place()) == Some(Node::File(overlaid(w.base(), w.written() + self.bytes()->Some_0))) && final(vx_w).faulted() == old(vx_w).faulted(),
            Err(_) => final(vx_w).faulted() || self.bytes() is None,
        };
}
#[verifier::external_body]
pub fn vx_remove_file<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<(), Error>)
    ensures final(vx_w).kept(*old(vx_w)), match r {
        Ok(_) => final(vx_w).same_but(*old(vx_w), names(p.text())) && old(vx_w).file(names(p.text())) is Some && final(vx_w).at(names(p.text())) is None && final(vx_w).faulted() == old(vx_w).faulted(),
        Err(_) => final(vx_w).same(*old(vx_w)) && (final(vx_w).faulted() || old(vx_w).file(names(p.text())) is None),
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_remove_dir<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<(), Error>)
    ensures final(vx_w).kept(*old(vx_w)), match r {
        Ok(_) => final(vx_w).same_but(*old(vx_w), names(p.text())) && old(vx_w).is_dir(names(p.text())) && final(vx_w).at(names(p.text())) is None && final(vx_w).faulted() == old(vx_w).faulted(),
        Err(_) => final(vx_w).same(*old(vx_w)) && (final(vx_w).faulted() || !old(vx_w).is_dir(names(p.text())) || exists|q: Place| #[trigger] above(names(p.text()), q) && old(vx_w).at(q) is Some),
    }
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_ends_with<T: VxText + ?Sized>(s: &T, c: char) -> (r: bool) ensures r == (s.text().len() > 0 && s.text().last() == c) { unimplemented!() }
// Nothing is below nothing.
pub proof fn bare(w: VxFs, p: Place)
    ensures w.at(p) is None ==> forall|q: Place| #[trigger] under(q, p) ==> w.at(q) is None
{
    if w.at(p) is None {
        assert forall|q: Place| #[trigger] under(q, p) implies w.at(q) is None by {
            if w.at(q) is Some { if q.len() == p.len() { assert(q.take(q.len() as int) =~= q); } else { tree(w, p, q); } }
        }
    }
}
pub proof fn contained_next(o: Seq<Place>, i: int)
    requires 0 <= i < o.len()
    ensures forall|q: Place| #[trigger] o.take(i + 1).contains(q) == (o.take(i).contains(q) || q == o[i])
{
    assert forall|q: Place| #[trigger] o.take(i + 1).contains(q) == (o.take(i).contains(q) || q == o[i]) by {
        if o.take(i + 1).contains(q) { let k = choose|k: int| 0 <= k < i + 1 && #[trigger] o.take(i + 1)[k] == q; if k < i { assert(o.take(i)[k] == q); } }
        if o.take(i).contains(q) { let k = choose|k: int| 0 <= k < i && o.take(i)[k] == q; assert(o.take(i + 1)[k] == q); }
        if q == o[i] { assert(o.take(i + 1)[i] == q); }
    }
}
// What is inside a directory has been come to before it.
pub proof fn inner_before(v: VxWalk, i: int)
    requires v.complete(), v.inner_first(), 0 <= i < v@.len()
    ensures forall|q: Place| #[trigger] above(v@[i], q) && v.from().at(q) is Some ==> v@.take(i).contains(q)
{
    assert forall|q: Place| #[trigger] above(v@[i], q) && v.from().at(q) is Some implies v@.take(i).contains(q) by {
        assert(under(v@[i], v.root()));
        assert(q.take(v.root().len() as int) =~= v@[i].take(v.root().len() as int));
        assert(under(q, v.root()));
        let j = choose|j: int| 0 <= j < v@.len() && v@[j] == q;
        assert(j < i) by { if i < j { assert(!above(v@[i], v@[j])); } }
        assert(v@.take(i)[j] == q);
    }
}
// What a walk or a listing of a directory comes across.
pub struct VxFound { pub place: Ghost<Place>, pub dir: bool, pub p: VxPath, pub n: VxOs }
impl VxFound {
    pub open spec fn at_place(self, q: Place) -> bool { names(self.p@) == q && q.len() > 0 && self.n@ == q.last() }
    pub fn path(&self) -> (r: &VxPath) ensures r@ == self.p@ { &self.p }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: VxOs) ensures r@ == self.n@ { unimplemented!() }
    pub fn file_type(&self) -> (r: VxFileType) ensures r.dir == self.dir { VxFileType { dir: self.dir } }
}
// A walk: the nodes at and below a place, as they are when it starts.  (It is the walker's business to keep to that while nodes it has already come to go away.)
#[verifier::external_body] pub struct VxWalk { _p: () }
impl View for VxWalk { type V = Seq<Place>; uninterp spec fn view(&self) -> Seq<Place>; }
impl VxWalk {
    pub uninterp spec fn from(self) -> VxFs;
    pub uninterp spec fn root(self) -> Place;
    pub open spec fn order(self) -> Seq<Place> { self@ }
    // The walk comes across an error at this step.
    pub uninterp spec fn fail_at(self) -> Option<int>;
    pub open spec fn fails(self) -> bool { self.fail_at() is Some }
    pub open spec fn complete(self) -> bool {
        &&& forall|q: Place| #[trigger] under(q, self.root()) && self.from().at(q) is Some ==> self.order().contains(q)
        &&& forall|i: int| 0 <= i < self.order().len() ==> under(#[trigger] self.order()[i], self.root()) && self.from().at(self.order()[i]) is Some
        &&& self.order().no_duplicates()
        &&& (self.fail_at() matches Some(k) ==> 0 <= k < self.order().len())
    }
    pub open spec fn inner_first(self) -> bool { forall|i: int, j: int| 0 <= i < j < self.order().len() ==> !above(#[trigger] self.order()[i], #[trigger] self.order()[j]) }
    #[verifier::external_body]
    pub fn contents_first(self, b: bool) -> (r: VxWalk)
        ensures r.from() == self.from(), r.root() == self.root(), r.fail_at() == self.fail_at(), r.complete(), b ==> r.inner_first()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
}
impl VxItems<Result<VxFound, Error>> for VxWalk {
    open spec fn count(&self) -> nat { self.order().len() }
    open spec fn gives(&self, j: int, r: Result<VxFound, Error>) -> bool {
        match r { Ok(f) => self.fail_at() != Some(j) && f.at_place(self.order()[j]) && f.dir == self.from().is_dir(self.order()[j]), Err(_) => self.fail_at() == Some(j) }
    }
}
#[verifier::external_body]
pub fn vx_walk<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: VxWalk)
    requires names(p.text()).len() > 0
    ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), r.complete(), r.from() == *old(vx_w), r.root() == names(p.text()), final(vx_w).faulted() == (old(vx_w).faulted() || r.fails())
{ unimplemented!() }

// The entries of a directory.
#[verifier::external_body] pub struct VxDirList { _p: () }
impl View for VxDirList { type V = Seq<Place>; uninterp spec fn view(&self) -> Seq<Place>; }
impl VxDirList {
    pub uninterp spec fn from(self) -> VxFs;
    pub uninterp spec fn root(self) -> Place;
    pub uninterp spec fn fail_at(self) -> Option<int>;
    pub open spec fn complete(self) -> bool {
        &&& forall|n: Seq<char>| self.from().at(#[trigger] self.root().push(n)) is Some ==> self@.contains(self.root().push(n))
        &&& forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).len() > 0 && self@[i] == self.root().push(self@[i].last()) && plain_name(self@[i].last()) && self.from().at(self@[i]) is Some
        &&& self@.no_duplicates()
        &&& (self.fail_at() matches Some(k) ==> 0 <= k < self@.len())
    }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl VxItems<Result<VxFound, Error>> for VxDirList {
    open spec fn count(&self) -> nat { self@.len() }
    open spec fn gives(&self, j: int, r: Result<VxFound, Error>) -> bool {
        match r { Ok(f) => self.fail_at() != Some(j) && f.at_place(self@[j]), Err(_) => self.fail_at() == Some(j) }
    }
}
#[verifier::external_body]
pub fn vx_read_dir<P: VxText>(p: P, vx_w: &mut VxFs) -> (r: Result<VxDirList, Error>)
    ensures final(vx_w).kept(*old(vx_w)), final(vx_w).same(*old(vx_w)), match r {
        // The system takes no longer paths than this.
        Ok(l) => names(p.text()).len() <= 4096 && l.complete() && l.from() == *old(vx_w) && l.root() == names(p.text()) && final(vx_w).faulted() == (old(vx_w).faulted() || l.fail_at() is Some),
        Err(_) => final(vx_w).faulted() || !old(vx_w).is_dir(names(p.text())),
    }
{ unimplemented!() }
// What the name of a file can be.
pub open spec fn plain_name(n: Seq<char>) -> bool { n.len() > 0 && n != seq!['.'] && n != seq!['.', '.'] && forall|i: int| 0 <= i < n.len() ==> n[i] != '/' }
pub open spec fn key_in(prefix: Seq<char>, n: Seq<char>) -> Seq<char> { if prefix.len() == 0 || prefix.last() == '/' { prefix + n } else { prefix + seq!['/'] + n } }
pub open spec fn kind(w: VxFs, q: Place, dir: bool) -> bool { if dir { w.is_dir(q) } else { w.file(q) is Some } }
pub open spec fn distinct(v: Seq<VxBuf>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@ }
pub open spec fn holds(v: Seq<VxBuf>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k }
// The texts are the keys of exactly these children of the place.
#[verifier::opaque]
pub open spec fn listed(v: Seq<VxBuf>, prefix: Seq<char>, w: VxFs, p: Place, dir: bool) -> bool {
    &&& distinct(v)
    &&& forall|i: int| 0 <= i < v.len() ==> child_key((#[trigger] v[i])@, prefix, w, p, dir)
    &&& forall|n: Seq<char>| kind(w, #[trigger] p.push(n), dir) ==> holds(v, key_in(prefix, n))
}
pub open spec fn child_key(k: Seq<char>, prefix: Seq<char>, w: VxFs, p: Place, dir: bool) -> bool { exists|n: Seq<char>| plain_name(n) && k == key_in(prefix, n) && kind(w, #[trigger] p.push(n), dir) }
// ... of these entries so far.
pub open spec fn listed_of(v: Seq<VxBuf>, prefix: Seq<char>, w: VxFs, o: Seq<Place>, dir: bool) -> bool {
    &&& distinct(v)
    &&& forall|i: int| 0 <= i < v.len() ==> from_entry((#[trigger] v[i])@, prefix, w, o, dir)
    &&& forall|m: int| 0 <= m < o.len() && kind(w, #[trigger] o[m], dir) ==> holds(v, key_in(prefix, o[m].last()))
}
pub open spec fn from_entry(k: Seq<char>, prefix: Seq<char>, w: VxFs, o: Seq<Place>, dir: bool) -> bool { exists|m: int| 0 <= m < o.len() && k == key_in(prefix, (#[trigger] o[m]).last()) && kind(w, o[m], dir) }
pub proof fn key_in_one(prefix: Seq<char>, a: Seq<char>, b: Seq<char>)
    ensures key_in(prefix, a) == key_in(prefix, b) ==> a == b
{
    if key_in(prefix, a) == key_in(prefix, b) {
        let l = if prefix.len() == 0 || prefix.last() == '/' { prefix.len() as int } else { (prefix.len() + 1) as int };
        assert(key_in(prefix, a).skip(l) =~= a);
        assert(key_in(prefix, b).skip(l) =~= b);
    }
}
// One entry more.
pub proof fn listed_next(l: VxDirList, j: int, prefix: Seq<char>, w: VxFs, v: Seq<VxBuf>, dir: bool)
    requires l.complete(), 0 <= j < l@.len(), listed_of(v, prefix, w, l@.take(j), dir)
    ensures
        !kind(w, l@[j], dir) ==> listed_of(v, prefix, w, l@.take(j + 1), dir),
        forall|x: VxBuf| kind(w, l@[j], dir) && x@ == key_in(prefix, l@[j].last()) ==> listed_of(#[trigger] v.push(x), prefix, w, l@.take(j + 1), dir),
{
    let o = l@.take(j);
    let p = l@.take(j + 1);
    assert forall|i: int| 0 <= i < v.len() implies from_entry((#[trigger] v[i])@, prefix, w, p, dir) by {
        let m = choose|m: int| 0 <= m < o.len() && v[i]@ == key_in(prefix, (#[trigger] o[m]).last()) && kind(w, o[m], dir);
        assert(p[m] == o[m]);
    }
    assert forall|m: int| 0 <= m < p.len() && m != j && kind(w, #[trigger] p[m], dir) implies holds(v, key_in(prefix, p[m].last())) by { assert(o[m] == p[m]); }
    assert(p[j] == l@[j]);
    assert forall|x: VxBuf| kind(w, l@[j], dir) && x@ == key_in(prefix, l@[j].last()) implies listed_of(#[trigger] v.push(x), prefix, w, p, dir) by {
        let u = v.push(x);
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] u[i])@ != x@ by {
            assert(u[i] == v[i]);
            let m = choose|m: int| 0 <= m < o.len() && v[i]@ == key_in(prefix, (#[trigger] o[m]).last()) && kind(w, o[m], dir);
            key_in_one(prefix, o[m].last(), l@[j].last());
            assert(l@[m] == l.root().push(l@[m].last()));
            assert(l@[j] == l.root().push(l@[j].last()));
        }
        assert forall|i: int| 0 <= i < u.len() implies from_entry((#[trigger] u[i])@, prefix, w, p, dir) by { if i < v.len() { assert(u[i] == v[i]); } else { assert(p[j].last() == l@[j].last()); } }
        assert forall|m: int| 0 <= m < p.len() && kind(w, #[trigger] p[m], dir) implies holds(u, key_in(prefix, p[m].last())) by {
            if m == j { assert(u[v.len() as int] == x); }
            else { assert(holds(v, key_in(prefix, p[m].last()))); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == key_in(prefix, p[m].last()); assert(u[i] == v[i]); }
        }
    }
}
pub proof fn listed_all(l: VxDirList, prefix: Seq<char>, w: VxFs, v: Seq<VxBuf>, dir: bool)
    requires l.complete(), listed_of(v, prefix, w, l@, dir), w.same(l.from())
    ensures listed(v, prefix, w, l.root(), dir)
{
    reveal(listed);
    let p = l.root();
    assert forall|i: int| 0 <= i < v.len() implies child_key((#[trigger] v[i])@, prefix, w, p, dir) by {
        assert(from_entry(v[i]@, prefix, w, l@, dir));
        let m = choose|m: int| 0 <= m < l@.len() && v[i]@ == key_in(prefix, (#[trigger] l@[m]).last()) && kind(w, l@[m], dir);
        assert(l@[m] == p.push(l@[m].last()));
    }
    assert forall|n: Seq<char>| kind(w, #[trigger] p.push(n), dir) implies holds(v, key_in(prefix, n)) by {
        assert(l.from().at(p.push(n)) is Some);
        let m = choose|m: int| 0 <= m < l@.len() && l@[m] == p.push(n);
        assert(l@[m].last() == n);
    }
}
pub proof fn listed_none(prefix: Seq<char>, w: VxFs, p: Place)
    requires !w.is_dir(p)
    ensures forall|v: Seq<VxBuf>, dir: bool| v.len() == 0 ==> #[trigger] listed(v, prefix, w, p, dir)
{
    reveal(listed);
    assert forall|n: Seq<char>| w.at(#[trigger] p.push(n)) is None by { if w.at(p.push(n)) is Some { assert(p.push(n).take(p.len() as int) =~= p); tree(w, p, p.push(n)); } }
}

pub proof fn listed_same(v: Seq<VxBuf>, prefix: Seq<char>, w: VxFs, u: VxFs, p: Place, dir: bool)
    requires w.same(u), u.same(w), listed(v, prefix, w, p, dir)
    ensures listed(v, prefix, u, p, dir)
{
    reveal(listed);
    assert forall|q: Place, d: bool| #[trigger] kind(w, q, d) == kind(u, q, d) by { assert(w.at(q) == u.at(q)); }
    assert forall|i: int| 0 <= i < v.len() implies child_key((#[trigger] v[i])@, prefix, u, p, dir) by {
        let n = choose|n: Seq<char>| plain_name(n) && v[i]@ == key_in(prefix, n) && kind(w, #[trigger] p.push(n), dir);
        assert(kind(u, p.push(n), dir));
    }
    assert forall|n: Seq<char>| kind(u, #[trigger] p.push(n), dir) implies holds(v, key_in(prefix, n)) by { assert(kind(w, p.push(n), dir)); }
}
// Listing a tree: what was found, and what is still to be listed.
pub open spec fn inner(q: Place, p: Place) -> bool { under(q, p) && q.len() > p.len() }
pub open spec fn apart(a: Place, b: Place) -> bool { !under(a, b) && !under(b, a) }
pub open spec fn awaits(t: Seq<Place>, q: Place) -> bool { exists|j: int| 0 <= j < t.len() && inner(q, #[trigger] t[j]) }
#[verifier::opaque]
pub open spec fn visiting(w: VxFs, p: Place, r: Seq<Place>, t: Seq<Place>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> w.file(#[trigger] r[i]) is Some && inner(r[i], p)
    &&& r.no_duplicates()
    &&& forall|j: int| 0 <= j < t.len() ==> under(#[trigger] t[j], p)
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> apart(#[trigger] t[i], #[trigger] t[j])
    &&& forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < t.len() ==> !under(#[trigger] r[i], #[trigger] t[j])
    &&& forall|q: Place| #[trigger] inner(q, p) && w.file(q) is Some ==> r.contains(q) || awaits(t, q)
}
// The places that are still to be listed: there are finitely many, and listing one of them takes it away.
pub uninterp spec fn dirs(w: VxFs) -> Set<Place>;
pub axiom fn finitely_many(w: VxFs)
    ensures forall|q: Place| #[trigger] dirs(w).contains(q) == w.is_dir(q);
pub open spec fn pending(w: VxFs, t: Seq<Place>) -> Set<Place> { t.to_set().union(dirs(w).filter(|q: Place| exists|j: int| 0 <= j < t.len() && under(q, #[trigger] t[j]))) }
#[verifier::opaque]
pub open spec fn effort(w: VxFs, t: Seq<Place>) -> nat { pending(w, t).len() }
pub proof fn effort_less(w: VxFs, p: Place, r: Seq<Place>, t: Seq<Place>, d: Place, s: Seq<Place>)
    requires visiting(w, p, r, t.push(d)), children(s, w, d, true)
    ensures effort(w, t + s) < effort(w, t.push(d))
{
    reveal(visiting);
    reveal(effort);
    let (td, ts) = (t.push(d), t + s);
    let (a, b) = (pending(w, td), pending(w, ts));
    finitely_many(w);
    td.to_set_ensures();
    assert(td[t.len() as int] == d);
    assert(a.contains(d));
    assert(!b.contains(d)) by {
        assert forall|j: int| 0 <= j < ts.len() implies ts[j] != d && !under(d, #[trigger] ts[j]) by {
            if j < t.len() { assert(ts[j] == t[j] && td[j] == t[j]); assert(apart(td[j], td[t.len() as int])); assert(d.take(d.len() as int) =~= d); }
            else { let c = s[j - t.len()]; assert(ts[j] == c); assert(child(c, w, d, true)); }
        }
    }
    assert forall|q: Place| b.contains(q) implies #[trigger] a.contains(q) by {
        let j = if ts.contains(q) { choose|j: int| 0 <= j < ts.len() && ts[j] == q } else { choose|j: int| 0 <= j < ts.len() && under(q, #[trigger] ts[j]) };
        if j < t.len() { assert(ts[j] == td[j]); }
        else { let c = s[j - t.len()]; assert(ts[j] == c); child_under(c, w, d, true); assert(c.take(c.len() as int) =~= c); assert(under(q, c)); under_trans(q, c, d); assert(under(q, td[t.len() as int])); }
    }
    vstd::set_lib::lemma_len_subset(b, a.remove(d));
}
// The children of a place, as places.
pub open spec fn children(c: Seq<Place>, w: VxFs, d: Place, dir: bool) -> bool {
    &&& c.no_duplicates()
    &&& forall|i: int| 0 <= i < c.len() ==> child(#[trigger] c[i], w, d, dir)
    &&& forall|n: Seq<char>| kind(w, #[trigger] d.push(n), dir) ==> c.contains(d.push(n))
}
pub open spec fn child(c: Place, w: VxFs, d: Place, dir: bool) -> bool { c.len() == d.len() + 1 && c == d.push(c.last()) && kind(w, c, dir) }
pub proof fn under_trans(a: Place, b: Place, c: Place)
    requires under(a, b), under(b, c)
    ensures under(a, c)
{ assert(a.take(c.len() as int) =~= a.take(b.len() as int).take(c.len() as int)); }
pub proof fn under_both(a: Place, b: Place, c: Place)
    requires under(a, b), under(a, c), c.len() <= b.len()
    ensures under(b, c)
{ assert(a.take(b.len() as int).take(c.len() as int) =~= a.take(c.len() as int)); }
pub proof fn child_under(c: Place, w: VxFs, d: Place, dir: bool)
    requires child(c, w, d, dir)
    ensures inner(c, d)
{ assert(c.take(d.len() as int) =~= d); }
// A child of a place that is apart from another is apart from it too.
pub proof fn child_apart(c: Place, w: VxFs, d: Place, dir: bool, t: Place)
    requires child(c, w, d, dir), apart(t, d)
    ensures apart(c, t)
{
    child_under(c, w, d, dir);
    if under(c, t) {
        if t.len() <= d.len() { under_both(c, d, t); }
        else { assert(c.take(t.len() as int) =~= c); }
    }
    if under(t, c) { under_trans(t, c, d); }
}
pub proof fn visited(w: VxFs, p: Place, r: Seq<Place>, t: Seq<Place>, d: Place, f: Seq<Place>, s: Seq<Place>)
    requires visiting(w, p, r, t.push(d)), children(f, w, d, false), children(s, w, d, true)
    ensures visiting(w, p, r + f, t + s)
{
    reveal(visiting);
    let td = t.push(d);
    let k = t.len() as int;
    assert(td[k] == d);
    assert forall|j: int| 0 <= j < t.len() implies td[j] == #[trigger] t[j] && apart(t[j], d) by { assert(td[j] == t[j]); assert(apart(td[j], td[k])); }
    let rf = r + f;
    let ts = t + s;
    assert forall|i: int| 0 <= i < rf.len() implies w.file(#[trigger] rf[i]) is Some && inner(rf[i], p) by {
        if i >= r.len() { let c = f[i - r.len()]; assert(rf[i] == c); child_under(c, w, d, false); under_trans(c, d, p); } else { assert(rf[i] == r[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < rf.len() && 0 <= j < rf.len() && i != j implies rf[i] != rf[j] by {
        if i >= r.len() { child_under(f[i - r.len()], w, d, false); }
        if j >= r.len() { child_under(f[j - r.len()], w, d, false); }
        if i < r.len() { assert(rf[i] == r[i]); assert(!under(r[i], td[k])); }
        if j < r.len() { assert(rf[j] == r[j]); assert(!under(r[j], td[k])); }
    }
    assert(rf.no_duplicates());
    assert forall|j: int| 0 <= j < ts.len() implies under(#[trigger] ts[j], p) by {
        if j >= t.len() { let c = s[j - t.len()]; assert(ts[j] == c); child_under(c, w, d, true); under_trans(c, d, p); } else { assert(ts[j] == t[j]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < ts.len() implies apart(#[trigger] ts[i], #[trigger] ts[j]) by {
        if j < t.len() { assert(ts[i] == td[i]); assert(ts[j] == td[j]); }
        else if i < t.len() { assert(ts[i] == t[i]); child_apart(s[j - t.len()], w, d, true, t[i]); }
        else { let a = s[i - t.len()]; let b = s[j - t.len()]; assert(child(a, w, d, true) && child(b, w, d, true)); if under(a, b) { assert(a.take(b.len() as int) =~= a); } if under(b, a) { assert(b.take(a.len() as int) =~= b); } }
    }
    assert forall|i: int, j: int| 0 <= i < rf.len() && 0 <= j < ts.len() implies !under(#[trigger] rf[i], #[trigger] ts[j]) by {
        if i < r.len() {
            assert(rf[i] == r[i]);
            if j < t.len() { assert(ts[j] == td[j]); } else { let c = s[j - t.len()]; assert(ts[j] == c); assert(!under(r[i], td[k])); if under(r[i], c) { child_under(c, w, d, true); under_trans(r[i], c, d); } }
        } else {
            let a = f[i - r.len()];
            assert(rf[i] == a);
            if j < t.len() { assert(ts[j] == t[j]); child_apart(a, w, d, false, t[j]); }
            else { let c = s[j - t.len()]; assert(ts[j] == c); assert(child(a, w, d, false) && child(c, w, d, true)); if under(a, c) { assert(a.take(c.len() as int) =~= a); } }
        }
    }
    assert forall|q: Place| #[trigger] inner(q, p) && w.file(q) is Some implies rf.contains(q) || awaits(ts, q) by {
        if r.contains(q) { let i = choose|i: int| 0 <= i < r.len() && r[i] == q; assert(rf[i] == q); }
        else {
            let j = choose|j: int| 0 <= j < td.len() && inner(q, #[trigger] td[j]);
            if j < t.len() { assert(ts[j] == td[j]); }
            else {
                let n = q[d.len() as int];
                let c = d.push(n);
                assert(c =~= q.take((d.len() + 1) as int));
                if q.len() == c.len() {
                    assert(q =~= c);
                    assert(f.contains(d.push(n)));
                    let i = choose|i: int| 0 <= i < f.len() && f[i] == c;
                    assert(rf[r.len() + i] == q);
                } else {
                    tree(w, c, q);
                    assert(kind(w, d.push(n), true));
                    let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
                    assert(ts[t.len() + i] == c);
                    assert(inner(q, c));
                }
            }
        }
    }
}
pub proof fn visiting_first(w: VxFs, p: Place)
    ensures visiting(w, p, seq![], seq![p])
{
    assert(p.take(p.len() as int) =~= p);
    reveal(visiting);
    let t = seq![p];
    assert forall|q: Place| #[trigger] inner(q, p) implies awaits(t, q) by { assert(t[0] == p); }
}
// The name of a child.
pub proof fn child_names(prefix: Seq<char>, n: Seq<char>)
    requires plain_name(n)
    ensures names(key_in(prefix, n)) == names(prefix).push(n), inside(below(prefix)) ==> inside(below(key_in(prefix, n)))
{
    hide(rindex); hide(depth);
    let k = key_in(prefix, n);
    reveal(depth);
    rindex_bound(n, '/');
    assert(rindex(n, '/') == -1);
    assert(n.skip(0) =~= n);
    assert(names(n) =~= seq![n]);
    if prefix.len() == 0 { assert(k =~= n); assert(names(k) =~= names(prefix).push(n)); }
    else if prefix.last() == '/' {
        let c = prefix.drop_last();
        assert(k =~= c + seq!['/'] + n);
        assert(prefix =~= c + seq!['/'] + seq![]);
        names_slash(c, n);
        names_slash(c, seq![]);
        assert(names(k) =~= names(prefix).push(n));
    } else { names_slash(prefix, n); assert(names(k) =~= names(prefix).push(n)); }
    assert(k.len() > 0);
    if prefix.len() == 0 { if begins_cur(k) { assert(n.len() == 1); assert(n =~= seq!['.']); } }
    else { assert(k[0] == prefix[0]); if prefix.len() > 1 { assert(k[1] == prefix[1]); } else if prefix[0] != '/' { assert(k[1] == '/'); } }
    assert(named_comps(k) =~= named_comps(prefix).push(Comp::Normal(n)));
    assert(comps(k) =~= comps(prefix).push(Comp::Normal(n)));
    let a = below(prefix);
    let b = below(k);
    assert(b =~= a.push(Comp::Normal(n)));
    if inside(a) {
        assert forall|i: int| 0 <= i <= b.len() implies depth(#[trigger] b.take(i)) >= 0 by {
            if i <= a.len() { assert(b.take(i) =~= a.take(i)); }
            else { assert(b.take(i) =~= b); assert(b.drop_last() =~= a.take(a.len() as int)); }
        }
    }
}
pub open spec fn begins(k: Seq<char>, p: Seq<char>) -> bool { k.len() >= p.len() && k.take(p.len() as int) == p }
pub proof fn key_begins(k: Seq<char>, p: Seq<char>, n: Seq<char>)
    requires begins(k, p)
    ensures begins(key_in(k, n), p)
{ assert(key_in(k, n).take(p.len() as int) =~= k.take(p.len() as int)); }
pub trait VxStr: VxText { fn vx_str(&self) -> (r: &str) ensures r@ == self.text(); }
impl VxStr for VxBuf {
    #[verifier::external_body]
    fn vx_str(&self) -> (r: &str) { unimplemented!() }
}
pub trait VxExtend<T> { spec fn all(&self) -> Seq<T>; fn vx_extend(&mut self, w: Vec<T>) ensures (*final(self)).all() == (*old(self)).all() + w@; }
impl<T> VxExtend<T> for Vec<T> {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, w: Vec<T>) { unimplemented!() }
}
impl FilesystemHierarchy {
    // A reference to a `String` is one to its text.
    pub fn vx_list_dir<K: VxStr>(&self, prefix: &K, vx_w: &mut VxFs) -> (r: Result<(Vec<VxBuf>, Vec<VxBuf>), Error>)
        requires self.sound(prefix.text())
        ensures final(vx_w).same(*old(vx_w)), match r {
            Ok((ks, ps)) => final(vx_w).faulted() == old(vx_w).faulted() && (ks@.len() + ps@.len() > 0 ==> self.place(prefix.text()).len() <= 4096) && listed(ks@, prefix.text(), *old(vx_w), self.place(prefix.text()), false) && listed(ps@, prefix.text(), *old(vx_w), self.place(prefix.text()), true),
            Err(_) => final(vx_w).faulted(),
        }
    { self.list_dir(prefix.vx_str(), vx_w) }
    pub open spec fn places(self, v: Seq<VxBuf>) -> Seq<Place> { Seq::new(v.len(), |i: int| self.place(v[i]@)) }
    // Keys that the hierarchy can be asked for, below a prefix.
    pub open spec fn sounds(self, v: Seq<VxBuf>, p: Seq<char>) -> bool { forall|i: int| 0 <= i < v.len() ==> self.sound((#[trigger] v[i])@) && begins(v[i]@, p) }
    pub proof fn sounds_more(self, v: Seq<VxBuf>, u: Seq<VxBuf>, p: Seq<char>)
        requires self.sounds(v, p), self.sounds(u, p)
        ensures self.sounds(v + u, p), self.places(v + u) == self.places(v) + self.places(u)
    {
        assert forall|i: int| 0 <= i < (v + u).len() implies self.sound((#[trigger] (v + u)[i])@) && begins((v + u)[i]@, p) by { if i < v.len() { assert((v + u)[i] == v[i]); } else { assert((v + u)[i] == u[i - v.len()]); } }
        assert(self.places(v + u) =~= self.places(v) + self.places(u));
    }
    pub proof fn listed_places(self, v: Seq<VxBuf>, next: Seq<char>, p: Seq<char>, w: VxFs, dir: bool)
        requires listed(v, next, w, self.place(next), dir), self.sound(next), begins(next, p), v.len() > 0 ==> self.place(next).len() <= 4096
        ensures children(self.places(v), w, self.place(next), dir), self.sounds(v, p)
    {
        reveal(listed);
        let d = self.place(next);
        let c = self.places(v);
        assert forall|i: int| 0 <= i < v.len() implies child(#[trigger] c[i], w, d, dir) && self.sound((#[trigger] v[i])@) && begins(v[i]@, p) && c[i] == d.push(c[i].last()) && v[i]@ == key_in(next, c[i].last()) by {
            assert(child_key(v[i]@, next, w, d, dir));
            let n = choose|n: Seq<char>| plain_name(n) && v[i]@ == key_in(next, n) && kind(w, #[trigger] d.push(n), dir);
            child_names(next, n);
            key_begins(next, p, n);
            assert(c[i] =~= d.push(n));
        }
        assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { assert(v[i]@ != v[j]@) by { if i < j { } else { assert(v[j]@ != v[i]@); } } }
        assert forall|n: Seq<char>| kind(w, #[trigger] d.push(n), dir) implies c.contains(d.push(n)) by {
            assert(holds(v, key_in(next, n)));
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == key_in(next, n);
            key_in_one(next, n, c[i].last());
            assert(c[i] == d.push(n));
        }
    }
}

@@const src/lib.rs ENTRY_POINT_KEY
@@method as_ref vx_as_ref
pub trait VxAsRef: Sized { fn vx_as_ref(&self) -> (r: &Self) ensures *r == *self { self } }
impl<P: VxText> VxAsRef for P {}
pub uninterp spec fn entry_parse(b: Seq<u8>) -> Option<EntryPointMetadata>;
pub uninterp spec fn entry_print(m: EntryPointMetadata) -> Seq<u8>;
impl VxParse for EntryPointMetadata { open spec fn parsed(b: Seq<u8>) -> Option<EntryPointMetadata> { entry_parse(b) } }
impl VxPrint for EntryPointMetadata { open spec fn printed(&self) -> Seq<u8> { entry_print(*self) } }
// Entry points without extensions are read as they were printed.
pub axiom fn entry_round(m: EntryPointMetadata)
    requires m.extensions@.len() == 0
    ensures entry_parse(entry_print(m)) == Some(m);
// The requirement "3.0" admits 3.0.0.
pub axiom fn three()
    ensures version_parse(seq!['3', '.', '0']) matches Some(v) && admits(v, 3, 0, 0);
impl ExtensionMetadata {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ExtensionMetadata) ensures r == *self { unimplemented!() }
}
pub open spec fn asks(m: EntryPointMetadata) -> bool { exists|i: int| 0 <= i < m.extensions@.len() && (#[trigger] m.extensions@[i]).must_understand }
pub open spec fn declares(m: EntryPointMetadata) -> bool {
    last_segment(m.zarr_format@).len() > 0 && (version_parse(last_segment(m.zarr_format@)) matches Some(v) && admits(v, 3, 0, 0))
}
// What can be opened.
pub open spec fn opens(b: Seq<u8>) -> bool { entry_parse(b) matches Some(m) && !asks(m) && declares(m) }
pub open spec fn entry_place(base: Seq<char>) -> Place { names(base).push(seq!['z', 'a', 'r', 'r', '.', 'j', 's', 'o', 'n']) }
pub proof fn entry_named(base: Seq<char>)
    ensures names(joined_path(base, seq!['z', 'a', 'r', 'r', '.', 'j', 's', 'o', 'n'])) == entry_place(base)
{
    let n = seq!['z', 'a', 'r', 'r', '.', 'j', 's', 'o', 'n'];
    assert(plain_name(n)) by { assert forall|i: int| 0 <= i < n.len() implies n[i] != '/' by { } assert(n.len() == 9); }
    child_names(base, n);
    assert(joined_path(base, n) =~= key_in(base, n));
}
impl EntryPointMetadata {
@@method to_owned fn:vx_same
@@fn src/lib.rs impl Default for EntryPointMetadata::default as EntryPointMetadata::default for C16
sig pub fn default() -> (r: EntryPointMetadata)
spec
    ensures r.extensions@.len() == 0, declares(r)
start
    proof {
        let s = "https://purl.org/zarr/spec/protocol/core/3.0"@;
        reveal_strlit("https://purl.org/zarr/spec/protocol/core/3.0");
        rindex_is(s, '/', 40);
        assert(last_segment(s) =~= seq!['3', '.', '0']);
        three();
    }
@@end
}

impl VxPath {
    #[verifier::external_body]
    pub fn into_os_string(self) -> (r: VxOs) ensures r@ == self@ { unimplemented!() }
}
impl VxOs {
    #[verifier::external_body]
    pub fn into_string(self) -> (r: Result<VxBuf, VxOs>) ensures r matches Ok(s) && s@ == self@ { unimplemented!() }
}
impl VxBuf {
    #[verifier::external_body]
    pub fn insert_str(&mut self, i: usize, s: &str) requires i == 0 ensures final(self)@ == s@ + old(self)@ { unimplemented!() }
}
impl FilesystemHierarchy {
    pub open spec fn place(self, key: Seq<char>) -> Place { names(self.base_path@) + names(key) }
    // A key that does not lead above the hierarchy.
    pub open spec fn sound(self, key: Seq<char>) -> bool { names(key).len() + 2 < i32::MAX && inside(below(key)) }
@@fn src/store/filesystem.rs FilesystemHierarchy::path_metadata for C17,C18
sig pub fn path_metadata(path: &VxPath, vx_w: &mut VxFs) -> (r: Result<Option<VxMetadata>, Error>)
spec
    ensures final(vx_w).same(*old(vx_w)), match r {
        Ok(Some(m)) => final(vx_w).faulted() == old(vx_w).faulted() && (match old(vx_w).at(names(path@)) { Some(Node::File(_)) => !m.dir, Some(Node::Dir) => m.dir, None => false }),
        Ok(None) => final(vx_w).faulted() == old(vx_w).faulted() && old(vx_w).at(names(path@)) is None,
        Err(_) => final(vx_w).faulted(),
    }
@@end
@@fn src/store/filesystem.rs impl ReadableStore for FilesystemHierarchy::exists as FilesystemHierarchy::exists for C17,C18
sig pub fn exists(&self, key: &str, vx_w: &mut VxFs) -> (r: Result<bool, Error>)
spec
    requires self.sound(key@)
    ensures final(vx_w).same(*old(vx_w)), match r { Ok(b) => final(vx_w).faulted() == old(vx_w).faulted() && b == (old(vx_w).file(self.place(key@)) is Some), Err(_) => final(vx_w).faulted() }
@@end
@@fn src/store/filesystem.rs impl ReadableStore for FilesystemHierarchy::get as FilesystemHierarchy::get for C17,C18
sig pub fn get(&self, key: &str, vx_w: &mut VxFs) -> (r: Result<Option<VxFileReader>, Error>)
spec
    requires self.sound(key@)
    ensures final(vx_w).same(*old(vx_w)), match r {
        Ok(Some(c)) => final(vx_w).faulted() == old(vx_w).faulted() && old(vx_w).file(self.place(key@)) == Some(c.content()),
        Ok(None) => final(vx_w).faulted() == old(vx_w).faulted() && old(vx_w).file(self.place(key@)) is None,
        Err(_) => final(vx_w).faulted(),
    }
@@end
@@fn src/store/filesystem.rs impl WriteableStore for FilesystemHierarchy::set as FilesystemHierarchy::set for C17,C18
sig pub fn set<F: VxValue>(&self, key: &str, value: F, vx_w: &mut VxFs) -> (r: Result<(), Error>)
spec
    requires self.sound(key@)
    ensures final(vx_w).grown_but(*old(vx_w), self.place(key@)), match r {
        // The value is exactly what was written, whatever there was before.
        Ok(_) => value.bytes() is Some && final(vx_w).file(self.place(key@)) == value.bytes(),
        Err(_) => final(vx_w).faulted() || value.bytes() is None || old(vx_w).blocked(self.place(key@)),
    }
@@end
@@fn src/store/filesystem.rs impl WriteableStore for FilesystemHierarchy::erase as FilesystemHierarchy::erase for C14,C17,C18
sig pub fn erase(&self, key: &str, vx_w: &mut VxFs) -> (r: Result<bool, Error>)
spec
    requires self.sound(key@)
    ensures final(vx_w).same_but(*old(vx_w), self.place(key@)), match r {
        Ok(b) => b && final(vx_w).faulted() == old(vx_w).faulted() && final(vx_w).at(self.place(key@)) is None,
        Err(_) => final(vx_w).faulted() || old(vx_w).is_dir(self.place(key@)),
    }
@@end
@@fn src/store/filesystem.rs impl WriteableStore for FilesystemHierarchy::erase_prefix as FilesystemHierarchy::erase_prefix for C14,C17,C18
sig pub fn erase_prefix(&self, key_prefix: &str, vx_w: &mut VxFs) -> (r: Result<bool, Error>)
spec
    requires self.sound(key_prefix@), self.place(key_prefix@).len() > 0
    ensures
        // Nothing but what is at or below the place goes, and nothing comes.
        forall|q: Place| #[trigger] final(vx_w).at(q) == old(vx_w).at(q) || (under(q, self.place(key_prefix@)) && final(vx_w).at(q) is None),
        // A directory's name is not a file's.
        key_prefix@.len() > 0 && key_prefix@.last() == '/' && old(vx_w).file(self.place(key_prefix@)) is Some ==> final(vx_w).same(*old(vx_w)),
        match r {
            Ok(b) => b && final(vx_w).faulted() == old(vx_w).faulted()
                && ((key_prefix@.len() > 0 && key_prefix@.last() == '/' && old(vx_w).file(self.place(key_prefix@)) is Some) || forall|q: Place| under(q, self.place(key_prefix@)) ==> #[trigger] final(vx_w).at(q) is None),
            Err(_) => final(vx_w).faulted(),
        }
hint
    strings
loop 0
        $s0.complete(), $s0.inner_first(), $s0.root() == self.place(key_prefix@), $s0.from().same(*old(vx_w)), self.place(key_prefix@).len() > 0,
        $s0.fail_at() matches Some(k) ==> vi0 <= k,
        vx_w.kept(*old(vx_w)), $s0.fails() ==> vx_w.faulted(), !$s0.fails() ==> vx_w.faulted() == old(vx_w).faulted(),
        forall|q: Place| #[trigger] vx_w.at(q) == if $s0.order().take(vi0 as int).contains(q) { None } else { old(vx_w).at(q) },
loop 0 start
    proof { contained_next($s0@, vj0 as int); inner_before($s0, vj0 as int); assert(under($s0@[vj0 as int], $s0.root())); }
loop 0 after
    proof { assert($s0@.take(vi0 as int) =~= $s0@); let p = self.place(key_prefix@); assert(p.take(p.len() as int) =~= p); assert(under(p, p)); assert forall|q: Place| under(q, p) implies #[trigger] vx_w.at(q) is None by { assert(under(q, $s0.root())); } bare(*vx_w, self.place(key_prefix@)); }
start
    proof { bare(*old(vx_w), self.place(key_prefix@)); }
@@end
@@fn src/store/filesystem.rs impl ListableStore for FilesystemHierarchy::list_dir as FilesystemHierarchy::list_dir for C15,C18
sig pub fn list_dir(&self, prefix: &str, vx_w: &mut VxFs) -> (r: Result<(Vec<VxBuf>, Vec<VxBuf>), Error>)
spec
    requires self.sound(prefix@)
    ensures final(vx_w).same(*old(vx_w)), match r {
        Ok((ks, ps)) => final(vx_w).faulted() == old(vx_w).faulted() && (ks@.len() + ps@.len() > 0 ==> self.place(prefix@).len() <= 4096) && listed(ks@, prefix@, *old(vx_w), self.place(prefix@), false) && listed(ps@, prefix@, *old(vx_w), self.place(prefix@), true),
        Err(_) => final(vx_w).faulted(),
    }
hint
    strings
start
    proof { if !old(vx_w).is_dir(self.place(prefix@)) { listed_none(prefix@, *old(vx_w), self.place(prefix@)); } }
loop 0
        $s0.complete(), $s0.root() == self.place(prefix@), self.place(prefix@).len() <= 4096, $s0.from().same(*old(vx_w)), old(vx_w).same($s0.from()), vx_w.same(*old(vx_w)),
        separator@ == (if prefix@.len() == 0 || prefix@.last() == '/' { seq![] } else { seq!['/'] }),
        $s0.fail_at() matches Some(k) ==> vi0 <= k,
        vx_w.kept(*old(vx_w)), $s0.fail_at() is Some ==> vx_w.faulted(), $s0.fail_at() is None ==> vx_w.faulted() == old(vx_w).faulted(),
        listed_of(keys@, prefix@, *old(vx_w), $s0@.take(vi0 as int), false), listed_of(prefixes@, prefix@, *old(vx_w), $s0@.take(vi0 as int), true),
loop 0 start
    proof { listed_next($s0, vj0 as int, prefix@, *old(vx_w), keys@, false); listed_next($s0, vj0 as int, prefix@, *old(vx_w), prefixes@, true); }
loop 0 after
    proof { assert($s0@.take(vi0 as int) =~= $s0@); listed_all($s0, prefix@, *old(vx_w), keys@, false); listed_all($s0, prefix@, *old(vx_w), prefixes@, true); }
@@end
@@method to_owned fn:vx_owned
@@method extend vx_extend
@@method list_dir vx_list_dir
@@world list_dir list_prefix vx_list_dir
@@fn src/storage.rs trait ListableStore::list_prefix as FilesystemHierarchy::list_prefix for C15,C18
attr
    #[verifier::loop_isolation(true)]
sig pub fn list_prefix(&self, prefix: &str, vx_w: &mut VxFs) -> (r: Result<Vec<VxBuf>, Error>)
spec
    requires self.sound(prefix@)
    ensures final(vx_w).same(*old(vx_w)), match r {
        // Every file below the place, once, under a name that leads to it.
        Ok(v) => final(vx_w).faulted() == old(vx_w).faulted() && visiting(*old(vx_w), self.place(prefix@), self.places(v@), seq![]) && self.sounds(v@, prefix@),
        Err(_) => final(vx_w).faulted(),
    }
start
    proof { visiting_first(*old(vx_w), self.place(prefix@)); assert forall|v: Seq<VxBuf>| v.len() == 0 implies #[trigger] self.places(v) == Seq::<Place>::empty() by { assert(self.places(v) =~= seq![]); } assert forall|v: Seq<VxBuf>| v.len() == 1 implies #[trigger] self.places(v) == seq![self.place(v[0]@)] by { assert(self.places(v) =~= seq![self.place(v[0]@)]); } assert(prefix@.take(prefix@.len() as int) =~= prefix@); }
loop 0
        vx_w.same(*old(vx_w)), old(vx_w).same(*vx_w), vx_w.faulted() == old(vx_w).faulted(),
        self.sounds(result@, prefix@), self.sounds(to_visit@, prefix@),
        visiting(*old(vx_w), self.place(prefix@), self.places(result@), self.places(to_visit@)),
loop 0 decreases
        effort(*old(vx_w), self.places(to_visit@))
loop 0 start
    let ghost r0 = result@;
    let ghost t0 = to_visit@;
    let ghost w0 = *vx_w;
    proof { assert forall|u: Seq<VxBuf>| u.len() > 0 && t0 == u.drop_last() && next == u.last() implies #[trigger] self.places(u) == self.places(t0).push(self.place(next@)) by { assert(self.places(u) =~= self.places(t0).push(self.place(next@))); } }
after let dir
    let ghost g = dir;
    proof {
        listed_same(g.0@, next@, w0, *old(vx_w), self.place(next@), false); listed_same(g.1@, next@, w0, *old(vx_w), self.place(next@), true);
        self.listed_places(g.0@, next@, prefix@, *old(vx_w), false);
        self.listed_places(g.1@, next@, prefix@, *old(vx_w), true);
        visited(*old(vx_w), self.place(prefix@), self.places(r0), self.places(t0), self.place(next@), self.places(g.0@), self.places(g.1@));
        effort_less(*old(vx_w), self.place(prefix@), self.places(r0), self.places(t0), self.place(next@), self.places(g.1@));
        self.sounds_more(r0, g.0@, prefix@); self.sounds_more(t0, g.1@, prefix@);
    }
loop 0 ensures
        to_visit@.len() == 0
loop 0 after
    proof { assert(self.places(to_visit@) =~= seq![]); }
@@end
@@fn src/storage.rs trait ListableStore::list as FilesystemHierarchy::list for C15,C18
sig pub fn list(&self, vx_w: &mut VxFs) -> (r: Result<Vec<VxBuf>, Error>)
spec
    ensures final(vx_w).same(*old(vx_w)), match r {
        Ok(v) => final(vx_w).faulted() == old(vx_w).faulted() && visiting(*old(vx_w), names(self.base_path@), self.places(v@), seq![]) && self.sounds(v@, seq!['/']),
        Err(_) => final(vx_w).faulted(),
    }
hint
    strings
start
    proof {
        let k = seq!['/'];
        assert(k =~= "/"@);
        names_slash(seq![], seq![]);
        assert(k =~= seq![] + seq!['/'] + seq![]);
        assert(names(k) =~= seq![]);
        assert(below(k) =~= seq![]);
        assert(self.place(k) =~= names(self.base_path@));
    }
@@end
@@fn src/store/filesystem.rs impl Hierarchy for FilesystemHierarchy::get_entry_point_metadata as FilesystemHierarchy::get_entry_point_metadata for C16
sig pub fn get_entry_point_metadata(&self) -> (r: &EntryPointMetadata)
spec
    ensures *r == self.entry_point_metadata
@@end
@@fn src/storage.rs impl HierarchyReader for S::get_version as FilesystemHierarchy::get_version for C16
sig pub fn get_version(&self) -> (r: Result<VersionReq, Error>)
spec
    ensures match r {
        Ok(v) => last_segment(self.entry_point_metadata.zarr_format@).len() > 0 && version_parse(last_segment(self.entry_point_metadata.zarr_format@)) == Some(v),
        Err(_) => last_segment(self.entry_point_metadata.zarr_format@).len() == 0 || version_parse(last_segment(self.entry_point_metadata.zarr_format@)) is None,
    }
@@end
@@fn src/store/filesystem.rs FilesystemHierarchy::read_entry_point_metadata for C16
sig pub fn read_entry_point_metadata(base_path: &VxPath, vx_w: &mut VxFs) -> (r: Result<EntryPointMetadata, Error>)
spec
    ensures final(vx_w).same(*old(vx_w)), final(vx_w).kept(*old(vx_w)), match r {
        Ok(m) => final(vx_w).faulted() == old(vx_w).faulted() && !asks(m) && (old(vx_w).file(entry_place(base_path@)) matches Some(b) && entry_parse(b) == Some(m)),
        Err(_) => final(vx_w).faulted() || (match old(vx_w).file(entry_place(base_path@)) { Some(b) => match entry_parse(b) { Some(m) => asks(m), None => true }, None => true }),
    }
start
    proof { reveal_strlit("zarr.json"); assert("zarr.json"@ =~= seq!['z', 'a', 'r', 'r', '.', 'j', 's', 'o', 'n']); entry_named(base_path@); }
loop 0
        va0 is None ==> forall|i: int| 0 <= i < vi0 ==> !(#[trigger] metadata.extensions@[i]).must_understand,
        va0 is Some ==> asks(metadata),
@@end
@@fn src/store/filesystem.rs FilesystemHierarchy::open for C16,C18
sig pub fn open<P: VxText>(base_path: P, vx_w: &mut VxFs) -> (r: Result<FilesystemHierarchy, Error>)
spec
    ensures final(vx_w).same(*old(vx_w)), match r {
        Ok(h) => h.base_path@ == base_path.text() && (old(vx_w).file(entry_place(base_path.text())) matches Some(b) && opens(b) && entry_parse(b) == Some(h.entry_point_metadata)),
        Err(_) => final(vx_w).faulted() || (old(vx_w).file(entry_place(base_path.text())) matches Some(b) ==> !opens(b)),
    }
@@end
@@fn src/store/filesystem.rs FilesystemHierarchy::open_or_create for C16,C18
sig pub fn open_or_create<P: VxText>(base_path: P, vx_w: &mut VxFs) -> (r: Result<FilesystemHierarchy, Error>)
spec
    ensures
        // What exists is left alone, whatever fails.
        old(vx_w).at(entry_place(base_path.text())) is Some ==> final(vx_w).same(*old(vx_w)),
        final(vx_w).grown_but(*old(vx_w), entry_place(base_path.text())),
        match r {
            // It can be opened (again).
            Ok(h) => h.base_path@ == base_path.text() && (final(vx_w).file(entry_place(base_path.text())) matches Some(b) && opens(b) && entry_parse(b) == Some(h.entry_point_metadata)),
            Err(_) => final(vx_w).faulted() || old(vx_w).blocked(entry_place(base_path.text())) || (old(vx_w).file(entry_place(base_path.text())) matches Some(b) && !opens(b)),
        }
start
    proof { reveal_strlit("zarr.json"); assert("zarr.json"@ =~= seq!['z', 'a', 'r', 'r', '.', 'j', 's', 'o', 'n']); entry_named(base_path.text()); assert forall|m: EntryPointMetadata| m.extensions@.len() == 0 implies entry_parse(#[trigger] entry_print(m)) == Some(m) by { entry_round(m); } let p = entry_place(base_path.text()); parents(p); assert(p.drop_last() =~= names(base_path.text())); }
@@end
@@result get_path into_string
@@fn src/store/filesystem.rs impl ReadableStore for FilesystemHierarchy::uri as FilesystemHierarchy::uri for C10
sig pub fn uri(&self, key: &str) -> (r: Result<VxBuf, Error>)
spec
    requires self.sound(key@)
    // The file that the key's value is in.
    ensures r matches Ok(s) && s@.len() >= 7 && s@.take(7) == seq!['f', 'i', 'l', 'e', ':', '/', '/'] && names(s@.skip(7)) == self.place(key@)
start
    proof { reveal_strlit("file://"); assert forall|s: Seq<char>| #![trigger "file://"@ + s] ("file://"@ + s).take(7) == seq!['f', 'i', 'l', 'e', ':', '/', '/'] && ("file://"@ + s).skip(7) == s by { assert(("file://"@ + s).take(7) =~= seq!['f', 'i', 'l', 'e', ':', '/', '/']); assert(("file://"@ + s).skip(7) =~= s); } }
@@end
}
// C17: seen through its operations' contracts, the store is a map on canonical keys: those that begin with a slash and have no empty segments, "." or trailing slash.
pub open spec fn canonical(k: Seq<char>) -> bool decreases k.len()
    via canonical_decreases
{ k.len() == 0 || { let r = rindex(k, '/'); r >= 0 && k.skip(r + 1).len() > 0 && k.skip(r + 1) != seq!['.'] && canonical(k.take(r)) } }
#[via_fn]
proof fn canonical_decreases(k: Seq<char>) { rindex_bound(k, '/'); }
pub open spec fn joined_names(n: Seq<Seq<char>>) -> Seq<char> decreases n.len()
{ if n.len() == 0 { seq![] } else { joined_names(n.drop_last()) + seq!['/'] + n.last() } }
pub proof fn canonical_names(k: Seq<char>)
    requires canonical(k)
    ensures joined_names(names(k)) == k
    decreases k.len()
{
    if k.len() > 0 {
        rindex_bound(k, '/');
        let r = rindex(k, '/');
        canonical_names(k.take(r));
        let n = names(k);
        assert(n.drop_last() =~= names(k.take(r)));
        assert(k =~= k.take(r) + seq!['/'] + k.skip(r + 1));
    }
}
pub proof fn joined_prefix(n: Seq<Seq<char>>, m: int)
    requires 0 <= m < n.len()
    ensures begins(joined_names(n), joined_names(n.take(m)) + seq!['/'])
    decreases n.len()
{
    let p = joined_names(n.take(m)) + seq!['/'];
    let d = n.drop_last();
    if m < n.len() - 1 {
        joined_prefix(d, m);
        assert(d.take(m) =~= n.take(m));
        assert(joined_names(n).take(p.len() as int) =~= joined_names(d).take(p.len() as int));
    } else {
        assert(d =~= n.take(m));
        assert(joined_names(n).take(p.len() as int) =~= p);
    }
}
pub proof fn prefix_names(k: Seq<char>, p: Seq<char>)
    requires canonical(k), canonical(p), begins(k, p + seq!['/'])
    ensures inner(names(k), names(p))
{
    let u = k.skip((p.len() + 1) as int);
    assert(k =~= p + seq!['/'] + u);
    names_slash(p, u);
    assert(names(k).take(names(p).len() as int) =~= names(p));
    if names(u).len() == 0 {
        assert(names(k) =~= names(p));
        canonical_names(k);
        canonical_names(p);
        assert(k == p);
    }
}
impl FilesystemHierarchy {
    pub open spec fn value(self, w: VxFs, k: Seq<char>) -> Option<Seq<u8>> { w.file(self.place(k)) }
    pub proof fn one_place(self, k: Seq<char>, l: Seq<char>)
        requires canonical(k), canonical(l)
        ensures self.place(k) == self.place(l) ==> k == l
    {
        if self.place(k) == self.place(l) {
            let b = names(self.base_path@);
            assert(names(k) =~= self.place(k).skip(b.len() as int));
            assert(names(l) =~= self.place(l).skip(b.len() as int));
            canonical_names(k);
            canonical_names(l);
        }
    }
    // After `set` and `erase`, as their contracts have it.
    pub proof fn map_one(self, w: VxFs, o: VxFs, key: Seq<char>)
        requires canonical(key), w.grown_but(o, self.place(key))
        ensures forall|k: Seq<char>| canonical(k) && k != key ==> #[trigger] self.value(w, k) == self.value(o, k)
    {
        assert forall|k: Seq<char>| canonical(k) && k != key implies #[trigger] self.value(w, k) == self.value(o, k) by { self.one_place(k, key); assert(w.at(self.place(k)) == o.at(self.place(k)) || (o.at(self.place(k)) is None && w.is_dir(self.place(k)))); }
    }
    // After `erase_prefix` of a prefix with its slash.
    pub proof fn map_prefix(self, w: VxFs, o: VxFs, p: Seq<char>)
        requires
            canonical(p),
            forall|q: Place| #[trigger] w.at(q) == o.at(q) || (under(q, self.place(p.push('/'))) && w.at(q) is None),
            o.file(self.place(p.push('/'))) is Some ==> w.same(o),
            o.file(self.place(p.push('/'))) is Some || forall|q: Place| under(q, self.place(p.push('/'))) ==> #[trigger] w.at(q) is None,
        ensures forall|k: Seq<char>| canonical(k) ==> #[trigger] self.value(w, k) == if begins(k, p + seq!['/']) { None } else { self.value(o, k) }
    {
        names_slash(p, seq![]);
        assert(p.push('/') =~= p + seq!['/'] + seq![]);
        assert(names(p.push('/')) =~= names(p));
        let b = names(self.base_path@);
        let d = self.place(p);
        assert forall|k: Seq<char>| canonical(k) implies #[trigger] self.value(w, k) == if begins(k, p + seq!['/']) { None } else { self.value(o, k) } by {
            let q = self.place(k);
            if begins(k, p + seq!['/']) {
                prefix_names(k, p);
                assert(q.take(d.len() as int) =~= b + names(k).take(names(p).len() as int));
                assert(inner(q, d));
                if o.file(d) is Some && o.at(q) is Some { tree(o, d, q); }
                assert(w.at(q) == o.at(q) || w.at(q) is None);
            } else if under(q, d) {
                let n = names(k);
                assert(q.len() == b.len() + n.len());
                assert(n.take(names(p).len() as int) =~= q.take(d.len() as int).skip(b.len() as int));
                assert(d.skip(b.len() as int) =~= names(p));
                canonical_names(k);
                canonical_names(p);
                if n.len() > names(p).len() { joined_prefix(n, names(p).len() as int); }
                else { assert(n =~= names(p)); assert(k == p); if o.at(q) != w.at(q) { assert(o.file(d) is None); } }
            }
        }
    }
}
}
