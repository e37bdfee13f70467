// Shims for a store: a map from keys to byte strings, in a world that remembers whether anything failed.
@@include json.vrs
@@include streams.vrs
@@world exists get set erase erase_prefix list_dir uri vx_from_reader serde_json::from_reader
@@lambda set
verus! {
#[verifier::external_body] pub struct VxWorld { _p: () }
impl VxWorld {
    // The value of a key, if there is one.
    pub uninterp spec fn at(self, k: Seq<char>) -> Option<Seq<u8>>;
    // Some store operation or stream has failed.
    pub uninterp spec fn faulted(self) -> bool;
    // How many operations have changed the store: each takes it from one state to the next, and a process may stop between them.
    pub uninterp spec fn changes(self) -> nat;
    pub open spec fn has(self, k: Seq<char>) -> bool { self.at(k) is Some }
    pub open spec fn untouched(self, o: VxWorld) -> bool { self.same(o) && self.changes() == o.changes() }
    pub open spec fn same(self, o: VxWorld) -> bool { forall|k: Seq<char>| #[trigger] self.at(k) == o.at(k) }
    // Nothing but the value of the key differs.
    pub open spec fn same_but(self, o: VxWorld, k0: Seq<char>) -> bool { forall|k: Seq<char>| k != k0 ==> #[trigger] self.at(k) == o.at(k) }
    // Nothing but values below the prefix differs.
    pub open spec fn same_outside(self, o: VxWorld, p: Seq<char>) -> bool { forall|k: Seq<char>| !starts(k, p) ==> #[trigger] self.at(k) == o.at(k) }
    // Exactly the value of the key differs, and is this now.
    pub open spec fn put(self, o: VxWorld, k0: Seq<char>, v: Option<Seq<u8>>) -> bool { forall|k: Seq<char>| #[trigger] self.at(k) == if k == k0 { v } else { o.at(k) } }
    // Exactly the keys below the prefix are gone.
    pub open spec fn cut(self, o: VxWorld, p: Seq<char>) -> bool { forall|k: Seq<char>| #[trigger] self.at(k) == if starts(k, p) { None } else { o.at(k) } }
}
pub open spec fn starts(k: Seq<char>, p: Seq<char>) -> bool { k.len() >= p.len() && k.take(p.len() as int) == p }

// What `get` returns: a stream over the value.
#[verifier::external_body] pub struct VxReader { _p: () }
impl VxReader { pub uninterp spec fn content(self) -> Seq<u8>; }
impl VxRead for VxReader {
    uninterp spec fn rest(self) -> Seq<u8>;
    uninterp spec fn fails(self) -> bool;
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
}
pub axiom fn reader_yields(r: VxReader)
    ensures r.rest().len() <= r.content().len(), r.rest() == r.content().take(r.rest().len() as int), !r.fails() ==> r.rest() == r.content();
#[verifier::external_body]
pub fn vx_from_reader<T: VxParse>(r: VxReader, vx_w: &mut VxWorld) -> (t: Result<T, Error>)
    ensures final(vx_w).untouched(*old(vx_w)), match t {
        Ok(v) => T::parsed(r.content()) == Some(v) && !r.fails(),
        Err(e) => r.fails() || (T::parsed(r.content()) is None && e.kind_of() != ErrorKind::NotFound),
    }, final(vx_w).faulted() == old(vx_w).faulted()
{ unimplemented!() }

// What the function given to `set` writes to.
#[verifier::external_body] pub struct VxWriter { _p: () }
impl VxWrite for VxWriter {
    uninterp spec fn key(self) -> Seq<char>;
    uninterp spec fn written(self) -> Seq<u8>;
    uninterp spec fn flushed(self) -> bool;
    uninterp spec fn failed(self) -> bool;
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_to_writer<W: VxWrite, T: VxPrint + ?Sized>(w: &mut W, t: &T) -> (r: Result<(), Error>)
    ensures (*final(w)).key() == (*old(w)).key(), match r {
        Ok(_) => (*final(w)).written() == (*old(w)).written() + t.printed() && (*final(w)).failed() == (*old(w)).failed(),
        Err(_) => (*final(w)).failed(),
    }
{ unimplemented!() }

impl VxStore {
    #[verifier::external_body]
    pub fn exists<K: VxText + ?Sized>(&self, k: &K, vx_w: &mut VxWorld) -> (r: Result<bool, Error>)
        ensures final(vx_w).untouched(*old(vx_w)), match r { Ok(b) => b == old(vx_w).has(k.text()) && final(vx_w).faulted() == old(vx_w).faulted(), Err(_) => final(vx_w).faulted() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: VxText + ?Sized>(&self, k: &K, vx_w: &mut VxWorld) -> (r: Result<Option<VxReader>, Error>)
        ensures final(vx_w).untouched(*old(vx_w)), match r {
            // A stream that will fail counts as a failure of the world.
            Ok(Some(c)) => old(vx_w).has(k.text()) && Some(c.content()) == old(vx_w).at(k.text()) && final(vx_w).faulted() == (old(vx_w).faulted() || c.fails()),
            Ok(None) => !old(vx_w).has(k.text()) && final(vx_w).faulted() == old(vx_w).faulted(),
            Err(_) => final(vx_w).faulted(),
        }
    { unimplemented!() }
    pub uninterp spec fn uri_of(self, k: Seq<char>) -> Seq<char>;
    #[verifier::external_body]
    pub fn uri<K: VxText + ?Sized>(&self, k: &K, vx_w: &mut VxWorld) -> (r: Result<VxBuf, Error>)
        ensures final(vx_w).untouched(*old(vx_w)), match r { Ok(s) => s@ == self.uri_of(k.text()) && final(vx_w).faulted() == old(vx_w).faulted(), Err(_) => final(vx_w).faulted() }
    { unimplemented!() }
    // `set(key, value)` in two steps: `value` is called between them on the writer.
    #[verifier::external_body]
    pub fn set_open<K: VxText + ?Sized>(&self, k: &K, vx_w: &mut VxWorld) -> (r: Result<VxWriter, Error>)
        ensures final(vx_w).same_but(*old(vx_w), k.text()), final(vx_w).changes() == old(vx_w).changes(), match r {
            Ok(w) => w.key() == k.text() && w.written().len() == 0 && w.flushed() && !w.failed() && final(vx_w).same(*old(vx_w)) && final(vx_w).faulted() == old(vx_w).faulted(),
            Err(_) => final(vx_w).faulted(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_close(&self, w: VxWriter, v: Result<(), Error>, vx_w: &mut VxWorld) -> (r: Result<(), Error>)
        ensures final(vx_w).same_but(*old(vx_w), w.key()), final(vx_w).changes() == old(vx_w).changes() + 1,
            final(vx_w).faulted() == (old(vx_w).faulted() || w.failed()) || (r is Err && final(vx_w).faulted()),
            // A store may fail, but not hide that `value` did.
            v is Err ==> r is Err,
            r is Ok && w.flushed() && !w.failed() ==> final(vx_w).put(*old(vx_w), w.key(), Some(w.written())),
            r is Err && v is Ok ==> final(vx_w).faulted(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn erase<K: VxText + ?Sized>(&self, k: &K, vx_w: &mut VxWorld) -> (r: Result<bool, Error>)
        ensures final(vx_w).changes() == old(vx_w).changes() + 1, match r {
            Ok(b) => b && final(vx_w).put(*old(vx_w), k.text(), None) && final(vx_w).faulted() == old(vx_w).faulted(),
            Err(_) => final(vx_w).faulted() && final(vx_w).same_but(*old(vx_w), k.text()),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn erase_prefix<K: VxText + ?Sized>(&self, p: &K, vx_w: &mut VxWorld) -> (r: Result<bool, Error>)
        requires p.text().len() > 0, p.text().last() == '/'
        ensures final(vx_w).changes() == old(vx_w).changes() + 1, match r {
            Ok(b) => b && final(vx_w).cut(*old(vx_w), p.text()) && final(vx_w).faulted() == old(vx_w).faulted(),
            Err(_) => final(vx_w).faulted() && final(vx_w).same_outside(*old(vx_w), p.text()),
        }
    { unimplemented!() }
}
}
@@path serde_json::from_reader vx_from_reader
@@path serde_json::to_writer vx_to_writer
@@path ReadableStore::get .get
@@path ReadableStore::exists .exists
@@path WriteableStore::set .set
@@path WriteableStore::erase .erase
