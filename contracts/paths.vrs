@@include strings.vrs
// Shims for growing strings and for `std::path` on Unix, where a path is its sequence of characters.
// A `String` that is only read is a string slice here.
@@type String VxString
verus! {
pub type VxString = &'static str;
// Things with a text.
pub trait VxText { spec fn text(&self) -> Seq<char>; }
impl VxText for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<T: VxText + ?Sized> VxText for &T { open spec fn text(&self) -> Seq<char> { (*self).text() } }
// Things that can be printed with `{}`.
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (*self).shown() } }

// A string under construction.
#[verifier::external_body] pub struct VxBuf { s: std::string::String }
impl View for VxBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxText for VxBuf { open spec fn text(&self) -> Seq<char> { self@ } }
impl VxShow for VxBuf { open spec fn shown(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_new_string() -> (r: VxBuf) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_str<T: VxText + ?Sized>(s: &mut VxBuf, t: &T) ensures final(s)@ == old(s)@ + t.text() { unimplemented!() }
#[verifier::external_body]
pub fn vx_display<T: VxShow + ?Sized>(s: &mut VxBuf, t: &T) ensures final(s)@ == old(s)@ + t.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_owned<T: VxText + ?Sized>(s: &T) -> (r: VxBuf) ensures r@ == s.text() { unimplemented!() }
impl VxBuf {
    #[verifier::external_body]
    pub fn push_str<T: VxText + ?Sized>(&mut self, t: &T) ensures final(self)@ == old(self)@ + t.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@.last() == c) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}

// Trimming.
pub open spec fn trim_start(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { trim_start(s.skip(1), c) } else { s } }
pub open spec fn trim_end(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trim_end(s.drop_last(), c) } else { s } }
#[verifier::external_body]
pub fn vx_trim_start<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == trim_start(s@, c) { s.trim_start_matches(c) }
#[verifier::external_body]
pub fn vx_trim_end<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == trim_end(s@, c) { s.trim_end_matches(c) }
#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>) ensures match r { Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.skip(1), None => !(s@.len() > 0 && s@[0] == c) } { s.strip_prefix(c) }
#[verifier::external_body]
pub fn vx_strip_suffix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>) ensures match r { Some(t) => s@.len() > 0 && s@.last() == c && t@ == s@.drop_last(), None => !(s@.len() > 0 && s@.last() == c) } { s.strip_suffix(c) }
#[verifier::external_body]
pub fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub fn vx_same<T>(x: T) -> (r: T) ensures r == x { x }
pub proof fn trim_end_len(s: Seq<char>, c: char)
    ensures trim_end(s, c).len() <= s.len(), trim_end(s, c) == s.take(trim_end(s, c).len() as int), trim_end(s, c).len() > 0 ==> trim_end(s, c).last() != c
    decreases s.len()
{
    if s.len() > 0 && s.last() == c { trim_end_len(s.drop_last(), c); let k = trim_end(s.drop_last(), c).len() as int; assert(s.drop_last().take(k) =~= s.take(k)); }
    else { assert(s.take(s.len() as int) =~= s); }
}
pub proof fn trim_start_len(s: Seq<char>, c: char)
    ensures trim_start(s, c).len() <= s.len(), trim_start(s, c) == s.skip(s.len() - trim_start(s, c).len()), trim_start(s, c).len() > 0 ==> trim_start(s, c)[0] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] == c { trim_start_len(s.skip(1), c); assert(s.skip(1).skip(s.skip(1).len() - trim_start(s, c).len()) =~= s.skip(s.len() - trim_start(s, c).len())); }
    else { assert(s.skip(0) =~= s); }
}
pub proof fn trim_end_push(s: Seq<char>, c: char) ensures trim_end(s.push(c), c) == trim_end(s, c) { assert(s.push(c).drop_last() =~= s); }
pub proof fn trim_end_same(s: Seq<char>, c: char) requires s.len() == 0 || s.last() != c ensures trim_end(s, c) == s {}

// Paths.  The shims cover paths whose last component is a name: not empty, "." or "..".
#[verifier::external_body] pub struct VxPath { s: std::string::String }
impl View for VxPath { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct VxOs { s: std::string::String }
impl View for VxOs { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxText for VxOs { open spec fn text(&self) -> Seq<char> { self@ } }
impl VxText for VxPath { open spec fn text(&self) -> Seq<char> { self@ } }
// Index of the last c, or -1.
pub open spec fn rindex(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { rindex(s.drop_last(), c) } }
pub proof fn rindex_bound(s: Seq<char>, c: char)
    ensures -1 <= rindex(s, c) < s.len(), rindex(s, c) >= 0 ==> s[rindex(s, c)] == c, forall|i: int| rindex(s, c) < i < s.len() ==> s[i] != c
    decreases s.len()
{
    if s.len() > 0 && s.last() != c {
        rindex_bound(s.drop_last(), c);
        assert forall|i: int| rindex(s, c) < i < s.len() implies s[i] != c by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    }
}
pub proof fn rindex_is(s: Seq<char>, c: char, k: int)
    requires 0 <= k < s.len(), s[k] == c, forall|i: int| k < i < s.len() ==> s[i] != c
    ensures rindex(s, c) == k
{ rindex_bound(s, c); let r = rindex(s, c); if r < k { assert(s[k] != c); } }
pub open spec fn unslashed(p: Seq<char>) -> Seq<char> { trim_end(p, '/') }
pub open spec fn file_name(p: Seq<char>) -> Seq<char> { let q = unslashed(p); q.skip(rindex(q, '/') + 1) }
pub open spec fn named(p: Seq<char>) -> bool { let n = file_name(p); n.len() > 0 && n != seq!['.'] && n != seq!['.', '.'] }
pub open spec fn ext_of(p: Seq<char>) -> Option<Seq<char>> { let n = file_name(p); let d = rindex(n, '.'); if d > 0 { Some(n.skip(d + 1)) } else { None } }
// The path up to its last name without extension.
pub open spec fn stem_path(p: Seq<char>) -> Seq<char> { let q = unslashed(p); let n = file_name(p); let d = rindex(n, '.'); if d > 0 { q.take(q.len() - n.len() + d) } else { q } }
pub open spec fn with_extension(p: Seq<char>, e: Seq<char>) -> Seq<char> { if e.len() == 0 { stem_path(p) } else { stem_path(p) + seq!['.'] + e } }
pub open spec fn joined_path(p: Seq<char>, s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '/' { s } else if p.len() == 0 || p.last() == '/' { p + s } else { p + seq!['/'] + s } }
impl VxPath {
    #[verifier::external_body]
    pub fn from<T: VxText + ?Sized>(s: &T) -> (r: VxPath) ensures r@ == s.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn join<T: VxText + ?Sized>(&self, s: &T) -> (r: VxPath) ensures r@ == joined_path(self@, s.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&VxOs>)
        requires named(self@)
        ensures match r { Some(e) => ext_of(self@) == Some(e@), None => ext_of(self@) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension<T: VxText>(&mut self, e: T) -> (r: bool)
        requires named(old(self)@), forall|i: int| 0 <= i < e.text().len() ==> e.text()[i] != '/'
        ensures final(self)@ == with_extension(old(self)@, e.text())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension<T: VxText>(&self, e: T) -> (r: VxPath)
        requires named(self@), forall|i: int| 0 <= i < e.text().len() ==> e.text()[i] != '/'
        ensures r@ == with_extension(self@, e.text())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == self@ { unimplemented!() }
}
impl VxOs {
    // Names are valid UTF-8.
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_os_string(&self) -> (r: VxOs) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push<T: VxText>(&mut self, e: T) ensures final(self)@ == old(self)@ + e.text() { unimplemented!() }
}
}
@@type PathBuf VxPath
@@type OsString VxOs
@@method trim_start_matches fn:vx_trim_start
@@method trim_end_matches fn:vx_trim_end
@@method strip_prefix fn:vx_strip_prefix
@@method strip_suffix fn:vx_strip_suffix
@@method as_ref fn:vx_same
