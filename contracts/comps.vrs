@@include base.vrs
@@include paths.vrs
// Components of a path on Unix.
verus! {
pub enum Comp { Root, Cur, Parent, Normal(Seq<char>) }
pub open spec fn rooted(p: Seq<char>) -> bool { p.len() > 0 && p[0] == '/' }
// The segments between slashes, without empty ones and ".".
pub open spec fn names(p: Seq<char>) -> Seq<Seq<char>> decreases p.len()
    via names_decreases
{
    if p.len() == 0 { seq![] }
    else {
        let r = rindex(p, '/');
        let s = p.skip(r + 1);
        let rest = if r < 0 { seq![] } else { names(p.take(r)) };
        if s.len() == 0 || s == seq!['.'] { rest } else { rest.push(s) }
    }
}
#[via_fn]
proof fn names_decreases(p: Seq<char>) { rindex_bound(p, '/'); }
// A relative path that begins with ".".
pub open spec fn begins_cur(p: Seq<char>) -> bool { p.len() > 0 && p[0] == '.' && (p.len() == 1 || p[1] == '/') }
pub open spec fn comp_of(s: Seq<char>) -> Comp { if s == seq!['.', '.'] { Comp::Parent } else { Comp::Normal(s) } }
pub open spec fn named_comps(p: Seq<char>) -> Seq<Comp> { Seq::new(names(p).len(), |i: int| comp_of(names(p)[i])) }
pub open spec fn comps(p: Seq<char>) -> Seq<Comp> { (if rooted(p) { seq![Comp::Root] } else if begins_cur(p) { seq![Comp::Cur] } else { seq![] }) + named_comps(p) }
// How deep a sequence of components leads.
pub open spec fn depth(c: Seq<Comp>) -> int decreases c.len()
{ if c.len() == 0 { 0 } else { depth(c.drop_last()) + match c.last() { Comp::Normal(_) => 1int, Comp::Parent => -1, _ => 0 } } }
// Never above the start.
pub open spec fn inside(c: Seq<Comp>) -> bool { forall|k: int| 0 <= k <= c.len() ==> depth(#[trigger] c.take(k)) >= 0 }

pub enum Component { Prefix(VxOs), RootDir, CurDir, ParentDir, Normal(VxOs) }
impl Component {
    pub open spec fn is(self, c: Comp) -> bool {
        match self { Component::Prefix(_) => false, Component::RootDir => c == Comp::Root, Component::CurDir => c == Comp::Cur, Component::ParentDir => c == Comp::Parent, Component::Normal(s) => c == Comp::Normal(s@) }
    }
}
#[verifier::external_body] pub struct VxComponents { s: std::string::String }
impl View for VxComponents { type V = Seq<Comp>; uninterp spec fn view(&self) -> Seq<Comp>; }
impl VxComponents {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Component>)
        ensures match r { Some(c) => old(self)@.len() > 0 && c.is(old(self)@[0]) && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &VxPath) ensures comps(r@) == self@ { unimplemented!() }
}
impl VxItems<Component> for VxComponents { open spec fn count(&self) -> nat { self@.len() } open spec fn gives(&self, j: int, r: Component) -> bool { r.is(self@[j]) } }
#[verifier::external_body]
pub fn vx_path_new(s: &str) -> (r: &VxPath) ensures r@ == s@ { unimplemented!() }
impl VxPath {
    #[verifier::external_body]
    pub fn components(&self) -> (r: VxComponents) ensures r@ == comps(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_root(&self) -> (r: bool) ensures r == rooted(self@) { unimplemented!() }
}
pub proof fn names_len(p: Seq<char>)
    ensures names(p).len() <= p.len()
    decreases p.len()
{
    if p.len() > 0 { rindex_bound(p, '/'); let r = rindex(p, '/'); if r >= 0 { names_len(p.take(r)); } }
}
pub proof fn comps_names(p: Seq<char>, q: Seq<char>)
    requires named_comps(p) == named_comps(q)
    ensures names(p) == names(q)
{
    assert(named_comps(p).len() == names(p).len());
    assert(named_comps(q).len() == names(q).len());
    assert forall|i: int| 0 <= i < names(p).len() implies names(p)[i] == names(q)[i] by {
        assert(named_comps(p)[i] == comp_of(names(p)[i]));
        assert(named_comps(q)[i] == comp_of(names(q)[i]));
    }
    assert(names(p) =~= names(q));
}
// Joining appends the names.
pub proof fn names_joined(b: Seq<char>, u: Seq<char>)
    requires !rooted(u)
    ensures names(joined_path(b, u)) == names(b) + names(u)
    decreases u.len()
{
    if b.len() == 0 { assert(joined_path(b, u) =~= u); assert(names(b) + names(u) =~= names(u)); }
    else if b.last() == '/' {
        let c = b.drop_last();
        rindex_is(b, '/', b.len() - 1);
        assert(b.take(b.len() - 1) =~= c);
        assert(names(b) == names(c));
        names_slash(c, u);
        assert(joined_path(b, u) =~= c + seq!['/'] + u);
    } else { names_slash(b, u); }
}
pub proof fn names_slash(b: Seq<char>, u: Seq<char>)
    ensures names(b + seq!['/'] + u) == names(b) + names(u)
    decreases u.len()
{
    let j = b + seq!['/'] + u;
    let n = b.len() as int;
    assert(j[n] == '/');
    rindex_bound(u, '/');
    let r = rindex(u, '/');
    assert forall|i: int| n + 1 + r < i < j.len() implies j[i] != '/' by { assert(j[i] == u[i - n - 1]); }
    assert(j[n + 1 + r] == '/') by { if r >= 0 { assert(j[n + 1 + r] == u[r]); } }
    rindex_is(j, '/', n + 1 + r);
    assert(j.skip(n + 1 + r + 1) =~= u.skip(r + 1));
    if r >= 0 {
        names_slash(b, u.take(r));
        assert(j.take(n + 1 + r) =~= b + seq!['/'] + u.take(r));
        let s = u.skip(r + 1);
        assert(names(j) =~= names(b) + names(u));
    } else {
        assert(j.take(n) =~= b);
        if u.len() == 0 { assert(names(j) =~= names(b) + names(u)); }
        else { assert(names(j) =~= names(b) + names(u)); }
    }
}
}
@@path Path::new vx_path_new
