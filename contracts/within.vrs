@@include comps.vrs
@@include io.vrs
@@include meta.vrs
verus! {
@@struct src/lib.rs EntryPointMetadata
@@struct src/store/filesystem.rs FilesystemHierarchy

// C11: the components of a key below the root.
pub open spec fn below(key: Seq<char>) -> Seq<Comp> { let c = comps(key); if rooted(key) { c.skip(1) } else { c } }
pub proof fn root_comp(p: Seq<char>)
    ensures rooted(p) == (comps(p).len() > 0 && comps(p)[0] == Comp::Root)
{
    if rooted(p) { assert(comps(p)[0] == Comp::Root); }
    else if begins_cur(p) { assert(comps(p)[0] == Comp::Cur); }
    else if comps(p).len() > 0 { assert(comps(p)[0] == named_comps(p)[0]); assert(named_comps(p)[0] == comp_of(names(p)[0])); }
}
pub proof fn unrooted(u: Seq<char>, key: Seq<char>, base: Seq<char>)
    requires comps(u) == below(key)
    ensures !rooted(u), names(u) == names(key), comps(u).len() <= names(key).len() + 1, names(joined_path(base, u)) == names(base) + names(u)
{
    assert(named_comps(key).len() == names(key).len());
    if rooted(key) {
        assert(comps(key)[0] == Comp::Root);
        assert(below(key) =~= named_comps(key));
    } else if begins_cur(key) {
        assert(below(key) =~= seq![Comp::Cur] + named_comps(key));
    } else {
        assert(below(key) =~= named_comps(key));
    }
    assert forall|i: int| 0 <= i < named_comps(key).len() implies named_comps(key)[i] != Comp::Root && named_comps(key)[i] != Comp::Cur by { assert(named_comps(key)[i] == comp_of(names(key)[i])); }
    assert forall|i: int| 0 <= i < named_comps(u).len() implies named_comps(u)[i] != Comp::Root && named_comps(u)[i] != Comp::Cur by { assert(named_comps(u)[i] == comp_of(names(u)[i])); }
    if rooted(u) { assert(comps(u)[0] == Comp::Root); assert(below(key)[0] != Comp::Root); }
    if begins_cur(u) {
        assert(comps(u)[0] == Comp::Cur);
        assert(comps(u).skip(1) =~= named_comps(u));
        assert(below(key).skip(1) =~= named_comps(key));
    } else {
        assert(comps(u) =~= named_comps(u));
        if !rooted(key) && begins_cur(key) { assert(below(key)[0] == Comp::Cur); if comps(u).len() > 0 { assert(comps(u)[0] == named_comps(u)[0]); } }
    }
    comps_names(u, key);
    names_joined(base, u);
}
pub proof fn below_key(key: Seq<char>)
    ensures
        forall|i: int| 0 <= i < below(key).len() ==> #[trigger] below(key)[i] != Comp::Root,
        forall|p: Seq<char>| #![trigger comps(p)] rooted(p) == (comps(p).len() > 0 && comps(p)[0] == Comp::Root),
{
    assert forall|p: Seq<char>| #![trigger comps(p)] rooted(p) == (comps(p).len() > 0 && comps(p)[0] == Comp::Root) by { root_comp(p); }
    assert forall|i: int| 0 <= i < named_comps(key).len() implies #[trigger] named_comps(key)[i] != Comp::Root by { assert(named_comps(key)[i] == comp_of(names(key)[i])); }
    assert forall|i: int| 0 <= i < below(key).len() implies #[trigger] below(key)[i] != Comp::Root by {
        if rooted(key) { assert(below(key)[i] == named_comps(key)[i]); }
        else if begins_cur(key) { if i > 0 { assert(below(key)[i] == named_comps(key)[i - 1]); } else { assert(below(key)[0] == Comp::Cur); } }
        else { assert(below(key)[i] == named_comps(key)[i]); }
    }
}
// The same for a beginning of the components.
#[verifier::opaque]
pub open spec fn inside_to(c: Seq<Comp>, n: int) -> bool { forall|k: int| 0 <= k <= n ==> depth(#[trigger] c.take(k)) >= 0 }
pub open spec fn inward(c: Comp) -> int { match c { Comp::Normal(_) => 1, Comp::Parent => -1, _ => 0 } }
pub proof fn inside_step(c: Seq<Comp>, n: int)
    requires 0 <= n < c.len(), inside_to(c, n)
    ensures depth(c.take(n + 1)) == depth(c.take(n)) + inward(c[n]), if depth(c.take(n + 1)) >= 0 { inside_to(c, n + 1) } else { !inside(c) }
{
    reveal(inside_to);
    assert(c.take(n + 1).drop_last() =~= c.take(n));
    assert(c.take(n + 1).last() == c[n]);
}
pub proof fn inside_ends(c: Seq<Comp>)
    ensures inside_to(c, 0), inside_to(c, c.len() as int) ==> inside(c), depth(c.take(0)) == 0
{ reveal(inside_to); }
impl FilesystemHierarchy {
// A path that begins with the base's names and then never leads above them.
pub open spec fn contains(self, p: Seq<char>) -> bool {
    exists|u: Seq<char>| !rooted(u) && p == #[trigger] joined_path(self.base_path@, u) && inside(comps(u)) && names(p) == names(self.base_path@) + names(u)
}
@@fn src/store/filesystem.rs FilesystemHierarchy::get_path for C11
sig pub fn get_path(&self, key: &str) -> (r: Result<VxPath, Error>)
spec
    requires names(key@).len() + 2 < i32::MAX
    ensures match r {
        Ok(p) => inside(below(key@)) && self.contains(p@) && names(p@) == names(self.base_path@) + names(key@),
        Err(e) => !inside(below(key@)) && e.kind_of() == ErrorKind::NotFound,
    }
start
    hide(names); hide(rindex); hide(depth); hide(named_comps); hide(begins_cur); hide(inside); hide(comps);
    proof { below_key(key@); }
loop 0
        components@ == comps(key@) || (rooted(key@) && components@ == comps(key@).skip(1)),
loop 0 decreases
        components@.len(),
after let unrooted_path
    proof { root_comp(unrooted_path@); root_comp(key@); unrooted(unrooted_path@, key@, self.base_path@); inside_ends(below(key@)); }
loop 1
        nest == depth(below(key@).take(vi1 as int)), 0 <= nest <= vi1, inside_to(below(key@), vi1 as int),
        $s0@ == below(key@), comps(unrooted_path@) == below(key@), below(key@).len() < i32::MAX,
loop 1 start
    proof { inside_step(below(key@), vj1 as int); }
@@end
}
}
