@@include paths.vrs
@@include meta.vrs
verus! {
@@const src/lib.rs DATA_ROOT_PATH
@@const src/lib.rs META_ROOT_PATH
@@const src/lib.rs ARRAY_METADATA_KEY_EXT
@@const src/lib.rs GROUP_METADATA_KEY_EXT
@@struct src/lib.rs EntryPointMetadata

// A node path without leading and trailing slashes.
pub open spec fn canon(p: Seq<char>) -> Seq<char> { trim_end(trim_start(p, '/'), '/') }
@@fn src/lib.rs canonicalize_path for C10
sig pub fn canonicalize_path(path: &str) -> (r: &str)
spec
    ensures r@ == canon(path@)
@@end

// C10: the key of a chunk.
pub open spec fn coords(g: Seq<u64>, sep: Seq<char>) -> Seq<char> decreases g.len()
{ if g.len() == 0 { seq![] } else if g.len() == 1 { dec(g[0] as nat) } else { coords(g.drop_last(), sep) + sep + dec(g.last() as nat) } }
pub open spec fn data_root() -> Seq<char> { seq!['/', 'd', 'a', 't', 'a', '/', 'r', 'o', 'o', 't'] }
pub open spec fn meta_root() -> Seq<char> { seq!['/', 'm', 'e', 't', 'a', '/', 'r', 'o', 'o', 't'] }
// A root and the node path below it.
pub open spec fn node(root: Seq<char>, p: Seq<char>) -> Seq<char> { if canon(p).len() == 0 { root } else { root + seq!['/'] + canon(p) } }
pub open spec fn chunk_key(p: Seq<char>, sep: Seq<char>, g: Seq<u64>) -> Seq<char> { node(data_root(), p) + seq!['/', 'c'] + coords(g, sep) }

@@fn src/storage.rs get_chunk_key for C10
sig pub fn get_chunk_key(base_path: &str, array_meta: &ArrayMetadata, grid_position: &[u64]) -> (r: VxBuf)
spec
    ensures r@ == chunk_key(base_path@, array_meta.chunk_grid.separator@, grid_position@)
hint
    strings
start
    proof { reveal_strlit("/data/root"); assert("/data/root"@ =~= data_root()); }
loop 0
        chunk_key@ == node(data_root(), base_path@) + seq!['/', 'c'] + coords(grid_position@.take(vi0 as int), array_meta.chunk_grid.separator@) + (if 0 < vi0 < grid_position@.len() { array_meta.chunk_grid.separator@ } else { seq![] }),
loop 0 start
    proof { assert(grid_position@.take(vj0 + 1).drop_last() =~= grid_position@.take(vj0 as int)); assert(grid_position@.take(1)[0] == grid_position@[0]); }
loop 0 end
    proof { assert(chunk_key@ =~= node(data_root(), base_path@) + seq!['/', 'c'] + coords(grid_position@.take(vi0 as int), array_meta.chunk_grid.separator@) + (if 0 < vi0 < grid_position@.len() { array_meta.chunk_grid.separator@ } else { seq![] })); }
loop 0 after
    proof { assert(grid_position@.take(vi0 as int) =~= grid_position@); }
@@end

// Metadata keys.
pub open spec fn suffix_of(m: EntryPointMetadata) -> Seq<char> { let s = m.metadata_key_suffix@; if s.len() > 0 && s[0] == '.' { s.skip(1) } else { s } }
pub open spec fn no_slash(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '/' }
pub open spec fn kind_ext(array: bool) -> Seq<char> { if array { seq!['a', 'r', 'r', 'a', 'y'] } else { seq!['g', 'r', 'o', 'u', 'p'] } }
// `.array` or `.group` and the suffix, after the node path under the metadata root.
pub open spec fn meta_key(m: EntryPointMetadata, p: Seq<char>, array: bool) -> Seq<char> { node(meta_root(), p) + seq!['.'] + kind_ext(array) + seq!['.'] + suffix_of(m) }
pub open spec fn data_path(p: Seq<char>) -> Seq<char> { data_root() + seq!['/'] + canon(p) }
// Paths that end in a name rather than in "." or "..".
pub open spec fn plain(p: Seq<char>) -> bool { canon(p).len() > 0 ==> named(canon(p)) }

pub proof fn file_name_of_join(root: Seq<char>, s: Seq<char>)
    requires s.len() > 0, s.last() != '/'
    ensures unslashed(root + seq!['/'] + s) == root + seq!['/'] + s, file_name(root + seq!['/'] + s) == file_name(s)
{
    let p = root + seq!['/'] + s;
    trim_end_same(p, '/');
    trim_end_same(s, '/');
    rindex_bound(s, '/');
    let r = rindex(s, '/');
    let k = root.len() + 1 + r;
    assert(p[root.len() as int] == '/');
    assert forall|i: int| k < i < p.len() implies p[i] != '/' by { assert(p[i] == s[i - root.len() - 1]); }
    if r >= 0 { assert(p[k] == s[r]); }
    rindex_is(p, '/', k);
    assert(p.skip(k + 1) =~= s.skip(r + 1));
}
pub proof fn canon_ends(p: Seq<char>)
    ensures canon(p).len() > 0 ==> canon(p).last() != '/' && canon(p)[0] != '/'
{
    trim_start_len(p, '/');
    trim_end_len(trim_start(p, '/'), '/');
}
// The shape of a path under a root, with its trailing slash gone.
pub proof fn joined_node(root: Seq<char>, p: Seq<char>, name: Seq<char>)
    requires plain(p), root.len() > 0, root.last() != '/', named(root)
    ensures ({ let j = joined_path(root, canon(p)); named(j) && unslashed(j) == node(root, p) })
{
    canon_ends(p);
    let j = joined_path(root, canon(p));
    if canon(p).len() == 0 {
        assert(j =~= root.push('/'));
        trim_end_push(root, '/');
        trim_end_same(root, '/');
    } else { file_name_of_join(root, canon(p)); }
}
// Appending an extension to the name.
pub proof fn appended(p: Seq<char>, e: Seq<char>)
    requires named(p), no_slash(e)
    ensures ({
        let n = file_name(p);
        let q = unslashed(p) + seq!['.'] + e;
        &&& ext_of(p) matches Some(x) ==> with_extension(p, x + seq!['.'] + e) == q
        &&& ext_of(p) is None && e.len() > 0 ==> with_extension(p, e) == q
        &&& named(q) && unslashed(q) == q && file_name(q) == n + seq!['.'] + e && ext_of(q) is Some
        &&& no_slash(n)
    })
{
    hide(rindex); hide(trim_end);
    let u = unslashed(p);
    let n = file_name(p);
    let q = u + seq!['.'] + e;
    trim_end_len(p, '/');
    rindex_bound(u, '/');
    let r = rindex(u, '/');
    assert(n =~= u.skip(r + 1));
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] != '/' by { assert(n[i] == u[r + 1 + i]); }
    rindex_bound(n, '.');
    let d = rindex(n, '.');
    if ext_of(p) is Some {
        let x = n.skip(d + 1);
        assert(u.take(u.len() - n.len() + d) + seq!['.'] + (x + seq!['.'] + e) =~= q) by {
            assert(u[r + 1 + d] == n[d]);
        }
    }
    // q's own name
    assert(q.len() > 0 && q.last() != '/') by { if e.len() > 0 { assert(q.last() == e.last()); } }
    trim_end_same(q, '/');
    assert forall|i: int| r < i < q.len() implies q[i] != '/' by { if i < u.len() { assert(q[i] == u[i]); } else if i > u.len() { assert(q[i] == e[i - u.len() - 1]); } }
    if r >= 0 { assert(q[r] == u[r]); rindex_is(q, '/', r); } else { rindex_bound(q, '/'); }
    let m = file_name(q);
    assert(m =~= n + seq!['.'] + e);
    assert(m[n.len() as int] == '.');
    rindex_bound(m, '.');
    assert(n != seq!['.'] && n != seq!['.', '.']);
    if m =~= seq!['.', '.'] { assert(n.len() == 1); assert(m[0] == n[0]); assert(n =~= seq!['.']); }
}
pub proof fn root_names()
    ensures named(meta_root()), meta_root().last() != '/', named(data_root()), data_root().last() != '/'
{
    let n = seq!['r', 'o', 'o', 't'];
    assert(n != seq!['.'] && n != seq!['.', '.']) by { assert(n[0] != '.'); assert(seq!['.'][0] == '.'); assert(seq!['.', '.'][0] == '.'); }
    trim_end_same(meta_root(), '/');
    rindex_is(meta_root(), '/', 5);
    assert(meta_root().skip(6) =~= n);
    trim_end_same(data_root(), '/');
    rindex_is(data_root(), '/', 5);
    assert(data_root().skip(6) =~= n);
}

@@fn src/lib.rs add_extension for C10
sig pub fn add_extension(path: &mut VxPath, extension: &str)
spec
    requires named(old(path)@), no_slash(extension@), extension@.len() > 0 || ext_of(old(path)@) is Some
    ensures final(path)@ == unslashed(old(path)@) + seq!['.'] + extension@, named(final(path)@), unslashed(final(path)@) == final(path)@, ext_of(final(path)@) is Some
start
    proof { appended(path@, extension@); reveal_strlit("."); assert("."@ =~= seq!['.']); }
    let ghost vp = path@;
before .set_extension
    proof { match ext_of(vp) { Some(x) => { appended(vp, extension@); rindex_bound(file_name(vp), '.'); } None => {} } }
@@end

pub struct VxStore { pub entry_point_metadata: EntryPointMetadata }
impl VxStore {
@@fn src/store/filesystem.rs impl Hierarchy for FilesystemHierarchy::get_entry_point_metadata as VxStore::get_entry_point_metadata for C10
sig pub fn get_entry_point_metadata(&self) -> (r: &EntryPointMetadata)
spec
    ensures *r == self.entry_point_metadata
@@end
@@fn src/lib.rs trait Hierarchy::array_metadata_key as VxStore::array_metadata_key for C10
sig pub fn array_metadata_key(&self, path_name: &str) -> (r: VxPath)
spec
    requires plain(path_name@), no_slash(self.entry_point_metadata.metadata_key_suffix@)
    ensures r@ == meta_key(self.entry_point_metadata, path_name@, true)
hint
    strings
start
    proof { root_names(); joined_node(meta_root(), path_name@, seq![]); reveal_strlit("/meta/root"); assert("/meta/root"@ =~= meta_root()); reveal_strlit("array"); assert("array"@ =~= kind_ext(true)); canon_ends(path_name@); }
@@end
@@fn src/lib.rs trait Hierarchy::group_metadata_key as VxStore::group_metadata_key for C10
sig pub fn group_metadata_key(&self, path_name: &str) -> (r: VxPath)
spec
    requires plain(path_name@), no_slash(self.entry_point_metadata.metadata_key_suffix@)
    ensures r@ == meta_key(self.entry_point_metadata, path_name@, false)
hint
    strings
start
    proof { root_names(); joined_node(meta_root(), path_name@, seq![]); reveal_strlit("/meta/root"); assert("/meta/root"@ =~= meta_root()); reveal_strlit("group"); assert("group"@ =~= kind_ext(false)); canon_ends(path_name@); }
@@end
@@fn src/lib.rs trait Hierarchy::data_path_key as VxStore::data_path_key for C10
sig pub fn data_path_key(&self, path_name: &str) -> (r: VxPath)
spec
    ensures r@ == data_path(path_name@)
start
    proof { root_names(); canon_ends(path_name@); reveal_strlit("/data/root"); assert("/data/root"@ =~= data_root()); }
@@end
}
}
verus! {
// C10: different places have different keys.
pub proof fn node_injective(root: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires node(root, p) == node(root, q)
    ensures canon(p) == canon(q)
{
    let (a, b) = (node(root, p), node(root, q));
    assert(a.len() == if canon(p).len() == 0 { root.len() } else { root.len() + 1 + canon(p).len() });
    assert(b.len() == if canon(q).len() == 0 { root.len() } else { root.len() + 1 + canon(q).len() });
    assert(canon(p).len() == canon(q).len());
    if canon(p).len() > 0 {
        assert(canon(p) =~= a.skip((root.len() + 1) as int));
        assert(canon(q) =~= b.skip((root.len() + 1) as int));
    } else { assert(canon(p) =~= canon(q)); }
}
pub open spec fn sep_ok(sep: Seq<char>) -> bool { sep.len() == 1 && (sep[0] == '/' || sep[0] == '.') }
pub proof fn coords_chars(g: Seq<u64>, sep: Seq<char>)
    requires sep_ok(sep)
    ensures forall|i: int| 0 <= i < coords(g, sep).len() ==> (#[trigger] coords(g, sep)[i] == sep[0] || digit_value(coords(g, sep)[i]) is Some)
    decreases g.len()
{
    if g.len() == 1 { dec_ascii(g[0] as nat); }
    else if g.len() > 1 {
        let (a, d) = (coords(g.drop_last(), sep), dec(g.last() as nat));
        coords_chars(g.drop_last(), sep);
        dec_ascii(g.last() as nat);
        assert forall|i: int| 0 <= i < coords(g, sep).len() implies (#[trigger] coords(g, sep)[i] == sep[0] || digit_value(coords(g, sep)[i]) is Some) by {
            if i < a.len() { assert(coords(g, sep)[i] == a[i]); } else if i > a.len() { assert(coords(g, sep)[i] == d[i - a.len() - 1]); }
        }
    }
}
pub proof fn coords_injective(g: Seq<u64>, h: Seq<u64>, sep: Seq<char>)
    requires sep_ok(sep), g.len() == h.len(), coords(g, sep) == coords(h, sep)
    ensures g == h
    decreases g.len()
{
    hide(rindex); hide(undec);
    if g.len() == 1 { dec_undec(g[0] as nat); dec_undec(h[0] as nat); assert(g =~= h); }
    else if g.len() > 1 {
        let c = coords(g, sep);
        let (a, x) = (coords(g.drop_last(), sep), dec(g.last() as nat));
        let (b, y) = (coords(h.drop_last(), sep), dec(h.last() as nat));
        dec_ascii(g.last() as nat);
        dec_ascii(h.last() as nat);
        assert(c[a.len() as int] == sep[0]);
        assert(c[b.len() as int] == sep[0]);
        assert forall|i: int| a.len() < i < c.len() implies c[i] != sep[0] by { assert(c[i] == x[i - a.len() - 1]); }
        assert forall|i: int| b.len() < i < c.len() implies c[i] != sep[0] by { assert(c[i] == y[i - b.len() - 1]); }
        rindex_is(c, sep[0], a.len() as int);
        rindex_is(c, sep[0], b.len() as int);
        assert(a =~= c.take(a.len() as int)); assert(b =~= c.take(a.len() as int));
        assert(x =~= c.skip((a.len() + 1) as int)); assert(y =~= c.skip((a.len() + 1) as int));
        dec_undec(g.last() as nat); dec_undec(h.last() as nat);
        coords_injective(g.drop_last(), h.drop_last(), sep);
        assert(g =~= g.drop_last().push(g.last()));
        assert(h =~= h.drop_last().push(h.last()));
    } else { assert(g =~= h); }
}
// Chunks of different nodes have different keys whatever the ranks and separators; chunks of one node differ too.
pub proof fn chunk_keys_differ(p: Seq<char>, q: Seq<char>, s: Seq<char>, t: Seq<char>, g: Seq<u64>, h: Seq<u64>)
    requires sep_ok(s), sep_ok(t), chunk_key(p, s, g) == chunk_key(q, t, h)
    ensures canon(p) == canon(q), g.len() == h.len() && s == t ==> g == h
{
    let k = chunk_key(p, s, g);
    let (a, x) = (node(data_root(), p), coords(g, s));
    let (b, y) = (node(data_root(), q), coords(h, t));
    coords_chars(g, s);
    coords_chars(h, t);
    assert(k[(a.len() + 1) as int] == 'c');
    assert(k[(b.len() + 1) as int] == 'c');
    assert forall|i: int| a.len() + 1 < i < k.len() implies k[i] != 'c' by { assert(k[i] == x[i - a.len() - 2]); }
    assert forall|i: int| b.len() + 1 < i < k.len() implies k[i] != 'c' by { assert(k[i] == y[i - b.len() - 2]); }
    rindex_is(k, 'c', (a.len() + 1) as int);
    rindex_is(k, 'c', (b.len() + 1) as int);
    assert(a =~= k.take(a.len() as int)); assert(b =~= k.take(a.len() as int));
    node_injective(data_root(), p, q);
    assert(x =~= k.skip((a.len() + 2) as int)); assert(y =~= k.skip((a.len() + 2) as int));
    if g.len() == h.len() && s == t { coords_injective(g, h, s); }
}
pub proof fn meta_keys_differ(m: EntryPointMetadata, p: Seq<char>, q: Seq<char>, a: bool, b: bool)
    requires meta_key(m, p, a) == meta_key(m, q, b)
    ensures canon(p) == canon(q), a == b
{
    let k = meta_key(m, p, a);
    let (x, y) = (node(meta_root(), p), node(meta_root(), q));
    assert(kind_ext(a).len() == 5 && kind_ext(b).len() == 5);
    assert(k.len() == x.len() + 1 + 5 + 1 + suffix_of(m).len());
    assert(meta_key(m, q, b).len() == y.len() + 1 + 5 + 1 + suffix_of(m).len());
    assert(x.len() == y.len());
    assert(x =~= k.take(x.len() as int)); assert(y =~= k.take(x.len() as int));
    node_injective(meta_root(), p, q);
    assert(k[(x.len() + 1) as int] == kind_ext(a)[0]);
    assert(k[(x.len() + 1) as int] == kind_ext(b)[0]);
}
pub proof fn meta_and_chunk_keys_differ(m: EntryPointMetadata, p: Seq<char>, a: bool, q: Seq<char>, s: Seq<char>, g: Seq<u64>)
    ensures meta_key(m, p, a) != chunk_key(q, s, g)
{
    assert(meta_key(m, p, a)[1] == node(meta_root(), p)[1]);
    assert(node(meta_root(), p)[1] == 'm');
    assert(chunk_key(q, s, g)[1] == node(data_root(), q)[1]);
    assert(node(data_root(), q)[1] == 'd');
}
// Leading and trailing slashes do not matter.
pub proof fn trim_start_push(p: Seq<char>, c: char)
    ensures trim_start(p, c).len() == 0 ==> trim_start(p.push(c), c).len() == 0, trim_start(p, c).len() > 0 ==> trim_start(p.push(c), c) == trim_start(p, c).push(c)
    decreases p.len()
{
    let q = p.push(c);
    if p.len() == 0 { assert(q.skip(1).len() == 0); assert(trim_start(q.skip(1), c).len() == 0); }
    else if p[0] == c { assert(q.skip(1) =~= p.skip(1).push(c)); trim_start_push(p.skip(1), c); }
}
pub proof fn canon_slashes(p: Seq<char>)
    ensures canon(p.push('/')) == canon(p), canon(seq!['/'] + p) == canon(p), canon(canon(p)) == canon(p)
{
    trim_start_push(p, '/');
    if trim_start(p, '/').len() == 0 { assert(trim_start(p.push('/'), '/') =~= trim_start(p, '/')); } else { trim_end_push(trim_start(p, '/'), '/'); }
    assert((seq!['/'] + p).skip(1) =~= p);
    canon_ends(p);
}
}
