@@include keys.vrs
@@include store.vrs
@@include version.vrs
@@path serde_json::to_value vx_to_value
@@method to_owned fn:vx_owned
@@path std::io::ErrorKind::NotFound ErrorKind::NotFound
verus! {
@@const src/storage.rs ATTRIBUTES_NAME
@@struct src/lib.rs GroupMetadata
pub uninterp spec fn group_print(m: GroupMetadata) -> Seq<u8>;
impl ExtensionMetadata {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ExtensionMetadata) ensures r == *self { unimplemented!() }
}
pub open spec fn empty_group(b: Seq<u8>) -> bool { exists|g: GroupMetadata| g.extensions@.len() == 0 && g.attributes@ == Map::<Seq<char>, Value>::empty() && b == #[trigger] group_print(g) }
impl VxPrint for GroupMetadata { open spec fn printed(&self) -> Seq<u8> { group_print(*self) } }
impl GroupMetadata {
@@fn src/lib.rs impl Default for GroupMetadata::default as GroupMetadata::default for C12
sig pub fn default() -> (r: GroupMetadata)
spec
    ensures r.extensions@.len() == 0, r.attributes@ == Map::<Seq<char>, Value>::empty()
@@end
}
pub open spec fn demands(m: ArrayMetadata) -> bool { exists|i: int| 0 <= i < m.extensions@.len() && (#[trigger] m.extensions@[i]).must_understand }
pub proof fn stem_name(k: Seq<char>, d: int)
    requires unslashed(k) == k, no_slash(file_name(k)), d == rindex(file_name(k), '.'), d > 0
    ensures file_name(stem_path(k)) == file_name(k).take(d)
{
    hide(rindex); hide(trim_end);
    let f = file_name(k);
    rindex_bound(f, '.');
    rindex_bound(k, '/');
    let r = rindex(k, '/');
    assert(f == k.skip(r + 1));
    let s = stem_path(k);
    assert(s == k.take(r + 1 + d));
    assert forall|i: int| r < i < s.len() implies s[i] != '/' by { assert(s[i] == f[i - r - 1]); }
    trim_end_same(s, '/');
    rindex_bound(s, '/');
    if r >= 0 { assert(s[r] == '/'); rindex_is(s, '/', r); }
    assert(rindex(s, '/') == r);
    assert(file_name(s) =~= f.take(d));
}
pub proof fn stem_named(m: EntryPointMetadata, p: Seq<char>)
    requires plain(p), no_slash(m.metadata_key_suffix@)
    ensures named(meta_key(m, p, false)), named(stem_path(meta_key(m, p, false)))
{
    hide(rindex); hide(trim_end); hide(trim_start); hide(stem_path); hide(file_name); hide(with_extension); hide(joined_path); hide(plain);
    root_names();
    joined_node(meta_root(), p, seq![]);
    let j = joined_path(meta_root(), canon(p));
    appended(j, kind_ext(false));
    let q = unslashed(j) + seq!['.'] + kind_ext(false);
    appended(q, suffix_of(m));
    let k = q + seq!['.'] + suffix_of(m);
    assert(k == meta_key(m, p, false));
    let f = file_name(k);
    assert(f == file_name(j) + seq!['.'] + kind_ext(false) + seq!['.'] + suffix_of(m));
    let l = file_name(j).len() as int;
    assert(f[l + 6] == '.');
    rindex_bound(f, '.');
    let d = rindex(f, '.');
    assert(d >= l + 6);
    appended(k, seq![]);
    stem_name(k, d);
    assert(f.take(d).len() > 2);
}
@@fn src/storage.rs merge_top_level for C13
sig pub fn merge_top_level(a: &mut Value, b: JsonObject)
spec
    ensures *final(a) matches Value::Object(o) && o@ == (match *old(a) { Value::Object(p) => p@.union_prefer_right(b@), _ => b@ })
start
    let ghost va = *a;
    proof { entries_are(b, Map::empty()); }
loop 0
        va matches Value::Object(p) && a@ == with_entries(p@, entries($s0).take(vi0 as int)), $s0@.len() == entries($s0).len(), $s0 == b,
loop 0 start
    proof { let e = entries($s0); assert(e.take(vj0 + 1).drop_last() =~= e.take(vj0 as int)); }
loop 0 after
    proof { assert(entries($s0).take(vi0 as int) =~= entries($s0)); entries_are(b, va->Object_0@); }
@@end
// The attributes of a document, merged with others.
pub open spec fn attr_key() -> Seq<char> { seq!['a', 't', 't', 'r', 'i', 'b', 'u', 't', 'e', 's'] }
pub open spec fn merges(d: Map<Seq<char>, Value>, a: JsonObject, e: Map<Seq<char>, Value>) -> bool {
    e.contains_key(attr_key()) && e == d.insert(attr_key(), e[attr_key()])
        && (e[attr_key()] matches Value::Object(o) && o@ == (if d.contains_key(attr_key()) { match d[attr_key()] { Value::Object(p) => p@.union_prefer_right(a@), _ => a@ } } else { a@ }))
}
pub proof fn merges_one(d: Map<Seq<char>, Value>, a: JsonObject, e: Map<Seq<char>, Value>, f: Map<Seq<char>, Value>)
    requires merges(d, a, e), merges(d, a, f)
    ensures e == f
{ extensional(e[attr_key()]->Object_0, f[attr_key()]->Object_0); }
pub open spec fn attrs_of(v: Value) -> Option<Value> { match v { Value::Object(o) => if o@.contains_key(attr_key()) { Some(o@[attr_key()]) } else { None }, _ => None } }
pub open spec fn slashed(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '/' { s } else { s.push('/') } }
pub proof fn slashed_node(root: Seq<char>, p: Seq<char>)
    requires root.len() > 0, root.last() != '/'
    ensures slashed(root + seq!['/'] + canon(p)) == node(root, p).push('/'), joined_path(root, canon(p)) == root + seq!['/'] + canon(p)
{
    canon_ends(p);
    let j = root + seq!['/'] + canon(p);
    if canon(p).len() == 0 { assert(j =~= root.push('/')); } else { assert(j.last() == canon(p).last()); }
}
// What serde_json makes of a value, if it can.
pub trait VxSerialize { spec fn json(&self) -> Option<Value>; }
#[verifier::external_body]
pub fn vx_to_value<T: VxSerialize>(t: T) -> (r: Result<Value, Error>) ensures match r { Ok(v) => t.json() == Some(v), Err(_) => t.json() is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_object(v: Vec<(VxString, Value)>) -> (r: JsonObject) ensures r@ == with_entries(Map::empty(), v@) { unimplemented!() }
impl VxStore {
    pub open spec fn ready(self, p: Seq<char>) -> bool { plain(p) && no_slash(self.entry_point_metadata.metadata_key_suffix@) }
    pub open spec fn akey(self, p: Seq<char>) -> Seq<char> { meta_key(self.entry_point_metadata, p, true) }
    // The keys that belong to a node or to what is below it.
    pub open spec fn of_subtree(self, p: Seq<char>, k: Seq<char>) -> bool {
        k == self.akey(p) || k == self.gkey(p) || starts(k, node(meta_root(), p).push('/')) || starts(k, node(data_root(), p).push('/'))
    }
    // The metadata document of a node.
    pub open spec fn doc(self, w: VxWorld, p: Seq<char>) -> Option<Seq<char>> { if w.has(self.akey(p)) { Some(self.akey(p)) } else if w.has(self.gkey(p)) { Some(self.gkey(p)) } else { None } }
    pub open spec fn gkey(self, p: Seq<char>) -> Seq<char> { meta_key(self.entry_point_metadata, p, false) }
@@fn src/storage.rs impl HierarchyWriter for S::create_array as VxStore::create_array for C12,C18,C20
sig pub fn create_array(&self, path_name: &str, array_meta: &ArrayMetadata, vx_w: &mut VxWorld) -> (r: Result<(), Error>)
spec
    requires self.ready(path_name@)
    ensures
        // C20: there is no state between the old one and the new.
        final(vx_w).changes() <= old(vx_w).changes() + 1,
        final(vx_w).same_but(*old(vx_w), self.akey(path_name@)),
        match r {
            Ok(_) => final(vx_w).faulted() == old(vx_w).faulted() && !old(vx_w).has(self.akey(path_name@)) && !old(vx_w).has(self.gkey(path_name@))
                && final(vx_w).put(*old(vx_w), self.akey(path_name@), Some(array_print(*array_meta))),
            Err(e) => final(vx_w).faulted() || (e.kind_of() == ErrorKind::AlreadyExists && final(vx_w).same(*old(vx_w)) && (old(vx_w).has(self.akey(path_name@)) || old(vx_w).has(self.gkey(path_name@)))),
        },
        old(vx_w).has(self.akey(path_name@)) || old(vx_w).has(self.gkey(path_name@)) ==> final(vx_w).same(*old(vx_w)),
closure 0
    fn $name(writer: &mut VxWriter, array_meta: &ArrayMetadata) -> (r: Result<(), Error>)
    ensures final(writer).key() == old(writer).key(), r is Err ==> final(writer).failed(),
        r is Ok ==> final(writer).flushed() && final(writer).failed() == old(writer).failed() && final(writer).written() == old(writer).written() + array_print(*array_meta)
@@end
@@fn src/storage.rs impl HierarchyWriter for S::create_group as VxStore::create_group for C12,C18,C20
sig pub fn create_group(&self, path_name: &str, vx_w: &mut VxWorld) -> (r: Result<(), Error>)
spec
    requires self.ready(path_name@)
    ensures
        final(vx_w).changes() <= old(vx_w).changes() + 1,
        final(vx_w).same_but(*old(vx_w), self.gkey(path_name@)),
        match r {
            Ok(_) => final(vx_w).faulted() == old(vx_w).faulted() && !old(vx_w).has(self.akey(path_name@))
                && (if old(vx_w).has(self.gkey(path_name@)) { final(vx_w).same(*old(vx_w)) } else {
                    (final(vx_w).at(self.gkey(path_name@)) matches Some(b) && empty_group(b) && final(vx_w).put(*old(vx_w), self.gkey(path_name@), Some(b))) }),
            Err(e) => final(vx_w).faulted() || (e.kind_of() == ErrorKind::AlreadyExists && old(vx_w).has(self.akey(path_name@))),
        },
        old(vx_w).has(self.akey(path_name@)) || old(vx_w).has(self.gkey(path_name@)) ==> final(vx_w).same(*old(vx_w)),
closure 0
    fn $name(writer: &mut VxWriter) -> (r: Result<(), Error>)
    ensures final(writer).key() == old(writer).key(), r is Err ==> final(writer).failed(),
        r is Ok ==> final(writer).flushed() && final(writer).failed() == old(writer).failed() && (old(writer).written().len() == 0 ==> empty_group(final(writer).written()))

@@end
    // The key of an implicit group, where a store may keep a document for it.
    pub open spec fn implicit(self, p: Seq<char>) -> Seq<char> { stem_path(stem_path(self.gkey(p))) }
@@fn src/storage.rs impl HierarchyReader for S::exists as VxStore::node_exists for C12,C14,C18
sig pub fn node_exists(&self, path_name: &str, vx_w: &mut VxWorld) -> (r: Result<bool, Error>)
spec
    requires self.ready(path_name@)
    ensures final(vx_w).untouched(*old(vx_w)), match r {
        Ok(b) => final(vx_w).faulted() == old(vx_w).faulted() && (b == (old(vx_w).has(self.akey(path_name@)) || old(vx_w).has(self.gkey(path_name@)) || old(vx_w).has(self.implicit(path_name@)))),
        Err(_) => final(vx_w).faulted(),
    }
hint
    strings
start
    proof { stem_named(self.entry_point_metadata, path_name@); }
@@end
@@fn src/storage.rs impl HierarchyReader for S::get_array_metadata as VxStore::get_array_metadata for C16,C18
sig pub fn get_array_metadata(&self, path_name: &str, vx_w: &mut VxWorld) -> (r: Result<ArrayMetadata, Error>)
spec
    requires self.ready(path_name@)
    ensures final(vx_w).untouched(*old(vx_w)), match r {
        Ok(m) => final(vx_w).faulted() == old(vx_w).faulted() && old(vx_w).has(self.akey(path_name@)) && array_parse(old(vx_w).at(self.akey(path_name@))->Some_0) == Some(m)
            && !demands(m),
        Err(e) => final(vx_w).faulted() || if !old(vx_w).has(self.akey(path_name@)) { e.kind_of() == ErrorKind::NotFound } else {
            e.kind_of() != ErrorKind::NotFound && (array_parse(old(vx_w).at(self.akey(path_name@))->Some_0) matches Some(m) ==> demands(m)) },
    }
loop 0
        va0 is None ==> forall|i: int| 0 <= i < vi0 ==> !(#[trigger] metadata.extensions@[i]).must_understand,
        va0 is Some ==> demands(metadata),
@@end
@@fn src/storage.rs impl HierarchyReader for S::get_version as VxStore::get_version for C16
sig pub fn get_version(&self) -> (r: Result<VersionReq, Error>)
spec
    ensures match r {
        Ok(v) => last_segment(self.entry_point_metadata.zarr_format@).len() > 0 && version_parse(last_segment(self.entry_point_metadata.zarr_format@)) == Some(v),
        Err(_) => last_segment(self.entry_point_metadata.zarr_format@).len() == 0 || version_parse(last_segment(self.entry_point_metadata.zarr_format@)) is None,
    }
@@end
@@fn src/storage.rs impl HierarchyReader for S::get_chunk_uri as VxStore::get_chunk_uri for C10
sig pub fn get_chunk_uri(&self, path_name: &str, array_meta: &ArrayMetadata, grid_position: &[u64], vx_w: &mut VxWorld) -> (r: Result<VxBuf, Error>)
spec
    ensures r matches Ok(u) ==> u@ == self.uri_of(chunk_key(path_name@, array_meta.chunk_grid.separator@, grid_position@))
@@end
@@fn src/storage.rs impl HierarchyWriter for S::delete_chunk as VxStore::delete_chunk for C14,C18
sig pub fn delete_chunk(&self, path_name: &str, array_meta: &ArrayMetadata, grid_position: &[u64], vx_w: &mut VxWorld) -> (r: Result<bool, Error>)
spec
    ensures ({ let k = chunk_key(path_name@, array_meta.chunk_grid.separator@, grid_position@);
        final(vx_w).same_but(*old(vx_w), k) && match r {
            Ok(b) => final(vx_w).faulted() == old(vx_w).faulted() && final(vx_w).put(*old(vx_w), k, None) && b == !final(vx_w).has(k),
            Err(_) => final(vx_w).faulted(),
        } })
@@end
@@fn src/storage.rs impl HierarchyWriter for S::set_attributes as VxStore::set_attributes for C13,C18,C20
sig pub fn set_attributes(&self, path_name: &str, attributes: JsonObject, vx_w: &mut VxWorld) -> (r: Result<(), Error>)
spec
    requires self.ready(path_name@)
    ensures
        final(vx_w).changes() <= old(vx_w).changes() + 1,
        self.doc(*old(vx_w), path_name@) matches Some(k) ==> final(vx_w).same_but(*old(vx_w), k),
        self.doc(*old(vx_w), path_name@) is None ==> final(vx_w).same(*old(vx_w)),
        match r {
            Ok(_) => final(vx_w).faulted() == old(vx_w).faulted() && self.doc(*old(vx_w), path_name@) is Some
                && ({ let k = self.doc(*old(vx_w), path_name@)->Some_0; match json_parse(old(vx_w).at(k)->Some_0) {
                    Some(Value::Object(d)) => final(vx_w).has(k) && (json_parse(final(vx_w).at(k)->Some_0) matches Some(Value::Object(e)) && merges(d@, attributes, e@))
                        && (merges(d@, attributes, d@) ==> final(vx_w).same(*old(vx_w))),
                    _ => false,
                } }),
            Err(e) => final(vx_w).faulted() || (final(vx_w).same(*old(vx_w)) && match self.doc(*old(vx_w), path_name@) { None => e.kind_of() == ErrorKind::NotFound, Some(k) => !(json_parse(old(vx_w).at(k)->Some_0) matches Some(Value::Object(_))) }),
        },
hint
    strings
start
    let ghost va = attributes;
    proof { reveal_strlit("attributes"); assert("attributes"@ =~= attr_key()); }
end
    proof {
        json_round(Value::Object(merged));
        assert(merges(existing@, va, merged@)) by { assert(merged@ =~= existing@.insert(attr_key(), merged@[attr_key()])); }
        if merges(existing@, va, existing@) { merges_one(existing@, va, existing@, merged@); }
    }
closure 0 merged
    fn $name(writer: &mut VxWriter, merged: &JsonObject) -> (r: Result<(), Error>)
    ensures final(writer).key() == old(writer).key(), r is Err ==> final(writer).failed(),
        r is Ok ==> final(writer).flushed() && final(writer).failed() == old(writer).failed() && final(writer).written() == old(writer).written() + json_print(Value::Object(*merged))
@@end
@@fn src/storage.rs impl HierarchyReader for S::list_attributes as VxStore::list_attributes for C13,C18
sig pub fn list_attributes(&self, path_name: &str, vx_w: &mut VxWorld) -> (r: Result<JsonObject, Error>)
spec
    requires self.ready(path_name@)
    ensures final(vx_w).untouched(*old(vx_w)), match r {
        Ok(a) => final(vx_w).faulted() == old(vx_w).faulted() && self.doc(*old(vx_w), path_name@) is Some && json_parse(old(vx_w).at(self.doc(*old(vx_w), path_name@)->Some_0)->Some_0) is Some
            && (match attrs_of(json_parse(old(vx_w).at(self.doc(*old(vx_w), path_name@)->Some_0)->Some_0)->Some_0) { None => a@ == Map::<Seq<char>, Value>::empty(), Some(Value::Object(o)) => a@ == o@, _ => false }),
        Err(e) => final(vx_w).faulted() || match self.doc(*old(vx_w), path_name@) {
            None => e.kind_of() == ErrorKind::NotFound,
            Some(k) => match json_parse(old(vx_w).at(k)->Some_0) { Some(v) => attrs_of(v) is Some && !(attrs_of(v)->Some_0 is Object), None => true },
        },
    }
start
    proof { reveal_strlit("attributes"); assert("attributes"@ =~= attr_key()); }
@@end
    // A document was removed between two steps, or a fault pretends so: then it counts as missing.
@@method exists node_exists
@@world get_array_metadata
@@fn src/lib.rs trait HierarchyReader::array_exists as VxStore::array_exists for C12,C14,C18
sig pub fn array_exists(&self, path_name: &str, vx_w: &mut VxWorld) -> (r: Result<bool, Error>)
spec
    requires self.ready(path_name@)
    ensures final(vx_w).untouched(*old(vx_w)), match r {
        Ok(true) => final(vx_w).faulted() == old(vx_w).faulted() && old(vx_w).has(self.akey(path_name@)),
        Ok(false) => final(vx_w).faulted() || !old(vx_w).has(self.akey(path_name@)),
        Err(_) => final(vx_w).faulted() || old(vx_w).has(self.akey(path_name@)),
    }
@@end
@@method exists exists
@@fn src/storage.rs impl HierarchyWriter for S::remove as VxStore::remove for C14,C18
sig pub fn remove(&self, path_name: &str, vx_w: &mut VxWorld) -> (r: Result<(), Error>)
spec
    requires self.ready(path_name@)
    ensures
        forall|k: Seq<char>| !self.of_subtree(path_name@, k) ==> #[trigger] final(vx_w).at(k) == old(vx_w).at(k),
        match r {
            Ok(_) => final(vx_w).faulted() == old(vx_w).faulted() && forall|k: Seq<char>| self.of_subtree(path_name@, k) ==> (#[trigger] final(vx_w).at(k)) is None,
            Err(_) => final(vx_w).faulted(),
        }
start
    proof { root_names(); slashed_node(meta_root(), path_name@); slashed_node(data_root(), path_name@); reveal_strlit("/meta/root"); assert("/meta/root"@ =~= meta_root()); reveal_strlit("/data/root"); assert("/data/root"@ =~= data_root()); canon_ends(path_name@); }
loop 0
        $s0@.len() == 2, slashed($s0@[0]@) == node(meta_root(), path_name@).push('/'), slashed($s0@[1]@) == node(data_root(), path_name@).push('/'),
        vx_w.faulted() == old(vx_w).faulted(),
        forall|k: Seq<char>| !self.of_subtree(path_name@, k) ==> #[trigger] vx_w.at(k) == old(vx_w).at(k),
        !vx_w.has(self.akey(path_name@)), !vx_w.has(self.gkey(path_name@)),
        vi0 >= 1 ==> forall|k: Seq<char>| (#[trigger] vx_w.at(k)) is Some ==> !starts(k, node(meta_root(), path_name@).push('/')),
        vi0 >= 2 ==> forall|k: Seq<char>| (#[trigger] vx_w.at(k)) is Some ==> !starts(k, node(data_root(), path_name@).push('/')),
@@end
@@world set_attributes remove
@@sink collect vx_object
@@fn src/lib.rs trait HierarchyWriter::set_attribute as VxStore::set_attribute for C13,C20
sig pub fn set_attribute<T: VxSerialize>(&self, path_name: &str, key: VxString, attribute: T, vx_w: &mut VxWorld) -> (r: Result<(), Error>)
spec
    requires self.ready(path_name@)
    ensures
        final(vx_w).changes() <= old(vx_w).changes() + 1,
        self.doc(*old(vx_w), path_name@) matches Some(k) ==> final(vx_w).same_but(*old(vx_w), k),
        self.doc(*old(vx_w), path_name@) is None ==> final(vx_w).same(*old(vx_w)),
        r is Ok ==> attribute.json() is Some && final(vx_w).faulted() == old(vx_w).faulted() && self.doc(*old(vx_w), path_name@) is Some
            && ({ let k = self.doc(*old(vx_w), path_name@)->Some_0; match (json_parse(old(vx_w).at(k)->Some_0), json_parse(final(vx_w).at(k)->Some_0)) {
                (Some(Value::Object(d)), Some(Value::Object(e))) => exists|a: JsonObject| a@ == Map::<Seq<char>, Value>::empty().insert(key@, attribute.json()->Some_0) && #[trigger] merges(d@, a, e@),
                _ => false } })
loop 0
        vi0 == 0 ==> va0@.len() == 0, vi0 == 1 ==> va0@.len() == 1 && va0@[0] == $s0@[0], $s0@.len() == 1, $s0@[0].0@ == key@, attribute.json() == Some($s0@[0].1),
loop 0 after
    proof { assert(va0@.drop_last() =~= seq![]); reveal_with_fuel(with_entries, 2); assert(with_entries(Map::empty(), va0@) =~= Map::<Seq<char>, Value>::empty().insert(key@, attribute.json()->Some_0)); }
@@end
@@sink collect
@@fn src/lib.rs trait HierarchyWriter::remove_all as VxStore::remove_all for C14,C18
sig pub fn remove_all(&self, vx_w: &mut VxWorld) -> (r: Result<(), Error>)
spec
    requires no_slash(self.entry_point_metadata.metadata_key_suffix@)
    ensures
        forall|k: Seq<char>| !self.of_subtree(seq![], k) ==> #[trigger] final(vx_w).at(k) == old(vx_w).at(k),
        match r {
            Ok(_) => final(vx_w).faulted() == old(vx_w).faulted() && forall|k: Seq<char>| self.of_subtree(seq![], k) ==> (#[trigger] final(vx_w).at(k)) is None,
            Err(_) => final(vx_w).faulted(),
        }
hint
    strings
start
    proof { reveal_strlit(""); assert(""@ =~= seq![]); }
@@end
}
}
verus! {
// C14: what a subtree holds.
pub open spec fn at_or_below(q: Seq<char>, p: Seq<char>) -> bool { canon(q) == canon(p) || canon(p).len() == 0 || starts(canon(q), canon(p).push('/')) }
pub proof fn below_key(root: Seq<char>, p: Seq<char>, q: Seq<char>, t: Seq<char>)
    requires at_or_below(q, p), canon(q) != canon(p)
    ensures starts(node(root, q) + t, node(root, p).push('/'))
{
    let k = node(root, q) + t;
    let x = node(root, p).push('/');
    if canon(p).len() == 0 {
        if canon(q).len() == 0 { assert(canon(q) =~= canon(p)); }
        assert(k.take(x.len() as int) =~= x);
    }
    else {
        let c = canon(p).push('/');
        assert forall|i: int| 0 <= i < x.len() implies k[i] == x[i] by {
            if i > root.len() { assert(k[i] == canon(q)[i - root.len() - 1]); assert(canon(q).take(c.len() as int)[i - root.len() - 1] == c[i - root.len() - 1]); }
        }
        assert(k.take(x.len() as int) =~= x);
    }
}
// Everything of the nodes at or below p is in its subtree.
pub proof fn subtree_has_all(s: VxStore, p: Seq<char>, q: Seq<char>, a: bool, sep: Seq<char>, g: Seq<u64>)
    requires at_or_below(q, p)
    ensures s.of_subtree(p, meta_key(s.entry_point_metadata, q, a)), s.of_subtree(p, chunk_key(q, sep, g))
{
    let m = s.entry_point_metadata;
    let (u, v) = (seq!['.'] + kind_ext(a) + seq!['.'] + suffix_of(m), seq!['/', 'c'] + coords(g, sep));
    assert(meta_key(m, q, a) =~= node(meta_root(), q) + u);
    assert(chunk_key(q, sep, g) =~= node(data_root(), q) + v);
    if canon(q) != canon(p) { below_key(meta_root(), p, q, u); below_key(data_root(), p, q, v); }
    else {
        let x = node(data_root(), p).push('/');
        assert(chunk_key(q, sep, g).take(x.len() as int) =~= x);
    }
}
pub proof fn above_key(root: Seq<char>, p: Seq<char>, q: Seq<char>, t: Seq<char>)
    requires !at_or_below(q, p), root.len() > 0, starts(node(root, q) + t, node(root, p).push('/'))
    ensures canon(q).len() < canon(p).len(), t.len() > 0, canon(q).len() > 0 ==> starts(canon(p), canon(q)), exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == '/',
        starts(t, node(root, p).push('/').skip(node(root, q).len() as int)), node(root, p).len() >= node(root, q).len()
{
    let k = node(root, q) + t;
    let x = node(root, p).push('/');
    let c = canon(p).push('/');
    assert(x =~= root + seq!['/'] + c);
    assert(x[x.len() - 1] == '/' && k[x.len() - 1] == k.take(x.len() as int)[x.len() - 1]);
    if node(root, q).len() >= x.len() {
        assert(canon(q).len() > 0);
        assert forall|i: int| 0 <= i < c.len() implies canon(q)[i] == c[i] by { assert(k[root.len() + 1 + i] == k.take(x.len() as int)[root.len() + 1 + i]); assert(x[root.len() + 1 + i] == c[i]); }
        assert(canon(q).take(c.len() as int) =~= c);
        assert(false);
    }
    assert(t[x.len() - 1 - node(root, q).len()] == '/');
    if canon(q).len() > 0 {
        assert forall|i: int| 0 <= i < canon(q).len() implies canon(q)[i] == canon(p)[i] by { assert(k[root.len() + 1 + i] == k.take(x.len() as int)[root.len() + 1 + i]); assert(x[root.len() + 1 + i] == c[i]); }
        if canon(q).len() == canon(p).len() { assert(canon(q) =~= canon(p)); }
        assert(canon(p).take(canon(q).len() as int) =~= canon(q));
    }
    let y = x.skip(node(root, q).len() as int);
    assert forall|i: int| 0 <= i < y.len() implies t[i] == y[i] by { assert(k[node(root, q).len() + i] == k.take(x.len() as int)[node(root, q).len() + i]); }
    assert(t.take(y.len() as int) =~= y);
}
// No metadata of another node is in the subtree, nor any chunk, unless the removed node lies below an array.
pub proof fn subtree_has_only(s: VxStore, p: Seq<char>, q: Seq<char>, a: bool, sep: Seq<char>, g: Seq<u64>)
    requires !at_or_below(q, p), no_slash(s.entry_point_metadata.metadata_key_suffix@)
    ensures !s.of_subtree(p, meta_key(s.entry_point_metadata, q, a)), !at_or_below(p, q) ==> !s.of_subtree(p, chunk_key(q, sep, g))
{
    let m = s.entry_point_metadata;
    let (u, v) = (seq!['.'] + kind_ext(a) + seq!['.'] + suffix_of(m), seq!['/', 'c'] + coords(g, sep));
    let (k, l) = (meta_key(m, q, a), chunk_key(q, sep, g));
    assert(k =~= node(meta_root(), q) + u);
    assert(l =~= node(data_root(), q) + v);
    if k == s.akey(p) { meta_keys_differ(m, q, p, a, true); }
    if k == s.gkey(p) { meta_keys_differ(m, q, p, a, false); }
    let (x, y) = (node(meta_root(), p).push('/'), node(data_root(), p).push('/'));
    assert(k[1] == node(meta_root(), q)[1]); assert(l[1] == node(data_root(), q)[1]);
    assert(x[1] == node(meta_root(), p)[1]); assert(y[1] == node(data_root(), p)[1]);
    if starts(k, y) { assert(k.take(y.len() as int)[1] == k[1]); assert(false); }
    if starts(l, x) { assert(l.take(x.len() as int)[1] == l[1]); assert(false); }
    if starts(k, x) {
        above_key(meta_root(), p, q, u);
        assert forall|i: int| 0 <= i < u.len() implies u[i] != '/' by {
            let d = suffix_of(m);
            if i > 6 { assert(u[i] == d[i - 7]); let z = m.metadata_key_suffix@; if z.len() > 0 && z[0] == '.' { assert(d[i - 7] == z[i - 6]); } else { assert(d[i - 7] == z[i - 7]); } }
            else if 1 <= i < 6 { assert(u[i] == kind_ext(a)[i - 1]); }
        }
        assert(false);
    }
    meta_and_chunk_keys_differ(m, p, true, q, sep, g);
    meta_and_chunk_keys_differ(m, p, false, q, sep, g);
    if starts(l, y) && !at_or_below(p, q) {
        above_key(data_root(), p, q, v);
        // p's path goes on with what follows q's.
        if canon(q).len() > 0 {
            let c = canon(q).push('/');
            let z = y.skip(node(data_root(), q).len() as int);
            assert(v.take(z.len() as int)[0] == v[0]);
            assert(z[0] == '/');
            assert(y[(data_root().len() + 1 + canon(q).len()) as int] == '/');
            assert(canon(p)[canon(q).len() as int] == '/');
            assert forall|i: int| 0 <= i < c.len() implies canon(p)[i] == c[i] by { if i < canon(q).len() { assert(canon(p).take(canon(q).len() as int)[i] == canon(p)[i]); } }
            assert(canon(p).take(c.len() as int) =~= c);
        }
    }
}
}
verus! {
// C20: of a beginning of a metadata document, a read makes the metadata that was written or an error.
pub axiom fn torn_array(m: ArrayMetadata, n: int)
    requires 0 <= n < array_print(m).len()
    ensures array_parse(array_print(m).take(n)) is None;
pub axiom fn torn_object(o: JsonObject, n: int)
    requires 0 <= n < json_print(Value::Object(o)).len()
    ensures json_parse(json_print(Value::Object(o)).take(n)) is None;
fn read_torn_metadata(s: &VxStore, path_name: &str, m: Ghost<ArrayMetadata>, n: Ghost<int>, vx_w: &mut VxWorld) -> (r: Result<ArrayMetadata, Error>)
    requires s.ready(path_name@), 0 <= n@ < array_print(m@).len(), old(vx_w).at(s.akey(path_name@)) == Some(array_print(m@).take(n@))
    ensures r is Err
{
    proof { torn_array(m@, n@); }
    s.get_array_metadata(path_name, vx_w)
}
fn read_torn_attributes(s: &VxStore, path_name: &str, o: Ghost<JsonObject>, n: Ghost<int>, vx_w: &mut VxWorld) -> (r: Result<JsonObject, Error>)
    requires s.ready(path_name@), s.doc(*old(vx_w), path_name@) is Some, 0 <= n@ < json_print(Value::Object(o@)).len(), old(vx_w).at(s.doc(*old(vx_w), path_name@)->Some_0) == Some(json_print(Value::Object(o@)).take(n@))
    ensures r is Err
{
    proof { torn_object(o@, n@); }
    s.list_attributes(path_name, vx_w)
}
}
