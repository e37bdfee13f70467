@@include keys.vrs
@@include files.vrs
@@world list_dir vx_list_dir
@@method ends_with vx_tail
@@method len vx_bytes
@@method strip_prefix fn:vx_strip_prefix
@@method trim_end_matches vx_trimmed
@@method sort vx_sort
@@method dedup vx_dedup
@@method truncate vx_truncate
// C15: the nodes below a path, over the file system.
verus! {
// The length of a text in UTF-8.
pub open spec fn width(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
pub open spec fn bytes(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { bytes(s.drop_last()) + width(s.last()) } }
pub proof fn bytes_add(a: Seq<char>, b: Seq<char>)
    ensures bytes(a + b) == bytes(a) + bytes(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); bytes_add(a, b.drop_last()); }
}
pub open spec fn tail(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) == t }
pub open spec fn cut(s: Seq<char>, n: int) -> Seq<char> { s.take(s.len() - n) }
pub trait VxTail { spec fn tail_of(&self, s: Seq<char>) -> bool; }
impl VxTail for char { open spec fn tail_of(&self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == *self } }
impl VxTail for str { open spec fn tail_of(&self, s: Seq<char>) -> bool { tail(s, self@) } }
impl VxTail for VxBuf { open spec fn tail_of(&self, s: Seq<char>) -> bool { tail(s, self@) } }
impl<T: VxTail + ?Sized> VxTail for &T { open spec fn tail_of(&self, s: Seq<char>) -> bool { (*self).tail_of(s) } }
pub trait VxBytes: VxText {
    fn vx_bytes(&self) -> (r: usize) ensures r == bytes(self.text());
}
impl VxBytes for str {
    #[verifier::external_body]
    fn vx_bytes(&self) -> (r: usize) { self.len() }
}
impl VxBytes for VxBuf {
    #[verifier::external_body]
    fn vx_bytes(&self) -> (r: usize) { unimplemented!() }
}
impl VxBuf {
    #[verifier::external_body]
    pub fn vx_tail<P: VxTail>(&self, p: P) -> (r: bool) ensures r == p.tail_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_trimmed(&self, c: char) -> (r: VxBuf) ensures r@ == trim_end(self@, c) { unimplemented!() }
    // `n` must be the length of a beginning of the text, or more than its length.
    #[verifier::external_body]
    pub fn vx_truncate(&mut self, n: usize)
        requires n >= bytes(old(self)@) || exists|m: int| 0 <= m <= old(self)@.len() && bytes(#[trigger] old(self)@.take(m)) == n
        ensures n >= bytes(old(self)@) ==> final(self)@ == old(self)@, forall|m: int| 0 <= m <= old(self)@.len() && bytes(#[trigger] old(self)@.take(m)) == n ==> final(self)@ == old(self)@.take(m)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_drain_to(&mut self, n: usize)
        requires exists|m: int| 0 <= m <= old(self)@.len() && bytes(#[trigger] old(self)@.take(m)) == n
        ensures forall|m: int| 0 <= m <= old(self)@.len() && bytes(#[trigger] old(self)@.take(m)) == n ==> final(self)@ == old(self)@.skip(m)
    { unimplemented!() }
}
// The order of texts.
pub open spec fn text_le(a: Seq<char>, b: Seq<char>) -> bool decreases a.len()
{ a.len() == 0 || (b.len() > 0 && (a[0] as u32 <= b[0] as u32) && (a[0] == b[0] ==> text_le(a.skip(1), b.skip(1)))) }
pub proof fn text_le_one(a: Seq<char>, b: Seq<char>)
    requires text_le(a, b), text_le(b, a)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 { text_le_one(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    else { assert(a =~= b); }
}
pub open spec fn texts(v: Seq<VxBuf>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn sorted(v: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i <= j < v.len() ==> text_le(#[trigger] v[i], #[trigger] v[j]) }
// Without repetitions that are next to each other.
pub open spec fn runs(v: Seq<Seq<char>>) -> Seq<Seq<char>> decreases v.len()
{ if v.len() < 2 { v } else { let r = runs(v.drop_last()); if v[v.len() - 2] == v.last() { r } else { r.push(v.last()) } } }
pub proof fn runs_of(v: Seq<Seq<char>>)
    ensures runs(v).len() <= v.len(), v.len() > 0 ==> runs(v).len() > 0 && runs(v).last() == v.last(), forall|x: Seq<char>| #[trigger] runs(v).contains(x) == v.contains(x)
    decreases v.len()
{
    if v.len() >= 2 {
        let d = v.drop_last();
        let r = runs(d);
        runs_of(d);
        assert forall|x: Seq<char>| #[trigger] runs(v).contains(x) == v.contains(x) by {
            if v.contains(x) {
                let i = choose|i: int| 0 <= i < v.len() && v[i] == x;
                if i < d.len() { assert(d[i] == x); assert(r.contains(x)); let k = choose|k: int| 0 <= k < r.len() && r[k] == x; assert(runs(v)[k] == x); }
                else if v[v.len() - 2] == v.last() { assert(d[v.len() - 2] == x); assert(r.contains(x)); }
                else { assert(runs(v)[r.len() as int] == x); }
            }
            if runs(v).contains(x) {
                let k = choose|k: int| 0 <= k < runs(v).len() && runs(v)[k] == x;
                if k < r.len() { assert(r[k] == x); assert(r.contains(x)); let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(v[i] == x); }
                else { assert(v[v.len() - 1] == x); }
            }
        }
    }
}
pub proof fn runs_differ(v: Seq<Seq<char>>)
    requires sorted(v)
    ensures forall|i: int, j: int| 0 <= i < j < runs(v).len() ==> runs(v)[i] != runs(v)[j]
    decreases v.len()
{
    if v.len() >= 2 {
        let d = v.drop_last();
        let r = runs(d);
        assert(sorted(d)) by { assert forall|i: int, j: int| 0 <= i <= j < d.len() implies text_le(#[trigger] d[i], #[trigger] d[j]) by { assert(text_le(v[i], v[j])); } }
        runs_differ(d);
        runs_of(d);
        assert forall|i: int, j: int| 0 <= i < j < runs(v).len() implies runs(v)[i] != runs(v)[j] by {
            if j < r.len() { assert(r[i] != r[j]); }
            else if r[i] == v.last() {
                assert(r.contains(r[i]));
                let k = choose|k: int| 0 <= k < d.len() && d[k] == v.last();
                assert(text_le(v[k], v[v.len() - 2]));
                assert(text_le(v[v.len() - 2], v[v.len() - 1]));
                text_le_one(v[v.len() - 2], v.last());
            }
        }
    }
}
pub trait VxSort { spec fn inner_texts(&self) -> Seq<Seq<char>>;
    fn vx_sort(&mut self) ensures sorted((*final(self)).inner_texts()), (*final(self)).inner_texts().len() == (*old(self)).inner_texts().len(), forall|x: Seq<char>| #[trigger] (*final(self)).inner_texts().contains(x) == (*old(self)).inner_texts().contains(x);
    fn vx_dedup(&mut self) ensures (*final(self)).inner_texts() == runs((*old(self)).inner_texts());
    fn vx_drain_all(&mut self) -> (r: Vec<VxBuf>) ensures texts(r@) == (*old(self)).inner_texts(), (*final(self)).inner_texts().len() == 0;
}
impl VxSort for Vec<VxBuf> {
    open spec fn inner_texts(&self) -> Seq<Seq<char>> { texts(self@) }
    #[verifier::external_body]
    fn vx_sort(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_dedup(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_drain_all(&mut self) -> (r: Vec<VxBuf>) { unimplemented!() }
}
// Some of the texts: those among the first `n` that `g` holds for.
pub open spec fn among(v: Seq<VxBuf>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] v[j])@ == k }
pub open spec fn sifted(a: Seq<VxBuf>, v: Seq<VxBuf>, n: int, g: spec_fn(Seq<char>) -> bool) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> g((#[trigger] a[i])@) && among(v, n, a[i]@)
    &&& forall|j: int| 0 <= j < n && g((#[trigger] v[j])@) ==> holds(a, v[j]@)
}
pub proof fn sifted_next(a: Seq<VxBuf>, v: Seq<VxBuf>, n: int, g: spec_fn(Seq<char>) -> bool)
    requires sifted(a, v, n, g), 0 <= n < v.len()
    ensures if g(v[n]@) { sifted(a.push(v[n]), v, n + 1, g) } else { sifted(a, v, n + 1, g) }
{
    let b = if g(v[n]@) { a.push(v[n]) } else { a };
    assert forall|i: int| 0 <= i < b.len() implies g((#[trigger] b[i])@) && among(v, n + 1, b[i]@) by {
        if i < a.len() { assert(b[i] == a[i]); assert(among(v, n, a[i]@)); } else { assert(v[n]@ == b[i]@); }
    }
    assert forall|j: int| 0 <= j < n + 1 && g((#[trigger] v[j])@) implies holds(b, v[j]@) by {
        if j < n { assert(holds(a, v[j]@)); let i = choose|i: int| 0 <= i < a.len() && a[i]@ == v[j]@; assert(b[i]@ == v[j]@); }
        else { assert(b[a.len() as int]@ == v[j]@); }
    }
}
// The texts shortened at their ends, up to `n`.
pub open spec fn shortened(a: Seq<VxBuf>, v: Seq<VxBuf>, n: int, by: int) -> bool {
    &&& a.len() == v.len()
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] a[i])@ == if i < n { cut(v[i]@, by) } else { v[i]@ }
}
pub proof fn tail_bytes(s: Seq<char>, t: Seq<char>)
    requires tail(s, t)
    ensures bytes(s) == bytes(s.take(s.len() - t.len())) + bytes(t), s =~= cut(s, t.len() as int) + t
{ assert(s =~= s.take(s.len() - t.len()) + t); bytes_add(s.take(s.len() - t.len()), t); }
pub proof fn begins_bytes(s: Seq<char>, t: Seq<char>)
    requires begins(s, t)
    ensures bytes(s.take(t.len() as int)) == bytes(t)
{}
pub proof fn plain_bytes(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) as u32) < 0x80
    ensures bytes(s) == s.len()
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies ((#[trigger] s.drop_last()[i]) as u32) < 0x80 by { assert(s.drop_last()[i] == s[i]); } plain_bytes(s.drop_last()); } }
// The file of a node's metadata, and the nodes below a place: those with metadata, and the directories.
pub open spec fn ext(a: bool) -> Seq<char> { seq!['.'] + kind_ext(a) }
pub open spec fn dotted(m: EntryPointMetadata) -> Seq<char> { seq!['.'] + suffix_of(m) }
pub open spec fn node_file(m: EntryPointMetadata, n: Seq<char>, a: bool) -> Seq<char> { n + ext(a) + dotted(m) }
pub open spec fn child_node(w: VxFs, p: Place, m: EntryPointMetadata, n: Seq<char>) -> bool { filed(w, p, m, n) || w.is_dir(p.push(n)) }
pub open spec fn filed(w: VxFs, p: Place, m: EntryPointMetadata, n: Seq<char>) -> bool { w.file(p.push(node_file(m, n, true))) is Some || w.file(p.push(node_file(m, n, false))) is Some }
pub open spec fn nodes_of(v: Seq<VxBuf>, w: VxFs, p: Place, m: EntryPointMetadata) -> bool {
    &&& distinct(v)
    &&& forall|i: int| 0 <= i < v.len() ==> no_slash((#[trigger] v[i])@) && child_node(w, p, m, v[i]@)
    &&& forall|n: Seq<char>| #[trigger] child_node(w, p, m, n) ==> holds(v, n)
}
// The keys, without their extensions.
pub open spec fn stems(v: Seq<VxBuf>, kp: Seq<char>, w: VxFs, p: Place, m: EntryPointMetadata) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> begins((#[trigger] v[i])@, kp) && no_slash(v[i]@.skip(kp.len() as int)) && filed(w, p, m, v[i]@.skip(kp.len() as int))
    &&& forall|n: Seq<char>| #[trigger] filed(w, p, m, n) ==> holds(v, kp + n)
}
pub open spec fn is_kind(k: Seq<char>) -> bool { tail(k, ext(true)) || tail(k, ext(false)) }
pub proof fn within_name(kp: Seq<char>, n: Seq<char>, t: Seq<char>)
    requires kp.len() > 0, kp.last() == '/', no_slash(t), tail(kp + n, t)
    ensures tail(n, t), cut(kp + n, t.len() as int) == kp + cut(n, t.len() as int), n == cut(n, t.len() as int) + t
{
    let s = kp + n;
    assert(s =~= cut(s, t.len() as int) + t);
    if n.len() < t.len() {
        let i = kp.len() - 1 - (s.len() - t.len());
        assert(t[i] == s[kp.len() - 1]);
        assert(s[kp.len() - 1] == '/');
    }
    assert(n.skip(n.len() - t.len()) =~= t);
    assert(cut(s, t.len() as int) =~= kp + cut(n, t.len() as int));
    assert(n =~= cut(n, t.len() as int) + t);
}
pub proof fn with_tail(a: Seq<char>, t: Seq<char>)
    ensures tail(a + t, t), cut(a + t, t.len() as int) == a
{ assert((a + t).skip((a + t).len() - t.len()) =~= t); assert(cut(a + t, t.len() as int) =~= a); }
pub proof fn dots(m: EntryPointMetadata)
    requires no_slash(m.metadata_key_suffix@)
    ensures no_slash(dotted(m)), no_slash(ext(true)), no_slash(ext(false)), ext(true).len() == 6, ext(false).len() == 6, bytes(ext(true)) == 6, bytes(ext(false)) == 6, bytes(kind_ext(true)) == 5, bytes(kind_ext(false)) == 5
{
    plain_bytes(ext(true)); plain_bytes(ext(false)); plain_bytes(kind_ext(true)); plain_bytes(kind_ext(false));
    assert forall|i: int| 0 <= i < dotted(m).len() implies #[trigger] dotted(m)[i] != '/' by { if i > 0 { let s = m.metadata_key_suffix@; if s.len() > 0 && s[0] == '.' { assert(dotted(m)[i] == s[i]); } else { assert(dotted(m)[i] == s[i - 1]); } } }
}
pub proof fn stems_of(k0: Seq<VxBuf>, k1: Seq<VxBuf>, k2: Seq<VxBuf>, k3: Seq<VxBuf>, k4: Seq<VxBuf>, kp: Seq<char>, w: VxFs, p: Place, m: EntryPointMetadata)
    requires
        kp.len() > 0, kp.last() == '/', no_slash(m.metadata_key_suffix@),
        listed(k0, kp, w, p, false),
        sifted(k1, k0, k0.len() as int, |k: Seq<char>| tail(k, dotted(m))),
        shortened(k2, k1, k1.len() as int, dotted(m).len() as int),
        sifted(k3, k2, k2.len() as int, |k: Seq<char>| is_kind(k)),
        shortened(k4, k3, k3.len() as int, 6),
    ensures stems(k4, kp, w, p, m)
{
    reveal(listed);
    dots(m);
    let d = dotted(m);
    assert forall|i: int| 0 <= i < k4.len() implies begins((#[trigger] k4[i])@, kp) && no_slash(k4[i]@.skip(kp.len() as int)) && filed(w, p, m, k4[i]@.skip(kp.len() as int)) by {
        let x = k3[i]@;
        assert(k4[i]@ == cut(x, 6));
        assert(is_kind(x) && among(k2, k2.len() as int, x));
        let j = choose|j: int| 0 <= j < k2.len() && k2[j]@ == x;
        let y = k1[j]@;
        assert(k2[j]@ == cut(y, d.len() as int));
        assert(tail(y, d) && among(k0, k0.len() as int, y));
        let q = choose|q: int| 0 <= q < k0.len() && k0[q]@ == y;
        assert(child_key(k0[q]@, kp, w, p, false));
        let n0 = choose|n: Seq<char>| plain_name(n) && y == key_in(kp, n) && kind(w, #[trigger] p.push(n), false);
        within_name(kp, n0, d);
        let n1 = cut(n0, d.len() as int);
        let a = tail(x, ext(true));
        within_name(kp, n1, ext(a));
        let n = cut(n1, 6);
        assert(n0 =~= node_file(m, n, a));
        assert(k4[i]@ == kp + n);
        assert((kp + n).take(kp.len() as int) =~= kp);
        assert((kp + n).skip(kp.len() as int) =~= n);
        assert forall|c: int| 0 <= c < n.len() implies #[trigger] n[c] != '/' by { assert(n[c] == n0[c]); }
    }
    assert forall|n: Seq<char>| #[trigger] filed(w, p, m, n) implies holds(k4, kp + n) by {
        let a = w.file(p.push(node_file(m, n, true))) is Some;
        let f = node_file(m, n, a);
        assert(kind(w, p.push(f), false));
        assert(holds(k0, key_in(kp, f)));
        let y = kp + f;
        let q = choose|q: int| 0 <= q < k0.len() && k0[q]@ == y;
        assert(y =~= kp + n + ext(a) + d);
        with_tail(kp + n + ext(a), d);
        assert(holds(k1, k0[q]@));
        let j = choose|j: int| 0 <= j < k1.len() && k1[j]@ == y;
        let x = k2[j]@;
        assert(x == kp + n + ext(a));
        with_tail(kp + n, ext(a));
        assert(is_kind(x));
        assert(holds(k3, k2[j]@));
        let i = choose|i: int| 0 <= i < k3.len() && k3[i]@ == x;
        assert(k4[i]@ == kp + n);
    }
}
pub proof fn nodes_from(k4: Seq<VxBuf>, p0: Seq<VxBuf>, p5: Seq<VxBuf>, k6: Seq<VxBuf>, v: Seq<VxBuf>, kp: Seq<char>, w: VxFs, p: Place, m: EntryPointMetadata)
    requires
        kp.len() > 0, kp.last() == '/',
        stems(k4, kp, w, p, m),
        listed(p0, kp, w, p, true), texts(p5) == texts(p0),
        forall|x: Seq<char>| #[trigger] texts(k6).contains(x) == (texts(k4) + texts(p5)).contains(x),
        forall|i: int, j: int| 0 <= i < j < k6.len() ==> texts(k6)[i] != texts(k6)[j],
        v.len() == k6.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == k6[i]@.skip(kp.len() as int),
    ensures nodes_of(v, w, p, m)
{
    reveal(listed);
    assert forall|i: int| 0 <= i < v.len() implies no_slash((#[trigger] v[i])@) && child_node(w, p, m, v[i]@) && k6[i]@ == kp + v[i]@ by {
        whole_key(k4, p0, p5, k6, kp, w, p, m, i);
    }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i])@ != (#[trigger] v[j])@ by {
        assert(texts(k6)[i] != texts(k6)[j]);
        assert(k6[i]@ == kp + v[i]@ && k6[j]@ == kp + v[j]@);
    }
    assert forall|n: Seq<char>| #[trigger] child_node(w, p, m, n) implies holds(v, n) by {
        let x = kp + n;
        let t = texts(k4) + texts(p5);
        if filed(w, p, m, n) {
            assert(holds(k4, x));
            let i = choose|i: int| 0 <= i < k4.len() && k4[i]@ == x;
            assert(t[i] == x);
        } else {
            assert(kind(w, p.push(n), true));
            assert(holds(p0, key_in(kp, n)));
            let i = choose|i: int| 0 <= i < p0.len() && p0[i]@ == x;
            assert(texts(p0)[i] == x);
            assert(t[k4.len() + i] == x);
        }
        assert(t.contains(x));
        assert(texts(k6).contains(x));
        let j = choose|j: int| 0 <= j < texts(k6).len() && texts(k6)[j] == x;
        assert(v[j]@ =~= n);
    }
}
pub proof fn rejoined(x: Seq<char>, t: Seq<char>)
    requires begins(x, t)
    ensures x == t + x.skip(t.len() as int)
{ assert(x =~= x.take(t.len() as int) + x.skip(t.len() as int)); }
pub proof fn whole_key(k4: Seq<VxBuf>, p0: Seq<VxBuf>, p5: Seq<VxBuf>, k6: Seq<VxBuf>, kp: Seq<char>, w: VxFs, p: Place, m: EntryPointMetadata, i: int)
    requires
        kp.len() > 0, kp.last() == '/', 0 <= i < k6.len(),
        stems(k4, kp, w, p, m),
        listed(p0, kp, w, p, true), texts(p5) == texts(p0),
        forall|x: Seq<char>| #[trigger] texts(k6).contains(x) == (texts(k4) + texts(p5)).contains(x),
    ensures begins(k6[i]@, kp), ({ let n = k6[i]@.skip(kp.len() as int); k6[i]@ == kp + n && no_slash(n) && child_node(w, p, m, n) })
{
    reveal(listed);
    let x = k6[i]@;
    let t = texts(k4) + texts(p5);
    assert(texts(k6)[i] == x);
    assert(texts(k6).contains(x));
    assert(t.contains(x));
    let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
    if j < k4.len() { assert(k4[j]@ == x); assert(begins(x, kp)); assert(x.len() >= kp.len()); }
    else {
        assert(texts(p0)[j - k4.len()] == x);
        assert(child_key(p0[j - k4.len()]@, kp, w, p, true));
        let n = choose|n: Seq<char>| plain_name(n) && x == key_in(kp, n) && kind(w, #[trigger] p.push(n), true);
        assert(x =~= kp + n);
        assert(x.skip(kp.len() as int) =~= n);
        assert(x.take(kp.len() as int) =~= kp);
    }
    rejoined(x, kp);
}
pub open spec fn node_prefix(p: Seq<char>) -> Seq<char> { node(meta_root(), p).push('/') }
pub proof fn prefix_is(p: Seq<char>)
    ensures ({ let j = meta_root() + seq!['/'] + canon(p); node_prefix(p) == if j.last() == '/' { j } else { j.push('/') } }), node_prefix(p).last() == '/'
{
    canon_ends(p);
    let j = meta_root() + seq!['/'] + canon(p);
    if canon(p).len() == 0 { assert(j =~= meta_root().push('/')); } else { assert(j.last() == canon(p).last()); }
}
impl FilesystemHierarchy {
@@fn src/storage.rs impl HierarchyLister for S::list_nodes as FilesystemHierarchy::list_nodes for C15,C18
sig pub fn list_nodes(&self, prefix_path: &str, vx_w: &mut VxFs) -> (r: Result<Vec<VxBuf>, Error>)
spec
    requires self.sound(node_prefix(prefix_path@)), no_slash(self.entry_point_metadata.metadata_key_suffix@)
    ensures final(vx_w).same(*old(vx_w)), match r {
        Ok(v) => final(vx_w).faulted() == old(vx_w).faulted() && nodes_of(v@, *old(vx_w), self.place(node_prefix(prefix_path@)), self.entry_point_metadata),
        Err(_) => final(vx_w).faulted(),
    }
hint
    strings
start
    let ghost m = self.entry_point_metadata;
    let ghost kp = node_prefix(prefix_path@);
    let ghost pl = self.place(kp);
    let ghost is_json = |k: Seq<char>| tail(k, dotted(m));
    let ghost is_node = |k: Seq<char>| is_kind(k);
    let ghost mut k1 = Seq::<VxBuf>::empty();
    let ghost mut k2 = Seq::<VxBuf>::empty();
    let ghost mut k3 = Seq::<VxBuf>::empty();
    proof { prefix_is(prefix_path@); dots(m); reveal_strlit("/meta/root"); reveal_strlit("array"); reveal_strlit("group"); assert("/meta/root"@ =~= meta_root()); assert("array"@ =~= kind_ext(true)); assert("group"@ =~= kind_ext(false)); assert("."@ =~= seq!['.']); assert("/"@ =~= seq!['/']); }
before .retain
    let ghost k0 = keys@;
    let ghost p0 = prefixes@;
    proof { assert(key_prefix@ == kp); assert(suffix@ =~= dotted(m)); }
loop 0
        keys@ == k0, sifted($acc@, k0, vi0 as int, is_json),
loop 0 start
    proof { sifted_next($acc@, k0, vj0 as int, is_json); }
loop 0 after
    proof { k1 = $acc@; }
loop 1
        shortened(keys@, k1, vi1 as int, dotted(m).len() as int),
loop 1 start
    proof { assert(keys@[vj1 as int]@ == k1[vj1 as int]@); tail_bytes(k1[vj1 as int]@, dotted(m)); }
loop 1 after
    proof { k2 = keys@; }
loop 2
        keys@ == k2, sifted($acc@, k2, vi2 as int, is_node),
loop 2 start
    proof { sifted_next($acc@, k2, vj2 as int, is_node); }
loop 2 after
    proof { k3 = $acc@; }
loop 3
        shortened(keys@, k3, vi3 as int, 6),
loop 3 start
    proof { let x = k3[vj3 as int]@; assert(is_kind(x)); tail_bytes(x, ext(tail(x, ext(true)))); }
loop 4
        prefixes@.len() == p0.len(), forall|i: int| 0 <= i < p0.len() ==> (#[trigger] prefixes@[i])@ == p0[i]@,
loop 4 start
    proof { reveal(listed); let x = p0[vj4 as int]@; assert(child_key(x, kp, *old(vx_w), pl, true)); trim_end_same(x, '/'); assert(x.take(x.len() as int) =~= x); }
before .extend
    let ghost k4 = keys@;
    let ghost p5 = prefixes@;
    proof { stems_of(k0, k1, k2, k3, k4, kp, *old(vx_w), pl, m); assert(texts(p5) =~= texts(p0)); }
before .sort
    proof { assert(texts(keys@) =~= texts(k4) + texts(p5)); }
after .sort
    let ghost k5 = keys@;
after .dedup
    let ghost k6 = keys@;
    proof { runs_of(texts(k5)); runs_differ(texts(k5)); }
loop 5
        keys@.len() == k6.len(), forall|i: int| 0 <= i < k6.len() ==> (#[trigger] keys@[i])@ == if i < vi5 { k6[i]@.skip(kp.len() as int) } else { k6[i]@ },
loop 5 start
    proof { whole_key(k4, p0, p5, k6, kp, *old(vx_w), pl, m, vj5 as int); }
loop 5 after
    proof { nodes_from(k4, p0, p5, k6, keys@, kp, *old(vx_w), pl, m); }
@@end
    // C15: what is listed below a path are the names whose paths have metadata in the store, and the directories of keys below them.
    pub proof fn child_is_node(self, p: Seq<char>, n: Seq<char>, a: bool)
        requires plain_name(n), no_slash(self.entry_point_metadata.metadata_key_suffix@)
        ensures
            canon(child_of(p, n)) == child_of(p, n),
            meta_key(self.entry_point_metadata, child_of(p, n), a) == node_prefix(p) + node_file(self.entry_point_metadata, n, a),
            self.place(meta_key(self.entry_point_metadata, child_of(p, n), a)) == self.place(node_prefix(p)).push(node_file(self.entry_point_metadata, n, a)),
            node_prefix(child_of(p, n)) == (node_prefix(p) + n).push('/'),
            self.place(node_prefix(child_of(p, n))) == self.place(node_prefix(p)).push(n),
    {
        let m = self.entry_point_metadata;
        let c = child_of(p, n);
        canon_ends(p);
        assert(c.last() == n.last());
        assert(c[0] != '/') by { if canon(p).len() > 0 { assert(c[0] == canon(p)[0]); } else { assert(c[0] == n[0]); } }
        assert(trim_start(c, '/') == c);
        trim_end_same(c, '/');
        assert(node(meta_root(), c) =~= node_prefix(p) + n);
        assert(meta_key(m, c, a) =~= node_prefix(p) + node_file(m, n, a));
        prefix_is(p);
        dots(m);
        let f = node_file(m, n, a);
        assert(f.len() > 2);
        assert forall|i: int| 0 <= i < f.len() implies f[i] != '/' by {
            if i < n.len() { assert(f[i] == n[i]); } else if i < n.len() + 6 { assert(f[i] == ext(a)[i - n.len()]); } else { assert(f[i] == dotted(m)[i - n.len() - 6]); }
        }
        child_names(node_prefix(p), f);
        child_names(node_prefix(p), n);
        let b = names(self.base_path@);
        assert(self.place(meta_key(m, c, a)) =~= self.place(node_prefix(p)).push(f));
        let k = node_prefix(p) + n;
        assert(k.push('/') =~= k + seq!['/'] + seq![]);
        names_slash(k, seq![]);
        assert(names(k.push('/')) =~= names(k));
        assert(self.place(node_prefix(c)) =~= self.place(node_prefix(p)).push(n));
    }
}
pub open spec fn child_of(p: Seq<char>, n: Seq<char>) -> Seq<char> { if canon(p).len() == 0 { n } else { canon(p) + seq!['/'] + n } }
}
