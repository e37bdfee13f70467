// Shims for serde_json: a document is what its bytes parse to.
@@include meta.vrs
@@include paths.vrs
@@include errors.vrs
@@type Map JsonObject
verus! {
pub struct VxEntry { pub k: VxString, pub v: Value }
impl View for JsonObject { type V = Map<Seq<char>, Value>; uninterp spec fn view(&self) -> Map<Seq<char>, Value>; }
// The entries in order: keys do not repeat.
pub uninterp spec fn entries(o: JsonObject) -> Seq<(VxString, Value)>;
pub open spec fn with_entries(m: Map<Seq<char>, Value>, e: Seq<(VxString, Value)>) -> Map<Seq<char>, Value> decreases e.len()
{ if e.len() == 0 { m } else { with_entries(m, e.drop_last()).insert(e.last().0@, e.last().1) } }
pub axiom fn entries_are(o: JsonObject, m: Map<Seq<char>, Value>)
    ensures entries(o).len() == o@.len(), with_entries(m, entries(o)) == m.union_prefer_right(o@);
// serde_json's maps are ordered by key.
pub axiom fn extensional(a: JsonObject, b: JsonObject)
    requires a@ == b@
    ensures a == b;
impl JsonObject {
    #[verifier::external_body]
    pub fn new() -> (r: JsonObject) ensures r@ == Map::<Seq<char>, Value>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut Value>)
        ensures match r { Some(v) => old(self)@.contains_key(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: VxString, v: Value) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.insert(k@, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.remove(k@), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: JsonObject) ensures r@ == self@ { unimplemented!() }
}
impl VxItems<(VxString, Value)> for JsonObject { open spec fn count(&self) -> nat { entries(*self).len() } open spec fn gives(&self, j: int, r: (VxString, Value)) -> bool { r == entries(*self)[j] } }
impl PartialEq for JsonObject {
    #[verifier::external_body]
    fn eq(&self, o: &JsonObject) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for JsonObject {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &JsonObject) -> bool { self@ == o@ }
}
impl Value {
    #[verifier::external_body]
    pub fn as_object_mut(&mut self) -> (r: Option<&mut JsonObject>)
        ensures match r { Some(o) => *old(self) == Value::Object(*o) && *final(self) == Value::Object(*final(o)), None => !(*old(self) is Object) && *final(self) == *old(self) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_object(&self) -> (r: Option<&JsonObject>)
        ensures match r { Some(o) => *self == Value::Object(*o), None => !(*self is Object) }
    { unimplemented!() }
}

// Documents.
pub uninterp spec fn json_parse(b: Seq<u8>) -> Option<Value>;
pub uninterp spec fn json_print(v: Value) -> Seq<u8>;
pub axiom fn json_round(v: Value)
    ensures json_parse(json_print(v)) == Some(v);
pub uninterp spec fn array_parse(b: Seq<u8>) -> Option<ArrayMetadata>;
pub uninterp spec fn array_print(m: ArrayMetadata) -> Seq<u8>;
pub trait VxParse: Sized { spec fn parsed(b: Seq<u8>) -> Option<Self>; }
pub trait VxPrint { spec fn printed(&self) -> Seq<u8>; }
impl VxParse for Value { open spec fn parsed(b: Seq<u8>) -> Option<Value> { json_parse(b) } }
impl VxPrint for Value { open spec fn printed(&self) -> Seq<u8> { json_print(*self) } }
impl VxParse for JsonObject { open spec fn parsed(b: Seq<u8>) -> Option<JsonObject> { match json_parse(b) { Some(Value::Object(o)) => Some(o), _ => None } } }
impl VxPrint for JsonObject { open spec fn printed(&self) -> Seq<u8> { json_print(Value::Object(*self)) } }
impl VxParse for ArrayMetadata { open spec fn parsed(b: Seq<u8>) -> Option<ArrayMetadata> { array_parse(b) } }
impl VxPrint for ArrayMetadata { open spec fn printed(&self) -> Seq<u8> { array_print(*self) } }
impl<T: VxPrint + ?Sized> VxPrint for &T { open spec fn printed(&self) -> Seq<u8> { (**self).printed() } }

impl VxInto<Value> for JsonObject {
    open spec fn conv(self, t: Value) -> bool { t == Value::Object(self) }
    fn vx_into(self) -> (r: Value) { Value::Object(self) }
}
impl VxInto<VxString> for VxString {
    open spec fn conv(self, t: VxString) -> bool { t == self }
    fn vx_into(self) -> (r: VxString) { self }
}
}
