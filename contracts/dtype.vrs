@@include strings.vrs
@@include types.vrs
verus! {
// C09: what a string denotes.
pub open spec fn int_size(c: char) -> Option<IntSize> { if c == '1' { Some(IntSize::B1) } else if c == '2' { Some(IntSize::B2) } else if c == '4' { Some(IntSize::B4) } else if c == '8' { Some(IntSize::B8) } else { None } }
pub open spec fn float_size(c: char) -> Option<FloatSize> { if c == '2' { Some(FloatSize::B2) } else if c == '4' { Some(FloatSize::B4) } else if c == '8' { Some(FloatSize::B8) } else { None } }
pub open spec fn order(c: char) -> Option<Endian> { if c == '>' { Some(Endian::Big) } else if c == '<' { Some(Endian::Little) } else { None } }
// A decimal machine word, as `usize::from_str` reads it.
pub open spec fn word(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    match undec(d) { Some(n) => if n <= usize::MAX { Some(n) } else { None }, None => None }
}
pub open spec fn denotes(s: Seq<char>) -> Option<DataType> {
    if s == seq!['b', 'o', 'o', 'l'] { Some(DataType::Bool) }
    else if s == seq!['i', '1'] { Some(DataType::Int { size: IntSize::B1, endian: Endian::Little }) }
    else if s == seq!['u', '1'] { Some(DataType::UInt { size: IntSize::B1, endian: Endian::Little }) }
    else if s.len() > 0 && s[0] == 'r' { match word(s.skip(1)) { Some(n) => if n % 8 == 0 { Some(DataType::Raw { size: n as usize }) } else { None }, None => None } }
    else if s.len() == 3 {
        match (order(s[0]), int_size(s[2]), float_size(s[2])) {
            (Some(endian), Some(size), f) => if s[1] == 'i' { Some(DataType::Int { size, endian }) } else if s[1] == 'u' { Some(DataType::UInt { size, endian }) } else { match f { Some(size) => if s[1] == 'f' { Some(DataType::Float { size, endian }) } else { None }, None => None } },
            _ => None,
        }
    } else { None }
}

impl IntSize {
@@fn src/data_type.rs IntSize::deserial_char for C09,C21
sig pub fn deserial_char(c: char) -> (r: Option<IntSize>)
spec
    ensures r == int_size(c)
@@end
@@fn src/data_type.rs IntSize::serial_char for C09,C21
sig pub fn serial_char(&self) -> (r: char)
spec
    ensures int_size(r) == Some(*self), r as u32 <= 127
@@end
}
impl FloatSize {
@@fn src/data_type.rs FloatSize::deserial_char for C09,C21
sig pub fn deserial_char(c: char) -> (r: Option<FloatSize>)
spec
    ensures r == float_size(c)
@@end
@@fn src/data_type.rs FloatSize::serial_char for C09,C21
sig pub fn serial_char(&self) -> (r: char)
spec
    ensures float_size(r) == Some(*self), r as u32 <= 127
@@end
}
impl Endian {
@@fn src/data_type.rs Endian::deserial_char for C09,C21
sig pub fn deserial_char(c: char) -> (r: Option<Endian>)
spec
    ensures r == order(c)
@@end
@@fn src/data_type.rs Endian::serial_char for C09,C21
sig pub fn serial_char(&self) -> (r: char)
spec
    ensures order(r) == Some(*self), r as u32 <= 127
@@end
}

// serde's visitor: any error type that can be made from an unexpected value.
pub enum Unexpected<'a> { Str(&'a str) }
pub struct DataTypeVisitor;
pub trait DeError: Sized { fn invalid_value(u: Unexpected, v: &DataTypeVisitor) -> Self; }
pub fn vx_invalid_value<E: DeError>(u: Unexpected, v: &DataTypeVisitor) -> (r: E) { E::invalid_value(u, v) }
@@path serde::de::Error::invalid_value vx_invalid_value
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_body]
pub fn vx_parse<T>(s: &str) -> (r: Result<usize, std::num::ParseIntError>)
    ensures match r { Ok(n) => word(s@) == Some(n as nat), Err(_) => word(s@) is None }
{ s.parse::<usize>() }
@@method parse fn:vx_parse
@@method starts_with fn:vx_starts_with

impl DataTypeVisitor {
@@fn src/data_type.rs impl Visitor for DataTypeVisitor::visit_str as DataTypeVisitor::visit_str for C09,C21
sig pub fn visit_str<E: DeError>(self, value: &str) -> (r: Result<DataType, E>)
spec
    ensures match r { Ok(d) => denotes(value@) == Some(d), Err(_) => denotes(value@) is None }
hint
    strings
    strindex
    strlen
start
    proof {
        if vstd::utf8::is_ascii_chars(value@) { vstd::utf8::is_ascii_chars_encode_utf8(value@); }
        if value@.len() == 3 && value@[0] != 'r' && denotes(value@) is Some {
            assert forall|i: int| 0 <= i < value@.len() implies (#[trigger] value@[i]) as u32 <= 127 by { }
            assert(vstd::utf8::is_ascii_chars(value@));
        }
        assert("bool"@ =~= seq!['b', 'o', 'o', 'l']) by { reveal_strlit("bool"); }
        assert("i1"@ =~= seq!['i', '1']) by { reveal_strlit("i1"); }
        assert("u1"@ =~= seq!['u', '1']) by { reveal_strlit("u1"); }
        assert(seq!['b', 'o', 'o', 'l'][0] == 'b' && seq!['i', '1'][0] == 'i' && seq!['u', '1'][0] == 'u');
    }
after let chars
    assert(vstd::utf8::is_ascii_chars(value@));
    assert(vstd::utf8::encode_utf8(value@).len() == 3);
    assert(value@.len() == 3);
after let size
    assert(kind == value@[1] && size == value@[2] && endian == order(value@[0]));
@@end
}

// Printing.  serde's serializer takes one string and answers as it likes.
pub trait VxSerializer: Sized { type Ok; type Error; spec fn answer(self, s: Seq<char>) -> Result<Self::Ok, Self::Error>;
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) ensures r == self.answer(v@); }
// The string denotes the type (up to the byte order of one-byte integers).
pub open spec fn one_byte(d: DataType) -> bool { d matches DataType::Int { size: IntSize::B1, .. } || d matches DataType::UInt { size: IntSize::B1, .. } }
pub open spec fn reads_back(s: Seq<char>, d: DataType) -> bool { match denotes(s) { Some(e) => e == d || one_byte(d) && same_kind(e, d), None => false } }

pub open spec fn ascii_of(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] <= 127 }
#[derive(Debug)] pub struct VxUtf8Error { }
#[verifier::external_body]
pub fn vx_from_utf8(b: &[u8]) -> (r: Result<&str, VxUtf8Error>)
    ensures ascii(b@) ==> r is Ok && r->Ok_0@ == ascii_of(b@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_encode_utf8(c: char, b: &mut [u8])
    requires c as u32 <= 127, old(b)@.len() >= 1
    ensures final(b)@ == old(b)@.update(0, c as u8)
{ unimplemented!() }
// `impl Write for &mut [u8]`: what is written goes to the front, the slice becomes the rest.
#[verifier::external_body]
pub fn vx_cursor_push(w: &mut &mut [u8], s: &str)
    requires old(w)@.len() >= s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) as u32 <= 127
    ensures final(w)@.len() == old(w)@.len() - s@.len(), final(*old(w))@ == Seq::new(s@.len(), |i: int| s@[i] as u8) + final(*final(w))@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_cursor_display(w: &mut &mut [u8], n: &&usize)
    requires old(w)@.len() >= dec(**n as nat).len()
    ensures final(w)@.len() == old(w)@.len() - dec(**n as nat).len(), final(*old(w))@ == Seq::new(dec(**n as nat).len(), |i: int| dec(**n as nat)[i] as u8) + final(*final(w))@
{ unimplemented!() }
@@path std::str::from_utf8 vx_from_utf8
@@method encode_utf8 fn:vx_encode_utf8

impl DataType {
@@fn src/data_type.rs impl Serialize for DataType::serialize as DataType::serialize for C09,C21
sig pub fn serialize<S: VxSerializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
spec
    requires self matches DataType::Raw { size } ==> size % 8 == 0
    ensures exists|s: Seq<char>| #[trigger] reads_back(s, *self) && r == serializer.answer(s)
hint
    strings
    cursor
start
    proof {
        assert("bool"@ =~= seq!['b', 'o', 'o', 'l']) by { reveal_strlit("bool"); }
        assert("i1"@ =~= seq!['i', '1']) by { reveal_strlit("i1"); }
        assert("u1"@ =~= seq!['u', '1']) by { reveal_strlit("u1"); }
        assert(seq!['b', 'o', 'o', 'l'][0] == 'b' && seq!['i', '1'][0] == 'i' && seq!['u', '1'][0] == 'u');
    }
before let unwritten
    proof {
        assert(pow10(20) > usize::MAX) by (compute);
        dec_len(*size as nat, 20);
        dec_ascii(*size as nat);
        dec_undec(*size as nat);
    }
after let len
    proof {
        let d = dec(*size as nat);
        assert(buf@.take(len as int) =~= seq![114u8] + Seq::new(d.len(), |i: int| d[i] as u8));
        let t = ascii_of(buf@.take(len as int));
        assert(t =~= seq!['r'] + d);
        assert(t.skip(1) =~= d);
    }
before .serialize_str
    proof { match *self { DataType::Raw { .. } => { assert(reads_back(s@, *self)); } _ => { assert(s@.len() == 3 ==> true); assert(reads_back(s@, *self)); } } }
@@end
}
}
