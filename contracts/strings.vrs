@@include base.vrs
// Shims for strings: a string is its sequence of characters.
verus! {
// Decimal notation.
pub open spec fn digit(d: nat) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn digit_value(c: char) -> Option<nat> {
    if c == '0' { Some(0nat) } else if c == '1' { Some(1nat) } else if c == '2' { Some(2nat) } else if c == '3' { Some(3nat) } else if c == '4' { Some(4nat) } else if c == '5' { Some(5nat) } else if c == '6' { Some(6nat) } else if c == '7' { Some(7nat) } else if c == '8' { Some(8nat) } else if c == '9' { Some(9nat) } else { None }
}
pub open spec fn dec(n: nat) -> Seq<char> decreases n
{ if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
// The value of a string of digits.
pub open spec fn undec(s: Seq<char>) -> Option<nat> decreases s.len()
{
    if s.len() == 0 { None }
    else if s.len() == 1 { digit_value(s[0]) }
    else { match (undec(s.drop_last()), digit_value(s.last())) { (Some(n), Some(d)) => Some(10 * n + d), _ => None } }
}
pub proof fn dec_undec(n: nat)
    ensures undec(dec(n)) == Some(n), dec(n).len() >= 1, digit_value(dec(n)[0]) is Some
    decreases n
{
    if n >= 10 {
        dec_undec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert(dec(n)[0] == dec(n / 10)[0]);
        assert(n == 10 * (n / 10) + n % 10);
    }
}
pub proof fn dec_ascii(n: nat)
    ensures forall|i: int| 0 <= i < dec(n).len() ==> digit_value(#[trigger] dec(n)[i]) is Some
    decreases n
{ if n >= 10 { dec_ascii(n / 10); assert forall|i: int| 0 <= i < dec(n).len() implies digit_value(#[trigger] dec(n)[i]) is Some by { if i < dec(n / 10).len() { assert(dec(n)[i] == dec(n / 10)[i]); } } } }
// A number of at most k digits.
pub open spec fn pow10(k: nat) -> nat decreases k { if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }
pub proof fn dec_len(n: nat, k: nat)
    requires n < pow10(k), k >= 1
    ensures dec(n).len() <= k
    decreases k
{
    if n >= 10 { assert(k >= 2) by { if k == 1 { assert(pow10(1) == 10) by { reveal_with_fuel(pow10, 3); } } } dec_len(n / 10, (k - 1) as nat); }
}

#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize) ensures r == vstd::utf8::encode_utf8(s@).len() { s.len() }
// `&s[n..]` where the first n characters take one byte each.
#[verifier::external_body]
pub fn vx_str_from(s: &str, n: usize) -> (r: &str)
    requires n <= s@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s@[i]) as u32 <= 127
    ensures r@ == s@.skip(n as int)
{ &s[n..] }
}
