// Common shims: functions the translation introduces.  Everything `external_body` here is trusted.
use vstd::prelude::*;
use std::ops::Range;
verus! {
global size_of usize == 8;

// `assert!` and friends: the condition is an obligation, so that code that verifies never panics here.
pub fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
pub fn vx_none<T>(x: &Option<T>) -> (r: bool) ensures r == (*x is None) { match x { Some(_) => false, None => true } }

#[verifier::external_body]
pub fn vx_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@ == Seq::new(n as nat, |i: int| x)
{ vec![x; n] }

pub trait VxNum: Sized { spec fn vx_int(self) -> int; fn vx_len(lo: Self, hi: Self) -> (r: usize) ensures r == (if lo.vx_int() < hi.vx_int() { hi.vx_int() - lo.vx_int() } else { 0 }); fn vx_at(lo: Self, k: usize) -> (r: Self); }

// What iterating over an owned collection yields.
pub trait VxItems<T> { spec fn count(&self) -> nat; spec fn gives(&self, j: int, r: T) -> bool; }
impl<T> VxItems<T> for Vec<T> { open spec fn count(&self) -> nat { self@.len() } open spec fn gives(&self, j: int, r: T) -> bool { r == self@[j] } }
#[verifier::external_body]
pub fn vx_take<T, C: VxItems<T>>(o: &C, j: usize) -> (r: T) requires j < o.count() ensures o.gives(j as int, r) { unimplemented!() }

// Conversions that `.into()` picks by type.
pub trait VxInto<T>: Sized { spec fn conv(self, t: T) -> bool; fn vx_into(self) -> (r: T) ensures self.conv(r); }

pub mod vxcmp {
    use vstd::prelude::*;
    verus! {
    pub trait VxOrd: Sized { spec fn le(self, o: Self) -> bool; }
    impl VxOrd for u64 { open spec fn le(self, o: u64) -> bool { self <= o } }
    impl VxOrd for usize { open spec fn le(self, o: usize) -> bool { self <= o } }
    #[verifier::external_body]
    pub fn vx_max<T: VxOrd + Ord>(a: T, b: T) -> (r: T) ensures r == (if a.le(b) { b } else { a }) { std::cmp::max(a, b) }
    #[verifier::external_body]
    pub fn vx_min<T: VxOrd + Ord>(a: T, b: T) -> (r: T) ensures r == (if a.le(b) { a } else { b }) { std::cmp::min(a, b) }
    }
}
pub use vxcmp::{vx_max, vx_min, VxOrd};
}
@@path std::cmp::max vx_max
@@path std::cmp::min vx_min
@@path cmp::max vx_max
@@path cmp::min vx_min
@@method into vx_into
