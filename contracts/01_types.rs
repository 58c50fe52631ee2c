global size_of usize == 8;
// The data types of the crate (definitions re-stated by the extraction, see DESIGN.md) and std functions Verus has no specification for.
pub struct UBigInt(pub Vec<u32>);

impl UBigInt {
    pub open spec fn wf(&self) -> bool { canon(self.0@) }
    pub open spec fn v(&self) -> nat { val(self.0@) }
}
// expansion of #[derive(Clone)]
impl Clone for UBigInt {
    fn clone(&self) -> (r: Self) ensures r.0@ == self.0@ { let r = UBigInt(self.0.clone()); assert(r.0@ =~= self.0@); r }
}

#[derive(Debug)]
pub enum ConversionError {
    NoData,
    InvalidChar(char),
    NotInRange,
    UnexpectedEnd,
    Infinity,
    NegInfinity,
    NotANumber,
    TryFromIntError,
}

// N7: the two strings carried by NotInRange are dropped
pub fn vx_not_in_range() -> (r: ConversionError) ensures r is NotInRange { ConversionError::NotInRange }

// N6: x[a..b].to_vec() and friends
#[verifier::external_body]
pub fn vx_slice_to_vec<T: Clone>(s: &Vec<T>, lo: usize, hi: usize) -> (r: Vec<T>)
    requires lo <= hi <= s@.len()
    ensures r@ == s@.subrange(lo as int, hi as int)
{ s[lo..hi].to_vec() }
pub fn vx_slice_from_to_vec<T: Clone>(s: &Vec<T>, lo: usize) -> (r: Vec<T>)
    requires lo <= s@.len()
    ensures r@ == s@.skip(lo as int)
{ let r = vx_slice_to_vec(s, lo, s.len()); assert(r@ =~= s@.skip(lo as int)); r }
pub fn vx_slice_from<T: Clone>(s: &Vec<T>, lo: usize) -> (r: Vec<T>)
    requires lo <= s@.len()
    ensures r@ == s@.skip(lo as int)
{ vx_slice_from_to_vec(s, lo) }
pub fn vx_to_vec(s: &Vec<u32>) -> (r: Vec<u32>) ensures r@ == s@ { let r = s.clone(); assert(r@ =~= s@); r }

#[verifier::external_body]
pub proof fn axiom_len(v: &Vec<u32>) ensures v@.len() < 0x80_0000_0000_0000 {}
#[verifier::external_body]
pub proof fn axiom_len_any<T>(v: &Vec<T>) ensures v@.len() < 0x80_0000_0000_0000 {}
#[verifier::external_body]
pub proof fn axiom_len64(v: &Vec<u64>) ensures v@.len() < 0x40_0000_0000_0000 {}
// expansion of #[derive(PartialEq)]: equality of the limb vectors
impl vstd::std_specs::cmp::PartialEqSpecImpl for UBigInt {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &UBigInt) -> bool { self.0@ == other.0@ }
}
impl PartialEq for UBigInt {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { self.0 == other.0 }
}

pub struct BigInt { pub val: UBigInt, pub _is_neg: bool }
impl BigInt {
    pub open spec fn wf(&self) -> bool { self.val.wf() && (self._is_neg ==> self.val.v() != 0) }
    pub open spec fn v(&self) -> int { if self._is_neg { -(self.val.v() as int) } else { self.val.v() as int } }
}
// expansion of #[derive(Clone)]
impl Clone for BigInt {
    fn clone(&self) -> (r: Self) ensures r.val.0@ == self.val.0@, r._is_neg == self._is_neg, r.v() == self.v(), r.wf() == self.wf()
    { BigInt { val: self.val.clone(), _is_neg: self._is_neg } }
}
// expansion of #[derive(PartialEq)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigInt {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &BigInt) -> bool { self.val.0@ == other.val.0@ && self._is_neg == other._is_neg }
}
impl PartialEq for BigInt {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { self.val == other.val && self._is_neg == other._is_neg }
}
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r as int == if x < 0 { -(x as int) } else { x as int };
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r as int == if x < 0 { -(x as int) } else { x as int };
pub assume_specification [i128::unsigned_abs] (x: i128) -> (r: u128) ensures r as int == if x < 0 { -(x as int) } else { x as int };
pub assume_specification [u32::ilog2] (x: u32) -> (r: u32) requires x > 0, ensures p2(r as nat) <= x < p2(r as nat + 1), r < 32;
pub assume_specification [u128::ilog2] (x: u128) -> (r: u32) requires x > 0, ensures p2(r as nat) <= x < p2(r as nat + 1), r < 128;
pub assume_specification [u128::abs_diff] (x: u128, y: u128) -> (r: u128) ensures r == if x < y { y - x } else { x - y };
// N10: eager boolean operators
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub assume_specification [i32::abs] (x: i32) -> (r: i32) requires x != i32::MIN, ensures r as int == if x < 0 { -(x as int) } else { x as int };
pub assume_specification [i64::abs] (x: i64) -> (r: i64) requires x != i64::MIN, ensures r as int == if x < 0 { -(x as int) } else { x as int };
pub assume_specification [i128::abs] (x: i128) -> (r: i128) requires x != i128::MIN, ensures r as int == if x < 0 { -(x as int) } else { x as int };
pub assume_specification [i128::wrapping_neg] (x: i128) -> (r: i128) ensures r as int == if x == i128::MIN { x as int } else { -(x as int) };
// N12..N17 helpers
// N12: an element moved out of a vector that is consumed by an iterator
#[verifier::external_body]
pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len()
    ensures r == v@[i as int]
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
pub fn vx_range_len(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b - a } else { 0 } { if a < b { b - a } else { 0 } }
pub fn vx_get<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>) ensures r == (if i < v@.len() { Some(&v@[i as int]) } else { None::<&T> })
{ if i < v.len() { Some(&v[i]) } else { None } }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { unreachable!() }
