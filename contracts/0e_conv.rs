// N25: From and TryFrom. The traits below stand for std's: a body's `.into()`, `.try_into()`, `T::from(..)` and `T::try_from(..)`
// become calls of their methods, and every impl of the crate is an impl of VxFrom or VxTryFrom with its own relation.
pub trait VxNum: Sized {
    spec fn good(&self) -> bool;
    spec fn num(&self) -> int;
    spec fn fits(k: int) -> bool;
}
pub trait VxPrim: VxNum {}
impl VxNum for u8 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { u8::MIN <= k <= u8::MAX } }
impl VxPrim for u8 {}
impl VxNum for u16 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { u16::MIN <= k <= u16::MAX } }
impl VxPrim for u16 {}
impl VxNum for u32 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { u32::MIN <= k <= u32::MAX } }
impl VxPrim for u32 {}
impl VxNum for u64 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { u64::MIN <= k <= u64::MAX } }
impl VxPrim for u64 {}
impl VxNum for u128 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { u128::MIN <= k <= u128::MAX } }
impl VxPrim for u128 {}
impl VxNum for usize { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { usize::MIN <= k <= usize::MAX } }
impl VxPrim for usize {}
impl VxNum for i8 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { i8::MIN <= k <= i8::MAX } }
impl VxPrim for i8 {}
impl VxNum for i16 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { i16::MIN <= k <= i16::MAX } }
impl VxPrim for i16 {}
impl VxNum for i32 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { i32::MIN <= k <= i32::MAX } }
impl VxPrim for i32 {}
impl VxNum for i64 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { i64::MIN <= k <= i64::MAX } }
impl VxPrim for i64 {}
impl VxNum for i128 { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { i128::MIN <= k <= i128::MAX } }
impl VxPrim for i128 {}
impl VxNum for isize { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { *self as int } open spec fn fits(k: int) -> bool { isize::MIN <= k <= isize::MAX } }
impl VxPrim for isize {}
impl VxNum for bool { open spec fn good(&self) -> bool { true } open spec fn num(&self) -> int { if *self { 1 } else { 0 } } open spec fn fits(k: int) -> bool { k == 0 || k == 1 } }
impl VxNum for UBigInt { open spec fn good(&self) -> bool { self.wf() } open spec fn num(&self) -> int { self.v() as int } open spec fn fits(k: int) -> bool { k >= 0 } }
impl VxNum for BigInt { open spec fn good(&self) -> bool { self.wf() } open spec fn num(&self) -> int { self.v() } open spec fn fits(k: int) -> bool { true } }
/// the result of a checked conversion of the number k
pub open spec fn conv_ok<T: VxNum>(k: int, r: Result<T, ConversionError>) -> bool { match r { Ok(x) => x.good() && x.num() == k, Err(_) => !T::fits(k) } }
/// the same for the truncation of a rational
pub open spec fn conv_trunc<T: VxNum>(a: int, b: int, x: real, r: Result<T, ConversionError>) -> bool { let k = tdiv(a, b); is_trunc(k, x) && conv_ok(k, r) }

pub trait VxFrom<U>: Sized {
    spec fn vx_pre(n: U) -> bool;
    spec fn vx_rel(n: U, r: Self) -> bool;
    fn vx_from(n: U) -> (r: Self) requires Self::vx_pre(n) ensures Self::vx_rel(n, r);
}
pub trait VxTryFrom<U>: Sized {
    spec fn vx_tpre(n: U) -> bool;
    spec fn vx_trel(n: U, r: Result<Self, ConversionError>) -> bool;
    fn vx_try_from(n: U) -> (r: Result<Self, ConversionError>) requires Self::vx_tpre(n) ensures Self::vx_trel(n, r);
}
// the same with `Error = ()`
pub trait VxTryFromU<U>: Sized {
    spec fn vx_upre(n: U) -> bool;
    spec fn vx_urel(n: U, r: Result<Self, ()>) -> bool;
    fn vx_try_from_u(n: U) -> (r: Result<Self, ()>) requires Self::vx_upre(n) ensures Self::vx_urel(n, r);
}
// std: `impl<T: From<U>, U> Into<T> for U`, and the same for TryInto
pub trait VxInto<T: VxFrom<Self>>: Sized { fn vx_into(self) -> (r: T) requires T::vx_pre(self) ensures T::vx_rel(self, r); }
impl<T: VxFrom<U>, U> VxInto<T> for U { fn vx_into(self) -> (r: T) { T::vx_from(self) } }
pub trait VxTryInto<T: VxTryFrom<Self>>: Sized { fn vx_try_into(self) -> (r: Result<T, ConversionError>) requires T::vx_tpre(self) ensures T::vx_trel(self, r); }
impl<T: VxTryFrom<U>, U> VxTryInto<T> for U { fn vx_try_into(self) -> (r: Result<T, ConversionError>) { T::vx_try_from(self) } }
// std: conversions between primitive integers; the crate turns TryFromIntError into its own error
impl<T: VxPrim, U: VxPrim> VxFrom<U> for T {
    open spec fn vx_pre(n: U) -> bool { T::fits(n.num()) }
    open spec fn vx_rel(n: U, r: T) -> bool { r.good() && r.num() == n.num() }
    #[verifier::external_body]
    fn vx_from(n: U) -> (r: T) { unimplemented!() }
}
impl<T: VxPrim, U: VxPrim> VxTryFrom<U> for T {
    open spec fn vx_tpre(n: U) -> bool { true }
    open spec fn vx_trel(n: U, r: Result<T, ConversionError>) -> bool { conv_ok(n.num(), r) }
    #[verifier::external_body]
    fn vx_try_from(n: U) -> (r: Result<T, ConversionError>) { unimplemented!() }
}
impl VxFrom<f32> for f32 { open spec fn vx_pre(n: f32) -> bool { true } open spec fn vx_rel(n: f32, r: f32) -> bool { r == n } fn vx_from(n: f32) -> (r: f32) { n } }
impl VxFrom<f64> for f64 { open spec fn vx_pre(n: f64) -> bool { true } open spec fn vx_rel(n: f64, r: f64) -> bool { r == n } fn vx_from(n: f64) -> (r: f64) { n } }
impl<'a> VxFrom<&'a str> for &'a str { open spec fn vx_pre(n: &'a str) -> bool { true } open spec fn vx_rel(n: &'a str, r: &'a str) -> bool { r@ == n@ } fn vx_from(n: &'a str) -> (r: &'a str) { n } }
pub proof fn one_len() ensures forall|d: BigInt| d.wf() && #[trigger] d.v() == 1 ==> d.val.0@.len() <= 1
{
    assert forall|d: BigInt| d.wf() && #[trigger] d.v() == 1 implies d.val.0@.len() <= 1 by {
        let s = seq![1u32];

        assert(val(s) == 1) by { reveal_with_fuel(vp, 3); reveal_with_fuel(pw, 2); }
        if d.val.0@.len() > 1 { canon_len_lt(s, d.val.0@); }
    }
}
// N26: the sink of a Display impl: what was written so far, and the `#` flag
#[verifier::external_body]
pub struct VxSink { x: u8 }
pub struct VxFmtError;
impl VxSink {
    pub uninterp spec fn out(&self) -> Seq<char>;
    pub uninterp spec fn alt(&self) -> bool;
    #[verifier::external_body]
    pub fn alternate(&self) -> (r: bool) ensures r == self.alt() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_write(f: &mut VxSink, s: String) -> (r: Result<(), VxFmtError>) ensures r is Ok ==> final(f).out() == old(f).out() + s@ { unimplemented!() }
pub open spec fn pos_of(b: Seq<BigInt>, u: Seq<UBigInt>, i: int) -> bool { b[i].wf() && b[i].v() == u[i].v() }
pub open spec fn pos_all(b: Seq<BigInt>, u: Seq<UBigInt>) -> bool { b.len() == u.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] pos_of(b, u, i) }
pub proof fn shrink_facts(x: &Ratio) requires x.wf()
    ensures x.numer.val.0@.len() < 0x80_0000_0000_0000, x.denom.val.0@.len() < 0x80_0000_0000_0000, x.denom.val.0@.len() > 1 ==> x.numer.v() != 0,
        forall|n: nat| n < x.denom.val.0@.len() ==> tdiv(x.denom.v(), #[trigger] pw(n) as int) > 0 || x.denom.val.0@.len() == 1,
        x.numer.val.0@.len() < x.denom.val.0@.len() ==> tdiv(x.denom.v(), x.numer.v()) != 0,
        forall|y: int| #[trigger] coprime(y, 1), forall|y: int| #[trigger] coprime(y, -1), forall|y: int| #[trigger] coprime(1, y),
{
    axiom_len(&x.numer.val.0); axiom_len(&x.denom.val.0);
    let d = x.denom.val.0@;
    let n = x.numer.val.0@;
    canon_bounds(d); canon_bounds(n);
    if x.numer.v() == 0 { coprime_zero(x.denom.v()); }
    assert forall|k: nat| k < d.len() && d.len() > 1 implies tdiv(x.denom.v(), #[trigger] pw(k) as int) > 0 by {
        pw_pos(k); pw_mono(k, (d.len() - 1) as nat);
        let a = val(d); let b = pw(k);
        assert(a / b >= 1) by(nonlinear_arith) requires a >= b, b >= 1;
    }
    if n.len() < d.len() {
        canon_len_lt(n, d);
        let a = val(d); let b = val(n);
        assert(a / b >= 1) by(nonlinear_arith) requires a >= b, b >= 1;
    }
    assert forall|y: int| #[trigger] coprime(y, 1) by { coprime_one(y); }
    assert forall|y: int| #[trigger] coprime(1, y) by { coprime_one(y); }
    assert forall|y: int| #[trigger] coprime(y, -1) by { coprime_one(y); coprime_sym(y, 1); }
}
