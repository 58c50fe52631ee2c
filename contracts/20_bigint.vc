@fn BigInt::len
@prop C11
@spec
    ensures r == self.val.0@.len(),
@fn BigInt::zero
@prop C04, C11
@spec
    ensures r.wf(), r.v() == 0,
@fn BigInt::one
@prop C04, C11
@spec
    ensures r.wf(), r.v() == 1,
@fn BigInt::is_zero
@prop C04, C05, C11
@spec
    requires self.wf(),
    ensures r == (self.v() == 0),
@fn BigInt::is_one
@prop C11
@spec
    requires self.wf(),
    ensures r == (self.v() == 1),
@fn BigInt::is_neg
@prop C05, C11
@spec
    ensures r == self._is_neg, self.wf() ==> r == (self.v() < 0),
@fn BigInt::from_raw
@prop C04, C11
@spec
    ensures r.val.0 == vec, r._is_neg == is_neg,
@fn BigInt::into_raw
@prop C04, C11
@spec
    ensures r.0@ == self.val.0@, r.1 == self._is_neg,
@fn BigInt::from_ubi
@prop C06, C11
@spec
    requires n.wf(),
    ensures r.wf(), r.v() == if is_neg { -(n.v() as int) } else { n.v() as int }, r.val.0@ == n.0@, r._is_neg == (is_neg && n.v() != 0),
@end
    proof { canon_unique(vx_r.val.0@, n.0@); }
@fn BigInt::to_ubi
@prop C06
@spec
    requires self.wf(),
    ensures r is Ok <==> self.v() >= 0, r matches Ok(x) ==> x.wf() && x.v() == self.v(), r matches Err(e) ==> e is NotInRange,
@fn BigInt::add
@prop C11
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.v() == self.v() + other.v(),
@fn BigInt::add_mut
@prop C11
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() + other.v(),
@fn BigInt::add_i32
@prop C11
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.v() + other,
@fn BigInt::add_i32_mut
@prop C11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() + other,
@fn BigInt::sub
@prop C11
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.v() == self.v() - other.v(),
@fn BigInt::sub_mut
@prop C11
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() - other.v(),
@fn BigInt::sub_i32
@prop C11
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.v() - other,
@fn BigInt::sub_i32_mut
@prop C11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() - other,
@fn BigInt::mul
@prop C11
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.v() == self.v() * other.v(),
@begin
    proof { mul_sign(self.v(), other.v()); mul_sign(self.val.v() as int, other.val.v() as int); }
@fn BigInt::mul_mut
@prop C11
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() * other.v(),
@begin
    proof { mul_sign(self.v(), other.v()); mul_sign(self.val.v() as int, other.val.v() as int); }
@fn BigInt::mul_i32
@prop C11
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.v() * other,
@begin
    proof { mul_sign(self.v(), other as int); mul_sign(self.val.v() as int, iabs(other as int) as int); }
@fn BigInt::mul_i32_mut
@prop C11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() * other,
@begin
    proof { mul_sign(self.v(), other as int); mul_sign(self.val.v() as int, iabs(other as int) as int); }
@fn BigInt::mul_pow2
@prop C11
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.v() * p2(exp as nat),
@begin
    proof { p2_pos(exp as nat); mul_sign(self.val.v() as int, p2(exp as nat) as int); }
@fn BigInt::mul_pow2_mut
@prop C11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() * p2(exp as nat),
@begin
    proof { p2_pos(exp as nat); mul_sign(self.val.v() as int, p2(exp as nat) as int); }
@fn BigInt::div
@prop C11
@spec
    requires self.wf(), other.wf(), other.v() != 0,
    ensures r.wf(), r.v() == tdiv(self.v(), other.v()),
@fn BigInt::div_mut
@prop C11
@spec
    requires old(self).wf(), other.wf(), other.v() != 0,
    ensures final(self).wf(), final(self).v() == tdiv(old(self).v(), other.v()),
@fn BigInt::div_i32
@prop C11
@spec
    requires self.wf(), other != 0,
    ensures r.wf(), r.v() == tdiv(self.v(), other as int),
@fn BigInt::div_i32_mut
@prop C11
@spec
    requires old(self).wf(), other != 0,
    ensures final(self).wf(), final(self).v() == tdiv(old(self).v(), other as int),
@fn BigInt::rem
@prop C11
@spec
    requires self.wf(), other.wf(), other.v() != 0,
    ensures r.wf(), r.v() == trem(self.v(), other.v()),
@begin
    proof { trem_def(self.v(), other.v()); }
@fn BigInt::rem_mut
@prop C11
@spec
    requires old(self).wf(), other.wf(), other.v() != 0,
    ensures final(self).wf(), final(self).v() == trem(old(self).v(), other.v()),
@begin
    proof { trem_def(self.v(), other.v()); }
@fn BigInt::rem_i32
@prop C11
@spec
    requires self.wf(), other != 0, self.val.0@.len() < 0x1_0000_0000 || -256 <= other <= 256,
    ensures r.wf(), r.v() == trem(self.v(), other as int),
@fn BigInt::rem_i32_mut
@prop C11
@spec
    requires old(self).wf(), other != 0, old(self).val.0@.len() < 0x1_0000_0000 || -256 <= other <= 256,
    ensures final(self).wf(), final(self).v() == trem(old(self).v(), other as int),
@fn BigInt::rem_pow2
@prop C11
@spec
    requires self.wf(), ispow2(iabs(other as int)),
    ensures r.wf(), r.v() == trem(self.v(), other as int),
@fn BigInt::pow_u32
@prop C11
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == ipow(self.v(), exp as nat),
@begin
    proof { ipow_neg(self.val.v() as int, exp as nat); ipow_pos(self.val.v() as int, exp as nat); }
@fn BigInt::pow_u32_mut
@prop C11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == ipow(old(self).v(), exp as nat),
@begin
    proof { ipow_neg(self.val.v() as int, exp as nat); ipow_pos(self.val.v() as int, exp as nat); }
@fn BigInt::pow2
@prop C11
@spec
    ensures r.wf(), r.v() == p2(exp as nat),
@fn BigInt::exp2
@prop C10, C11
@spec
    ensures r.wf(), r.v() == p2(n as nat),
@fn BigInt::log2
@prop C10
@spec
    requires self.wf(),
    ensures r.wf(), r.v() >= 0, self.v() == 0 ==> r.v() == 0, self.v() != 0 ==> p2(r.v() as nat) <= iabs(self.v()) < p2((r.v() + 1) as nat) && r.v() == vx_lg(iabs(self.v())),
@end
    proof { if self.v() != 0 { lg_uniq(iabs(self.v()), vx_r.v() as nat); } }
@fn BigInt::sqrt
@prop C08
@spec
    requires self.wf(),
    ensures r.wf(), self.v() >= 0 ==> r.v() >= 0, self.v() <= 0 ==> r.v() <= 0, iabs(r.v()) * iabs(r.v()) <= iabs(self.v()) < (iabs(r.v()) + 1) * (iabs(r.v()) + 1),
@end
    proof { let rr = iabs(vx_r.v()) as int; if self.v() == 0 { assert(rr == 0) by(nonlinear_arith) requires rr * rr <= 0, rr >= 0; } }
@fn BigInt::neg
@prop C11
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == -self.v(),
@fn BigInt::neg_mut
@prop C11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == -old(self).v(),
@fn BigInt::abs
@prop C11
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == iabs(self.v()),
@fn BigInt::abs_mut
@prop C11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == iabs(old(self).v()),
@fn BigInt::shift_right
@prop C11
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == tdiv(self.v(), pw(n as nat) as int),
@begin
    proof { pw_pos(n as nat); }
@fn BigInt::shift_right_mut
@prop C11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == tdiv(old(self).v(), pw(n as nat) as int),
@begin
    proof { pw_pos(n as nat); }
@fn BigInt::shift_left
@prop C11
@spec
    requires self.wf(), n <= 0x4000_0000_0000_0000,
    ensures r.wf(), r.v() == self.v() * pw(n as nat),
@begin
    proof { pw_pos(n as nat); mul_sign(self.val.v() as int, pw(n as nat) as int); }
@fn BigInt::shift_left_mut
@prop C11
@spec
    requires old(self).wf(), n <= 0x4000_0000_0000_0000,
    ensures final(self).wf(), final(self).v() == old(self).v() * pw(n as nat),
@begin
    proof { pw_pos(n as nat); mul_sign(self.val.v() as int, pw(n as nat) as int); }
@fn BigInt::slice_right
@prop C11
@spec
    requires self.wf(), n <= self.val.0@.len(),
    ensures r.wf(), r.v() == trem(self.v(), pw(n as nat) as int),
@begin
    proof { pw_pos(n as nat); }
@fn BigInt::slice_right_mut
@prop C11
@spec
    requires old(self).wf(), n <= old(self).val.0@.len(),
    ensures final(self).wf(), final(self).v() == trem(old(self).v(), pw(n as nat) as int),
@begin
    proof { pw_pos(n as nat); }
@fn BigInt::lt
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() < other.v()),
@fn BigInt::lt_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() < other),
@fn BigInt::gt
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() > other.v()),
@fn BigInt::gt_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() > other),
@fn BigInt::eq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() == other.v()),
@begin
    proof { if self.v() == other.v() { bi_unique(*self, *other); } }
@fn BigInt::eq_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() == other),
@fn BigInt::neq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() != other.v()),
@begin
    proof { if self.v() == other.v() { bi_unique(*self, *other); } }
@fn BigInt::neq_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() != other),
@fn BigInt::leq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() <= other.v()),
@fn BigInt::leq_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() <= other),
@fn BigInt::geq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() >= other.v()),
@fn BigInt::geq_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() >= other),
@fn BigInt::comp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == ord_of(self.v(), other.v()),
@fn BigInt::comp_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == ord_of(self.v(), other as int),
@fn BigInt::from_i32
@prop C06
@spec
    ensures r.wf(), r.v() == n,
@fn BigInt::to_i32
@prop C06
@spec
    requires self.wf(),
    ensures r is Ok <==> i32::MIN <= self.v() <= i32::MAX, r matches Ok(x) ==> x == self.v(), r matches Err(e) ==> e is NotInRange,
@fn BigInt::from_i64
@prop C06
@spec
    ensures r.wf(), r.v() == n,
@fn BigInt::to_i64
@prop C06
@spec
    requires self.wf(),
    ensures r is Ok <==> i64::MIN <= self.v() <= i64::MAX, r matches Ok(x) ==> x == self.v(), r matches Err(e) ==> e is NotInRange,
@fn BigInt::from_i128
@prop C06
@spec
    ensures r.wf(), r.v() == n,
@fn BigInt::to_i128
@prop C06
@spec
    requires self.wf(),
    ensures r is Ok <==> i128::MIN <= self.v() <= i128::MAX, r matches Ok(x) ==> x == self.v(), r matches Err(e) ==> e is NotInRange,
@begin
    proof { assert((1u128 << 127) == 0x8000_0000_0000_0000_0000_0000_0000_0000u128) by(bit_vector);
        assert((0x8000_0000_0000_0000_0000_0000_0000_0000u128 as i128) == i128::MIN) by(bit_vector); }
@fn gcd_bi
@prop C09, C12
@spec
    requires a.wf(), b.wf(),
    ensures r.wf(), r.v() == gcd(iabs(a.v()), iabs(b.v())), is_gcd(r.v(), a.v(), b.v()),
@begin
    proof { gcd_is_gcd(iabs(a.v()), iabs(b.v())); is_gcd_neg(gcd(iabs(a.v()), iabs(b.v())) as int, a.v(), b.v()); }
@fn BigInt::is_prime
@prop C09
@spec
    requires self.wf(), self.val.0@.len() < 0x1_0000_0000,
    ensures r == prime(if self.v() < 0 { -self.v() } else { self.v() }),
@fn BigInt::factorial
@prop C10
@spec
    ensures r.wf(), r.v() == fact(n as nat),
@fn BigInt::fibonacci
@prop C10
@spec
    ensures r.wf(), r.v() == fib(n as nat),
