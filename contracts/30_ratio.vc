@fn gcd_i64
@prop C09, C12
@spec
    requires a != i64::MIN, b != i64::MIN,
    ensures is_gcd(r as int, a as int, b as int),
@begin
    let ghost (a0, b0) = (iabs(a as int), iabs(b as int));
    proof { gcd_is_gcd(a0, b0); is_gcd_neg(gcd(a0, b0) as int, a as int, b as int); }
@loop 0
    invariant a >= 0, b >= 0, gcd(a as nat, b as nat) == gcd(a0, b0),
    decreases a,
@before let r
    proof { irem(b as int, a as int); }
@fn gcd_i32
@prop C09, C12
@spec
    requires !(a == i32::MIN && (b == 0 || b == i32::MIN)), !(b == i32::MIN && a == 0),
    ensures is_gcd(r as int, a as int, b as int),
@begin
    proof { gcd_i32_small(a as int, b as int); }
@fn Ratio::from_raw
@prop C12
@spec
    ensures r.denom.val.0 == denom, r.denom._is_neg == denom_neg, r.numer.val.0 == numer, r.numer._is_neg == numer_neg,
@fn Ratio::into_raw
@prop C12
@spec
    ensures r.0@ == self.denom.val.0@, r.1 == self.denom._is_neg, r.2@ == self.numer.val.0@, r.3 == self.numer._is_neg,
@fn Ratio::get_denom
@prop C12
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.denom.v(),
@fn Ratio::get_numer
@prop C12
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.numer.v(),
@fn Ratio::zero
@prop C12
@spec
    ensures r.wf(), r.rv() == 0real, r.denom.v() == 1, r.numer.v() == 0,
@end
    proof { coprime_one(0); q_one(0); }
@fn Ratio::one
@prop C12
@spec
    ensures r.wf(), r.rv() == 1real, r.denom.v() == 1, r.numer.v() == 1,
@end
    proof { coprime_one(1); q_one(1); }
@fn Ratio::is_neg
@prop C05, C12
@spec
    requires self.wf(),
    ensures r == (self.rv() < 0real), r == (self.numer.v() < 0),
@begin
    proof { q_def(self.numer.v(), self.denom.v()); }
@fn Ratio::is_one
@prop C05, C12
@spec
    requires self.wf(),
    ensures r == (self.rv() == 1real),
@begin
    proof { q_one(1); coprime_one(1); q_eq(self.numer.v(), self.denom.v(), 1, 1); if self.rv() == 1real { lowest_unique(self.denom.v(), self.numer.v(), 1, 1); } }
@fn Ratio::is_zero
@prop C05, C12
@spec
    requires self.wf(),
    ensures r == (self.rv() == 0real), r == (self.numer.v() == 0),
@begin
    proof { q_def(self.numer.v(), self.denom.v()); if self.numer.v() == 0 { coprime_zero(self.denom.v()); } }
@fn Ratio::is_integer
@prop C12
@spec
    requires self.wf(),
    ensures r == (self.denom.v() == 1), r == exists|k: int| self.rv() == #[trigger] q(k, 1),
@begin
    proof {
        let (n, d) = (self.numer.v(), self.denom.v());
        if d == 1 { assert(self.rv() == q(n, 1)); }
        if exists|k: int| self.rv() == #[trigger] q(k, 1) { let k = choose|k: int| self.rv() == #[trigger] q(k, 1); q_one(k); coprime_one(k); q_eq(n, d, k, 1); lowest_unique(d, n, 1, k); }
    }
@fn Ratio::fit
@prop C12
@spec
    requires old(self).denom.wf(), old(self).numer.wf(), old(self).denom.v() != 0,
    ensures final(self).wf(), final(self).rv() == q(old(self).numer.v(), old(self).denom.v()),
@begin
    proof { q_neg(self.numer.v(), self.denom.v()); }
    let ghost x = q(self.numer.v(), self.denom.v());
@after let r
    proof { lowest(self.denom.v(), self.numer.v(), r.v()); assert(q(self.numer.v(), self.denom.v()) == x); }
@fn Ratio::from_denom_and_numer
@prop C12
@spec
    requires denom.wf(), numer.wf(), denom.v() != 0,
    ensures r.wf(), r.rv() == q(numer.v(), denom.v()),
@fn Ratio::from_denom_and_numer_i32
@prop C12
@spec
    requires denom != 0,
    ensures r.wf(), r.rv() == q(numer as int, denom as int),
@after let r
    proof { lowest(denom as int, numer as int, r as int); if r == 1 { tdiv_exact(1, denom as int); tdiv_exact(1, numer as int); } tdiv_small(denom as int, r as int); tdiv_small(numer as int, r as int); }
    let ghost (d0, n0) = (tdiv(denom as int, r as int), tdiv(numer as int, r as int));
    proof { coprime_sym(d0, n0); coprime_sym(-d0, n0); q_neg(n0, d0); assert(iabs(d0) <= 0x8000_0000 && iabs(n0) <= 0x8000_0000); if r == 1 { assert(1 * denom == denom); assert(1 * numer == numer); assert(d0 == denom); assert(n0 == numer); } neg1(d0); neg1(n0); }
@after assign denom
    proof { assert(denom == d0); }
@after assign numer
    proof { assert(numer == n0); }
@fn Ratio::from_denom_and_numer_raw
@prop C12
@spec
    ensures r.denom == denom, r.numer == numer,
@fn Ratio::from_bi
@prop C12
@spec
    requires n.wf(),
    ensures r.wf(), r.rv() == n.v() as real, r.denom.v() == 1, r.numer.v() == n.v(),
@begin
    proof { coprime_one(n.v()); q_one(n.v()); }
@fn Ratio::from_ubi
@prop C12
@spec
    requires n.wf(),
    ensures r.wf(), r.rv() == n.v() as real, r.denom.v() == 1, r.numer.v() == n.v(),
@begin
    proof { coprime_one(n.v() as int); q_one(n.v() as int); }
@fn Ratio::from_i32
@prop C12
@spec
    ensures r.wf(), r.rv() == (n as int) as real, r.denom.v() == 1, r.numer.v() == n,
@begin
    proof { coprime_one(n as int); q_one(n as int); }
@fn Ratio::from_i64
@prop C12
@spec
    ensures r.wf(), r.rv() == (n as int) as real, r.denom.v() == 1, r.numer.v() == n,
@begin
    proof { coprime_one(n as int); q_one(n as int); }
@fn Ratio::from_i128
@prop C12
@spec
    ensures r.wf(), r.rv() == (n as int) as real, r.denom.v() == 1, r.numer.v() == n,
@begin
    proof { coprime_one(n as int); q_one(n as int); }
@fn Ratio::add
@prop C12
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.rv() == self.rv() + other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_ops(n, d, m, e); comm(d, m); comm(e, n); comm(n, e); comm(d, e); }
@fn Ratio::add_mut
@prop C12
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() + other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_ops(n, d, m, e); comm(d, m); comm(e, n); comm(n, e); comm(d, e); }
@fn Ratio::add_bi
@prop C12
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.rv() == self.rv() + (other.v() as real),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other.v()); q_int(n, d, k); coprime_add(d, n, k); comm(d, k); }
@fn Ratio::add_bi_mut
@prop C12
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() + (other.v() as real),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other.v()); q_int(n, d, k); coprime_add(d, n, k); comm(d, k); }
@fn Ratio::add_i32
@prop C12
@spec
    requires self.wf(),
    ensures r.wf(), r.rv() == self.rv() + ((other as int) as real),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other as int); q_int(n, d, k); coprime_add(d, n, k); comm(d, k); }
@fn Ratio::add_i32_mut
@prop C12
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() + ((other as int) as real),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other as int); q_int(n, d, k); coprime_add(d, n, k); comm(d, k); }
@fn Ratio::sub
@prop C12
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.rv() == self.rv() - other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_ops(n, d, m, e); comm(d, m); comm(e, n); comm(n, e); comm(d, e); }
@fn Ratio::sub_mut
@prop C12
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() - other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_ops(n, d, m, e); comm(d, m); comm(e, n); comm(n, e); comm(d, e); }
@fn Ratio::sub_bi
@prop C12
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.rv() == self.rv() - (other.v() as real),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other.v()); q_int(n, d, k); coprime_add(d, n, k); comm(d, k); }
@fn Ratio::sub_bi_mut
@prop C12
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() - (other.v() as real),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other.v()); q_int(n, d, k); coprime_add(d, n, k); comm(d, k); }
@fn Ratio::sub_i32
@prop C12
@spec
    requires self.wf(),
    ensures r.wf(), r.rv() == self.rv() - ((other as int) as real),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other as int); q_int(n, d, k); coprime_add(d, n, k); comm(d, k); }
@fn Ratio::sub_i32_mut
@prop C12
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() - ((other as int) as real),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other as int); q_int(n, d, k); coprime_add(d, n, k); comm(d, k); }
@fn Ratio::mul
@prop C12
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.rv() == self.rv() * other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_ops(n, d, m, e); comm(n, m); comm(d, e); }
@fn Ratio::mul_mut
@prop C12
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() * other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_ops(n, d, m, e); comm(n, m); comm(d, e); }
@fn Ratio::mul_bi
@prop C12
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.rv() == self.rv() * (other.v() as real),
@fn Ratio::mul_bi_mut
@prop C12
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() * (other.v() as real),
@after let r
    proof { mul_lowest(self.denom.v(), self.numer.v(), other.v(), r.v()); if r.v() == 1 { tdiv_exact(1, self.denom.v()); tdiv_exact(1, other.v()); } }
@fn Ratio::mul_i32
@prop C12
@spec
    requires self.wf(),
    ensures r.wf(), r.rv() == self.rv() * ((other as int) as real),
@begin
    proof { q_int(self.numer.v(), self.denom.v(), other as int); }
@fn Ratio::mul_i32_mut
@prop C12
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rv() == old(self).rv() * ((other as int) as real),
@begin
    proof { q_int(self.numer.v(), self.denom.v(), other as int); }
@fn Ratio::div
@prop C12
@spec
    requires self.wf(), other.wf(), other.rv() != 0real,
    ensures r.wf(), r.rv() == self.rv() / other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_ops(n, d, m, e); q_def(m, e); comm(d, m); comm(n, e); }
@fn Ratio::div_mut
@prop C12
@spec
    requires old(self).wf(), other.wf(), other.rv() != 0real,
    ensures final(self).wf(), final(self).rv() == old(self).rv() / other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_ops(n, d, m, e); q_def(m, e); comm(d, m); comm(n, e); }
@fn Ratio::div_bi
@prop C12
@spec
    requires self.wf(), other.wf(), other.v() != 0,
    ensures r.wf(), r.rv() == self.rv() / (other.v() as real),
@fn Ratio::div_bi_mut
@prop C12
@spec
    requires old(self).wf(), other.wf(), other.v() != 0,
    ensures final(self).wf(), final(self).rv() == old(self).rv() / (other.v() as real),
@after let r
    let ghost (d0, n0, g) = (self.denom.v(), self.numer.v(), r.v());
    proof {
        div_lowest(d0, n0, other.v(), g);
        if g == 1 { tdiv_exact(1, n0); tdiv_exact(1, other.v()); }
        let (x, y) = (d0 * tdiv(other.v(), g), tdiv(n0, g));
        coprime_sym(x, y); coprime_sym(-x, y); q_neg(y, x);
    }
@fn Ratio::div_i32
@prop C12
@spec
    requires self.wf(), other != 0,
    ensures r.wf(), r.rv() == self.rv() / ((other as int) as real),
@begin
    proof { q_int(self.numer.v(), self.denom.v(), other as int); }
@fn Ratio::div_i32_mut
@prop C12
@spec
    requires old(self).wf(), other != 0,
    ensures final(self).wf(), final(self).rv() == old(self).rv() / ((other as int) as real),
@begin
    proof { q_int(self.numer.v(), self.denom.v(), other as int); }
@fn Ratio::pow_i32
@prop C12
@spec
    requires self.wf(), exp >= 0 || self.rv() != 0real,
    ensures r.wf(), r.rv() == if exp >= 0 { rpow(self.rv(), exp as nat) } else { 1real / rpow(self.rv(), (-exp) as nat) },
@begin
    proof { pow_ratio(self.denom.v(), self.numer.v(), iabs(exp as int)); q_def(self.numer.v(), self.denom.v()); }
@fn Ratio::pow_i32_mut
@prop C12
@spec
    requires old(self).wf(), exp >= 0 || old(self).rv() != 0real,
    ensures final(self).wf(), final(self).rv() == if exp >= 0 { rpow(old(self).rv(), exp as nat) } else { 1real / rpow(old(self).rv(), (-exp) as nat) },
@begin
    proof { pow_ratio(self.denom.v(), self.numer.v(), iabs(exp as int)); q_def(self.numer.v(), self.denom.v()); }
@fn Ratio::neg
@prop C12
@spec
    requires self.wf(),
    ensures r.wf(), r.rv() == 0real - self.rv(),
@begin
    proof { q_neg(self.numer.v(), self.denom.v()); coprime_sym(self.denom.v(), self.numer.v()); }
@fn Ratio::neg_mut
@prop C12
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rv() == 0real - old(self).rv(),
@begin
    proof { q_neg(self.numer.v(), self.denom.v()); coprime_sym(self.denom.v(), self.numer.v()); }
@fn Ratio::abs
@prop C12
@spec
    requires self.wf(),
    ensures r.wf(), r.rv() == rabs(self.rv()),
@begin
    proof { q_neg(self.numer.v(), self.denom.v()); coprime_sym(self.denom.v(), self.numer.v()); }
@fn Ratio::abs_mut
@prop C12
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rv() == rabs(old(self).rv()),
@begin
    proof { q_neg(self.numer.v(), self.denom.v()); coprime_sym(self.denom.v(), self.numer.v()); }
@fn Ratio::reci
@prop C12
@spec
    requires self.wf(), self.rv() != 0real,
    ensures r.wf(), r.rv() == 1real / self.rv(),
@begin
    proof { reci_q(self.denom.v(), self.numer.v()); }
@fn Ratio::reci_mut
@prop C12
@spec
    requires old(self).wf(), old(self).rv() != 0real,
    ensures final(self).wf(), final(self).rv() == 1real / old(self).rv(),
@fn common_denom
@prop C05, C12
@spec
    requires a.wf(), b.wf(),
    ensures r.0.wf(), r.1.wf(), r.2.wf(), r.2.v() > 0, a.rv() == q(r.0.v(), r.2.v()), b.rv() == q(r.1.v(), r.2.v()),
@after let gcd
    proof { common_q(a.denom.v(), a.numer.v(), b.denom.v(), b.numer.v(), gcd.v()); }
@fn Ratio::truncate
@prop C13
@spec
    requires self.wf(),
    ensures r.wf(), r.denom.v() == 1, is_trunc(r.numer.v(), self.rv()), r.rv() == r.numer.v() as real,
@fn Ratio::truncate_mut
@prop C13
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).denom.v() == 1, is_trunc(final(self).numer.v(), old(self).rv()), final(self).rv() == final(self).numer.v() as real,
@begin
    proof { trunc_q(self.numer.v(), self.denom.v()); let k = tdiv(self.numer.v(), self.denom.v()); coprime_one(k); q_one(k); }
@fn Ratio::truncate_bi
@prop C13
@spec
    requires self.wf(),
    ensures r.wf(), is_trunc(r.v(), self.rv()), r.v() == tdiv(self.numer.v(), self.denom.v()),
@begin
    proof { trunc_q(self.numer.v(), self.denom.v()); }
@fn Ratio::frac
@prop C13
@spec
    requires self.wf(),
    ensures r.wf(), ({ let k = tdiv(self.numer.v(), self.denom.v()); is_trunc(k, self.rv()) && r.rv() == self.rv() - (k as real) }),
@begin
    proof { let (n, d) = (self.numer.v(), self.denom.v()); trunc_q(n, d); coprime_add(d, n, tdiv(n, d)); }
@fn Ratio::frac_mut
@prop C13
@spec
    requires old(self).wf(),
    ensures final(self).wf(), ({ let k = tdiv(old(self).numer.v(), old(self).denom.v()); is_trunc(k, old(self).rv()) && final(self).rv() == old(self).rv() - (k as real) }),
@begin
    proof { let (n, d) = (self.numer.v(), self.denom.v()); trunc_q(n, d); coprime_add(d, n, tdiv(n, d)); }
@fn Ratio::truncate_and_frac
@prop C13
@spec
    requires self.wf(),
    ensures r.0.wf(), r.1.wf(), is_trunc(r.0.v(), self.rv()), r.1.rv() == self.rv() - (r.0.v() as real), r.0.v() == tdiv(self.numer.v(), self.denom.v()), r.1.denom.v() == self.denom.v(), r.1.numer.v() == trem(self.numer.v(), self.denom.v()),
@begin
    proof { let (n, d) = (self.numer.v(), self.denom.v()); trunc_q(n, d); coprime_add(d, n, tdiv(n, d)); comm(d, tdiv(n, d)); }
@fn Ratio::floor
@prop C13
@spec
    requires self.wf(),
    ensures r.wf(), r.denom.v() == 1, is_floor(r.numer.v(), self.rv()), r.rv() == r.numer.v() as real,
@fn Ratio::floor_bi
@prop C13
@spec
    requires self.wf(),
    ensures r.wf(), is_floor(r.v(), self.rv()),
@begin
    proof { let (n, d) = (self.numer.v(), self.denom.v()); trunc_q(n, d); q_def(n, d); if d == 1 { q_one(n); } q_cmp_int(n, d, tdiv(n, d)); }
@fn Ratio::round
@prop C13
@spec
    requires self.wf(),
    ensures r.wf(), r.denom.v() == 1, is_round(r.numer.v(), self.rv()), r.rv() == r.numer.v() as real,
@fn Ratio::round_bi
@prop C13
@spec
    requires self.wf(),
    ensures r.wf(), is_round(r.v(), self.rv()),
@begin
    proof { let (n, d) = (self.numer.v(), self.denom.v()); trunc_q(n, d); round_q(n, d); q_def(n, d); }
@fn Ratio::lt
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.rv() < other.rv()),
@fn Ratio::gt
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.rv() > other.rv()),
@fn Ratio::eq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.rv() == other.rv()),
@begin
    proof { ratio_unique(*self, *other); }
@fn Ratio::neq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.rv() != other.rv()),
@begin
    proof { ratio_unique(*self, *other); }
@fn Ratio::leq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.rv() <= other.rv()),
@fn Ratio::geq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.rv() >= other.rv()),
@fn Ratio::comp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == Ordering::Less <==> self.rv() < other.rv(), r == Ordering::Equal <==> self.rv() == other.rv(), r == Ordering::Greater <==> self.rv() > other.rv(),
@begin
    proof { let (n, d, m, e) = (self.numer.v(), self.denom.v(), other.numer.v(), other.denom.v()); q_lt(n, d, m, e); q_lt(m, e, n, d); q_eq(n, d, m, e); comm(n, e); comm(m, d); }
@fn Ratio::lt_one
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.rv() < 1real),
@begin
    proof { q_cmp_int(self.numer.v(), self.denom.v(), 1); }
@fn Ratio::gt_one
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.rv() > 1real),
@begin
    proof { q_cmp_int(self.numer.v(), self.denom.v(), 1); }
@fn Ratio::lt_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.rv() < ((other as int) as real)),
@begin
    proof { q_cmp_int(self.numer.v(), self.denom.v(), other as int); }
@fn Ratio::gt_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.rv() > ((other as int) as real)),
@begin
    proof { q_cmp_int(self.numer.v(), self.denom.v(), other as int); }
@fn Ratio::eq_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.rv() == ((other as int) as real)),
@begin
    proof { let (n, d, k) = (self.numer.v(), self.denom.v(), other as int); q_cmp_int(n, d, k); q_one(k); q_eq(n, d, k, 1); coprime_one(k); if n == d * k { comm(d, k); lowest_unique(d, n, 1, k); } }
@fn Ratio::neq_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.rv() != ((other as int) as real)),
@fn Ratio::leq_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.rv() <= ((other as int) as real)),
@fn Ratio::geq_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.rv() >= ((other as int) as real)),
@fn Ratio::comp_i32
@prop C05
@spec
    requires self.wf(),
    ensures r == Ordering::Less <==> self.rv() < ((other as int) as real), r == Ordering::Equal <==> self.rv() == ((other as int) as real), r == Ordering::Greater <==> self.rv() > ((other as int) as real),
@begin
    proof { q_cmp_int(self.numer.v(), self.denom.v(), other as int); }
