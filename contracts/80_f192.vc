@const SIGN_MASK
@const EXP_COEFF
@const F192::ZERO
@const F192::ONE
@fn F192::is_zero
@prop C18
@spec
    ensures r == self.z(),
@fn F192::is_neg
@prop C18
@spec
    ensures r == self.sg(),
@begin
    proof { f_bits(self.digits); }
@fn F192::is_integer
@prop C18
@spec
    requires self.wf(), self.exp < 0x8000_0000_0000_0000,
    ensures r <==> exists|k: int| #[trigger] isint(k, self.fv()),
@begin
    proof {
        fv_sign(self);
        if self.z() { assert(isint(0, self.fv())); }
        else if self.e() >= 0 { f_big(self); assert(isint(self.m() * (p2(self.e() as nat) as int), self.fv())); }
        else if self.e() < -127 { f_small(self); f_frac(self); }
        else { f_int(self); trunc_bits(self.digits, (-self.e()) as u32); }
    }
@fn F192::abs
@prop C18
@spec
    requires self.wf(),
    ensures r.wf(), r.fv() == (if self.fv() < 0real { 0real - self.fv() } else { self.fv() }),
@begin
    proof { f_bits(self.digits); fv_sign(self); }
@fn F192::neg
@prop C18
@spec
    requires self.wf(),
    ensures !self.z() ==> r.exp == self.exp && r.sg() != self.sg(), self.z() ==> r.z(), r.wf(), r.fv() == 0real - self.fv(),
@begin
    proof { f_bits(self.digits); fv_sign(self); }
@end
    proof { fv_sign(&vx_r); }
@fn F192::Ord::cmp
@prop C18
@spec
    requires self.wf(), other.wf(),
    ensures f_ord(r, self.fv(), other.fv()),
@begin
    proof { fv_sign(self); fv_sign(other); if self.sg() == other.sg() { fv_cmp(self, other); fv_cmp(other, self); } }
@fn F192::PartialOrd::partial_cmp
@prop C18
@spec
    requires self.wf(), other.wf(),
    ensures r is Some, f_ord(r->0, self.fv(), other.fv()),
@fn F192::Default::default
@prop C18
@spec
    ensures r.wf(), r.fv() == 0real,
@end
    proof { fv_sign(&vx_r); }
@fn F192::shl
@prop C18
@spec
    requires self.wf(), self.z() || self.exp + other <= u64::MAX,
    ensures r.wf(), r.fv() == self.fv() * rz(other as int),
@begin
    proof { fv_sign(self); fv_shift(self.m(), self.e(), other as int); }
@end
    proof { fv_sign(&vx_r); }
@fn F192::shr
@prop C18
@spec
    requires self.wf(), self.z() || self.exp > other,
    ensures r.wf(), r.fv() == self.fv() * rz(-(other as int)),
@begin
    proof { fv_sign(self); fv_shift(self.m(), self.e(), -(other as int)); }
@end
    proof { fv_sign(&vx_r); }
@fn F192::from_u128
@prop C18
@spec
    ensures r.wf(), r.fv() == n as real, !r.sg(), r.z() <==> n == 0,
@begin
    proof { fv_sign(&F192_ZERO); }
@after let leading_zeros
    proof { shl_mul(digits, leading_zeros); p2_pos(leading_zeros as nat); f_bits(digits << leading_zeros); }
@end
    proof { if n != 0 { fv_norm(&vx_r, n as int, leading_zeros as nat); } }
@fn F192::from_i128
@prop C18
@spec
    ensures r.wf(), r.fv() == n as real,
@after let result
    proof { f_bits(result.digits); fv_sign(&result); fv_sign(&F192 { digits: (result.digits + T127) as u128, exp: result.exp }); }
@fn F192::to_u128
@prop C18
@spec
    requires self.wf(),
    ensures match r { Ok(n) => self.fv() >= 0real && n as real <= self.fv() < n as real + 1real, Err(_) => self.fv() < 0real || self.fv() >= 0x1_0000_0000_0000_0000_0000_0000_0000_0000int as real },
@begin
    proof { fv_sign(self); f_bits(self.digits); if !self.z() && !self.sg() { to_u(self); } if EXP_COEFF >= self.exp && EXP_COEFF - self.exp < 128 { shr_u128((self.digits | SIGN_MASK), (EXP_COEFF - self.exp) as u64); } }
@fn F192::to_i128
@prop C18
@spec
    requires self.wf(),
    ensures match r { Ok(n) => is_trunc(n as int, self.fv()), Err(_) => self.fv() <= (-0x8000_0000_0000_0000_0000_0000_0000_0001int) as real || self.fv() >= 0x8000_0000_0000_0000_0000_0000_0000_0000int as real },
@begin
    proof { fv_sign(self); assert((0x8000_0000_0000_0000_0000_0000_0000_0000u128 as i128) == i128::MIN) by(bit_vector); }
@fn F192::From<u8>::from F192::From<u16>::from F192::From<u32>::from F192::From<u64>::from F192::From<usize>::from F192::From<u128>::from F192::From<i8>::from F192::From<i16>::from F192::From<i32>::from F192::From<i64>::from F192::From<isize>::from F192::From<i128>::from
@prop C18
@spec
    ensures r.wf() && r.fv() == n as real,
@fn F192::TryFrom<f32>::try_from
@prop C18
@spec
    ensures match r { Ok(x) => fin32(n.to_bits_spec()) && x.wf() && x.fv() == fv32(n.to_bits_spec()), Err(_) => !fin32(n.to_bits_spec()) },
@begin
    proof { fv_sign(&F192_ZERO); p2_ieee(); }
@end
    proof { if vx_r is Ok { let x = vx_r->Ok_0; fv_sign(&x); f_pack(frac as u128, sign, 104); f_lift((0x80_0000 + frac) as int, exp - 127, 104); } }
@fn F192::TryFrom<f64>::try_from
@prop C18
@spec
    ensures match r { Ok(x) => fin64(n.to_bits_spec()) && x.wf() && x.fv() == fv64(n.to_bits_spec()), Err(_) => !fin64(n.to_bits_spec()) },
@begin
    proof { fv_sign(&F192_ZERO); p2_ieee(); }
@end
    proof { if vx_r is Ok { let x = vx_r->Ok_0; fv_sign(&x); f_pack(frac as u128, sign, 75); f_lift((0x10_0000_0000_0000 + frac) as int, exp - 127, 75); } }
@fn Ratio::From<&F192>::from
@prop C18
@needs F192::is_zero, F192::is_neg
@spec
    requires n.wf() && (-0x1_0000_0000 < n.e() < 0x1_0000_0000 || n.z()),
    ensures r.wf() && r.rv() == n.fv(),
@begin
    proof { fv_sign(n); f_bits(n.digits); p2_pos(rz_abs(n.e())); f_ratio(n); }
@fn Ratio::From<F192>::from
@prop C18
@needs F192::is_zero, F192::is_neg
@spec
    requires n.wf() && (-0x1_0000_0000 < n.e() < 0x1_0000_0000 || n.z()),
    ensures r.wf() && r.rv() == n.fv(),
@fn F192::truncate
@prop C18
@spec
    requires self.wf(), self.exp < 0x8000_0000_0000_0000,
    ensures r.wf(), r.z() || r.exp == self.exp, exists|k: int| #[trigger] is_trunc(k, self.fv()) && r.fv() == k as real,
@begin
    proof { fv_sign(self); if self.z() { assert(is_trunc(0, self.fv())); } else if self.e() >= 0 { f_big(self); } else if self.e() < -127 { f_small(self); } fv_sign(&F192_ZERO); }
@end
    proof { if !self.z() && -127 <= self.e() < 0 { f_trunc(self, &vx_r); } }
@fn F192::from_pow2
@prop C18
@spec
    requires -0x1_0000_0000_0000 + 127 < n < 0x4000_0000_0000_0000,
    ensures r.wf(), r.fv() == rz(n as int),
@begin
    proof { f_pow(n - 127); }
@fn F192::ilog2
@prop C18
@spec
    requires self.wf(), self.fv() > 0real, self.exp < 0x4000_0000_0000_0000,
    ensures exists|k: int| r.wf() && r.fv() == k as real && #[trigger] rz(k) <= self.fv() < rz(k + 1),
@begin
    proof { fv_sign(self); f_log(self); }
@fn F192::step_epsilon
@prop C18
@spec
    requires self.wf(), self.exp < u64::MAX, !self.z(),
    ensures r.wf(), r.sg() == self.sg(), r.exp == self.exp ==> r.mag() == self.mag() + 1, r.exp != self.exp ==> r.exp == self.exp + 1 && r.mag() == T127 && self.mag() == 2 * T127 - 1,
        rabs(r.fv()) == rabs(self.fv()) + rz(self.e()),
@begin
    proof { f_bits(self.digits); fv_sign(self); mag_step(self); }
@end
    proof { fv_sign(&vx_r); }
@fn F192::From<&Ratio>::from
@prop C18
@attr #[verifier::rlimit(60)]
@spec
    requires n.wf() && f_range(n.rv()),
    ensures fnear(r, n.rv()),
@begin
    let ghost x = n.rv();
    let ghost k1 = 0x20_0000_0000int;
    let ghost k2 = 0x20_0000_0000int;
    proof { fv_sign(&F192_ZERO); if x == 0real { f_near0(); } f_one(rabs(x)); }
@loop 0
    invariant n_abs.wf(), lower_bound.wf(), lower_bound.rv() == T127r(), upper_bound.wf(), upper_bound.rv() == 2real * T127r(),
        n_abs.rv() > 0real, n_abs.rv() * rz(exp - E0) == rabs(x), exp <= E0, 0 <= k1 <= 0x20_0000_0000, rz(-k1) <= rabs(x), exp - E0 + 128 + k1 > 0,
        (n_abs.rv() < 2real * T127r() || exp == E0),
    decreases (exp - E0 + 128 + k1),
@loop 0 begin
    proof {
        let w = rz(exp - E0); rz_step(exp - E0 - 1); f_pow(exp - E0);
        f_strict(n_abs.rv(), T127r(), w); rz_ltc(-k1, exp - E0 + 127);
        let (a, u) = (n_abs.rv(), rz(exp - E0 - 1));
        assert((a * 2real) * u == a * (2real * u)) by(nonlinear_arith);
    }
@loop 1
    invariant n_abs.wf(), lower_bound.wf(), lower_bound.rv() == T127r(), upper_bound.wf(), upper_bound.rv() == 2real * T127r(),
        n_abs.rv() >= T127r(), n_abs.rv() * rz(exp - E0) == rabs(x), 0 <= k2 <= 0x20_0000_0000, rabs(x) < rz(k2), 0 < exp <= E0 + k2,
        (exp < E0 ==> n_abs.rv() < 2real * T127r()),
    decreases (E0 + k2 - exp),
@loop 1 begin
    proof {
        let w = rz(exp - E0); rz_step(exp - E0);
        f_strict(1real, n_abs.rv(), w); rz_ltc(exp - E0, k2);
        let (a, u) = (n_abs.rv(), rz(exp - E0));
        assert((a / 2real) * (2real * u) == a * u) by(nonlinear_arith);
    }
@before let n_abs_rem
    let ghost y = n_abs.rv();
    let ghost e = exp - E0;
    let ghost nn = choose|k: int| #[trigger] is_trunc(k, y * 32real);
    proof { tdiv32(); trunc_all(y * 32real); trunc_all(y - T127r()); assert(n_abs.rv() * (32int as real) == y * 32real); }
@after let digits
    let ghost kk = digits + T127 as int;
    proof { assert(is_trunc(kk, y)); f_half(y, nn, kk); f_or(digits, (x < 0real)); if digits + 1 < T127 { f_or((digits + 1) as u128, (x < 0real)); } f_or(0, (x < 0real)); f_bits(digits); }
@end
    proof { let d = if nn % 32 > 15 { kk + 1 } else { kk }; f_near(&vx_r, x, y, e, d); }
@fn F192::From<Ratio>::from
@prop C18
@spec
    requires n.wf() && f_range(n.rv()),
    ensures fnear(r, n.rv()),
@fn u8::TryFrom<F192>::try_from u16::TryFrom<F192>::try_from u32::TryFrom<F192>::try_from u64::TryFrom<F192>::try_from usize::TryFrom<F192>::try_from u128::TryFrom<F192>::try_from i8::TryFrom<F192>::try_from i16::TryFrom<F192>::try_from i32::TryFrom<F192>::try_from i64::TryFrom<F192>::try_from isize::TryFrom<F192>::try_from i128::TryFrom<F192>::try_from
@prop C18
@spec
    requires n.wf(),
    ensures f_to_int(n.fv(), r),
@begin
    proof { fv_sign(&n); trunc_u(n.fv()); }
@closure 0 (ConversionError) -> (z: ())
    ensures true
@fn F192::add
@prop C19
@attr #[verifier::rlimit(60)]
@spec
    requires self.wf(), other.wf(), self.rg(), other.rg(),
    ensures fsum(r, self.fv() + other.fv()),
    decreases (if self.sg() != other.sg() { 1int } else { 0int }),
@begin
    proof { fv_sign(self); fv_sign(other); f_bits(self.digits); f_bits(other.digits); f_zero_sum(self, other); f_far(self, other); f_far(other, self);
        if !self.z() && !other.z() && self.sg() == other.sg() { if self.exp - other.exp > 127 { f_addm(self, other, self); } else if other.exp - self.exp > 127 { f_addm(other, self, other); assert(self.fv() + other.fv() == other.fv() + self.fv()); } } }
    proof { if self.exp > other.exp && self.exp - other.exp < 128 { shr_u128(other.digits | SIGN_MASK, (self.exp - other.exp) as u64); } else if other.exp - self.exp < 128 && self.exp <= other.exp { shr_u128(self.digits | SIGN_MASK, (other.exp - self.exp) as u64); } }
    proof { assert forall|d: u128| #![trigger (d & !0x8000_0000_0000_0000_0000_0000_0000_0000u128)] f_pack2(d, self.digits) && f_pack2(d, other.digits) by { f_pack2_ok(d, self.digits); f_pack2_ok(d, other.digits); } }
@end
    proof {
        if !self.z() && !other.z() && self.sg() == other.sg() { if self.exp > other.exp { f_addm(self, other, &vx_r); } else { f_addm(other, self, &vx_r); assert(self.fv() + other.fv() == other.fv() + self.fv()); } }
    }
@fn F192::sub
@prop C19
@spec
    requires self.wf(), other.wf(), self.rg(), other.rg(),
    ensures fsum(r, self.fv() - other.fv()),
    decreases (if self.sg() != other.sg() { 1int } else { 0int }),
@begin
    proof { fv_sign(self); fv_sign(other); f_zero_sum(self, other); f_sub_range(self, other); near_sum_all(self.fv() - other.fv()); neg_sum_all(); }
@fn F192::mul
@prop C19
@attr #[verifier::rlimit(60)]
@spec
    requires self.wf(), other.wf(), self.rg(), other.rg(),
    ensures fclose(r, self.fv() * other.fv()),
@begin
    proof { fv_sign(self); fv_sign(other); f_bits(self.digits); f_bits(other.digits); f_mul0(self, other); fv_sign(&F192_ZERO); f_split(SIGN_MASK | self.digits); f_split(SIGN_MASK | other.digits); }
@before let mul_hi
    let ghost (h1, l1, h2, l2) = (digits1_hi as int, digits1_lo as int, digits2_hi as int, digits2_lo as int);
    proof { f_prod(h1, h2); f_prod(h1, l2); f_prod(h2, l1); }
@before let digits
    let ghost S = h1 * h2 + mul_lo;
    proof { f_shr63((mul_lo1 + mul_lo2) as u128); f_mulm(h1, l1, h2, l2, mul_lo as int); }
@after let leading_zeros
    let ghost e = exp as int;
    proof {
        assert(digits == S);
        let k = leading_zeros as nat; p2_small(); if leading_zeros > 1 { p2_lt(1, k); f_opi(S, p2(k) as int, 4); }
        shl_mul(digits, leading_zeros);
        f_pack3((digits << leading_zeros), self.digits, other.digits);
        f_bits(digits << leading_zeros);
    }
@end
    proof { f_mulv(self, other, &vx_r, S, leading_zeros as nat); }
@fn F192::div_i32
@prop C19
@attr #[verifier::rlimit(60)]
@spec
    requires self.wf(), self.rg(), a != 0,
    ensures fsum(r, self.fv() / (a as real)),
@begin
    proof { fv_sign(self); f_bits(self.digits); f_div0(self, a as int); fv_sign(&F192_ZERO); }
@after let rem
    let ghost d0 = self.mag();
    let ghost (q, r0, A) = (d0 / a_abs as int, d0 % a_abs as int, a_abs as int);
    proof { f_dm(d0, A); p2_small(); assert(q * 1 == q && r0 * 1 == r0) by(nonlinear_arith); }
@loop 0
    invariant exp <= self.exp, self.exp > 0x8000_0000_0000, digits == q * p2((self.exp - exp) as nat), rem == r0 * p2((self.exp - exp) as nat), digits < 2 * T127, q >= 0x8000_0000_0000_0000_0000_0000, 0 <= r0 < A <= 0x8000_0000, (self.exp - exp < 64),
    decreases (2 * T127 - digits),
@loop 0 begin
    proof { let k = (self.exp - exp) as nat; f_dbl(q, r0, k); }
@loop 0 end
    proof { assert(p2((self.exp - exp) as nat) == 2 * p2((self.exp - exp - 1) as nat)); }
@before assign digits#2
    let ghost k = (self.exp - exp) as nat;
    proof { f_divq(d0, A, k); f_fit(q, k); let s = (digits + rem / a_abs) as u128; f_bits(s); f_or((s as int % T127 as int) as u128, self.sg() != (a < 0)); }
@end
    proof { f_divv(self, a as int, &vx_r, k); }
@fn F192::mul_i32
@prop C19
@attr #[verifier::rlimit(60)]
@spec
    requires self.wf(), self.rg(),
    ensures fsum(r, self.fv() * (a as real)),
@begin
    proof { fv_sign(self); f_bits(self.digits); f_mulz(self, a as int); fv_sign(&F192_ZERO); f_split32(self.digits | SIGN_MASK); }
@before let rem
    proof { f_m32(self.mag(), a_abs as int); }
@after let rem
    let ghost d0 = self.mag();
    let ghost A = a_abs as int;
    let ghost (hi, lo) = (d0 / 0x1_0000_0000, d0 % 0x1_0000_0000);
    let ghost (q, r0) = (hi * A, lo * A);
    proof { p2_small(); assert(q * 1 == q && r0 * 1 == r0) by(nonlinear_arith); }
@loop 0
    invariant exp <= self.exp + 32, self.exp > 0x8000_0000_0000, self.exp < 0x2_0000_0000_0000, digits == q * p2((self.exp + 32 - exp) as nat), rem == r0 * p2((self.exp + 32 - exp) as nat), digits < 2 * T127, q >= 0x8000_0000_0000_0000_0000_0000, 0 <= r0 < 0x8000_0000_0000_0000, (self.exp + 32 - exp < 64),
    decreases (2 * T127 - digits),
@loop 0 begin
    proof { let k = (self.exp + 32 - exp) as nat; f_dbl(q, r0, k); }
@loop 0 end
    proof { assert(p2((self.exp + 32 - exp) as nat) == 2 * p2((self.exp + 32 - exp - 1) as nat)); }
@before assign rem#1
    let ghost k = (self.exp + 32 - exp) as nat;
    let ghost S = digits + rem as int / 0x1_0000_0000;
    proof {
        f_mulq(d0, A, k);
        let s1 = S as u128; f_bits(s1); f_or((s1 as int % T127 as int) as u128, self.sg() != (a < 0));
        let s2 = (S / 2) as u128; f_bits(s2); f_or((s2 as int % T127 as int) as u128, self.sg() != (a < 0));
    }
@end
    proof { f_mulv32(self, a as int, &vx_r, k, S); }
@fn F192::floor
@prop C19
@spec
    requires self.wf(), self.rg(),
    ensures r.wf(), exists|k: int| #[trigger] is_floor(k, self.fv()) && r.fv() == k as real,
@begin
    proof { fv_sign(self); f_ones(); }
@after let t
    let ghost k0 = choose|k: int| #[trigger] is_trunc(k, self.fv()) && t.fv() == k as real;
    proof { f_round_prep(self, &t, k0); assert(is_floor(k0 - 1, self.fv()) || is_floor(k0, self.fv())); }
@fn F192::ceil
@prop C19
@spec
    requires self.wf(), self.rg(),
    ensures r.wf(), exists|k: int| #[trigger] is_floor(-k, 0real - self.fv()) && r.fv() == k as real,
@begin
    proof { fv_sign(self); f_ones(); }
@after let t
    let ghost k0 = choose|k: int| #[trigger] is_trunc(k, self.fv()) && t.fv() == k as real;
    proof { f_round_prep(self, &t, k0); assert(is_floor(-(k0 + 1), 0real - self.fv()) || is_floor(-k0, 0real - self.fv())); }
@fn F192::round
@prop C19
@spec
    requires self.wf(), self.rg(),
    ensures r.wf(), exists|k: int| #[trigger] is_round(k, self.fv()) && r.fv() == k as real,
@begin
    proof { fv_sign(self); f_ones(); f_halfv(); }
@after let t
    let ghost k0 = choose|k: int| #[trigger] is_trunc(k, self.fv()) && t.fv() == k as real;
    proof { f_round_prep(self, &t, k0); assert(is_round(k0, self.fv()) || is_round(k0 - 1, self.fv()) || is_round(k0 + 1, self.fv())); }
@after let f
    proof { assert(f.fv() == self.fv() - k0 as real); assert(F192_ONE.fv() == 1real); }
@end
    proof {
        let d = self.fv() - k0 as real;
        if *self != t { if d <= 0real - 0.5real { assert(is_round(k0 - 1, self.fv())); } else if d >= 0.5real { assert(is_round(k0 + 1, self.fv())); } else { assert(is_round(k0, self.fv())); } }
    }
@fn F192::frac
@prop C19
@spec
    requires self.wf(), self.rg(),
    ensures r.wf(), exists|k: int| #[trigger] is_trunc(k, self.fv()) && r.fv() == self.fv() - k as real,
@begin
    proof { fv_sign(self); f_round_all(self); }
