@fn inspect_ieee754_f32
@prop C15
@spec
    ensures match r {
        Ok((neg, exp, frac)) => fin32(n.to_bits_spec()) && (if exp == i32::MIN { fv32(n.to_bits_spec()) == 0real && frac == 0 && !neg } else {
            -149 <= exp <= 127 && frac < p2(23) && fv32(n.to_bits_spec()) == (if neg { 0real - ((p2(23) + frac) as real) * rz(exp - 23) } else { ((p2(23) + frac) as real) * rz(exp - 23) }) }),
        Err(e) => { let b = n.to_bits_spec(); !fin32(b) && (if b as nat % p2(23) != 0 { e is NotANumber } else if b as nat >= p2(31) { e is NegInfinity } else { e is Infinity }) },
    },
@begin
    let ghost b = n.to_bits_spec();
    let ghost m = (b as nat % p2(23)) as nat;
    proof { fields32(b); p2_ieee(); p2_small(); p2_ge(23); p2_ge(52); }
@before assign frac
    proof { subn(23, -149, m, (23 - to_shift) as nat); shl_u32_p2(m as u32, to_shift); }
@fn inspect_ieee754_f64
@prop C15
@spec
    ensures match r {
        Ok((neg, exp, frac)) => fin64(n.to_bits_spec()) && (if exp == i32::MIN { fv64(n.to_bits_spec()) == 0real && frac == 0 && !neg } else {
            -1074 <= exp <= 1023 && frac < p2(52) && fv64(n.to_bits_spec()) == (if neg { 0real - ((p2(52) + frac) as real) * rz(exp - 52) } else { ((p2(52) + frac) as real) * rz(exp - 52) }) }),
        Err(e) => { let b = n.to_bits_spec(); !fin64(b) && (if b as nat % p2(52) != 0 { e is NotANumber } else if b as nat >= p2(63) { e is NegInfinity } else { e is Infinity }) },
    },
@begin
    let ghost b = n.to_bits_spec();
    let ghost m = (b as nat % p2(52)) as nat;
    proof { fields64(b); p2_ieee(); p2_small(); p2_ge(23); p2_ge(52); }
@before assign frac
    proof { subn(52, -1074, m, (52 - to_shift) as nat); shl_u64_p2(m as u64, to_shift as u64); }
@fn Ratio::from_ieee754_f32
@prop C15
@spec
    ensures match r { Ok(x) => x.wf() && fin32(n.to_bits_spec()) && x.rv() == fv32(n.to_bits_spec()),
        Err(e) => { let b = n.to_bits_spec(); !fin32(b) && (if b as nat % p2(23) != 0 { e is NotANumber } else if b as nat >= p2(31) { e is NegInfinity } else { e is Infinity }) } },
@arm 0
    proof { p2_ieee(); if exp != i32::MIN { rz_frac((p2(23) + frac) as int, exp - 23); } }
@fn Ratio::from_ieee754_f64
@prop C15
@spec
    ensures match r { Ok(x) => x.wf() && fin64(n.to_bits_spec()) && x.rv() == fv64(n.to_bits_spec()),
        Err(e) => { let b = n.to_bits_spec(); !fin64(b) && (if b as nat % p2(52) != 0 { e is NotANumber } else if b as nat >= p2(63) { e is NegInfinity } else { e is Infinity }) } },
@arm 0
    proof { p2_ieee(); if exp != i32::MIN { rz_frac((p2(52) + frac) as int, exp - 52); } }
@fn Ratio::to_ieee754_f32
@prop C15
@attr #[verifier::rlimit(60)]
@attr #[verifier::loop_isolation(false)]
@spec
    requires self.wf(), self.denom.val.0@.len() <= 0x200_0000,
    ensures match r {
        Ok(f) => near32(f.to_bits_spec(), self.rv()) && rabs(self.rv()) <= flim(23, -149, 255),
        Err(e) => e is NotInRange && rabs(self.rv()) > flim(23, -149, 255),
    },
@begin
    let ghost x = self.rv();
    let ghost y = rabs(x);
    let ghost mut fu: nat = 3;
    proof {
        p2_ieee(); p2_small(); rz_at(); rz_step(-150);
        q_def(self.numer.v(), self.denom.v()); q_neg(self.numer.v(), self.denom.v());
        zero_ok32(x);
        size_log(self.denom);
    }
@after let approx_log2
    proof {
        let (a, b) = (vx_lg(iabs(self.numer.v()) as nat), vx_lg(self.denom.v() as nat));
        lg_is(iabs(self.numer.v()) as nat); lg_is(self.denom.v() as nat);
        assert(approx_log2.v() == a - b);
        ylog(iabs(self.numer.v()) as int, self.denom.v(), a, b);
        if a - b >= 129 { over(23, -149, 255, y, a - b); } else { rz_lt(a - b + 1, 129); }
        scale_facts(y, a - b);
        rcom(y, rz(0));
    }
@loop 0
    invariant self_clone.wf(), self_clone.rv() * rz(exp as int) == y, self_clone.rv() > 1real / 8real, self_clone.rv() <= (p2(fu) as real), fu <= 3, -0x4000_0008 <= exp - (3 - fu), exp <= 2000 - fu,
    decreases fu,
@loop 0 begin
    proof { half(self_clone.rv(), exp as int, y); if fu > 0 { hom(2, p2((fu - 1) as nat) as int); } fu = (fu - 1) as nat; }
@loop 0 after
    proof { fu = 3; }
@loop 1
    invariant self_clone.wf(), self_clone.rv() * rz(exp as int) == y, 0real < self_clone.rv() < 2real, self_clone.rv() * (p2(fu) as real) >= 1real, fu <= 3, -0x4000_0010 <= exp - fu, exp <= 2000,
    decreases fu,
@loop 1 begin
    proof { let r0 = self_clone.rv(); assert(r0 * 1real == r0) by(nonlinear_arith); double(r0, exp as int, y); if fu > 0 { dbl_lower(self_clone.rv(), fu); } fu = (fu - 1) as nat; }
@loop 1 after
    proof {
        norm_exp(self_clone.rv(), exp as int, y, 129);
        if exp < -126 { p2_pos((-126 - exp) as nat); sub_scale(self_clone.rv(), exp as int, y, -126); }
        if exp < -150 { if exp + 1 < -150 { rz_lt(exp + 1, -150); } }
    }
@before let frac
    let ghost e = (exp + 126) as nat;
    let ghost z = self_clone.rv() * (p2(23) as real);
    proof { units(23, self_clone.rv(), exp as int, y); assert(1i32 << 23 == 0x800000) by(bit_vector); }
@after let frac
    let ghost n = frac.v() as nat;
    proof { q_def(1, 2); hom(n as int, 2 * p2(23) as int); hom(n as int + 1, p2(23) as int); }
@after let frac#1
    proof {
        finish32(x, e, z, n, frac as nat);
        shl_u32_p2(e as u32, 23); sign_or(((e as int) * p2(23) + frac) as u32, ((e as int) * p2(23) + frac) as u64);
        assert((255u32 << 23) == 255 * 0x800000) by(bit_vector);
        assert((1u32 << 31) == 0x80000000 && (0u32 << 31) == 0) by(bit_vector);
    }
@fn Ratio::to_ieee754_f64
@prop C15
@attr #[verifier::rlimit(60)]
@attr #[verifier::loop_isolation(false)]
@spec
    requires self.wf(), self.denom.val.0@.len() <= 0x200_0000,
    ensures match r {
        Ok(f) => near64(f.to_bits_spec(), self.rv()) && rabs(self.rv()) <= flim(52, -1074, 2047),
        Err(e) => e is NotInRange && rabs(self.rv()) > flim(52, -1074, 2047),
    },
@begin
    let ghost x = self.rv();
    let ghost y = rabs(x);
    let ghost mut fu: nat = 3;
    proof {
        p2_ieee(); p2_small(); rz_at(); rz_step(-1075);
        q_def(self.numer.v(), self.denom.v()); q_neg(self.numer.v(), self.denom.v());
        zero_ok64(x);
        size_log(self.denom);
    }
@after let approx_log2
    proof {
        let (a, b) = (vx_lg(iabs(self.numer.v()) as nat), vx_lg(self.denom.v() as nat));
        lg_is(iabs(self.numer.v()) as nat); lg_is(self.denom.v() as nat);
        assert(approx_log2.v() == a - b);
        ylog(iabs(self.numer.v()) as int, self.denom.v(), a, b);
        if a - b >= 1025 { over(52, -1074, 2047, y, a - b); } else { rz_lt(a - b + 1, 1025); }
        scale_facts(y, a - b);
        rcom(y, rz(0));
    }
@loop 0
    invariant self_clone.wf(), self_clone.rv() * rz(exp as int) == y, self_clone.rv() > 1real / 8real, self_clone.rv() <= (p2(fu) as real), fu <= 3, -0x4000_0008 <= exp - (3 - fu), exp <= 2000 - fu,
    decreases fu,
@loop 0 begin
    proof { half(self_clone.rv(), exp as int, y); if fu > 0 { hom(2, p2((fu - 1) as nat) as int); } fu = (fu - 1) as nat; }
@loop 0 after
    proof { fu = 3; }
@loop 1
    invariant self_clone.wf(), self_clone.rv() * rz(exp as int) == y, 0real < self_clone.rv() < 2real, self_clone.rv() * (p2(fu) as real) >= 1real, fu <= 3, -0x4000_0010 <= exp - fu, exp <= 2000,
    decreases fu,
@loop 1 begin
    proof { let r0 = self_clone.rv(); assert(r0 * 1real == r0) by(nonlinear_arith); double(r0, exp as int, y); if fu > 0 { dbl_lower(self_clone.rv(), fu); } fu = (fu - 1) as nat; }
@loop 1 after
    proof {
        norm_exp(self_clone.rv(), exp as int, y, 1025);
        if exp < -1022 { p2_pos((-1022 - exp) as nat); sub_scale(self_clone.rv(), exp as int, y, -1022); }
        if exp < -1075 { if exp + 1 < -1075 { rz_lt(exp + 1, -1075); } }
    }
@before let frac
    let ghost e = (exp + 1022) as nat;
    let ghost z = self_clone.rv() * (p2(52) as real);
    proof { units(52, self_clone.rv(), exp as int, y); assert(1i64 << 52 == 0x10000000000000) by(bit_vector); }
@after let frac
    let ghost n = frac.v() as nat;
    proof { q_def(1, 2); hom(n as int, 2 * p2(52) as int); hom(n as int + 1, p2(52) as int); }
@after let frac#1
    proof {
        finish64(x, e, z, n, frac as nat);
        shl_u64_p2(e as u64, 52); sign_or(((e as int) * p2(52) + frac) as u32, ((e as int) * p2(52) + frac) as u64);
        assert((2047u64 << 52) == 2047 * 0x10000000000000) by(bit_vector);
        assert((1u64 << 63) == 0x8000000000000000 && (0u64 << 63) == 0) by(bit_vector);
    }
