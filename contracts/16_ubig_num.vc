@fn UBigInt::rem_u32
@prop C03
@spec
    requires self.wf(), other != 0, self.0@.len() < 0x1_0000_0000 || other <= 256,
    ensures r.wf(), r.v() == self.v() % (other as nat),
@loop 0
    invariant 0 <= $c <= self.0@.len(), $e == self.0@.len(), self.0@.len() < 0x80_0000_0000_0000, self.0@.len() < 0x1_0000_0000 || other <= 256, 0 < other < 0x1_0000_0000,
        unit as nat == B % (other as nat), curr_power as nat % (other as nat) == pw($c as nat) % (other as nat), curr_power < 0x1_0000_0000,
        result as nat % (other as nat) == vp(self.0@, $c as nat) % (other as nat), result <= $c * (other - 1),
    decreases $e - $c,
@loop 0 before
    proof { axiom_len(&self.0); assert(0nat % (other as nat) == 0) by(nonlinear_arith) requires other > 0; assert(0 * (other - 1) == 0) by(nonlinear_arith); assert(curr_power == 1); }
@loop 0 top
    proof { if other <= 256 { assert(result <= 0x80_0000_0000_0000 * 255) by(nonlinear_arith) requires result <= $c * (other - 1), $c < 0x80_0000_0000_0000, other <= 256, other > 0; } else { assert(result <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires result <= $c * (other - 1), $c < 0xffff_ffff, other <= 0xffff_ffff, other > 0; } }
    let ghost r0 = result as int; let ghost c0 = curr_power as int;
@loop 0 begin
    proof { rem_step(self.0@, ($c - 1) as nat, *d, r0, c0, unit as int, other as int); }
@fn UBigInt::rem_u32_mut
@prop C03
@spec
    requires old(self).wf(), other != 0, old(self).0@.len() < 0x1_0000_0000 || other <= 256,
    ensures final(self).wf(), final(self).v() == old(self).v() % (other as nat),
@loop 0
    invariant 0 <= $c <= self.0@.len(), $e == self.0@.len(), self.0@.len() < 0x80_0000_0000_0000, self.0@.len() < 0x1_0000_0000 || other <= 256, 0 < other < 0x1_0000_0000,
        unit as nat == B % (other as nat), curr_power as nat % (other as nat) == pw($c as nat) % (other as nat), curr_power < 0x1_0000_0000,
        result as nat % (other as nat) == vp(self.0@, $c as nat) % (other as nat), result <= $c * (other - 1),
    decreases $e - $c,
@loop 0 before
    proof { axiom_len(&self.0); assert(0nat % (other as nat) == 0) by(nonlinear_arith) requires other > 0; assert(0 * (other - 1) == 0) by(nonlinear_arith); assert(curr_power == 1); }
@loop 0 top
    proof { if other <= 256 { assert(result <= 0x80_0000_0000_0000 * 255) by(nonlinear_arith) requires result <= $c * (other - 1), $c < 0x80_0000_0000_0000, other <= 256, other > 0; } else { assert(result <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires result <= $c * (other - 1), $c < 0xffff_ffff, other <= 0xffff_ffff, other > 0; } }
    let ghost r0 = result as int; let ghost c0 = curr_power as int;
@loop 0 begin
    proof { rem_step(self.0@, ($c - 1) as nat, *d, r0, c0, unit as int, other as int); }
@fn UBigInt::rem_pow2
@prop C03
@spec
    requires self.wf(), ispow2(other as nat),
    ensures r.wf(), r.v() == self.v() % (other as nat),
@begin
    proof { rem_p2(self.0@, other as nat); }
@fn log2_u32
@prop C10, C02
@spec
    ensures n == 0 ==> r == 0, n != 0 ==> p2(r as nat) <= n < p2(r as nat + 1) && r < 32,
@fn UBigInt::log2
@prop C10
@spec
    requires self.wf(),
    ensures r.wf(), self.v() == 0 ==> r.v() == 0, self.v() != 0 ==> p2(r.v()) <= self.v() < p2(r.v() + 1),
@begin
    proof { axiom_len(&self.0); canon_bounds(self.0@); log2_val(self.0@); }
@fn UBigInt::pow2
@prop C02
@spec
    ensures r.wf(), r.v() == p2(exp as nat),
@end
    proof { pow2_val(vx_r.0@, exp); }
@fn UBigInt::exp2
@prop C10
@spec
    ensures r.wf(), r.v() == p2(n as nat),
@begin
    proof { let a = (n % 32) as nat; let b = (n / 32) as nat; p2_add(a, 32 * b); p2_pw(b); assert(a + 32 * b == n); shl_p2_u32((n % 32) as u32); }
@fn UBigInt::pow_u32
@prop C02
@spec
    requires self.wf(),
    ensures r.wf(), r.v() as int == ipow(self.v() as int, exp as nat),
@begin
    let ghost e0 = exp as nat; let ghost b0 = self.v() as int;
    proof { ipow_1(b0); }
@loop 0
    invariant exp == e0, exp >= 3, 1 <= curr_exp <= exp, powers@.len() >= 1, curr_exp == p2((powers@.len() - 1) as nat), b0 == self.v(),
        forall|k: int| #![trigger powers@[k]] 0 <= k < powers@.len() ==> powers@[k].wf() && powers@[k].v() as int == ipow(b0, p2(k as nat)),
    ensures curr_exp > exp / 2,
    decreases exp - curr_exp,
@loop 0 end
    proof { let k = (powers@.len() - 2) as nat; ipow_add(b0, p2(k), p2(k)); }
@loop 0 before
    proof { assert(p2(0) == 1); ipow_1(b0); }
@loop 1 before
    proof { p2_pos((powers@.len()) as nat); }
@loop 1
    invariant b0 == self.v(), result.wf(), exp <= e0, result.v() as int == ipow(b0, (e0 - exp) as nat), exp < 2 * p2(powers@.len()) ==> true,
        curr_exp > 0 ==> powers@.len() >= 1 && curr_exp == p2((powers@.len() - 1) as nat), exp < p2(powers@.len()), curr_exp == 0 ==> powers@.len() == 0,
        forall|k: int| #![trigger powers@[k]] 0 <= k < powers@.len() ==> powers@[k].wf() && powers@[k].v() as int == ipow(b0, p2(k as nat)),
    decreases curr_exp,
@loop 1 top
    proof { ipow_add(b0, (e0 - exp) as nat, curr_exp as nat); p2_pos((powers@.len() - 1) as nat); if powers@.len() >= 2 { p2_pos((powers@.len() - 2) as nat); } }
@loop 1 after
    proof { assert(p2(0) == 1); }
@fn UBigInt::pow_u32_mut
@prop C02
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() as int == ipow(old(self).v() as int, exp as nat),
@fn gcd_ubi
@prop C09
@spec
    requires a.wf(), b.wf(),
    ensures r.wf(), r.v() == gcd(a.v(), b.v()), is_gcd(r.v() as int, a.v() as int, b.v() as int),
@begin
    let ghost (a0, b0) = (a.v(), b.v());
    proof { gcd_is_gcd(a0, b0); }
@loop 0
    invariant a.wf(), b.wf(), gcd(a.v(), b.v()) == gcd(a0, b0), b.v() > 0,
    decreases a.v(),
@loop 0 end
    proof { }
