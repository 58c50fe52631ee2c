@fn sqrt_u64
@prop C08
@attr #[verifier::rlimit(60)]
@attr #[verifier::loop_isolation(false)]
@spec
    ensures r as nat * r as nat <= n, n < (r as nat + 1) * (r as nat + 1), r < 0x1_0000_0000,
@begin
    let ghost n0 = n as int;
    proof { assert((0int + 1) * (0int + 1) == 1) by(nonlinear_arith); }
@after let l2
    let ghost pp = p2((l2 / 2) as nat) as int;
    proof { p2_small(); if l2 > 64 { p2_lt(64, l2 as nat); } p2_pos(l2 as nat); p2_pos((l2 / 2) as nat);
        if l2 > 28 { shr_p2(n, (l2 - 28) as u32, l2 as nat); } else { shl_p2(n, (28 - l2) as u32, l2 as nat); }
        sq_p2(l2 as nat, n0);
        if l2 / 2 < 31 { p2_lt((l2 / 2) as nat, 31); } }
@before let s
    proof { assert(frac < 0x1000_0000); let f = frac as int; assert(f * f <= f * 0x1000_0000) by(nonlinear_arith) requires 0 <= f < 0x1000_0000; }
@after let s
    proof { assert(0x1000_0000 <= s <= 0x1800_0000); }
@before let d
    proof { assert(0x1000_0000 <= s < 0x2200_0000); shl_p2_u128((l2 / 2) as u32);
        let ss = s as int;
        assert(pp * 0x1000_0000 <= pp * ss <= pp * 0x2200_0000) by(nonlinear_arith) requires 1 <= pp, 0x1000_0000 <= ss < 0x2200_0000; }
@after let result
    proof { let rr = result as int; assert(pp <= rr && 8 * rr <= 17 * pp); newton1(n0, pp, rr); }
    let ghost r0 = result as int;
@before assign div#1
    proof { newton2(n0, pp, result as int); }
@loop 0
    invariant n == n0, 1 <= pp <= 0x8000_0000, pp * pp <= n0 < 4 * (pp * pp), 1 <= div <= 4 * pp, result <= 6 * pp,
    decreases div,
@loop 0 top
    proof { sq_small(pp); }
@loop 1
    invariant n == n0, 1 <= pp <= 0x8000_0000, n0 < 4 * (pp * pp), 1 <= div <= 4 * pp, result <= 6 * pp,
        forall|x: int| 0 <= x <= 6 * pp ==> #[trigger] (x * x) < 0x1_0000_0000_0000_0000_0000,
    decreases 6 * pp + 1 - result,
@loop 1 top
    proof { sq_lt(result as int, pp, n0); }
@loop 2
    invariant n == n0, 1 <= pp <= 0x8000_0000, div * div <= n0, div == 1 || div >= 4, result <= 6 * pp,
        forall|x: int| 0 <= x <= 6 * pp ==> #[trigger] (x * x) < 0x1_0000_0000_0000_0000_0000,
        result * result >= n0 || (result + div) * (result + div) > n0,
    decreases result,
@loop 2 before
    proof { let dd = div as int; assert(dd <= pp); assert(dd * dd <= pp * pp) by(nonlinear_arith) requires 0 <= dd <= pp; }
@loop 2 top
    proof { let (rr, dd) = (result as int, div as int); assert(rr >= dd) by(nonlinear_arith) requires rr * rr > n0, dd * dd <= n0, rr >= 0, dd >= 1; }
@return 1
    proof { let rr = result as int; assert(rr * rr <= n0); assert((rr + 1) * (rr + 1) > n0) by(nonlinear_arith) requires rr * rr >= n0 || (rr + 1) * (rr + 1) > n0, rr >= 0;
        assert(rr < 0x1_0000_0000) by(nonlinear_arith) requires rr * rr <= 0xffff_ffff_ffff_ffff, rr >= 0; let x = vx_r as nat; assert(x == rr); assert(x * x == rr * rr); assert((x + 1) * (x + 1) == (rr + 1) * (rr + 1)); }
@fn UBigInt::sqrt
@prop C08
@attr #[verifier::rlimit(60)]
@spec
    requires self.wf(),
    ensures r.wf(), r.v() * r.v() <= self.v() < (r.v() + 1) * (r.v() + 1),
@begin
    proof { canon_bounds(self.0@); pw_1(); axiom_len(&self.0); if self.0@.len() < 3 { if self.0@.len() == 1 { assert(self.v() < B); } }
        else { let n = (self.0@.len() - 2) as nat; pw_add(2, n); pw_pos(n); let (v, p) = (self.v() as int, pw(n) as int); fdm(v, p);
            pw_add(1, n); let q = v / p;
            assert(B <= q < B * B) by(nonlinear_arith) requires v == q * p + v % p, 0 <= v % p < p, B * p <= v < B * B * p, p >= 1; } }
@return 0
    proof { assert(self.v() <= u64::MAX); }
@after let approx
    proof { let a = approx as int; assert(a >= 1) by(nonlinear_arith) requires a >= 0, (a + 1) * (a + 1) > B; sqrt_init(self.v() as int, self.0@.len(), a); }
@before let div
    proof { assert(self.0@.len() / 2 >= 1); }
@before call add_mut
    proof { newton_step(result.v() as int, self.v() as int); }
@loop 0
    invariant self.wf(), self.v() >= B * B, result.wf(), result.v() > 0, div.wf(), (result.v() + 2) * (result.v() + 2) > self.v(),
    ensures div.0@.len() < 2,
    decreases result.v(),
@loop 0 top
    proof { let rr = result.v() as int; newton_sub(rr, self.v() as int); newton_step(rr, self.v() as int); assert(rr * rr >= 0) by(nonlinear_arith); }
@loop 0 end
    proof { canon_bounds(div.0@); pw_1(); pw_mono(1, (div.0@.len() - 1) as nat); }
@loop 0 after
    proof { canon_bounds(div.0@); }
@loop 1
    invariant self.wf(), self.v() >= B * B, result.wf(), div >= 1,
    decreases div,
@loop 2
    invariant self.wf(), self.v() >= B * B, result.wf(), div >= 1,
    decreases (if result.v() <= self.v() { self.v() as int + 1 - result.v() as int } else { 0 }),
@loop 2 top
    proof { let rr = result.v() as int; let v = self.v() as int; assert(rr < v) by(nonlinear_arith) requires rr * rr < v, rr >= 0; }
@loop 3
    invariant self.wf(), self.v() >= B * B, result.wf(), div == 1 || div >= 4,
        result.v() * result.v() >= self.v() || (result.v() + div) * (result.v() + div) > self.v(),
    decreases result.v(),
@loop 3 top
    proof { let rr = result.v() as int; let v = self.v() as int; assert(rr >= B) by(nonlinear_arith) requires rr * rr > v, v >= B * B, rr >= 0; }
@return 1
    proof { let rr = result.v() as int; let v = self.v() as int; assert((rr + 1) * (rr + 1) > v) by(nonlinear_arith) requires rr * rr >= v || (rr + 1) * (rr + 1) > v, rr >= 0; }
