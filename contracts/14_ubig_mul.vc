@fn UBigInt::shift_right
@prop C02, C03
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.v() / pw(n as nat), n < self.0@.len() ==> r.0@ == self.0@.skip(n as int),
@begin
    proof { shr_val(self.0@, n as nat); }
@fn UBigInt::shift_right_mut
@prop C02, C03
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() / pw(n as nat),
@begin
    proof { shr_val(self.0@, n as nat); }
@end
    proof { canon_bounds(self.0@); }
@fn UBigInt::shift_left
@prop C02, C03
@spec
    requires self.wf(), n <= 0x4000_0000_0000_0000,
    ensures r.wf(), r.v() == self.v() * pw(n as nat),
@begin
    proof { axiom_len(&self.0); }
@else 0 end
    proof { assert(vx_r.0@.skip(n as int) =~= self.0@); shl_val(self.0@, vx_r.0@, n as nat); }
@fn UBigInt::shift_left_mut
@prop C02, C03
@spec
    requires old(self).wf(), n <= 0x4000_0000_0000_0000,
    ensures final(self).wf(), final(self).v() == old(self).v() * pw(n as nat),
@begin
    let ghost s0 = self.0@; proof { axiom_len(&self.0); }
@then 0 end
    proof { assert(self.0@.skip(n as int) =~= s0); shl_val(s0, self.0@, n as nat); }
@end
    proof { assert(0 * pw(n as nat) == 0) by(nonlinear_arith); }
@fn UBigInt::slice_right
@prop C02
@spec
    requires self.wf(), n <= self.0@.len(),
    ensures r.wf(), r.v() == self.v() % pw(n as nat), r.0@.len() <= n || n == 0,
@begin
    proof { slice_val(self.0@, n as nat); pw_1(); }
@after let result
    proof { vp_ext(result@, self.0@, n as nat); }
@loop 0
    invariant result@.len() >= 1, val(result@) == vp(self.0@, n as nat), result@.len() <= n,
    decreases result@.len(),
@loop 0 begin
    let ghost s1 = result@;
@loop 0 end
    proof { vp_ext(result@, s1, result@.len()); assert(0 * pw(result@.len()) == 0) by(nonlinear_arith); }
@fn UBigInt::slice_right_mut
@prop C02
@spec
    requires old(self).wf(), n <= old(self).0@.len(),
    ensures final(self).wf(), final(self).v() == old(self).v() % pw(n as nat),
@begin
    let ghost s0 = self.0@;
    proof { slice_val(self.0@, n as nat); pw_1(); }
@after let result
    proof { vp_ext(result@, s0, n as nat); }
@loop 0
    invariant result@.len() >= 1, val(result@) == vp(s0, n as nat), result@.len() <= n,
    decreases result@.len(),
@loop 0 begin
    let ghost s1 = result@;
@loop 0 end
    proof { vp_ext(result@, s1, result@.len()); assert(0 * pw(result@.len()) == 0) by(nonlinear_arith); }
@fn UBigInt::mul
@prop C02
@attr #[verifier::spinoff_prover]
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.v() == self.v() * other.v(),
    decreases (if self.0@.len() > other.0@.len() { self.0@.len() } else { other.0@.len() }),
@begin
    proof { axiom_len(&self.0); axiom_len(&other.0); }
    let ghost (s, o) = (self.0@, other.0@);
@after let m
    proof { pw_pos(m as nat); }
@after let y0
    let ghost p = pw(m as nat);
    proof {
        pw_pos(m as nat);
        fdm(self.v() as int, p as int); fdm(other.v() as int, p as int);
        len_of_shift(s, x1.0@, m as nat); len_of_shift(o, y1.0@, m as nat);
    }
@before let z1
    proof {
        sum_len(s, x1.0@, x0.0@, m as nat);
        sum_len(o, y1.0@, y0.0@, m as nat);
        kara(x1.v() as int, x0.v() as int, y1.v() as int, y0.v() as int);
    }
@after let z1
    proof {
        axiom_len(&z1.0); axiom_len(&z2.0);
        pw_add(m as nat, m as nat);
        kara2(x1.v() as int, x0.v() as int, y1.v() as int, y0.v() as int, p as int);
    }
@loop 0
    invariant $c <= $e, $e == s.len(), s == self.0@, o == other.0@, result@.len() == s.len() + o.len(),
        s.len() >= 1, o.len() >= 1, s.len() <= 64 || o.len() <= 64, s.len() + o.len() <= usize::MAX,
        forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() ==> result@[k] <= 0x1_ffff_fffe * mul_cnt($c as int, k, o.len() as int),
        val64(result@) == vp(s, $c as nat) * val(o),
    decreases $e - $c,
@loop 0 before
    proof { vp64_zero(result@, result@.len()); assert(0 * val(o) == 0) by(nonlinear_arith); }
@loop 0 top
    let ghost r1 = result@;
@loop 0 begin
    assert(i < s.len());
@loop 1
    invariant $c <= $e, $e == o.len(), s == self.0@, o == other.0@, i < s.len(), $c0 == i + 1, result@.len() == s.len() + o.len(),
        s.len() >= 1, o.len() >= 1, s.len() <= 64 || o.len() <= 64, s.len() + o.len() <= usize::MAX,
        forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() ==> result@[k] <= 0x1_ffff_fffe * (mul_cnt(i as int, k, o.len() as int)) + (if i <= k < i + $c { 0xffff_ffff } else { 0int }) + (if i < k <= i + $c { 0xffff_ffff } else { 0int }),
        val64(result@) == val64(r1) + (s[i as int] as nat) * pw(i as nat) * vp(o, $c as nat),
    decreases $e - $c,
@loop 1 before
    proof { assert((s[i as int] as nat) * pw(i as nat) * 0 == 0) by(nonlinear_arith); assert(forall|k: int| mul_cnt(i as int, k, o.len() as int) <= 64 || true); }
@loop 1 top
    let ghost r2 = result@;
@loop 1 begin
    proof {
        mul_cnt_small(i as int, i + j, s.len() as int, o.len() as int);
        mul_cnt_small(i as int, i + j + 1, s.len() as int, o.len() as int);
        let (a, b) = (s[i as int] as nat, o[j as int] as nat);
        assert(a * b <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires a <= 0xffff_ffff, b <= 0xffff_ffff;
    }
@loop 1 end
    proof {
        let (a, b) = (s[i as int] as nat, o[j as int] as nat);
        let cu = curr as nat;
        vp64_add2(r2, result@, (i + j) as nat, cu % B, cu / B, result@.len());
        assert((cu % B) * pw((i + j) as nat) + (cu / B) * pw((i + j + 1) as nat) == cu * pw((i + j) as nat)) by {
            let p = pw((i + j) as nat); let (q, m) = (cu / B, cu % B);
            assert(pw((i + j + 1) as nat) == B * p);
            assert(m * p + q * (B * p) == cu * p) by(nonlinear_arith) requires cu == q * B + m;
        }
        pw_add(i as nat, j as nat);
        let (pi, pj, w) = (pw(i as nat), pw(j as nat), vp(o, j as nat));
        assert((a * b) * (pi * pj) == a * pi * (b * pj)) by(nonlinear_arith);
        assert(a * pi * (w + b * pj) == a * pi * w + a * pi * (b * pj)) by(nonlinear_arith);
    }
@loop 0 end
    proof {
        let (x, pi, w, v) = (s[i as int] as nat, pw(i as nat), vp(s, i as nat), val(o));
        assert((w + x * pi) * v == w * v + x * pi * v) by(nonlinear_arith);
        assert forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() implies result@[k] <= 0x1_ffff_fffe * mul_cnt(i as int + 1, k, o.len() as int) by {
            mul_cnt_step(i as int, k, o.len() as int);
        }
    }
@loop 0 after
    proof {
        assert forall|k: int| 0 <= k < result@.len() implies result@[k] < 0xffff_ffff_0000_0000 by {
            mul_cnt_small(s.len() as int, k, s.len() as int, o.len() as int);
        }
    }
@fn UBigInt::mul_mut
@prop C02
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() * other.v(),
@fn UBigInt::mul_u32
@prop C02
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.v() * other,
@fn UBigInt::mul_u32_mut
@prop C02
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() * other, final(self).0@.len() <= old(self).0@.len() + 1,
@begin
    let ghost s0 = self.0@;
@loop 0
    invariant $c <= $e, $e == s0.len(), self.0@.len() == s0.len(), carry < 0x1_0000_0000, carry <= other,
        forall|k: int| #![trigger self.0@[k]] #![trigger s0[k]] $c <= k < s0.len() ==> self.0@[k] == s0[k],
        vp(self.0@, $c as nat) + carry as nat * pw($c as nat) == vp(s0, $c as nat) * other,
    decreases $e - $c,
@loop 0 before
    proof { assert(0 * pw(0) == 0 && 0 * (other as nat) == 0) by(nonlinear_arith); }
@loop 0 top
    let ghost s1 = self.0@; let ghost c1 = carry as nat;
@loop 0 begin
    proof { let (a, b) = (s0[i as int] as nat, other as nat); assert(a * b <= 0xffff_ffff * b) by(nonlinear_arith) requires a <= 0xffff_ffff; assert(a * b <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires a <= 0xffff_ffff, b <= 0xffff_ffff; }
@loop 0 end
    proof {
        vp_ext(self.0@, s1, i as nat);
        let (a, b, p, z, co) = (s0[i as int] as nat, other as nat, pw(i as nat), self.0@[i as int] as nat, carry as nat);
        assert(z + co * B == a * b + c1);
        assert(co <= b) by(nonlinear_arith) requires z + co * B == a * b + c1, a <= 0xffff_ffff, c1 <= b, B == 0x1_0000_0000nat;
        assert(z * p + co * (B * p) == (a * p) * b + c1 * p) by(nonlinear_arith) requires z + co * B == a * b + c1;
        let w = vp(s0, i as nat);
        assert((w + a * p) * b == w * b + (a * p) * b) by(nonlinear_arith);
    }
@before call push
    let ghost s9 = self.0@;
@after call push
    proof { vp_ext(self.0@, s9, s9.len()); }
@before call remove_suffix_0
    proof { assert(0 * pw(s0.len()) == 0) by(nonlinear_arith); }
@fn UBigInt::mul_pow2
@prop C02
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.v() * p2(exp as nat),
@fn UBigInt::mul_pow2_mut
@prop C02
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() * p2(exp as nat),
@begin
    let ghost v0 = self.v();
    proof { axiom_len(&self.0); p2_pw((exp / 32) as nat); p2_add((exp % 32) as nat, 32 * ((exp / 32) as nat)); let e = exp % 32; shl_p2_u32(e);
       let (a, b) = (p2((exp % 32) as nat), pw((exp / 32) as nat)); assert((v0 * a) * b == v0 * (a * b)) by(nonlinear_arith); }
