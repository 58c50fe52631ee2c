@fn UBigInt::div_u32_mut
@prop C03
@spec
    requires old(self).wf(), other != 0,
    ensures final(self).wf(), final(self).v() == old(self).v() / (other as nat),
@begin
    let ghost s0 = self.0@;
@loop 0
    invariant $c <= s0.len(), self.0@.len() == s0.len(), 0 < other < 0x1_0000_0000, carry as nat % B == 0, carry as nat / B < other,
        forall|k: int| #![trigger self.0@[k]] #![trigger s0[k]] 0 <= k < $c ==> self.0@[k] == s0[k],
        vp(s0.skip($c as int), (s0.len() - $c) as nat) == vp(self.0@.skip($c as int), (s0.len() - $c) as nat) * (other as nat) + carry as nat / B,
    decreases $c,
@loop 0 before
    proof { assert(0 * (other as nat) == 0) by(nonlinear_arith); }
@loop 0 top
    let ghost s1 = self.0@; let ghost c1 = carry as nat; let ghost cc = $c as int;
    proof { assert(c1 <= (other - 1) * B) by(nonlinear_arith) requires c1 % B == 0, c1 / B <= other - 1, B == 0x1_0000_0000nat; }
@loop 0 end
    proof {
        let i = $c as int; let d = other as nat;
        let (a, b) = (s0.skip(i), self.0@.skip(i));
        let n = (s0.len() - i) as nat;
        vp_split(a, 1, n); vp_split(b, 1, n); vp_1(a); vp_1(b);
        assert(a.skip(1) =~= s0.skip(cc)); assert(b.skip(1) =~= s1.skip(cc));
        pw_1();
        let (x, y, q, w) = (s0[i] as nat, vp(s0.skip(cc), (n - 1) as nat), self.0@[i] as nat, vp(s1.skip(cc), (n - 1) as nat));
        let cur = x + c1; let rm = cur % d;
        fdm(cur as int, d as int);
        assert(cur / d < B) by(nonlinear_arith) requires cur == (cur / d) * d + rm, cur < d * B, rm >= 0, d > 0;
        assert(carry as nat == rm * B); assert(carry as nat / B == rm);
        assert(q == cur / d);
        assert(pw(1) * y == B * y && pw(1) * w == B * w);
        assert(c1 == (c1 / B) * B);
        assert(y * B == w * d * B + (c1 / B) * B) by(nonlinear_arith) requires y == w * d + c1 / B;
        assert((q + B * w) * d == q * d + w * d * B) by(nonlinear_arith);
        assert(a[0] == s0[i]); assert(b[0] == self.0@[i]);
        assert(vp(a, n) == x + B * y);
        assert(vp(b, n) == q + B * w);
        assert(B * y == y * B) by(nonlinear_arith);
        assert((q + B * w) * d + rm == x + B * y);
        assert(vp(b, n) * d == (q + B * w) * d);
    }
@loop 0 after
    proof {
        assert(s0.skip(0) =~= s0); assert(self.0@.skip(0) =~= self.0@);
        fdm_conv(val(s0) as int, other as int, val(self.0@) as int, (carry as nat / B) as int);
    }
@fn UBigInt::div_u32
@prop C03
@spec
    requires self.wf(), other != 0,
    ensures r.wf(), r.v() == self.v() / (other as nat),
@fn div_approx
@prop C03
@spec
    requires divend@.len() == 5, divisor > 0, divend@[4] != 0, divisor >= 0x1_0000_0000,
    ensures r.wf(), r.v() == (val(divend@) / (divisor as nat)), r.0@.len() >= 3, r.0@.len() <= 4,
@begin
    let ghost d = divisor as nat; let ghost s = divend@;
    proof { vp_small(s); vp_step(s, 4); pw_1(); }
@after let curr
    let ghost top = curr as nat;
    proof { fdm(top as int, d as int);
        assert(top / d < 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires top == (top / d) * d + top % d, d >= 0x1_0000_0000, top < 0x1_0000_0000 * 0x1_0000_0000_0000_0000;
        if top / d == 0 { assert(0 * d == 0) by(nonlinear_arith); }
    }
@after let quotient2
    proof {
        let low = s[1] as nat * B + s[0] as nat;
        let cu = (top % d) * 0x1_0000_0000_0000_0000 + low;
        assert(curr as nat == cu);
        fdm(cu as int, d as int);
        assert(cu / d < 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires cu == (cu / d) * d + cu % d, cu < d * 0x1_0000_0000_0000_0000, d > 0;
        let (q1, q2) = (top / d, cu / d);
        assert((q1 * 0x1_0000_0000_0000_0000 + q2) * d == q1 * d * 0x1_0000_0000_0000_0000 + q2 * d) by(nonlinear_arith);
        fdm_conv(val(s) as int, d as int, (q1 * 0x1_0000_0000_0000_0000 + q2) as int, (cu % d) as int);
        let v3 = seq![quotient2, 0u64, quotient1];
        vp64_1(v3); vp64_step(v3, 1); vp64_step(v3, 2);
    }
@fn UBigInt::div
@prop C03
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(60)]
@spec
    requires self.wf(), other.wf(), other.v() != 0,
    ensures r.wf(), r.v() == self.v() / other.v(),
    decreases self.v(),
@begin
    let ghost s = self.v() as int; let ghost o = other.v() as int; let ghost n = self.0@.len(); let ghost m = other.0@.len();
    proof {
        axiom_len(&self.0); axiom_len(&other.0);
        canon_bounds(self.0@); canon_bounds(other.0@);
        if n < m { canon_len_lt(self.0@, other.0@); fdm_conv(s, o, 0, s); }
        vp_small(self.0@);
        if n < 5 { pw_mono(n, 4); } if m < 5 { pw_mono(m, 4); }
        if m >= 2 { top2(other.0@); }
        if n >= 5 { top5(self.0@); }
        if n == m && n >= 2 { top2(self.0@); }
    }
@after let self_approx
    let ghost oa = other_approx as int; let ghost sa = val(self_approx@) as int;
@after let approx1
    proof {
        if other_approx == u64::MAX { shr_val(self_approx@, 2); vp_small(self_approx@); }
        canon_bounds(approx1.0@);
        pw_mono(2, (approx1.0@.len() - 1) as nat);
        assert(approx1.v() as int == sa / (oa + 1));
        axiom_len(&approx1.0);
    }
@after let approx
    proof {
        div_d1(s, o, oa, sa, approx1.v() as int, approx.v() as int, n, m, (3 + m - n) as nat);
        div_step(s, o, approx.v() as int);
    }
@after let approx#1
    proof {
        div_d2(s, o, oa, sa, approx1.v() as int, n, m, (n - m - 3) as nat);
        div_step(s, o, approx.v() as int);
        axiom_len(&other.0);
    }
@after let approx#2
    proof {
        div_d2(s, o, oa, sa, approx1.v() as int, n, m, (n - m - 3) as nat);
        div_step(s, o, approx.v() as int);
    }
@after let approx#3
    proof {
        div_d4(s, o, oa, sa, approx1.v() as int, approx2.v() as int, approx3.v() as int, ratio as int, n, m, (n - m - 3) as nat);
    }
@after let tmp
    proof {
        if o * approx.v() <= s { div_step(s, o, approx.v() as int); }
        else { div_over(s, o, approx.v() as int, (o * approx.v() - s) / o); }
    }
@after let approx4
    proof { assert(approx4.v() * other.v() == o * approx4.v()) by(nonlinear_arith) requires o == other.v(); }
@before let approx#4
    proof { eq_len(s, o, self_approx as int, other_approx as int, pw((n - 2) as nat) as int); }
@after let approx#4
    proof { div_step(s, o, approx.v() as int); }
@after let other_approx#1
    proof { eq_len(s, o, self_approx as int, other_approx as int, pw((n - 2) as nat) as int);
        if s < o { fdm_conv(s, o, 0, s); } else if s < 2 * o { fdm_conv(s, o, 1, s - o); } }
@fn UBigInt::div_mut
@prop C03
@spec
    requires old(self).wf(), other.wf(), other.v() != 0,
    ensures final(self).wf(), final(self).v() == old(self).v() / other.v(),
@fn UBigInt::rem
@prop C03
@spec
    requires self.wf(), other.wf(), other.v() != 0,
    ensures r.wf(), r.v() == self.v() % other.v(),
@begin
    proof { fdm(self.v() as int, other.v() as int); }
@fn UBigInt::rem_mut
@prop C03
@spec
    requires old(self).wf(), other.wf(), other.v() != 0,
    ensures final(self).wf(), final(self).v() == old(self).v() % other.v(),
@begin
    proof { fdm(self.v() as int, other.v() as int); }
