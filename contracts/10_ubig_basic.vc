@const KARATSUBA_THRES
@fn UBigInt::len
@prop C04
@spec
    ensures r == self.0@.len(),
@fn UBigInt::zero
@prop C04
@spec
    ensures r.wf(), r.v() == 0,
@end
    proof { canon_bounds(vx_r.0@); }
@fn UBigInt::one
@prop C04
@spec
    ensures r.wf(), r.v() == 1,
@end
    proof { canon_bounds(vx_r.0@); }
@fn UBigInt::is_zero
@prop C04, C05
@spec
    requires self.wf(),
    ensures r == (self.v() == 0),
@begin
    proof { canon_bounds(self.0@); }
@fn UBigInt::is_one
@prop C04
@spec
    requires self.wf(),
    ensures r == (self.v() == 1),
@begin
    proof { canon_bounds(self.0@); }
@fn UBigInt::from_raw
@prop C04
@spec
    ensures r.0 == vec,
@fn UBigInt::into_raw
@prop C04
@spec
    ensures r == self.0,
@fn v32_to_v64
@prop C01
@spec
    ensures r@.len() == v32@.len(), forall|i: int| 0 <= i < v32@.len() ==> r@[i] == v32@[i] as u64, vp64(r@, r@.len()) == val(v32@),
@loop 0
    invariant $c <= $e, $e == v32@.len(), $v@.len() == $c, forall|i: int| 0 <= i < $c ==> $v@[i] == v32@[i] as u64,
    decreases $e - $c,
@loop 0 after
    proof { vp_vp64(v32@, $v@, v32@.len()); }
@fn v64_to_v32
@prop C01, C02, C03
@spec
    requires v64@.len() >= 1, forall|i: int| #![trigger v64@[i]] 1 <= i < v64@.len() ==> v64@[i] < 0xffff_ffff_0000_0000 || v64@[i - 1] == 0,
    ensures val(r@) == val64(v64@), r@.len() >= v64@.len(), r@.len() <= v64@.len() + 1, r@.len() > v64@.len() ==> r@[r@.len() - 1] != 0,
        (v64@[v64@.len() - 1] != 0) ==> canon(r@),
@begin
    let ghost s0 = v64@;
@loop 0
    invariant $c <= $e, $e == s0.len() - 1, v64@.len() == s0.len(), s0.len() >= 1,
        forall|i: int| #![trigger s0[i]] 1 <= i < s0.len() ==> s0[i] < 0xffff_ffff_0000_0000 || s0[i - 1] == 0,
        $c == 0 ==> v64@[0] == s0[0], $c > 0 && s0[$c - 1] == 0 ==> v64@[$c as int] == s0[$c as int],
        forall|i: int| 0 <= i < $c ==> v64@[i] < 0x1_0000_0000,
        forall|i: int| #![trigger v64@[i]] #![trigger s0[i]] $c < i < s0.len() ==> v64@[i] == s0[i],
        s0[$c as int] <= v64@[$c as int] <= s0[$c as int] + 0xffff_ffff,
        vp64(v64@, $c as nat + 1) == vp64(s0, $c as nat + 1),
    decreases $e - $c,
@loop 0 begin
    let ghost s1 = v64@;
@loop 0 end
    proof {
        let x = s1[i as int]; let k = i as nat;
        vp64_ext(v64@, s1, k); vp64_ext(s0, s0, k);
        vp64_step(v64@, k); vp64_step(v64@, k + 1); vp64_step(s1, k); vp64_step(s0, k + 1); vp64_step(s1, k + 1);
        let (q, m, p) = (x as nat / B, x as nat % B, pw(k));
        assert(m * p + q * (B * p) == x as nat * p) by(nonlinear_arith) requires x as nat == q * B + m;
        let y = s0[i + 1] as nat; let q2 = v64@[i + 1] as nat;
        assert(pw(k + 1) == B * p);
        if x >= 0x1_0000_0000 {
            assert(q2 == y + q);
            assert((y + q) * (B * p) == y * (B * p) + q * (B * p)) by(nonlinear_arith);
        }
    }
@after let v64_len
    let ghost s2 = v64@;
@then 1 end
    proof {
        let x = s2[v64_len as int]; let k = v64_len as nat;
        vp64_ext(v64@, s2, k);
        vp64_step(v64@, k); vp64_step(v64@, k + 1); vp64_step(s2, k);
        let (q, m, p) = (x as nat / B, x as nat % B, pw(k));
        assert(m * p + q * (B * p) == x as nat * p) by(nonlinear_arith) requires x as nat == q * B + m;
        assert(pw(k + 1) == B * p);
    }
@loop 1 before
    proof { assert(val64(v64@) == val64(s0)); }
@loop 1
    invariant $c <= $e, $e == v64@.len(), $v@.len() == $c, forall|i: int| 0 <= i < $c ==> $v@[i] as nat == v64@[i] as nat,
        forall|i: int| 0 <= i < v64@.len() ==> v64@[i] < 0x1_0000_0000,
    decreases $e - $c,
@loop 1 after
    proof { vp_vp64($v@, v64@, v64@.len()); }
@fn remove_suffix_0
@prop C01, C02, C03, C04
@spec
    requires old(vec)@.len() >= 1,
    ensures canon(final(vec)@), val(final(vec)@) == val(old(vec)@), final(vec)@.len() <= old(vec)@.len(),
@begin
    let ghost s0 = vec@;
@loop 0
    invariant vec@.len() >= 1, val(vec@) == val(s0), vec@.len() <= s0.len(),
    decreases vec@.len(),
@loop 0 begin
    let ghost s1 = vec@;
@loop 0 end
    proof { vp_ext(vec@, s1, vec@.len()); assert(0 * pw(vec@.len()) == 0) by(nonlinear_arith); }
