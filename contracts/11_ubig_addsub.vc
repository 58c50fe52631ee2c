@fn UBigInt::add
@prop C01
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.v() == self.v() + other.v(),
@loop 0
    invariant $c <= $e, $e <= self.0@.len(), $e <= other.0@.len(), $v@.len() == $c,
        forall|k: int| 0 <= k < $c ==> $v@[k] as nat == self.0@[k] as nat + other.0@[k] as nat,
        vp64($v@, $c as nat) == vp(self.0@, $c as nat) + vp(other.0@, $c as nat),
    decreases $e - $c,
@loop 0 top
    let ghost s1 = $v@;
@loop 0 end
    proof { vp64_ext($v@, s1, i as nat); let (a, b, p) = (self.0@[i as int] as nat, other.0@[i as int] as nat, pw(i as nat)); assert((a + b) * p == a * p + b * p) by(nonlinear_arith); }
@loop 1
    invariant $c <= $e, $e == self.0@.len(), other.0@.len() <= $c, result@.len() == $c,
        forall|k: int| 0 <= k < other.0@.len() ==> result@[k] as nat == self.0@[k] as nat + other.0@[k] as nat,
        forall|k: int| other.0@.len() <= k < $c ==> result@[k] as nat == self.0@[k] as nat,
        vp64(result@, $c as nat) == vp(self.0@, $c as nat) + val(other.0@),
    decreases $e - $c,
@loop 1 top
    let ghost s1 = result@;
@loop 1 end
    proof { vp64_ext(result@, s1, i as nat); }
@loop 2
    invariant $c <= $e, $e == other.0@.len(), self.0@.len() <= $c, result@.len() == $c,
        forall|k: int| 0 <= k < self.0@.len() ==> result@[k] as nat == self.0@[k] as nat + other.0@[k] as nat,
        forall|k: int| self.0@.len() <= k < $c ==> result@[k] as nat == other.0@[k] as nat,
        vp64(result@, $c as nat) == vp(other.0@, $c as nat) + val(self.0@),
    decreases $e - $c,
@loop 2 top
    let ghost s1 = result@;
@loop 2 end
    proof { vp64_ext(result@, s1, i as nat); }
@before let result#1
    proof { canon_bounds(self.0@); canon_bounds(other.0@); }
@fn UBigInt::add_mut
@prop C01
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() + other.v(),
@begin
    let ghost s0 = self.0@; let ghost o = other.0@; let ghost m: nat = if s0.len() <= o.len() { s0.len() } else { o.len() };
@loop 0
    invariant $c <= $e, $e == m, m <= s0.len(), m <= o.len(), o == other.0@, self.0@.len() == s0.len(),
        forall|k: int| $c <= k < s0.len() ==> self.0@[k] == s0[k],
        vp(self.0@, $c as nat) + (if carry { pw($c as nat) } else { 0 }) == vp(s0, $c as nat) + vp(o, $c as nat),
    decreases $e - $c,
@loop 0 top
    let ghost s1 = self.0@; let ghost c1 = carry;
@loop 0 end
    proof {
        vp_ext(self.0@, s1, i as nat);
        let (a, b, p, z) = (s0[i as int] as nat, o[i as int] as nat, pw(i as nat), self.0@[i as int] as nat);
        let cin: nat = if c1 { 1 } else { 0 }; let cout: nat = if carry { 1 } else { 0 };
        assert(z + cout * B == a + b + cin);
        assert(z * p + cout * (B * p) == a * p + b * p + cin * p) by(nonlinear_arith) requires z + cout * B == a + b + cin;
    }
@loop 0 after
    proof { if !carry && s0.len() >= o.len() { vp_split(s0, m, s0.len()); vp_split(self.0@, m, s0.len()); assert(self.0@.skip(m as int) =~= s0.skip(m as int)); } }
@loop 1
    invariant $c <= $e, $e == o.len(), o == other.0@, m == s0.len(), m >= 1, self.0@.len() == $c, m <= $c,
        forall|k: int| m <= k < $c && !carry && k == o.len() - 1 ==> self.0@[k] != 0,
        canon(o),
        vp(self.0@, $c as nat) + (if carry { pw($c as nat) } else { 0 }) == val(s0) + vp(o, $c as nat),
    decreases $e - $c,
@loop 1 top
    let ghost s1 = self.0@; let ghost c1 = carry;
@loop 1 end
    proof {
        vp_ext(self.0@, s1, i as nat);
        let (b, p, z) = (o[i as int] as nat, pw(i as nat), self.0@[i as int] as nat);
        let cin: nat = if c1 { 1 } else { 0 }; let cout: nat = if carry { 1 } else { 0 };
        assert(z + cout * B == b + cin);
        assert(z * p + cout * (B * p) == b * p + cin * p) by(nonlinear_arith) requires z + cout * B == b + cin;
    }
@loop 2
    invariant_except_break carry,
    invariant $c <= $e, $e == s0.len(), m == o.len(), o == other.0@, self.0@.len() == s0.len(), m <= $c,
        forall|k: int| $c <= k < s0.len() ==> self.0@[k] == s0[k],
        vp(self.0@, $c as nat) + (if carry { pw($c as nat) } else { 0 }) == vp(s0, $c as nat) + val(o),
        !carry && $c == s0.len() ==> self.0@[s0.len() - 1] != 0,
    ensures carry ==> $c == s0.len(),
    decreases $e - $c,
@loop 2 top
    let ghost s1 = self.0@; 
    proof { vp_step(s0, $c as nat); }
@loop 2 end
    proof { vp_ext(self.0@, s1, i as nat); let p = pw(i as nat); assert(0 * p + B * p == 0xffff_ffff * p + p) by(nonlinear_arith); }
@after assign carry#3
    proof { vp_ext(self.0@, s1, i as nat); let (z, p) = (s1[i as int] as nat, pw(i as nat)); assert((z + 1) * p == z * p + p) by(nonlinear_arith); }
@loop 2 after
    proof { if !carry { vp_split(s0, $c as nat, s0.len()); vp_split(self.0@, $c as nat, s0.len()); assert(self.0@.skip($c as int) =~= s0.skip($c as int)); } }
@begin
    proof { canon_bounds(s0); canon_bounds(o); }
    assert(s0.len() == o.len() ==> val(s0) + val(o) >= val(o));
@before call push#3
    let ghost s9 = self.0@;
@after call push#3
    proof { vp_ext(self.0@, s9, s9.len()); assert(1 * pw(s9.len()) == pw(s9.len())) by(nonlinear_arith); }
@end
    proof {
        if self.0@.len() == s0.len() && s0.len() == o.len() && s0.len() > 1 && self.0@[s0.len() - 1] == 0 {
            vp_bound(self.0@, (s0.len() - 1) as nat); assert(0 * pw((s0.len() - 1) as nat) == 0) by(nonlinear_arith);
        }
    }
@fn UBigInt::add_u32
@prop C01
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == self.v() + other,
@fn UBigInt::add_u32_mut
@prop C01
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v() == old(self).v() + other,
@begin
    let ghost s0 = self.0@;
    proof { canon_bounds(s0); vp_split(s0, 1, s0.len()); pw_1(); vp_1(s0); }
@arm 0 end
    proof { vp_split(self.0@, 1, s0.len()); vp_1(self.0@); assert(self.0@.skip(1) =~= s0.skip(1)); }
@after let self_data
    let ghost d0 = self_data@;
@after assign self_data[0]
    proof { vp64_low(d0, self_data@, self_data@.len(), other as nat); }
@fn UBigInt::sub
@prop C01
@spec
    requires self.wf(), other.wf(), other.v() <= self.v(),
    ensures r.wf(), r.v() == self.v() - other.v(),
@fn UBigInt::sub_mut
@prop C01
@spec
    requires old(self).wf(), other.wf(), other.v() <= old(self).v(),
    ensures final(self).wf(), final(self).v() == old(self).v() - other.v(),
@begin
    let ghost s0 = self.0@; let ghost o = other.0@;
    proof { canon_bounds(s0); canon_bounds(o); if s0.len() < o.len() { canon_len_lt(s0, o); } }
@loop 0
    invariant $c <= $e, $e == o.len(), o == other.0@, o.len() <= s0.len(), self.0@.len() == s0.len(),
        forall|k: int| #![trigger self.0@[k]] #![trigger s0[k]] $c <= k < s0.len() ==> self.0@[k] == s0[k],
        vp(self.0@, $c as nat) + vp(o, $c as nat) == vp(s0, $c as nat) + (if carry { pw($c as nat) } else { 0 }),
    decreases $e - $c,
@loop 0 top
    let ghost s1 = self.0@; let ghost c1 = carry;
@loop 0 end
    proof {
        vp_ext(self.0@, s1, i as nat);
        let (a, b, p, z) = (s0[i as int] as nat, o[i as int] as nat, pw(i as nat), self.0@[i as int] as nat);
        let cin: nat = if c1 { 1 } else { 0 }; let cout: nat = if carry { 1 } else { 0 };
        assert(z + b + cin == a + cout * B);
        assert(z * p + b * p + cin * p == a * p + cout * (B * p)) by(nonlinear_arith) requires z + b + cin == a + cout * B;
    }
@loop 0 after
    proof { if s0.len() == o.len() && carry { vp_bound(self.0@, s0.len()); } }
@loop 1
    invariant_except_break $c < $e,
        vp(self.0@, $c as nat) + val(o) == vp(s0, $c as nat) + pw($c as nat),
    invariant $c <= $e, $e == s0.len(), o == other.0@, self.0@.len() == s0.len(), o.len() <= $c, val(o) <= val(s0),
        forall|k: int| #![trigger self.0@[k]] #![trigger s0[k]] $c <= k < s0.len() ==> self.0@[k] == s0[k],
    ensures $c <= s0.len(), vp(self.0@, $c as nat) + val(o) == vp(s0, $c as nat),
        self.0@.len() == s0.len(),
        forall|k: int| $c <= k < s0.len() ==> self.0@[k] == s0[k],
    decreases $e - $c,
@loop 1 top
    let ghost s1 = self.0@; 
    proof { vp_step(s0, $c as nat); }
@before assign self.0[i]#4
    proof { let (z, p) = (s1[i as int] as nat, pw(i as nat)); assert((z - 1) * p + p == z * p) by(nonlinear_arith) requires z >= 1; }
@after assign self.0[i]#4
    proof { vp_ext(self.0@, s1, i as nat); }
@loop 1 end
    proof { vp_ext(self.0@, s1, i as nat); let p = pw(i as nat); assert(0xffff_ffff * p + p == 0 * p + B * p) by(nonlinear_arith);
        if $c == s0.len() { vp_bound(self.0@, s0.len()); } }
@loop 1 after
    proof { vp_split(s0, $c as nat, s0.len()); vp_split(self.0@, $c as nat, s0.len()); assert(self.0@.skip($c as int) =~= s0.skip($c as int)); }
@before call remove_suffix_0
    proof {
        if self.0@.skip(o.len() as int) =~= s0.skip(o.len() as int) { vp_split(s0, o.len(), s0.len()); vp_split(self.0@, o.len(), s0.len()); }
    }
@fn UBigInt::sub_u32
@prop C01
@spec
    requires self.wf(), other <= self.v(),
    ensures r.wf(), r.v() == self.v() - other,
@fn UBigInt::sub_u32_mut
@prop C01
@spec
    requires old(self).wf(), other <= old(self).v(),
    ensures final(self).wf(), final(self).v() == old(self).v() - other,
@begin
    let ghost s0 = self.0@;
    proof { canon_bounds(s0); vp_split(s0, 1, s0.len()); pw_1(); vp_1(s0); }
@then 0 end
    proof { vp_split(self.0@, 1, s0.len()); vp_1(self.0@); assert(self.0@.skip(1) =~= s0.skip(1)); }
@loop 0
    invariant 1 <= i < s0.len(), canon(s0), self.0@.len() == s0.len(), self.0@[0] == s0[0],
        forall|k: int| #![trigger self.0@[k]] #![trigger s0[k]] i <= k < s0.len() ==> self.0@[k] == s0[k],
        vp(self.0@, i as nat) + B == vp(s0, i as nat) + pw(i as nat),
    decreases s0.len() - i,
@loop 0 before
    proof { vp_ext(self.0@, s0, 1); }
@loop 0 begin
    let ghost s1 = self.0@; let ghost i1 = i as nat; proof { axiom_len(&self.0); }
@loop 0 end
    proof { vp_ext(self.0@, s1, i1); let p = pw(i1); assert(0xffff_ffff * p + p == 0 * p + B * p) by(nonlinear_arith); }
@before assign self.0[i]#1
    let ghost s2 = self.0@;
@before assign self.0[0]#1
    let ghost s3 = self.0@;
    proof {
        vp_ext(s3, s2, i as nat); let (z, p) = (s2[i as int] as nat, pw(i as nat)); assert((z - 1) * p + p == z * p) by(nonlinear_arith) requires z >= 1;
        vp_step(s3, i as nat); vp_step(s2, i as nat); vp_step(s0, i as nat);
        vp_split(s0, i as nat + 1, s0.len()); vp_split(s3, i as nat + 1, s0.len()); assert(s3.skip(i as int + 1) =~= s0.skip(i as int + 1));
        assert(val(s3) + B == val(s0));
        vp_split(s3, 1, s0.len()); vp_1(s3);
    }
@after assign self.0[0]#1
    proof { vp_split(self.0@, 1, s0.len()); vp_1(self.0@); assert(self.0@.skip(1) =~= s3.skip(1)); }
@fn UBigInt::abs_diff
@prop C01
@spec
    requires self.wf(), other.wf(),
    ensures r.wf(), r.v() == (if self.v() >= other.v() { self.v() - other.v() } else { other.v() - self.v() }),
@fn UBigInt::abs_diff_u32
@prop C01
@spec
    requires self.wf(),
    ensures r.wf(), r.v() == (if self.v() >= other { self.v() - other } else { other - self.v() }),
@begin
    proof { canon_bounds(self.0@); }
