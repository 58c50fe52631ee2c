@fn _to_scientific_notation
@prop C21
@attr #[verifier::loop_isolation(false)]
@spec
    ensures r.1 == num(n as nat, 10).len() - 1, r.0@ == sci(num(n as nat, 10), digits_max_len as nat),
@begin
    let ghost n0 = n as nat;
    proof { ten20(); reveal_strlit("."); reveal_strlit("0"); dig_num(0); assert(seq!['0'].drop_last() =~= Seq::<char>::empty()); assert(num0(n0) + dch(Seq::<u64>::empty().reverse()) =~= num0(n0)); assert(cutk(Seq::<char>::empty(), digits_max_len as nat) =~= Seq::<char>::empty()); }
@loop 0
    invariant all10(digits@), exp == digits@.len(), num0(n0) == num0(n as nat) + dch(digits@.reverse()), digits@.len() <= 20, n < ipow(10, (20 - digits@.len()) as nat),
    decreases n,
@loop 0 top
    proof { num0_step(n, digits@); }
@loop 1 before
    proof { assert(dch(digits@) =~= num0(n0)); }
@loop 1
    invariant all10(digits@), digits@.len() <= 20, cutk(dch(digits@), digits_max_len as nat) == cutk(num0(n0), digits_max_len as nat),
    decreases digits@.len(),
@loop 1 begin
    proof { dig_num(digits@.last() as nat); assert(dch(digits@).drop_last() =~= dch(digits@.drop_last())); }
@loop 2
    invariant $c2 <= $e2, $e2 == digits@.len() - 1, digits@.len() >= 2, all10(digits@), flat($v2@) == dch(digits@).subrange(1, 1 + $c2),
    decreases $e2 - $c2,
@loop 2 top
    let ghost v2 = $v2@;
@loop 2 end
    proof { dig_num(digits@[$c2 as int] as nat); assert($v2@.drop_last() =~= v2); assert(flat($v2@) =~= dch(digits@).subrange(1, 1 + $c2)); }
@loop 2 after
    proof { assert(dch(digits@).subrange(1, digits@.len() as int) =~= dch(digits@).skip(1)); }
@fn UBigInt::to_scientific_notation
@prop C21
@attr #[verifier::loop_isolation(false)]
@spec
    requires self.wf(), self.0@.len() < 0x1_0000_0000,
    ensures exists|m: nat| #[trigger] sci_ok(r@, num(self.v(), 10), digits_max_len as nat, m),
@begin
    let ghost v = self.v(); let ghost mut ex: nat = 0; let ghost mut qv: nat = v;
    proof { ten20(); ten64(); reveal_strlit("e"); lemma_div_basics(v as int); }
@after let big_number
    proof { assert(big_number.0@ =~= seq![0u32, 0, 3211403009, 1849224548, 3668416493, 3913284084, 1593091]); ten64_words(); }
@loop 0
    invariant n.wf(), n.v() == v as int / ipow(10, exp as nat), exp > 0 ==> n.v() >= 0x2_540b_e400, exp < 0x40_0000_0000,
    decreases n.v(),
@loop 0 begin
    proof { canon_bounds(n.0@); big_len(n.0@); exp_bound(self.0@, v, exp as nat); div10s(v, exp as nat, 64); div64(n.v()); div_less(n.v(), ipow(10, 64)); }
@loop 1
    invariant n.wf(), n.v() == v as int / ipow(10, exp as nat), exp > 0 ==> n.v() >= 0x2_540b_e400, exp < 0x60_0000_0000,
    decreases n.v(),
@loop 1 begin
    proof { canon_bounds(n.0@); big_len(n.0@); exp_bound(self.0@, v, exp as nat); div10s(v, exp as nat, 9); div_less(n.v(), 1_000_000_000); }
@loop 1 after
    proof { canon_bounds(n.0@); two_words(n.0@); ex = exp as nat; qv = n.v(); if exp == 0 { assert(qv == v); } else { ipow_10_10(); num_long(qv, 10); lead(v, ex); } }
@after let digits
    proof { num_short(qv, 20); }
@end
    proof { let d = num(v, 10); let m = num(qv, 10).len(); assert(d.take(m as int) =~= num(qv, 10)); assert("e"@ =~= seq!['e']); assert(exp == ex); assert(d.len() == m + ex); assert(m == d.len() || m >= 11); assert(vx_r@ == sci(num(qv, 10), digits_max_len as nat) + "e"@ + num((exp + new_exp) as nat, 10)); assert(sci_ok(vx_r@, d, digits_max_len as nat, m)); }
@fn BigInt::to_scientific_notation
@prop C21
@spec
    requires self.wf(), self.val.0@.len() < 0x1_0000_0000,
    ensures exists|m: nat| #[trigger] sci_ok_i(r@, self.v(), digits_max_len as nat, m),
@begin
    proof { reveal_strlit("-"); reveal_strlit(""); }
@end
    proof {
        let d = num(iabs(self.v()), 10); let k = digits_max_len as nat;
        if self.v() < 0 { let t = vx_r@.skip(1); assert(vx_r@ =~= seq!['-'] + t); assert forall|x: Seq<char>| #[trigger] ("-"@ + x) == vx_r@ implies x == t by { assert(x =~= ("-"@ + x).skip(1)); } let m = choose|m: nat| sci_ok(t, d, k, m); sci_neg(t, self.v(), k, m); }
        else { assert forall|x: Seq<char>| #[trigger] (""@ + x) == vx_r@ implies x == vx_r@ by { assert(""@ + x =~= x); } let m = choose|m: nat| sci_ok(vx_r@, d, k, m); assert(sci_ok_i(vx_r@, self.v(), k, m)); }
    }
