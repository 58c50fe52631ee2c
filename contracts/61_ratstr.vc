@fn get_non_decimal_char
@prop C14
@attr #[verifier::loop_isolation(false)]
@spec
    ensures r == ndc(s@, 0),
@loop 0
    invariant $c0 <= $e0, $e0 == s@.len(), vx_s0@ == s@, ndc(s@, 0) == ndc(s@, $c0 as int),
    decreases $e0 - $c0,
@fn Ratio::to_ratio_string
@prop C14
@spec
    requires self.wf(), self.numer.val.0@.len() < 0x1_0000_0000, self.denom.val.0@.len() < 0x1_0000_0000,
    ensures r@ == if self.denom.v() == 1 { num_i(self.numer.v(), 10) } else { num_i(self.numer.v(), 10) + seq!['/'] + num_i(self.denom.v(), 10) },
@begin
    proof { reveal_strlit("/"); }
@fn Ratio::from_string
@prop C14
@attr #[verifier::rlimit(40)]
@spec
    ensures match r { Ok(x) => x.wf() && parse_q(s@) == Some(x.rv()), Err(_) => parse_q(s@) is None },
@begin
    hide(q); hide(is_gcd); hide(trem); hide(tdiv); hide(lower); hide(ndc); hide(find1); hide(parse_i);
    proof { blen_zero(s@); if s@.len() == 0 { pq_empty(s@); } boundary(s@); }
@closure 0 (char) -> (z: bool)
    ensures z == (lower(c) == 'e'),
@closure 1 (char) -> (z: bool)
    ensures z == (lower(c) == 'e'),
@after let dot_index
    proof { lower_dots(); assert(found(s@, '.', dot_index)); found_is(s@, '.', dot_index); }
@after let e_index
    let ghost gd = find1(s@, '.', 0); let ghost ge = expo(s@); let ghost ss = s@;
    proof { if !(ndc(ss, 0) is Some && lower(ndc(ss, 0)->Some_0) == 'x') { assert(found(ss, 'e', e_index)); found_is(ss, 'e', e_index); } if gd is None && ge is None { pq_int(ss); } else { pq_bad(ss); } }
@after let integer_end_index
    let ghost end = match gd { Some(i) => i, None => ge->Some_0 };
    proof { assert(ss.subrange(0, end) =~= ss.take(end)); if gd is Some { blen_le(ss, gd->Some_0 + 1, ss.len() as int); if ge is Some { blen_le(ss, gd->Some_0 + 1, ge->Some_0); } } }
@after let fraction_string
    let ghost ft = fraction_string@;
    proof { assert(ft.take(0) =~= Seq::empty()); assert(ft.take(ft.len() as int) =~= ft); assert(fracval(ft) is None ==> parse_f(ss, gd, ge) is None); assert(parse_f(ss, gd, ge) == fracval(ft)); }
@loop 0
    invariant $c0 <= $e0, $e0 == ft.len(), vx_s0@ == ft, fracval(ft) is None ==> parse_q(s@) is None, denom.wf(), numer.wf(), alld(clean(ft.take($c0 as int)), 10),
        denom.v() == ipow(10, clean(ft.take($c0 as int)).len()), numer.v() == dnum(clean(ft.take($c0 as int)), 10),
    decreases $e0 - $c0,
@loop 0 begin
    proof { frac_step(ft, $c0 - 1); if c != '_' && !isd(c, 10) { frac_dead(ft, $c0 as int); } }
@loop 0 after
    proof { ipow_pos(10, clean(ft).len()); }
@after let fractional_part
    let ghost fv = fractional_part.rv();
    proof { assert(parse_f(ss, gd, ge) == Some(fv)); }
@after let exponential_part
    proof { assert(parse_e(ss, ge) == Some(exponential_part as int)); }
@after call add_mut
    let ghost (n0, d0) = (result.numer.v(), result.denom.v()); let ghost k = iabs(exponential_part as int);
    let ghost mut a: nat = k; let ghost mut b: nat = k; let ghost mut c: int = 1; let ghost e0 = ipow(10, k);
    proof { pq_ok(ss, parse_n(ss, gd, ge)->Some_0, fv, exponential_part as int); assert(result.rv() == signed(ss, parse_n(ss, gd, ge)->Some_0, fv)); if exponential_part == 0 { scale_zero(result.rv()); } can_start(d0, k); can_start(n0, k); ten_is(k); two_pow2(); }
@loop 1
    invariant ispow2(2), result.denom.wf(), result.numer.wf(), result.numer.v() == n0, exponential_part_bi.wf(), can(result.denom.v(), exponential_part_bi.v(), c, d0, e0, a, b),
    decreases exponential_part_bi.v(),
@loop 1 begin
    proof { can_step(result.denom.v(), exponential_part_bi.v(), c, d0, e0, a, b, 2); a = (a - 1) as nat; c = c * 2; }
@loop 1 after
    proof { trem_zero(result.denom.v(), 2); trem_zero(exponential_part_bi.v(), 2); }
@loop 2
    invariant ispow2(2), result.denom.wf(), result.numer.wf(), result.numer.v() == n0, exponential_part_bi.wf(), can(result.denom.v(), exponential_part_bi.v(), c, d0, e0, a, b), result.denom.v() % 2 != 0 || exponential_part_bi.v() % 2 != 0,
    decreases exponential_part_bi.v(),
@loop 2 begin
    proof { can_step(result.denom.v(), exponential_part_bi.v(), c, d0, e0, a, b, 5); b = (b - 1) as nat; c = c * 5; }
@loop 2 after
    proof { can_mul(n0, result.denom.v(), exponential_part_bi.v(), c, d0, e0, a, b, exponential_part as int); }
@loop 3
    invariant ispow2(2), result.denom.wf(), result.numer.wf(), result.denom.v() == d0, exponential_part_bi.wf(), can(result.numer.v(), exponential_part_bi.v(), c, n0, e0, a, b),
    decreases exponential_part_bi.v(),
@loop 3 begin
    proof { can_step(result.numer.v(), exponential_part_bi.v(), c, n0, e0, a, b, 2); a = (a - 1) as nat; c = c * 2; }
@loop 3 after
    proof { trem_zero(result.numer.v(), 2); trem_zero(exponential_part_bi.v(), 2); }
@loop 4
    invariant ispow2(2), result.denom.wf(), result.numer.wf(), result.denom.v() == d0, exponential_part_bi.wf(), can(result.numer.v(), exponential_part_bi.v(), c, n0, e0, a, b), result.numer.v() % 2 != 0 || exponential_part_bi.v() % 2 != 0,
    decreases exponential_part_bi.v(),
@loop 4 begin
    proof { can_step(result.numer.v(), exponential_part_bi.v(), c, n0, e0, a, b, 5); b = (b - 1) as nat; c = c * 5; }
@loop 4 after
    proof { can_div(result.numer.v(), d0, exponential_part_bi.v(), c, n0, e0, a, b, exponential_part as int); }
