// scientific notation of integers
/// the digits that are printed: at most k, and no trailing zero
pub open spec fn cutk(d: Seq<char>, k: nat) -> Seq<char> decreases d.len() { if d.len() > 0 && (d.len() > k || (d.len() > 1 && d.last() == '0')) { cutk(d.drop_last(), k) } else { d } }
pub open spec fn sci(d: Seq<char>, k: nat) -> Seq<char> { let t = cutk(d, k); if t.len() == 0 { seq!['0'] } else if t.len() == 1 { t } else { seq![t[0], '.'] + t.skip(1) } }
pub open spec fn dch(s: Seq<u64>) -> Seq<char> { Seq::new(s.len(), |i: int| dig(s[i] as nat)) }
pub open spec fn all10(s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 10 }
pub open spec fn num0(n: nat) -> Seq<char> { if n == 0 { Seq::empty() } else { num(n, 10) } }
pub proof fn num0_step(n: u64, s: Seq<u64>) requires n > 0 ensures num0(n as nat) + dch(s.reverse()) == num0((n / 10) as nat) + dch(s.push((n % 10) as u64).reverse())
{
    let t = s.push((n % 10) as u64).reverse();
    assert(dch(t) =~= seq![dig((n % 10) as nat)] + dch(s.reverse()));
    if n < 10 { assert(num(n as nat, 10) =~= seq![dig((n % 10) as nat)]); assert(num0(n as nat) + dch(s.reverse()) =~= num0((n / 10) as nat) + dch(t)); }
    else { assert(num(n as nat, 10) == num((n / 10) as nat, 10).push(dig((n % 10) as nat))); assert(num0(n as nat) + dch(s.reverse()) =~= num0((n / 10) as nat) + dch(t)); }
}
pub proof fn dig_num(x: nat) requires x < 10 ensures num(x, 10) == seq![dig(x)], dig(x) == '0' <==> x == 0 {}
pub proof fn ten20() ensures ipow(10, 20) == 100_000_000_000_000_000_000int, ipow(10, 9) == 1_000_000_000, ipow(10, 0) == 1 { reveal_with_fuel(ipow, 21); }
/// what to_scientific_notation prints: the first m digits of the number (all, or at least 11 of them), at most k, and the exponent
pub open spec fn sci_ok(r: Seq<char>, d: Seq<char>, k: nat, m: nat) -> bool { m <= d.len() && (m == d.len() || m >= 11) && r == sci(d.take(m as int), k) + seq!['e'] + num((d.len() - 1) as nat, 10) }
pub open spec fn sci_ok_i(r: Seq<char>, v: int, k: nat, m: nat) -> bool { if v < 0 { exists|t: Seq<char>| r == seq!['-'] + t && #[trigger] sci_ok(t, num(iabs(v), 10), k, m) } else { sci_ok(r, num(iabs(v), 10), k, m) } }
/// dividing twice
pub proof fn div10s(v: nat, e: nat, k: nat) ensures (v as int / ipow(10, e)) / ipow(10, k) == v as int / ipow(10, e + k)
{ ten_is(e); ten_is(k); ipow_add(10, e, k); lemma_div_denominator(v as int, ipow(10, e), ipow(10, k)); }
pub proof fn ipow_p2(e: nat) ensures ipow(10, e) >= p2(e), p2(e) >= 1 decreases e { if e > 0 { ipow_p2((e - 1) as nat); } }
pub proof fn exp_bound(s: Seq<u32>, v: nat, e: nat) requires canon(s), v == val(s), v as int / ipow(10, e) >= 1, s.len() < 0x1_0000_0000 ensures e < 0x20_0000_0000
{
    ten_is(e); let p = ipow(10, e);
    assert(v >= p) by { if v < p { lemma_basic_div(v as int, p); } }
    canon_bounds(s); p2_pw(s.len()); ipow_p2(e);
    if e >= 32 * s.len() { if e > 32 * s.len() { p2_lt(32 * s.len(), e); } }
}
pub proof fn ten64() ensures ipow(10, 64) == 0x184f03e93ff9f4daa797ed6e38ed64bf6a1f010000000000000000int
{ assert(ipow(10, 64) == 0x184f03e93ff9f4daa797ed6e38ed64bf6a1f010000000000000000int) by(compute); }
/// the digits of v / 10^e are the first ones of v
pub proof fn lead(v: nat, e: nat) requires v as int / ipow(10, e) >= 1
    ensures ({ let q = (v as int / ipow(10, e)) as nat; let d = num(v, 10); num(q, 10) == d.take(num(q, 10).len() as int) && d.len() == num(q, 10).len() + e })
{
    ten_is(e); let p = ipow(10, e); let q = (v as int / p) as nat; let r = (v as int % p) as nat;
    lemma_fundamental_div_mod(v as int, p); comm(p, q as int); lemma_mod_bound(v as int, p);
    num_cat(q, r, 10, e); padk_len(r, 10, e);
    assert(num(v, 10).take(num(q, 10).len() as int) =~= num(q, 10));
}
pub proof fn padk_len(n: nat, b: nat, k: nat) requires b >= 1 ensures padk(n, b, k).len() == k decreases k { if k > 0 { padk_len(n / b, b, (k - 1) as nat); assert(padk(n, b, k) == padk(n / b, b, (k - 1) as nat).push(dig(n % b))); } else { assert(padk(n, b, k).len() == 0); } }
pub proof fn num_short(n: nat, k: nat) requires n < ipow(10, k), k >= 1 ensures 1 <= num(n, 10).len() <= k decreases k
{
    num_ok(n, 10);
    if n >= 10 { if k == 1 { ten20(); assert(ipow(10, 1) == 10 * ipow(10, 0)); } ipow_div(n, 10, k); num_short(n / 10, (k - 1) as nat); }
}
pub proof fn div64(n: nat) requires n >= pw(8) ensures n as int / ipow(10, 64) >= 0x2_540b_e400
{
    let p = ipow(10, 64); ten64(); lemma_fundamental_div_mod(n as int, p); lemma_mod_bound(n as int, p); let q = n as int / p;
    assert(pw(8) >= 0x2_540b_e400 * ipow(10, 64)) by(compute);
    assert(q >= 0x2_540b_e400) by(nonlinear_arith) requires n >= 0x2_540b_e400 * p, n == p * q + n as int % p, n as int % p < p, p > 0;
}
pub proof fn sci_neg(t: Seq<char>, v: int, k: nat, m: nat) requires v < 0, sci_ok(t, num(iabs(v), 10), k, m) ensures sci_ok_i(seq!['-'] + t, v, k, m) {}
pub proof fn num_long(n: nat, k: nat) requires n >= ipow(10, k) ensures num(n, 10).len() >= k + 1 decreases k
{
    ten_is(k);
    if k > 0 { let p = ipow(10, (k - 1) as nat); ten_is((k - 1) as nat); assert(n >= 10 * p); assert(n / 10 >= p) by(nonlinear_arith) requires n >= 10 * p; num_long(n / 10, (k - 1) as nat); assert(n >= 10); }
    else { num_ok(n, 10); }
}
pub proof fn big_len(s: Seq<u32>) requires canon(s) ensures s.len() > 2 ==> val(s) >= 0x1_0000_0000_0000_0000, s.len() > 8 ==> val(s) >= pw(8)
{ canon_bounds(s); pw_1(); if s.len() > 2 { pw_mono(2, (s.len() - 1) as nat); } if s.len() > 8 { pw_mono(8, (s.len() - 1) as nat); } }
pub proof fn two_words(s: Seq<u32>) requires canon(s), s.len() <= 2 ensures val(s) <= 0xffff_ffff_ffff_ffff
{ canon_bounds(s); pw_1(); }
pub proof fn ipow_10_10() ensures ipow(10, 10) == 0x2_540b_e400 { reveal_with_fuel(ipow, 11); }
pub proof fn div_less(n: nat, p: int) requires p >= 2, n >= 1 ensures n as int / p < n { lemma_div_decreases(n as int, p); }
pub proof fn ten64_words() ensures val(seq![0u32, 0, 3211403009, 1849224548, 3668416493, 3913284084, 1593091]) == ipow(10, 64) { assert(val(seq![0u32, 0, 3211403009, 1849224548, 3668416493, 3913284084, 1593091]) == ipow(10, 64)) by(compute); }
