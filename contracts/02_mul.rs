pub proof fn fdm(a: int, p: int) requires p > 0 ensures a == (a / p) * p + a % p, 0 <= a % p < p { lemma_fundamental_div_mod(a, p); lemma_mod_bound(a, p); assert(p * (a / p) == (a / p) * p) by(nonlinear_arith); }
/// a == q*p + r with 0<=r<p determines q, r
pub proof fn fdm_conv(a: int, p: int, q: int, r: int) requires p > 0, 0 <= r < p, a == q * p + r ensures q == a / p, r == a % p { lemma_fundamental_div_mod_converse(a, p, q, r); }

pub proof fn shr_val(s: Seq<u32>, n: nat) requires canon(s)
    ensures n >= s.len() ==> val(s) / pw(n) == 0, n < s.len() ==> canon(s.skip(n as int)) && val(s.skip(n as int)) == val(s) / pw(n)
{
    pw_pos(n); canon_bounds(s);
    if n >= s.len() { pw_mono(s.len(), n); fdm_conv(val(s) as int, pw(n) as int, 0, val(s) as int); }
    else {
        vp_split(s, n, s.len()); vp_bound(s, n);
        let t = s.skip(n as int);
        assert(pw(n) * val(t) == val(t) * pw(n)) by(nonlinear_arith);
        fdm_conv(val(s) as int, pw(n) as int, val(t) as int, vp(s, n) as int);
    }
}
pub proof fn slice_val(s: Seq<u32>, n: nat) requires canon(s), n <= s.len() ensures vp(s, n) == val(s) % pw(n)
{
    pw_pos(n);
    vp_split(s, n, s.len()); vp_bound(s, n);
    let t = s.skip(n as int); let w = vp(t, (s.len() - n) as nat);
    assert(pw(n) * w == w * pw(n)) by(nonlinear_arith);
    fdm_conv(val(s) as int, pw(n) as int, w as int, vp(s, n) as int);
}
pub proof fn shl_val(s: Seq<u32>, t: Seq<u32>, n: nat)
    requires canon(s), val(s) != 0, t.len() == s.len() + n, t.skip(n as int) == s, forall|i: int| 0 <= i < n ==> t[i] == 0
    ensures canon(t), val(t) == val(s) * pw(n)
{
    canon_bounds(s);
    vp_zero(t, n); vp_split(t, n, t.len());
    assert(pw(n) * val(s) == val(s) * pw(n)) by(nonlinear_arith);
    assert(t[t.len() - 1] == t.skip(n as int)[s.len() - 1]);
}
/// number of partial products already added to column k after i rows (upper bound)
pub open spec fn mul_cnt(i: int, k: int, ol: int) -> int {
    // columns k receive from rows r<i with r <= k <= r + ol
    let hi = if i - 1 < k { i - 1 } else { k };
    let lo = if k - ol > 0 { k - ol } else { 0 };
    if hi < lo { 0 } else { hi - lo + 1 }
}
pub proof fn mul_cnt_small(i: int, k: int, sl: int, ol: int) requires 0 <= i <= sl, 0 <= k, sl <= 64 || ol <= 64 ensures 0 <= mul_cnt(i, k, ol) <= 65 {}
pub proof fn mul_cnt_step(i: int, k: int, ol: int) requires 0 <= i, 0 <= k, 1 <= ol ensures mul_cnt(i + 1, k, ol) == mul_cnt(i, k, ol) + (if i <= k <= i + ol { 1int } else { 0 }) {}

pub proof fn vp64_add2(s: Seq<u64>, t: Seq<u64>, k: nat, x: nat, y: nat, n: nat)
    requires s.len() == t.len(), k + 1 < n <= s.len(), t[k as int] as nat == s[k as int] as nat + x, t[k as int + 1] as nat == s[k as int + 1] as nat + y,
        forall|i: int| 0 <= i < n && i != k && i != k + 1 ==> t[i] == s[i]
    ensures vp64(t, n) == vp64(s, n) + x * pw(k) + y * pw(k + 1)
    decreases n
{
    if n == k + 2 {
        vp64_ext(s, t, k);
        vp64_step(s, k); vp64_step(t, k); vp64_step(s, k + 1); vp64_step(t, k + 1);
        let (a, b, p, q) = (s[k as int] as nat, s[k as int + 1] as nat, pw(k), pw(k + 1));
        assert((a + x) * p == a * p + x * p) by(nonlinear_arith);
        assert((b + y) * q == b * q + y * q) by(nonlinear_arith);
    } else { vp64_add2(s, t, k, x, y, (n - 1) as nat); }
}
/// lengths in Karatsuba
pub proof fn len_of_shift(s: Seq<u32>, t: Seq<u32>, m: nat) requires canon(s), canon(t), m < s.len(), t == s.skip(m as int) ensures t.len() == s.len() - m {}
pub proof fn sum_len(s: Seq<u32>, x1: Seq<u32>, x0: Seq<u32>, m: nat)
    requires canon(s), canon(x1), canon(x0), x1.len() + m == s.len(), x0.len() <= m, 2 * m <= s.len()
    ensures forall|t: Seq<u32>| #![trigger canon(t)] canon(t) && val(t) == val(x1) + val(x0) ==> t.len() <= s.len() - m + 1
{
    canon_bounds(x1); canon_bounds(x0); pw_mono(x0.len(), x1.len());
    let k = x1.len();
    assert forall|t: Seq<u32>| #![trigger canon(t)] canon(t) && val(t) == val(x1) + val(x0) implies t.len() <= s.len() - m + 1 by {
        canon_bounds(t);
        if t.len() > k + 1 {
            pw_mono(k + 1, (t.len() - 1) as nat);
            assert(pw(k + 1) == B * pw(k));
            pw_pos(k);
            assert(B * pw(k) >= 2 * pw(k)) by(nonlinear_arith);
        }
    }
}
pub proof fn kara(x1: int, x0: int, y1: int, y0: int) requires x1 >= 0, x0 >= 0, y1 >= 0, y0 >= 0
    ensures (x1 + x0) * (y1 + y0) == x1 * y1 + x0 * y0 + (x1 * y0 + x0 * y1), x1 * y0 >= 0, x0 * y1 >= 0, x1 * y1 >= 0, x0 * y0 >= 0
{ assert((x1 + x0) * (y1 + y0) == x1 * y1 + x0 * y0 + (x1 * y0 + x0 * y1)) by(nonlinear_arith);
  assert(x1 * y0 >= 0 && x0 * y1 >= 0 && x1 * y1 >= 0 && x0 * y0 >= 0) by(nonlinear_arith) requires x1 >= 0, x0 >= 0, y1 >= 0, y0 >= 0; }
pub proof fn kara2(x1: int, x0: int, y1: int, y0: int, p: int)
    ensures (x1 * p + x0) * (y1 * p + y0) == (x1 * y1) * (p * p) + (x1 * y0 + x0 * y1) * p + x0 * y0
{ 
    assert((x1 * p + x0) * (y1 * p + y0) == (x1 * p) * (y1 * p) + (x1 * p) * y0 + x0 * (y1 * p) + x0 * y0) by(nonlinear_arith);
    assert((x1 * p) * (y1 * p) == (x1 * y1) * (p * p)) by(nonlinear_arith);
    assert((x1 * p) * y0 + x0 * (y1 * p) == (x1 * y0 + x0 * y1) * p) by(nonlinear_arith);
}
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub proof fn p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases a {
    if a == 0 { assert(1 * p2(b) == p2(b)) by(nonlinear_arith); }
    else { p2_add((a - 1) as nat, b); assert((a - 1) as nat + b == (a + b - 1) as nat); assert(2 * (p2((a - 1) as nat) * p2(b)) == (2 * p2((a - 1) as nat)) * p2(b)) by(nonlinear_arith); }
}
pub proof fn p2_pos(a: nat) ensures p2(a) >= 1 decreases a { if a > 0 { p2_pos((a - 1) as nat); } }
pub proof fn p2_32() ensures p2(32) == B { reveal_with_fuel(p2, 40); }
pub proof fn p2_pw(n: nat) ensures p2(32 * n) == pw(n) decreases n {
    if n > 0 { p2_pw((n - 1) as nat); p2_32(); p2_add(32, 32 * ((n - 1) as nat)); assert(32 * n == 32 + 32 * ((n - 1) as nat)); }
}
pub proof fn shl_p2_u32(e: u32) requires e < 32 ensures 1u32 << e == p2(e as nat), p2(e as nat) < B decreases e {
    if e == 0 { assert(1u32 << 0u32 == 1) by(bit_vector); }
    else {
        let d = (e - 1) as u32;
        shl_p2_u32(d);
        assert(1u32 << e == 2 * (1u32 << d)) by(bit_vector) requires e < 32, 1 <= e, d == (e - 1) as u32;
        assert(1u32 << e >= 1) by(bit_vector) requires e < 32;
    }
}
