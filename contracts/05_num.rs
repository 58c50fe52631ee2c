// Euclid, Bezout, coprimality
pub open spec fn gcd(a: nat, b: nat) -> nat decreases a { if a == 0 { b } else { gcd(b % a, a) } }
pub open spec fn divides(d: int, n: int) -> bool { exists|k: int| n == #[trigger] (d * k) }
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool { g >= 0 && divides(g, a) && divides(g, b) && exists|x: int, y: int| g == #[trigger] (a * x + b * y) }
pub proof fn gcd_is_gcd(a: nat, b: nat)
    ensures is_gcd(gcd(a, b) as int, a as int, b as int), gcd(a, b) == 0 <==> (a == 0 && b == 0)
    decreases a
{
    let g = gcd(a, b) as int;
    if a == 0 {
        assert(a == g * 0); assert(b == g * 1); assert(g == a * 0 + b * 1);
    } else {
        let r = b % a; let q = (b / a) as int;
        gcd_is_gcd(r, a);
        fdm(b as int, a as int);
        let ka = choose|k: int| a == #[trigger] (g * k);
        let kr = choose|k: int| r == #[trigger] (g * k);
        let (x, y) = choose|x: int, y: int| g == #[trigger] (r * x + a * y);
        assert(b == g * (q * ka + kr)) by(nonlinear_arith) requires b == q * a + r, a == g * ka, r == g * kr;
        assert(g == a * (y - q * x) + b * x) by(nonlinear_arith) requires b == q * a + r, g == r * x + a * y;
    }
}
// a gcd is divided by every common divisor, and so is unique
pub proof fn is_gcd_greatest(g: int, a: int, b: int, d: int)
    requires is_gcd(g, a, b), divides(d, a), divides(d, b)
    ensures divides(d, g)
{
    let (x, y) = choose|x: int, y: int| g == #[trigger] (a * x + b * y);
    let ka = choose|k: int| a == #[trigger] (d * k);
    let kb = choose|k: int| b == #[trigger] (d * k);
    assert(g == d * (ka * x + kb * y)) by(nonlinear_arith) requires g == a * x + b * y, a == d * ka, b == d * kb;
}
pub proof fn div_le(d: int, n: int) requires divides(d, n), n > 0, d >= 0 ensures 0 < d <= n
{ let k = choose|k: int| n == #[trigger] (d * k); assert(0 < d <= n) by(nonlinear_arith) requires n == d * k, n > 0, d >= 0; }
pub proof fn is_gcd_unique(g: int, h: int, a: int, b: int)
    requires is_gcd(g, a, b), is_gcd(h, a, b)
    ensures g == h
{
    is_gcd_greatest(g, a, b, h); is_gcd_greatest(h, a, b, g);
    if g > 0 { div_le(h, g); div_le(g, h); }
    else if h > 0 { div_le(g, h); }
}
pub proof fn is_gcd_neg(g: int, a: int, b: int)
    requires is_gcd(g, iabs(a) as int, iabs(b) as int)
    ensures is_gcd(g, a, b)
{
    let (p, q) = (iabs(a) as int, iabs(b) as int);
    let (x, y) = choose|x: int, y: int| g == #[trigger] (p * x + q * y);
    let kp = choose|k: int| p == #[trigger] (g * k);
    let kq = choose|k: int| q == #[trigger] (g * k);
    let sa = if a < 0 { -1int } else { 1 }; let sb = if b < 0 { -1int } else { 1 };
    mul_sign(g, kp); mul_sign(g, kq); mul_sign(p, x); mul_sign(q, y);
    assert(a == g * (sa * kp)) by(nonlinear_arith) requires a == sa * p, p == g * kp; assert(b == g * (sb * kq)) by(nonlinear_arith) requires b == sb * q, q == g * kq;
    assert(g == a * (sa * x) + b * (sb * y)) by(nonlinear_arith) requires g == p * x + q * y, p == sa * a, q == sb * b, sa == 1 || sa == -1, sb == 1 || sb == -1;
}
pub open spec fn ispow2(n: nat) -> bool { exists|k: nat| k < 32 && n == #[trigger] p2(k) }
pub proof fn p2_lt(a: nat, b: nat) requires a < b ensures p2(a) < p2(b) decreases b
{ p2_pos((b - 1) as nat); if a < b - 1 { p2_lt(a, (b - 1) as nat); } }
pub proof fn rem_p2(s: Seq<u32>, m: nat)
    requires canon(s), ispow2(m)
    ensures m > 0, (s[0] as nat) % m == val(s) % m
{
    let k = choose|k: nat| k < 32 && m == #[trigger] p2(k);
    p2_pos(k); p2_add(k, (32 - k) as nat); p2_32(); pw_1();
    vp_split(s, 1, s.len()); vp_1(s);
    let h = vp(s.skip(1), (s.len() - 1) as nat);
    let c = p2((32 - k) as nat);
    let x = s[0] as nat;
    assert(val(s) == x + m * (c * h)) by(nonlinear_arith) requires val(s) == x + B * h, B == m * c;
    lemma_mod_multiples_vanish((c * h) as int, x as int, m as int);
}
pub proof fn p2_small() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(28) == 0x1000_0000, p2(31) == 0x8000_0000, p2(32) == B, p2(64) == B * B, p2(33) == 2 * B, p2(29) == 0x2000_0000, p2(24) == 0x100_0000,
{ reveal_with_fuel(p2, 34); p2_add(32, 32); }
pub proof fn rem_step(s: Seq<u32>, i: nat, d: u32, r0: int, c0: int, unit: int, m: int)
    requires i < s.len(), d == s[i as int], 0 < m < 0x1_0000_0000, 0 <= r0, 0 <= c0 < 0x1_0000_0000, c0 % m == pw(i) % (m as nat), unit == B % (m as nat), r0 % m == vp(s, i) % (m as nat), r0 <= i * (m - 1),
    ensures ({ let t = ((d as int) % m) * c0 % m;
        0 <= t < m && 0 <= ((d as int) % m) * c0 < 0x1_0000_0000_0000_0000 && 0 <= c0 * unit < 0x1_0000_0000_0000_0000
        && (r0 + t) % m == vp(s, i + 1) % (m as nat) && (c0 * unit) % m == pw(i + 1) % (m as nat) && ((c0 * unit) % m) % m == pw(i + 1) % (m as nat) && r0 + t <= (i + 1) * (m - 1) }),
{
    let x = d as int; let p = pw(i) as int; let t = (x % m) * c0 % m;
    lemma_mod_bound(x, m); lemma_mod_bound(p, m); lemma_mod_bound(B as int, m); lemma_mod_bound((x % m) * c0, m);
    assert(0 <= (x % m) * c0 < 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires 0 <= x % m < 0x1_0000_0000, 0 <= c0 < 0x1_0000_0000;
    assert(0 <= c0 * unit < 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires 0 <= unit < 0x1_0000_0000, 0 <= c0 < 0x1_0000_0000;
    lemma_mul_mod_noop(x, p, m); lemma_mul_mod_noop(x % m, c0, m); lemma_mul_mod_noop(x % m, p, m); lemma_mod_twice(x, m); lemma_mul_mod_noop(c0, unit, m); lemma_mod_twice(B as int, m);
    assert(t == (x * p) % m);
    lemma_add_mod_noop(r0, x * p, m);
    lemma_add_mod_noop(r0, t, m);
    lemma_add_mod_noop(vp(s, i) as int, x * p, m);
    lemma_mod_twice(x * p, m);
    vp_step(s, i);
    assert(((d as nat) * pw(i)) as int == x * p);
    lemma_mul_mod_noop(p, B as int, m);
    assert(p * B == B * p) by(nonlinear_arith);
    assert(pw(i + 1) == B * pw(i)); lemma_mod_twice(c0 * unit, m);
    assert((i + 1) * (m - 1) == i * (m - 1) + (m - 1)) by(nonlinear_arith);
}
pub proof fn log2_val(s: Seq<u32>)
    requires canon(s)
    ensures forall|l: nat| #![trigger p2(l)] val(s) != 0 && p2(l) <= s[s.len() - 1] < p2(l + 1) ==> p2((32 * (s.len() - 1) + l) as nat) <= val(s) < p2((32 * (s.len() - 1) + l + 1) as nat),
        val(s) != 0 ==> s[s.len() - 1] != 0,
{
    canon_bounds(s);
    let n = (s.len() - 1) as nat;
    vp_step(s, n); vp_bound(s, n); pw_pos(n);
    assert forall|l: nat| #![trigger p2(l)] val(s) != 0 && p2(l) <= s[s.len() - 1] < p2(l + 1) implies p2((32 * (s.len() - 1) + l) as nat) <= val(s) < p2((32 * (s.len() - 1) + l + 1) as nat) by {
        p2_pw(n); p2_add(32 * n, l); p2_add(32 * n, l + 1);
        let (t, p, lo, a, b) = (s[s.len() - 1] as nat, pw(n), vp(s, n), p2(l), p2(l + 1));
        assert(p * a <= t * p + lo) by(nonlinear_arith) requires a <= t, lo >= 0;
        assert(t * p + lo < p * b) by(nonlinear_arith) requires t + 1 <= b, lo < p;
    }
}
pub proof fn pow2_val(s: Seq<u32>, exp: u32)
    requires s.len() == (exp / 32) + 1, forall|k: int| 0 <= k < exp / 32 ==> s[k] == 0, s[(exp / 32) as int] == 1u32 << (exp % 32)
    ensures canon(s), val(s) == p2(exp as nat)
{
    let n = (exp / 32) as nat; let a = (exp % 32) as nat;
    shl_p2_u32(exp % 32); p2_pos(a); vp_zero(s, n); p2_add(a, 32 * n); p2_pw(n); assert(a + 32 * n == exp);
}
/// floor of the binary logarithm
pub open spec fn vx_lg(n: nat) -> nat decreases n { if n < 2 { 0 } else { vx_lg(n / 2) + 1 } }
pub proof fn lg_is(n: nat) requires n > 0 ensures p2(vx_lg(n)) <= n < p2(vx_lg(n) + 1) decreases n
{
    if n >= 2 { lg_is(n / 2); assert(p2(vx_lg(n)) == 2 * p2(vx_lg(n / 2))); assert(p2(vx_lg(n) + 1) == 2 * p2(vx_lg(n / 2) + 1)); }
    else { assert(p2(0) == 1); assert(p2(1) == 2); }
}
pub proof fn lg_uniq(n: nat, r: nat) requires p2(r) <= n < p2(r + 1) ensures r == vx_lg(n)
{
    p2_pos(r); lg_is(n);
    let l = vx_lg(n);
    if r < l { if r + 1 < l { p2_lt(r + 1, l); } } else if l < r { if l + 1 < r { p2_lt(l + 1, r); } }
}
