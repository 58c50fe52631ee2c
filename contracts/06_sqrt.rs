pub proof fn shl_p2_u128(e: u32) requires e < 128 ensures 1u128 << e == p2(e as nat) decreases e {
    if e == 0 { assert(1u128 << 0u32 == 1) by(bit_vector); } else { shl_p2_u128((e - 1) as u32); let f = (e - 1) as u32;
        assert(1u128 << e == 2 * (1u128 << f)) by(bit_vector) requires 0 < e < 128, f == e - 1; }
}
pub proof fn shr_p2(n: u128, k: u32, l: nat)
    requires k < 128, l == k + 28, p2(l) <= n < p2(l + 1)
    ensures 0x1000_0000 <= n >> k < 0x2000_0000
{
    shr_div(n, k);
    p2_add(28, k as nat); p2_add(29, k as nat); p2_small(); p2_pos(k as nat);
    let p = p2(k as nat) as int; let m = n as int;
    fdm(m, p); let q = m / p; let r = m % p;
    assert(0x1000_0000 <= q < 0x2000_0000) by(nonlinear_arith) requires 0x1000_0000 * p <= m < 0x2000_0000 * p, m == q * p + r, 0 <= r < p;
}
pub proof fn shr_div(n: u128, k: u32) requires k < 128 ensures (n >> k) as nat == (n as nat) / p2(k as nat) decreases k
{
    if k == 0 { assert(n >> 0u32 == n) by(bit_vector); assert(p2(0) == 1); }
    else {
        let f = (k - 1) as u32; shr_div(n, f);
        assert(n >> k == (n >> f) / 2) by(bit_vector) requires 0 < k < 128, f == k - 1;
        p2_pos(f as nat);
        lemma_div_denominator(n as int, p2(f as nat) as int, 2);
        assert(p2(f as nat) * 2 == p2(k as nat));
    }
}
pub proof fn shl_mul(n: u128, k: u32) requires k < 128, n as int * p2(k as nat) <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff ensures (n << k) as int == n as int * p2(k as nat) decreases k
{
    if k == 0 { assert(n << 0u32 == n) by(bit_vector); assert(p2(0) == 1); assert(n << k == n << 0u32); assert(n as int * 1 == n); }
    else {
        let f = (k - 1) as u32; let a = n as int; let p = p2(f as nat) as int; p2_pos(f as nat);
        assert(p2(k as nat) == 2 * p);
        assert(a * (2 * p) == 2 * (a * p)) by(nonlinear_arith);
        assert(a * p >= 0) by(nonlinear_arith) requires a >= 0, p >= 0;
        shl_mul(n, f);
        let y = n << f;
        assert(n << k == (n << f) << 1u32) by(bit_vector) requires 0 < k < 128, f == k - 1;
        assert(y as int == a * p);
        assert(y << 1u32 == 2 * y) by(bit_vector) requires y <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff;
    }
}
pub proof fn shl_p2(n: u128, k: u32, l: nat)
    requires k <= 28, l == 28 - k, p2(l) <= n < p2(l + 1)
    ensures 0x1000_0000 <= n << k < 0x2000_0000
{
    p2_add(l, k as nat); p2_add(l + 1, k as nat); p2_small(); p2_pos(k as nat);
    let p = p2(k as nat) as int; let m = n as int;
    assert(p2(l) * p <= m * p < p2(l + 1) * p) by(nonlinear_arith) requires p2(l) <= m < p2(l + 1), p >= 1;
    shl_mul(n, k);
}
pub proof fn sq_p2(l: nat, n: int)
    requires p2(l) <= n < p2(l + 1)
    ensures ({ let p = p2(l / 2) as int; p >= 1 && p * p <= n < 4 * (p * p) })
{
    let h = l / 2; p2_pos(h); p2_add(h, h); let p = p2(h) as int;
    assert(p2(2 * h) == p * p);
    assert(p2(2 * h + 1) == 2 * p2(2 * h)); assert(p2(2 * h + 2) == 2 * p2(2 * h + 1));
    if l % 2 == 0 { assert(l == 2 * h); } else { assert(l == 2 * h + 1); }
}
pub proof fn newton1(n: int, p: int, r: int)
    requires p >= 1, p * p <= n < 4 * (p * p), p <= r, 8 * r <= 17 * p
    ensures ({ let ab = if n < r * r { r * r - n } else { n - r * r }; let q = ab / (2 * r); let d = if q < 1 { 1 } else { q };
        r * r <= 9 * (p * p) && (n > r * r ==> p <= r + d <= 4 * p) && (n <= r * r ==> d <= r && (r - d == 0 || 2 * (r - d) >= p)) })
{
    let ab = if n < r * r { r * r - n } else { n - r * r }; let q = ab / (2 * r); let d = if q < 1 { 1 } else { q };
    fdm(ab, 2 * r);
    assert(q * (2 * r) <= ab);
    assert(q >= 0) by(nonlinear_arith) requires ab >= 0, r >= 1, q == ab / (2 * r);
    assert(r * r <= 9 * (p * p)) by(nonlinear_arith) requires 0 <= r, 8 * r <= 17 * p, p >= 1;
    if n > r * r {
        assert(r * r >= p * p) by(nonlinear_arith) requires r >= p, p >= 1;
        assert(r < 2 * p) by(nonlinear_arith) requires r * r < 4 * (p * p), p >= 1, r >= 1;
        assert(2 * q <= 3 * p) by(nonlinear_arith) requires q * (2 * r) <= 3 * (p * p), r >= p, p >= 1, q >= 0;
    } else {
        assert(2 * q <= r) by(nonlinear_arith) requires q * (2 * r) <= r * r, r >= 1;
    }
}
pub proof fn newton2(n: int, p: int, r: int)
    requires p >= 1, p * p <= n < 4 * (p * p), 1 <= r <= 4 * p, 2 * r >= p
    ensures ({ let ab = if n < r * r { r * r - n } else { n - r * r }; let q = ab / (2 * r); 0 <= q <= 4 * p && r * r <= 16 * (p * p) })
{
    let ab = if n < r * r { r * r - n } else { n - r * r }; let q = ab / (2 * r);
    fdm(ab, 2 * r);
    assert(r * r <= 16 * (p * p)) by(nonlinear_arith) requires 1 <= r <= 4 * p;
    assert(r * r >= 0) by(nonlinear_arith);
    assert(q >= 0) by(nonlinear_arith) requires ab >= 0, r >= 1, q == ab / (2 * r);
    if r * r < n {
        assert(q < 4 * p) by(nonlinear_arith) requires q * (2 * r) <= n, n < 4 * (p * p), 2 * r >= p, p >= 1, q >= 0;
    } else {
        assert(2 * q <= r) by(nonlinear_arith) requires q * (2 * r) <= r * r, r >= 1;
    }
}
pub proof fn sq_small(p: int) requires 1 <= p <= 0x8000_0000 ensures p * p <= 0x4000_0000_0000_0000, forall|x: int| 0 <= x <= 6 * p ==> #[trigger] (x * x) < 0x1_0000_0000_0000_0000_0000
{
    assert(p * p <= 0x4000_0000_0000_0000) by(nonlinear_arith) requires 1 <= p <= 0x8000_0000;
    assert forall|x: int| 0 <= x <= 6 * p implies #[trigger] (x * x) < 0x1_0000_0000_0000_0000_0000 by {
        assert(x * x < 0x1_0000_0000_0000_0000_0000) by(nonlinear_arith) requires 0 <= x <= 0x6_0000_0000;
    }
}
pub proof fn sq_lt(r: int, p: int, n: int) requires r >= 0, p >= 1, r * r < n, n < 4 * (p * p) ensures r < 2 * p
{ assert(r < 2 * p) by(nonlinear_arith) requires r >= 0, p >= 1, r * r < 4 * (p * p); }
pub proof fn sqrt_init(v: int, len: nat, a: int)
    requires len >= 3, a >= 1, v >= 0, a * a <= v / (pw((len - 2) as nat) as int)
    ensures ({ let h = (len / 2 - 1) as nat; let r = (if len % 2 != 0 { a * 65536 } else { a }) * pw(h); r >= 1 && r * r <= v })
{
    let h = (len / 2 - 1) as nat; let p = pw(h) as int; pw_pos(h); pw_add(h, h); pw_pos((len - 2) as nat);
    let t = pw((len - 2) as nat) as int; fdm(v, t); let q = v / t;
    if len % 2 != 0 {
        assert(2 * h + 1 == len - 2); pw_add(1, 2 * h); pw_1();
        assert(t == B * (p * p));
        let x = a * 65536;
        assert(x * p >= 1) by(nonlinear_arith) requires x >= 1, p >= 1;
        assert((x * p) * (x * p) <= v) by(nonlinear_arith) requires x == a * 65536, t == 0x1_0000_0000 * (p * p), a * a <= q, v >= q * t, p >= 1;
    } else {
        assert(2 * h == len - 2);
        assert(a * p >= 1) by(nonlinear_arith) requires a >= 1, p >= 1;
        assert((a * p) * (a * p) <= v) by(nonlinear_arith) requires t == p * p, a * a <= q, v >= q * t, p >= 1;
    }
}
pub proof fn newton_sub(r: int, v: int)
    requires r > 0, v >= 0
    ensures r * r >= v ==> ({ let d = ((r * r - v) / 2) / r; 0 <= d && 2 * d <= r }), r * r <= v ==> ((v - r * r) / 2) / r >= 0,
{
    if r * r >= v {
        let y = (r * r - v) / 2; fdm(y, r); let d = y / r;
        assert(d >= 0) by(nonlinear_arith) requires d == y / r, y >= 0, r > 0;
        assert(2 * d <= r) by(nonlinear_arith) requires d * r <= y, 2 * y <= r * r, r > 0;
    }
    if r * r <= v { let y = (v - r * r) / 2; assert(y / r >= 0) by(nonlinear_arith) requires y >= 0, r > 0; }
}
// one Newton step: never more than one below the root afterwards; from (nearly) below it moves by at most 4
pub proof fn newton_step(x: int, n: int)
    requires x > 0, n >= 0
    ensures x * x <= n ==> ({ let d = ((n - x * x) / 2) / x; d >= 0 && (x + d + 1) * (x + d + 1) > n && (x + d + 2) * (x + d + 2) > n && ((x + 2) * (x + 2) > n ==> d <= 4) }),
        x * x > n ==> ({ let d = ((x * x - n) / 2) / x; d >= 0 && d < x && (x - d) * (x - d) >= n && (x - d + 2) * (x - d + 2) > n }),
{
    let s = x * x;
    if s <= n {
        let h = (n - s) / 2; let d = h / x;
        fdm(h, x);
        assert(d >= 0) by(nonlinear_arith) requires h >= 0, h == d * x + h % x, h % x < x, x > 0;
        assert((x + d + 1) * (x + d + 1) > n) by(nonlinear_arith) requires n <= s + 2 * h + 1, s == x * x, h == d * x + h % x, h % x <= x - 1, x > 0, d >= 0;
        assert((x + d + 2) * (x + d + 2) > n) by(nonlinear_arith) requires (x + d + 1) * (x + d + 1) > n, x > 0, d >= 0;
        if (x + 2) * (x + 2) > n {
            assert(n < s + 4 * x + 4) by(nonlinear_arith) requires (x + 2) * (x + 2) > n, s == x * x;
            assert(h <= 2 * x + 2);
            assert(d <= 4) by(nonlinear_arith) requires h <= 2 * x + 2, h == d * x + h % x, h % x >= 0, x > 0;
        }
    } else {
        let h = (s - n) / 2; let d = h / x;
        fdm(h, x);
        assert(d >= 0) by(nonlinear_arith) requires h >= 0, h == d * x + h % x, h % x < x, x > 0;
        assert(2 * h <= s - n);
        assert((x - d) * (x - d) >= n) by(nonlinear_arith) requires 2 * h <= s - n, s == x * x, h == d * x + h % x, h % x >= 0;
        assert(d < x) by(nonlinear_arith) requires 2 * h <= s - n, s == x * x, n >= 0, h == d * x + h % x, h % x >= 0, x > 0;
        let y = x - d;
        assert((y + 2) * (y + 2) > n) by(nonlinear_arith) requires y * y >= n, y > 0;
    }
}
