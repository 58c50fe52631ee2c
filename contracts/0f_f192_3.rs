pub proof fn f_opi(s: int, p: int, q: int) requires s > 0, p >= q ensures s * p >= s * q { assert(s * p >= s * q) by(nonlinear_arith) requires s > 0, p >= q; }
/// the upper half of a product of two 128-digit numbers, from below
pub proof fn f_mulm(h1: int, l1: int, h2: int, l2: int, ml: int)
    requires 0x8000_0000_0000_0000 <= h1 < B64, 0 <= l1 < B64, 0x8000_0000_0000_0000 <= h2 < B64, 0 <= l2 < B64, ml == ((h1 * l2) / 2 + (h2 * l1) / 2) / 0x8000_0000_0000_0000
    ensures ({ let s = h1 * h2 + ml; let p = (h1 * B64 + l1) * (h2 * B64 + l2); 0 <= ml && s * (2 * T127) <= p < (s + 2) * (2 * T127) && s < 2 * T127 && 2 * s >= T127 && s > 0 && p >= T127 * T127 })
{
    let (a, b, c, hh) = (h1 * l2, h2 * l1, l1 * l2, h1 * h2);
    f_prod(h1, l2); f_prod(h2, l1); f_prod(l1, l2); f_prod(h1, h2);
    let p = (h1 * B64 + l1) * (h2 * B64 + l2);
    assert(p == hh * (B64 * B64) + (a + b) * B64 + c) by(nonlinear_arith) requires p == (h1 * B64 + l1) * (h2 * B64 + l2), a == h1 * l2, b == h2 * l1, c == l1 * l2, hh == h1 * h2;
    assert(ml * 0x1_0000_0000_0000_0000 <= a + b <= (ml + 1) * 0x1_0000_0000_0000_0000);
    let s = hh + ml;
    let (x, y) = (h1 * B64 + l1, h2 * B64 + l2);
    assert(x < 2 * T127 && y < 2 * T127 && x >= T127 && y >= T127);
    assert(x * y <= (2 * T127 - 1) * (2 * T127 - 1)) by(nonlinear_arith) requires 0 <= x <= 2 * T127 - 1, 0 <= y <= 2 * T127 - 1;
    assert(x * y >= T127 * T127) by(nonlinear_arith) requires x >= T127, y >= T127;
    assert(B64 * B64 == 2 * T127);
    let t2 = 2 * T127 as int;
    assert(t2 == 0x1_0000_0000_0000_0000_0000_0000_0000_0000int);
    assert(s * t2 == hh * t2 + ml * t2) by(nonlinear_arith) requires s == hh + ml;
    assert((s + 2) * t2 == s * t2 + 2 * t2) by(nonlinear_arith);
    assert(p == hh * t2 + (a + b) * B64 + c);
    assert((a + b) * B64 >= ml * t2);
    assert((a + b) * B64 <= ml * t2 + t2);
    assert(s * t2 <= p < (s + 2) * t2);
    assert(s < t2) by { if s >= t2 { assert(s * t2 >= t2 * t2) by(nonlinear_arith) requires s >= t2, t2 > 0; assert((t2 - 1) * (t2 - 1) < t2 * t2) by(nonlinear_arith) requires t2 > 1; } }
}
pub proof fn f_pack3(d: u128, a: u128, b: u128) ensures ({ let r = (d & !0x8000_0000_0000_0000_0000_0000_0000_0000u128) | ((a ^ b) & 0x8000_0000_0000_0000_0000_0000_0000_0000u128); r as int == (if (a >= T127) != (b >= T127) { T127 as int } else { 0 }) + d as int % T127 as int })
{
    assert((d & !0x8000_0000_0000_0000_0000_0000_0000_0000u128) | ((a ^ b) & 0x8000_0000_0000_0000_0000_0000_0000_0000u128) == if (a >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128) != (b >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128) { add(0x8000_0000_0000_0000_0000_0000_0000_0000u128, d % 0x8000_0000_0000_0000_0000_0000_0000_0000u128) } else { d % 0x8000_0000_0000_0000_0000_0000_0000_0000u128 }) by(bit_vector);
}
pub proof fn f_mulv(a: &F192, b: &F192, r: &F192, s: int, k: nat)
    requires !a.z(), !b.z(), r.wf(), !r.z(), r.sg() == (a.sg() != b.sg()), r.mag() == s * (p2(k) as int), r.e() == a.e() + b.e() + 128 - k,
        s * (2 * T127) <= a.mag() * b.mag() < (s + 2) * (2 * T127), a.mag() * b.mag() >= T127 * T127, s > 0
    ensures fclose(*r, a.fv() * b.fv())
{
    fv_sign(a); fv_sign(b); fv_sign(r); p2_127();
    let e = a.e() + b.e();
    f_lift(s, r.e(), k); f_lift(s, e, 128);
    let p = a.mag() * b.mag(); let q = s * (2 * T127);
    hom(a.mag(), b.mag());
    if b.e() >= 0 { rz_add(a.e(), b.e() as nat); } else { rz_add(e, (-b.e()) as nat); rz_inv((-b.e()) as nat); }
    let (x, y, u, v, w) = (a.mag() as real, b.mag() as real, rz(a.e()), rz(b.e()), rz(e));
    rz_step(e);
    assert(u * v == w) by { if b.e() < 0 { let g = rz(-b.e()); assert(u == w * g); assert(g * v == 1real); assert((w * g) * v == w * (g * v)) by(nonlinear_arith); assert(w * 1real == w) by(nonlinear_arith); } }
    assert((x * u) * (y * v) == (x * y) * (u * v)) by(nonlinear_arith);
    let (pr, qr, t) = (p as real, q as real, T127r());
    assert(pr == x * y);
    let (f, g) = (a.fv(), b.fv());
    let (fa, ga) = (x * u, y * v);
    assert((0real - fa) * ga == 0real - fa * ga && fa * (0real - ga) == 0real - fa * ga && (0real - fa) * (0real - ga) == fa * ga) by(nonlinear_arith);
    assert(pr * w > 0real) by(nonlinear_arith) requires pr > 0real, w > 0real;
    assert(rabs(r.fv()) == qr * w);
    assert(rabs(f * g) == pr * w);
    assert((s + 2) * (2 * T127) == q + 4 * T127) by(nonlinear_arith) requires q == s * (2 * T127);
    assert(q <= p < q + 4 * T127);
    assert(qr <= pr < qr + 4real * t);
    f_opp(qr, pr, w);
    assert(pr * w - qr * w == (pr - qr) * w) by(nonlinear_arith);
    assert(rabs(r.fv() - f * g) == (pr - qr) * w);
    assert(pr >= t * t) by { hom(T127 as int, T127 as int); }
    let d = pr - qr;
    assert(d * w * t <= 4real * (pr * w)) by(nonlinear_arith) requires 0real <= d <= 4real * t, t * t <= pr, w > 0real, t > 0real;
}
pub proof fn f_dm(d: int, a: int) requires T127 <= d < 2 * T127, 0 < a <= 0x8000_0000 ensures d == (d / a) * a + d % a, 0 <= d % a < a, d / a >= 0x8000_0000_0000_0000_0000_0000, d / a <= d
{
    lemma_fundamental_div_mod(d, a);
    let q = d / a;
    assert(d == q * a + d % a) by(nonlinear_arith) requires d == a * q + d % a, q == d / a;
    if q < 0x8000_0000_0000_0000_0000_0000 { assert(q * a <= (0x8000_0000_0000_0000_0000_0000 - 1) * 0x8000_0000) by(nonlinear_arith) requires q <= 0x8000_0000_0000_0000_0000_0000 - 1, 0 < a <= 0x8000_0000; }
    assert(q * a >= q) by(nonlinear_arith) requires a >= 1, q >= 0;
}
/// one doubling of both parts
pub proof fn f_dbl(q: int, r0: int, k: nat) requires q >= 0x8000_0000_0000_0000_0000_0000, 0 <= r0 < 0x8000_0000_0000_0000, q * p2(k) < T127
    ensures q * p2(k + 1) == 2 * (q * p2(k)), r0 * p2(k + 1) == 2 * (r0 * p2(k)), 0 <= r0 * p2(k) < 0x8000_0000_0000_0000 * 0x1_0000_0000, k < 32, q * p2(k) > 0
{
    let p = p2(k) as int; p2_pos(k); assert(p2(k + 1) == 2 * p2(k));
    assert(q * (2 * p) == 2 * (q * p) && r0 * (2 * p) == 2 * (r0 * p)) by(nonlinear_arith);
    assert(q * p > 0) by(nonlinear_arith) requires q > 0, p > 0;
    assert(p < 0x1_0000_0000) by { if p >= 0x1_0000_0000 { assert(q * p >= 0x8000_0000_0000_0000_0000_0000 * 0x1_0000_0000) by(nonlinear_arith) requires q >= 0x8000_0000_0000_0000_0000_0000, p >= 0x1_0000_0000; } }
    p2_32(); if k >= 32 { p2_ge(32); }
    assert(0 <= r0 * p < 0x8000_0000_0000_0000 * 0x1_0000_0000) by(nonlinear_arith) requires 0 <= r0 < 0x8000_0000_0000_0000, 0 < p < 0x1_0000_0000;
}
pub proof fn f_div0(x: &F192, a: int) requires a != 0 ensures x.z() ==> fsum(F192 { digits: 0, exp: 0 }, x.fv() / (a as real))
{
    fv_sign(x); let z = F192 { digits: 0, exp: 0 }; fv_sign(&z); let y = a as real;
    assert(0real / y == 0real) by(nonlinear_arith) requires y != 0real; f_self_sum(&z);
}
pub proof fn f_mulz(x: &F192, a: int) ensures x.z() || a == 0 ==> fsum(F192 { digits: 0, exp: 0 }, x.fv() * (a as real))
{
    fv_sign(x); let z = F192 { digits: 0, exp: 0 }; fv_sign(&z); let (f, y) = (x.fv(), a as real);
    assert(f == 0real || y == 0real ==> f * y == 0real) by(nonlinear_arith); f_self_sum(&z);
}
/// |x| = (n / d) * 2^e, truncated
pub proof fn f_quot(r: &F192, x: real, n: int, d: int, s: int, e: int)
    requires d > 0, rabs(x) * (d as real) == (n as real) * rz(e), n >= s * d, n < (s + 1) * d, r.wf(), !r.z(), r.sg() == (x < 0real), x != 0real, s >= T127,
        (s < 2 * T127 && r.e() == e && r.mag() == s) || (s >= 2 * T127 && r.e() == e + 1 && r.mag() == s / 2)
    ensures fsum(*r, x)
{
    fv_sign(r); rz_step(e);
    let (y, dr, nr, sr, w) = (rabs(x), d as real, n as real, s as real, rz(e));
    hom(s, d); hom(s + 1, d);
    assert((s + 1) as real == sr + 1real);
    assert(sr * dr <= nr < (sr + 1real) * dr);
    f_opp(sr * dr, nr, w); f_strict(nr, (sr + 1real) * dr, w);
    assert((sr * dr) * w == (sr * w) * dr && ((sr + 1real) * dr) * w == (sr * w + w) * dr) by(nonlinear_arith);
    assert(sr * w <= y) by { if y < sr * w { f_strict(y, sr * w, dr); } }
    assert(y < sr * w + w) by { if y >= sr * w + w { f_opp(sr * w + w, y, dr); } }
    if s >= 2 * T127 {
        let h = s / 2; let t = s % 2; let (hr, tr) = (h as real, t as real);
        assert(sr == 2real * hr + tr);
        assert((2real * hr + tr) * w == hr * (2real * w) + tr * w) by(nonlinear_arith);
        assert(0real <= tr * w <= w) by(nonlinear_arith) requires 0real <= tr <= 1real, w > 0real;
    }
    f_trunc_ok(r, x);
}
/// (d / a) * 2^k + (d % a) * 2^k / a is d * 2^k / a
pub proof fn f_divq(d: int, a: int, k: nat) requires d > 0, a > 0
    ensures ({ let p = p2(k) as int; let s = (d / a) * p + ((d % a) * p) / a; d * p >= s * a && d * p < (s + 1) * a && 0 <= ((d % a) * p) / a < p && (d / a) * p <= s < (d / a) * p + p })
{
    let p = p2(k) as int; p2_pos(k);
    lemma_fundamental_div_mod(d, a);
    let (q, r) = (d / a, d % a);
    let u = r * p; let v = u / a;
    lemma_fundamental_div_mod(u, a);
    assert(u >= 0) by(nonlinear_arith) requires u == r * p, r >= 0, p > 0;
    assert(v >= 0) by { lemma_div_pos_is_pos(u, a); }
    assert(u < p * a) by(nonlinear_arith) requires u == r * p, 0 <= r < a, p > 0;
    assert(v < p) by { if v >= p { assert(a * v >= p * a) by(nonlinear_arith) requires v >= p, a > 0; } }
    let s = q * p + v;
    assert(d * p == (a * q + r) * p);
    assert((a * q + r) * p == (q * p) * a + u) by(nonlinear_arith) requires u == r * p;
    assert(s * a == (q * p) * a + a * v) by(nonlinear_arith) requires s == q * p + v;
    assert((s + 1) * a == s * a + a) by(nonlinear_arith);
}
pub proof fn f_split32(d: u128) ensures d & 0xffff_ffff == d as int % 0x1_0000_0000, d >> 32i32 == d as int / 0x1_0000_0000, forall|x: u128| #[trigger] (x >> 32i32) == x as int / 0x1_0000_0000
{
    assert(d & 0xffff_ffff == d % 0x1_0000_0000u128) by(bit_vector);
    assert forall|x: u128| #[trigger] (x >> 32i32) == x as int / 0x1_0000_0000 by { assert(x >> 32i32 == x / 0x1_0000_0000u128) by(bit_vector); }
}
pub proof fn f_divv(x: &F192, a: int, r: &F192, k: nat) requires x.wf(), !x.z(), a != 0, r.wf(), !r.z(), r.sg() == (x.sg() != (a < 0)), r.e() == x.e() - k, ({ let d = x.mag(); let b = if a < 0 { -a } else { a }; let s = (d / b) * p2(k) + ((d % b) * p2(k)) / b; T127 <= s < 2 * T127 && r.mag() == s })
    ensures fsum(*r, x.fv() / (a as real))
{
    fv_sign(x);
    let b = if a < 0 { -a } else { a }; let d = x.mag(); let p = p2(k) as int; p2_pos(k);
    f_divq(d, b, k);
    let e = r.e();
    f_lift(1, e, k); rz_step(e); hom(d, p);
    assert(1 * (p2(k) as int) == p);
    let (br, dr, pr, w, v, ar) = (b as real, d as real, p as real, rz(e), rz(x.e()), a as real);
    assert(pr * w == v) by { assert(1real * v == v); }
    let m = dr * v;
    assert(m > 0real) by(nonlinear_arith) requires m == dr * v, dr > 0real, v > 0real;
    assert((m / br) * br == m) by(nonlinear_arith) requires br > 0real;
    assert(m / br > 0real) by(nonlinear_arith) requires br > 0real, m > 0real;
    assert(dr * (pr * w) == (dr * pr) * w) by(nonlinear_arith);
    let f = x.fv();
    let y = f / ar;
    assert(y == (if (f < 0real) != (a < 0) { 0real - m / br } else { m / br })) by(nonlinear_arith) requires y == f / ar, br > 0real, (f == m || f == 0real - m), m > 0real, (a < 0 ==> ar == 0real - br && ar < 0real), (!(a < 0) ==> ar == br), (f < 0real ==> f == 0real - m), (!(f < 0real) ==> f == m);
    f_quot(r, y, d * p, b, r.mag(), e);
}
