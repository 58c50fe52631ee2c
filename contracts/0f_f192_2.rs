/// x = y * 2^e with y in [2^127, 2^128), rounded to the integer d
pub proof fn f_near(r: &F192, x: real, y: real, e: int, d: int)
    requires r.wf(), !r.z(), rabs(x) == y * rz(e), T127r() <= y < 2real * T127r(), nearint(d, y), r.sg() == (x < 0real), x != 0real,
        (r.e() == e && r.mag() == d) || (r.e() == e + 1 && r.mag() == T127 && d == 2 * T127)
    ensures fnear(*r, x)
{
    fv_sign(r); rz_step(e);
    let w = rz(e);
    let dr = d as real;
    let t = T127r();
    if r.e() != e { assert(t * (2real * w) == (2real * t) * w) by(nonlinear_arith); assert(dr == 2real * t); }
    assert(rabs(r.fv()) == dr * w);
    // |r - x| == |d - y| * w
    assert(dr * w - y * w == (dr - y) * w) by(nonlinear_arith);
    rabs_mul(dr - y, w);
    let err = rabs(dr - y);
    assert(rabs(r.fv() - x) == err * w);
    nearint_best(d, y, d);
    assert(err * w * t <= y * w) by(nonlinear_arith) requires err <= 0.5real, t <= y, w > 0real, err >= 0real, t > 0real;
    assert forall|z: F192| z.wf() implies rabs(r.fv() - x) <= rabs(#[trigger] z.fv() - x) by {
        fv_sign(&z);
        nearint_best(d, y, T127 as int); nearint_best(d, y, 2 * (T127 as int));
        assert((2 * (T127 as int)) as real == 2real * t);
        // |z| as a multiple v of w
        let az = rabs(z.fv());
        if z.e() == e && !z.z() {
            nearint_best(d, y, z.mag());
            let v = z.mag() as real;
            assert(v * w - y * w == (v - y) * w) by(nonlinear_arith);
            rabs_mul(v - y, w);
            f_opp(err, rabs(v - y), w);
            assert(az == v * w);
            assert(rabs(az - rabs(x)) >= err * w);
        } else if z.z() || z.e() < e {
            if !z.z() { mag_lt(z.mag(), z.e(), T127 as int, e); }
            assert(az <= t * w) by { if z.z() { assert(t * w >= 0real) by(nonlinear_arith) requires t > 0real, w > 0real; } }
            assert(y * w - t * w == (y - t) * w) by(nonlinear_arith);
            f_opp(err, y - t, w);
            assert(rabs(az - rabs(x)) >= err * w);
        } else {
            mag_ge(z.mag(), z.e(), e);
            assert((2real * t) * w - y * w == (2real * t - y) * w) by(nonlinear_arith);
            f_opp(err, 2real * t - y, w);
            assert(rabs(az - rabs(x)) >= err * w);
        }
    }
}
pub proof fn f_opp(a: real, b: real, w: real) requires a <= b, w > 0real ensures a * w <= b * w { assert(a * w <= b * w) by(nonlinear_arith) requires a <= b, w > 0real; }
pub proof fn mag_ge(m: int, em: int, e: int) requires m >= T127, em > e ensures (m as real) * rz(em) >= (2real * T127r()) * rz(e)
{
    rz_step(e); rz_mono(e + 1, em);
    let (a, t, u, v) = (m as real, T127r(), rz(e), rz(em));
    assert(a * v >= t * v) by(nonlinear_arith) requires a >= t, v > 0real;
    assert(t * v >= t * (2real * u)) by(nonlinear_arith) requires v >= 2real * u, t > 0real;
    assert(t * (2real * u) == (2real * t) * u) by(nonlinear_arith);
}
/// bounds of a rational by the lengths of its parts
pub proof fn ratio_range(n: &Ratio) requires n.wf(), n.rv() != 0real
    ensures ({ let k = 32 * n.denom.val.0@.len(); let l = 32 * n.numer.val.0@.len(); rz(-(k as int)) <= rabs(n.rv()) < rz(l as int) })
{
    let (a, b) = (n.numer.v(), n.denom.v());
    let kd = n.denom.val.0@.len(); let ln = n.numer.val.0@.len();
    canon_bounds(n.denom.val.0@); canon_bounds(n.numer.val.0@); p2_pw(kd); p2_pw(ln);
    rz_inv((32 * kd) as nat);
    let (x, y, p, u) = (a as real, b as real, pw(kd) as real, rz(-((32 * kd) as int)));
    let h = rabs(x);
    assert(a != 0) by { if a == 0 { assert(0real / y == 0real) by(nonlinear_arith) requires y > 0real; } }
    assert(h >= 1real);
    assert(n.rv() == x / y);
    assert(rabs(x / y) == h / y) by(nonlinear_arith) requires y > 0real, h == (if x < 0real { 0real - x } else { x });
    assert(h / y >= u) by(nonlinear_arith) requires h >= 1real, 0real < y < p, p * u == 1real, u > 0real;
    assert(h / y <= h) by(nonlinear_arith) requires y >= 1real, h >= 1real;
}
pub proof fn f_or(d: u128, s: bool) requires d < T127 ensures d | ((if s { 1u128 } else { 0u128 }) << 127i32) == if s { d + T127 } else { d as int }
{
    assert(d | (1u128 << 127i32) == 0x8000_0000_0000_0000_0000_0000_0000_0000u128 + d) by(bit_vector) requires d < 0x8000_0000_0000_0000_0000_0000_0000_0000u128;
    assert(d | (0u128 << 127i32) == d) by(bit_vector);
}
/// halves: the sixteenth of 32 parts
pub proof fn f_half(y: real, n: int, k: int) requires y >= 0real, is_trunc(n, y * 32real), is_trunc(k, y)
    ensures n % 32 > 15 ==> y >= k as real + 0.5real, n % 32 <= 15 ==> y < k as real + 0.5real, 0 <= n % 32, n >= 0, k >= 0, n / 32 == k
{
    assert(n >= 0) by { if n < 0 { assert(n + 1 <= 0); assert((n + 1) as real <= 0real); assert(y * 32real >= 0real); } }
    assert(k >= 0) by { if k < 0 { assert((k + 1) as real <= 0real); } }
    let d = n - 32 * k;
    assert(d >= 0) by { if d < 0 { assert(n + 1 <= 32 * k); assert((n + 1) as real <= 32real * (k as real)); } }
    assert(d < 32) by { if d >= 32 { assert(n >= 32 * (k + 1)); assert(n as real >= 32real * ((k + 1) as real)); } }
    assert(n as real == 32real * (k as real) + d as real);
    assert(n % 32 == d);
    if d >= 16 { assert(d as real >= 16real); } else { assert((d + 1) as real <= 16real); }
}
pub proof fn f_one(x: real) ensures x * rz(0) == x { assert(rz(0) == 1real); assert(x * 1real == x) by(nonlinear_arith); }
pub proof fn f_strict(a: real, b: real, w: real) requires w > 0real ensures a < b ==> a * w < b * w, 1real * w == w { assert(1real * w == w) by(nonlinear_arith); if a < b { assert(a * w < b * w) by(nonlinear_arith) requires a < b, w > 0real; } }
pub proof fn tdiv32() ensures forall|a: int| a >= 0 ==> #[trigger] trem(a, 32) == a % 32 {}
pub proof fn trunc_all(x: real) requires x >= 0real
    ensures forall|k: int| #[trigger] is_trunc(k, x) ==> k >= 0 && k as real <= x, forall|a: int, b: int| #[trigger] is_trunc(a, x) && #[trigger] is_trunc(b, x) ==> a == b
{
    assert forall|k: int| #[trigger] is_trunc(k, x) implies k >= 0 by { if k < 0 { assert((k + 1) as real <= 0real); } }
    assert forall|a: int, b: int| #[trigger] is_trunc(a, x) && #[trigger] is_trunc(b, x) implies a == b by { if a < b { assert((a + 1) as real <= b as real); } else if b < a { assert((b + 1) as real <= a as real); } }
}
pub proof fn f_near0() ensures fnear(F192 { digits: 0, exp: 0 }, 0real) { let z = F192 { digits: 0, exp: 0 }; fv_sign(&z); assert(rabs(z.fv() - 0real) == 0real); assert(0real * T127r() == 0real) by(nonlinear_arith); }
/// the number without its fraction, an error exactly if that does not fit (an unsigned type takes no negative number)
pub open spec fn f_to_int<T: VxNum>(x: real, r: Result<T, ()>) -> bool { match r { Ok(n) => is_trunc(n.num(), x) && (x < 0real ==> T::fits(-1)), Err(_) => (x < 0real && !T::fits(-1)) || forall|k: int| #[trigger] is_trunc(k, x) ==> !T::fits(k) } }
pub proof fn trunc_u(x: real)
    ensures forall|a: int, b: int| #[trigger] is_trunc(a, x) && #[trigger] is_trunc(b, x) ==> a == b,
        forall|a: int| #[trigger] is_trunc(a, x) ==> (x >= (2 * (T127 as int)) as real ==> a >= 2 * T127) && (x >= T127r() ==> a >= T127) && (x <= (-0x8000_0000_0000_0000_0000_0000_0000_0001int) as real ==> a < -(T127 as int)),
{
    let t = T127 as int;
    assert forall|a: int, b: int| #[trigger] is_trunc(a, x) && #[trigger] is_trunc(b, x) implies a == b by { if a < b { assert((a + 1) as real <= b as real); } else if b < a { assert((b + 1) as real <= a as real); } }
    assert forall|a: int| #[trigger] is_trunc(a, x) implies (x >= (2 * t) as real ==> a >= 2 * t) && (x >= T127r() ==> a >= t) && (x <= (-0x8000_0000_0000_0000_0000_0000_0000_0001int) as real ==> a < -t) by {
        if a < t { assert((a + 1) as real <= t as real); } if a < 2 * t { assert((a + 1) as real <= (2 * t) as real); } if a >= -t { assert((a - 1) as real >= (-t - 1) as real); }
    }
}
pub open spec fn f_range(x: real) -> bool { x == 0real || rz(-0x20_0000_0000) <= rabs(x) < rz(0x20_0000_0000) }
/// a relative error of at most 2^-127, and none where the number is an F192
pub open spec fn fsum(r: F192, x: real) -> bool { r.wf() && rabs(r.fv() - x) * T127r() <= rabs(x) && (f_repr(x) ==> r.fv() == x) }
pub open spec fn f_repr(x: real) -> bool { exists|y: F192| y.wf() && #[trigger] y.fv() == x }
pub open spec fn f_pack2(d: u128, s: u128) -> bool { (d & !0x8000_0000_0000_0000_0000_0000_0000_0000u128) | ((s >> 127i32) << 127i32) == if s >= T127 { T127 + d as int % T127 as int } else { d as int % T127 as int } }
pub proof fn f_pack2_ok(d: u128, s: u128) ensures f_pack2(d, s)
{
    assert((d & !0x8000_0000_0000_0000_0000_0000_0000_0000u128) | ((s >> 127i32) << 127i32) == if s >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 { add(0x8000_0000_0000_0000_0000_0000_0000_0000u128, d % 0x8000_0000_0000_0000_0000_0000_0000_0000u128) } else { d % 0x8000_0000_0000_0000_0000_0000_0000_0000u128 }) by(bit_vector);
}
/// the number truncated to 128 digits
pub proof fn f_trunc_ok(r: &F192, x: real)
    requires r.wf(), !r.z(), r.sg() == (x < 0real), x != 0real, (r.mag() as real) * rz(r.e()) <= rabs(x) < (r.mag() as real) * rz(r.e()) + rz(r.e())
    ensures fsum(*r, x)
{
    fv_sign(r);
    let (m, w, t) = (r.mag() as real, rz(r.e()), T127r());
    let ax = rabs(x);
    assert(rabs(r.fv() - x) == ax - m * w);
    assert(w * t <= m * w) by(nonlinear_arith) requires t <= m, w > 0real;
    f_opp(ax - m * w, w, t);
    if f_repr(x) {
        let y = choose|y: F192| y.wf() && #[trigger] y.fv() == x;
        fv_sign(&y);
        assert(rabs(y.fv()) == (y.mag() as real) * rz(y.e()));
        assert((m + 1real) * w == m * w + w) by(nonlinear_arith);
        if y.e() < r.e() { mag_lt(y.mag(), y.e(), r.mag(), r.e()); }
        else if y.e() > r.e() { mag_ge(y.mag(), y.e(), r.e()); let u = 2real * t; assert(m + 1real <= u); f_opp(m + 1real, u, w); }
        else {
            let n = y.mag() as real;
            if y.mag() < r.mag() { f_strict(n, m, w); }
            else if y.mag() > r.mag() { assert(n >= m + 1real); f_opp(m + 1real, n, w); }
        }
    }
}
/// b.mag shifted right by the difference of the exponents
pub open spec fn f_s(a: &F192, b: &F192) -> int { a.mag() + b.mag() / (p2((a.exp - b.exp) as nat) as int) }
pub proof fn f_far(a: &F192, b: &F192) ensures a.exp - b.exp > 127 ==> f_s(a, b) == a.mag(), a.exp >= b.exp ==> p2((a.exp - b.exp) as nat) > 0
{
    fv_sign(b);
    if a.exp >= b.exp { p2_pos((a.exp - b.exp) as nat); }
    if a.exp - b.exp > 127 {
        let k = (a.exp - b.exp - 128) as nat;
        p2_add(128, k); p2_pos(k); p2_127();
        let (d, h, l) = (p2((a.exp - b.exp) as nat) as int, p2(128) as int, p2(k) as int);
        assert(h * l >= h) by(nonlinear_arith) requires l >= 1, h > 0;
        lemma_fundamental_div_mod_converse(b.mag(), d, 0, b.mag());
    }
}
pub proof fn f_addm(a: &F192, b: &F192, r: &F192)
    requires a.wf(), b.wf(), !a.z(), !b.z(), a.exp >= b.exp, a.sg() == b.sg(), r.sg() == a.sg(), r.wf(), !r.z(),
        ({ let s = f_s(a, b); (s < 2 * T127 && r.exp == a.exp && r.mag() == s) || (s >= 2 * T127 && r.exp == a.exp + 1 && r.mag() == s / 2) })
    ensures fsum(*r, a.fv() + b.fv())
{
    fv_sign(a); fv_sign(b); fv_sign(r);
    let k = (a.exp - b.exp) as nat; let p = p2(k) as int; p2_pos(k);
    let s = f_s(a, b); let f = b.mag() % p; let q = b.mag() / p;
    lemma_fundamental_div_mod(b.mag(), p);
    rz_add(b.e(), k); rz_step(a.e());
    let (ar, br, qr, fr, pr, w, v) = (a.mag() as real, b.mag() as real, q as real, f as real, p as real, rz(a.e()), rz(b.e()));
    assert(b.mag() == q * p + f) by(nonlinear_arith) requires b.mag() == p * q + f;
    hom(q, p);
    assert(br == qr * pr + fr);
    assert(w == v * pr);
    assert((qr * pr + fr) * v == qr * (v * pr) + fr * v) by(nonlinear_arith);
    assert(0real <= fr * v < pr * v) by(nonlinear_arith) requires 0real <= fr < pr, v > 0real;
    assert(pr * v == v * pr) by(nonlinear_arith);
    let sr = s as real;
    assert(sr == ar + qr);
    assert((ar + qr) * w == ar * w + qr * w) by(nonlinear_arith);
    let x = a.fv() + b.fv();
    assert(rabs(x) == sr * w + fr * v);
    assert(sr * w > 0real) by(nonlinear_arith) requires sr > 0real, w > 0real;
    if s >= 2 * T127 {
        let h = s / 2; let t = s % 2; let (hr, tr) = (h as real, t as real);
        assert(sr == 2real * hr + tr);
        assert((2real * hr + tr) * w == hr * (2real * w) + tr * w) by(nonlinear_arith);
        assert(0real <= tr * w <= w) by(nonlinear_arith) requires 0real <= tr <= 1real, w > 0real;
    }
    f_trunc_ok(r, x);
}
pub proof fn f_self_sum(a: &F192) requires a.wf() ensures fsum(*a, a.fv()) { assert(rabs(a.fv() - a.fv()) == 0real); assert(0real * T127r() == 0real) by(nonlinear_arith); }
pub proof fn f_zero_sum(a: &F192, b: &F192) requires a.wf(), b.wf() ensures a.z() ==> fsum(*b, a.fv() + b.fv()), b.z() ==> fsum(*a, a.fv() + b.fv()) && fsum(*a, a.fv() - b.fv()), a.z() ==> a.fv() == 0real
{ fv_sign(a); fv_sign(b); if a.z() { f_self_sum(b); assert(a.fv() + b.fv() == b.fv()); } if b.z() { f_self_sum(a); assert(a.fv() + b.fv() == a.fv()); assert(a.fv() - b.fv() == a.fv()); } }
pub proof fn neg_sum_all() ensures forall|r: F192, s: F192, x: real| #![trigger fsum(r, x), s.fv()] fsum(r, x) && s.wf() && s.fv() == 0real - r.fv() ==> fsum(s, 0real - x)
{
    assert forall|r: F192, s: F192, x: real| #![trigger fsum(r, x), s.fv()] fsum(r, x) && s.wf() && s.fv() == 0real - r.fv() implies fsum(s, 0real - x) by {
        assert(rabs(s.fv() - (0real - x)) == rabs(r.fv() - x));
        if f_repr(0real - x) { let y = choose|y: F192| y.wf() && #[trigger] y.fv() == 0real - x; f_negv(&y); }
    }
}
pub open spec fn f_neg(y: &F192) -> F192 { if y.z() { *y } else { F192 { digits: if y.sg() { (y.digits - T127) as u128 } else { (y.digits + T127) as u128 }, exp: y.exp } } }
pub proof fn f_negv(y: &F192) requires y.wf() ensures ({ let n = f_neg(y); n.fv() == 0real - y.fv() && n.wf() }) { fv_sign(y); fv_sign(&f_neg(y)); }
pub proof fn near_sum_all(x: real) ensures forall|r: F192| #[trigger] fnear(r, x) ==> fsum(r, x)
{
    assert forall|r: F192| #[trigger] fnear(r, x) implies fsum(r, x) by {
        if f_repr(x) { let y = choose|y: F192| y.wf() && #[trigger] y.fv() == x; assert(rabs(y.fv() - x) == 0real); }
    }
}
/// x.fv() as an integer multiple of a smaller power of two
pub proof fn f_scale(a: &F192, e: int) requires e <= a.e() ensures a.fv() == ((a.m() * (p2((a.e() - e) as nat) as int)) as real) * rz(e)
{ let k = (a.e() - e) as nat; f_lift(a.m(), e, k); }
pub proof fn f_upper(a: &F192) requires a.rg(), a.wf() ensures rabs(a.fv()) < rz(0x1_0000_0080)
{
    fv_sign(a); rz_mono(0, 0x1_0000_0080);
    if !a.z() { let y = F192 { digits: (a.digits as int % T127 as int) as u128, exp: a.exp }; fv_sign(&y); f_log(&y); rz_mono(a.e() + 128, 0x1_0000_0080); }
}
pub proof fn f_sub_range(a: &F192, b: &F192) requires a.wf(), b.wf(), a.rg(), b.rg() ensures !a.z() && !b.z() ==> f_range(a.fv() - b.fv())
{
    if !a.z() && !b.z() {
        let e = if a.e() < b.e() { a.e() } else { b.e() };
        f_scale(a, e); f_scale(b, e);
        let (i, j) = (a.m() * (p2((a.e() - e) as nat) as int), b.m() * (p2((b.e() - e) as nat) as int));
        let (x, y, w) = (i as real, j as real, rz(e));
        rz_mono(-0x20_0000_0000, e);
        assert(x * w - y * w == (x - y) * w) by(nonlinear_arith);
        rabs_mul(x - y, w);
        let d = i - j;
        assert(d as real == x - y);
        if d == 0 { assert(0real * w == 0real) by(nonlinear_arith); } else { assert(rabs(x - y) >= 1real); f_opp(1real, rabs(x - y), w); assert(1real * w == w); }
        f_upper(a); f_upper(b); rz_step(0x1_0000_0080); rz_mono(0x1_0000_0081, 0x20_0000_0000);
    }
}
/// a relative error of at most 2^-125
pub open spec fn fclose(r: F192, x: real) -> bool { r.wf() && rabs(r.fv() - x) * T127r() <= 4real * rabs(x) }
pub proof fn f_mul0(a: &F192, b: &F192) ensures a.z() || b.z() ==> a.fv() * b.fv() == 0real && fclose(F192 { digits: 0, exp: 0 }, a.fv() * b.fv())
{
    fv_sign(a); fv_sign(b); let z = F192 { digits: 0, exp: 0 }; fv_sign(&z);
    let (x, y) = (a.fv(), b.fv());
    assert(x == 0real || y == 0real ==> x * y == 0real) by(nonlinear_arith);
    assert(0real * T127r() == 0real) by(nonlinear_arith);
    if a.z() || b.z() { assert(rabs(z.fv() - x * y) == 0real); }
}
pub spec const B64: int = 0x1_0000_0000_0000_0000;
pub proof fn f_split(d: u128) ensures d >> 64i32 == d as int / B64, d & 0xffff_ffff_ffff_ffff == d as int % B64, 0 <= d as int % B64 < B64, 0 <= d as int / B64 < B64, d >= T127 ==> d as int / B64 >= 0x8000_0000_0000_0000, d as int == (d as int / B64) * B64 + d as int % B64
{
    assert(d >> 64i32 == d / 0x1_0000_0000_0000_0000u128) by(bit_vector);
    assert(d & 0xffff_ffff_ffff_ffff == d % 0x1_0000_0000_0000_0000u128) by(bit_vector);
}
pub proof fn f_shr63(d: u128) ensures d >> 63i32 == d as int / 0x8000_0000_0000_0000 { assert(d >> 63i32 == d / 0x8000_0000_0000_0000u128) by(bit_vector); }
pub proof fn f_prod(a: int, b: int) requires 0 <= a < B64, 0 <= b < B64 ensures 0 <= a * b < 2 * T127 - B64, a >= 0x8000_0000_0000_0000 && b >= 0x8000_0000_0000_0000 ==> 2 * (a * b) >= T127
{
    assert(0 <= a * b) by(nonlinear_arith) requires a >= 0, b >= 0;
    assert(a * b <= (B64 - 1) * (B64 - 1)) by(nonlinear_arith) requires 0 <= a <= B64 - 1, 0 <= b <= B64 - 1;
    if a >= 0x8000_0000_0000_0000 && b >= 0x8000_0000_0000_0000 { assert(a * b >= 0x8000_0000_0000_0000 * 0x8000_0000_0000_0000) by(nonlinear_arith) requires a >= 0x8000_0000_0000_0000, b >= 0x8000_0000_0000_0000; }
}
