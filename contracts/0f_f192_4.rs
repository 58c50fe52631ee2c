pub proof fn f_fit(q: int, k: nat) requires 0 <= q, k <= 128, q * p2(k) < 2 * T127 ensures q * p2(k) + p2(k) <= 2 * T127
{
    p2_127(); p2_add(k, (128 - k) as nat); p2_pos(k);
    let (p, c) = (p2(k) as int, p2((128 - k) as nat) as int);
    assert(2 * T127 == p * c);
    assert(q < c) by { if q >= c { assert(q * p >= p * c) by(nonlinear_arith) requires q >= c, p > 0; } }
    assert(q * p + p <= p * c) by(nonlinear_arith) requires q + 1 <= c, p > 0;
}
pub proof fn f_mulq(d: int, a: int, k: nat) requires d > 0, a >= 0
    ensures ({ let (p, b) = (p2(k) as int, 0x1_0000_0000int); let s = ((d / b) * a) * p + (((d % b) * a) * p) / b; (d * a) * p >= s * b && (d * a) * p < (s + 1) * b })
{
    let (p, b) = (p2(k) as int, 0x1_0000_0000int); p2_pos(k);
    let (h, l) = (d / b, d % b);
    let u = (l * a) * p; let v = u / b;
    let g = (h * a) * p;
    assert((d * a) * p == g * b + u) by(nonlinear_arith) requires d == h * b + l, u == (l * a) * p, g == (h * a) * p;
    let s = g + v;
    assert(s * b == g * b + v * b) by(nonlinear_arith) requires s == g + v;
}
pub proof fn f_mulv32(x: &F192, a: int, r: &F192, k: nat, s: int) requires x.wf(), !x.z(), a != 0, r.wf(), !r.z(), r.sg() == (x.sg() != (a < 0)), s >= T127,
        ({ let d = x.mag(); let b = if a < 0 { -a } else { a }; (d * b) * p2(k) >= s * 0x1_0000_0000 && (d * b) * p2(k) < (s + 1) * 0x1_0000_0000 }),
        (s < 2 * T127 && r.e() == x.e() + 32 - k && r.mag() == s) || (s >= 2 * T127 && r.e() == x.e() + 33 - k && r.mag() == s / 2),
    ensures fsum(*r, x.fv() * (a as real))
{
    fv_sign(x); p2_32();
    let b = if a < 0 { -a } else { a }; let d = x.mag(); let p = p2(k) as int; p2_pos(k);
    let e = x.e() + 32 - k;
    // 2^k * 2^e == 2^32 * 2^(x.e)
    f_lift(1, e, k); f_lift(1, x.e(), 32); rz_step(e); hom(d * b, p); hom(d, b);
    let c = 0x1_0000_0000int;
    assert(1 * (p2(k) as int) == p && 1 * (p2(32) as int) == c);
    let (br, dr, pr, w, v, ar, cr) = (b as real, d as real, p as real, rz(e), rz(x.e()), a as real, c as real);
    assert(pr * w == cr * v);
    let m = dr * v;
    assert(m > 0real) by(nonlinear_arith) requires m == dr * v, dr > 0real, v > 0real;
    let f = x.fv();
    let y = f * ar;
    assert(m * br > 0real) by(nonlinear_arith) requires m > 0real, br > 0real;
    assert((0real - m) * br == 0real - m * br && m * (0real - br) == 0real - m * br && (0real - m) * (0real - br) == m * br) by(nonlinear_arith);
    assert(rabs(y) == m * br);
    assert(((dr * v) * br) * cr == (dr * br) * (cr * v)) by(nonlinear_arith);
    assert((dr * br) * (pr * w) == ((dr * br) * pr) * w) by(nonlinear_arith);
    f_quot(r, y, (d * b) * p, c, s, e);
}
pub proof fn f_m32(d: int, a: int) requires T127 <= d < 2 * T127, 0 < a <= 0x8000_0000
    ensures ({ let (h, l) = (d / 0x1_0000_0000, d % 0x1_0000_0000); 0x8000_0000_0000_0000_0000_0000 <= h * a < T127 && 0 <= l * a < 0x8000_0000_0000_0000 })
{
    let (h, l) = (d / 0x1_0000_0000, d % 0x1_0000_0000);
    assert(0x8000_0000_0000_0000_0000_0000 <= h < 0x1_0000_0000_0000_0000_0000_0000);
    assert(h <= h * a) by(nonlinear_arith) requires h >= 0, a >= 1;
    assert(h * a < 0x1_0000_0000_0000_0000_0000_0000 * 0x8000_0000) by(nonlinear_arith) requires 0 <= h < 0x1_0000_0000_0000_0000_0000_0000, 0 < a <= 0x8000_0000;
    assert(0 <= l * a < 0x1_0000_0000 * 0x8000_0000) by(nonlinear_arith) requires 0 <= l < 0x1_0000_0000, 0 < a <= 0x8000_0000;
}
pub proof fn fv_inj(x: &F192, y: &F192) requires x.wf(), y.wf(), x.fv() == y.fv() ensures *x == *y
{ fv_sign(x); fv_sign(y); if x.sg() == y.sg() { fv_cmp(x, y); fv_cmp(y, x); } }
pub proof fn f_mk(k: int, e: int, n: nat) requires 0 < k < 2 * T127, n <= 127, k >= p2((127 - n) as nat), n < e + E0 < 0x1_0000_0000_0000_0000 ensures f_repr((k as real) * rz(e)) decreases n
{
    p2_127();
    if k >= T127 {
        let y = F192 { digits: (k - T127) as u128, exp: (e + E0) as u64 };
        assert(y.e() == e && y.mag() == k && !y.sg());
        if y.z() { assert(false); }
        assert(y.fv() == (k as real) * rz(e));
    } else {
        assert(n > 0);
        assert(p2((127 - (n - 1)) as nat) == 2 * p2((127 - n) as nat));
        rz_step(e - 1);
        let (a, w) = (k as real, rz(e - 1));
        assert((2 * k) as real == 2real * a);
        assert((2real * a) * w == a * (2real * w)) by(nonlinear_arith);
        f_mk(2 * k, e - 1, (n - 1) as nat);
    }
}
pub proof fn f_mkz(k: int, e: int) requires -2 * T127 < k < 2 * T127, 200 < e + E0 < 0x2_0000_0000_0000 ensures f_repr((k as real) * rz(e))
{
    p2_small();
    if k > 0 { f_mk(k, e, 127); }
    else if k < 0 {
        f_mk(-k, e, 127);
        let (a, w) = ((-k) as real, rz(e));
        let y = choose|y: F192| y.wf() && #[trigger] y.fv() == a * w;
        f_negv(&y);
        assert((0real - a) * w == 0real - a * w) by(nonlinear_arith);
        assert(f_neg(&y).fv() == (k as real) * w);
    } else { let z = F192 { digits: 0, exp: 0 }; fv_sign(&z); let w = rz(e); assert(0real * w == 0real) by(nonlinear_arith); assert(z.fv() == (k as real) * w); }
}
pub proof fn f_repr_int(k: int) requires -2 * T127 < k < 2 * T127 ensures f_repr(k as real) { f_mkz(k, 0); f_one(k as real); }
/// the only numbers with the values 1 and -1
pub proof fn f_ones() ensures (F192 { digits: 0, exp: (E0 - 127) as u64 }).fv() == 1real, forall|y: F192| y.wf() && (#[trigger] y.fv() == 1real || y.fv() == 0real - 1real) ==> y.rg()
{
    p2_127();
    let o = F192 { digits: 0, exp: (E0 - 127) as u64 }; let n = f_neg(&o);
    f_negv(&o); rz_cancel(1, 127); assert(1 * (p2(127) as int) == T127);
    assert(o.fv() == 1real);
    assert forall|y: F192| y.wf() && (#[trigger] y.fv() == 1real || y.fv() == 0real - 1real) implies y.rg() by { if y.fv() == 1real { fv_inj(&y, &o); } else { fv_inj(&y, &n); } }
}
pub proof fn f_halfv() ensures rz(-1) == 0.5real, 1real * rz(-1) == 0.5real { rz_step(-1); assert(rz(0) == 1real); }
/// x and its integer part k
pub proof fn f_round_prep(x: &F192, t: &F192, k: int) requires x.wf(), x.rg(), t.wf(), is_trunc(k, x.fv()), t.fv() == k as real, t.z() || t.exp == x.exp
    ensures *t == *x <==> x.fv() == k as real, *t != *x ==> f_repr((k + 1) as real) && f_repr((k - 1) as real) && (k as real != x.fv()), f_repr(x.fv() - k as real), t.rg()
{
    fv_sign(x); fv_sign(t);
    if x.fv() == k as real { fv_inj(x, t); assert(x.fv() - k as real == 0real); f_repr_int(0); }
    else {
        assert(*t != *x);
        let ax = F192 { digits: (x.digits as int % T127 as int) as u128, exp: x.exp };
        fv_sign(&ax);
        assert(rabs(x.fv()) == (x.mag() as real) * rz(x.e()));
        if x.e() >= 0 { f_big(x); trunc_u(x.fv()); }
        else {
            // |x| < 2^127
            rz_mono(x.e(), -1); f_halfv();
            let (m, w, t2) = (x.mag() as real, rz(x.e()), 2real * T127r());
            assert(m * w < t2 * 0.5real) by(nonlinear_arith) requires 0real < m < t2, 0real < w <= 0.5real;
            let ak = if k < 0 { -k } else { k };
            assert(ak as real <= T127r());
            assert(ak <= T127);
            f_repr_int(k + 1); f_repr_int(k - 1);
            if x.e() < -127 { f_small(x); trunc_u(x.fv()); assert(k == 0); assert(x.fv() - k as real == x.fv()); }
            else {
                let n = (-x.e()) as nat; let p = p2(n) as int; p2_pos(n);
                rz_cancel(k, n);
                let j = x.m() - k * p;
                let (a, b) = (x.m() as real, (k * p) as real);
                assert(j as real == a - b);
                assert((a - b) * w == a * w - b * w) by(nonlinear_arith);
                assert(x.fv() - k as real == (j as real) * w);
                // |j| < 2^128, for |x - k| <= |x|
                rabs_mul(j as real, w);
                assert(rabs(x.fv() - k as real) <= rabs(x.fv()));
                assert(rabs(j as real) <= m) by { if rabs(j as real) > m { f_strict(m, rabs(j as real), w); } }
                assert(-2 * T127 < j < 2 * T127);
                f_mkz(j, x.e());
            }
        }
    }
}
pub proof fn f_round_all(x: &F192) requires x.wf(), x.rg()
    ensures forall|t: F192, k: int| #![trigger t.fv(), is_trunc(k, x.fv())] t.wf() && is_trunc(k, x.fv()) && t.fv() == k as real && (t.z() || t.exp == x.exp) ==> f_repr(x.fv() - k as real) && t.rg()
{
    assert forall|t: F192, k: int| #![trigger t.fv(), is_trunc(k, x.fv())] t.wf() && is_trunc(k, x.fv()) && t.fv() == k as real && (t.z() || t.exp == x.exp) implies f_repr(x.fv() - k as real) && t.rg() by { f_round_prep(x, &t, k); }
}
