// IEEE-754 binary formats
pub assume_specification [f32::to_bits] (x: f32) -> (r: u32) ensures r == x.to_bits_spec();
pub assume_specification [f64::to_bits] (x: f64) -> (r: u64) ensures r == x.to_bits_spec();
pub assume_specification [f32::from_bits] (x: u32) -> (r: f32) ensures x == r.to_bits_spec();
pub assume_specification [f64::from_bits] (x: u64) -> (r: f64) ensures x == r.to_bits_spec();
pub assume_specification [u64::ilog2] (x: u64) -> (r: u32) requires x > 0, ensures p2(r as nat) <= x < p2(r as nat + 1), r < 64;
/// 2^e for every integer e
pub open spec fn rz(e: int) -> real { if e >= 0 { p2(e as nat) as real } else { 1real / (p2((-e) as nat) as real) } }
pub proof fn rz_step(e: int) ensures rz(e + 1) == 2real * rz(e), rz(e) > 0real
{
    if e >= 0 { p2_pos(e as nat); hom(2, p2(e as nat) as int); hom(0, p2(e as nat) as int); }
    else {
        let k = (-e) as nat; let h = (k - 1) as nat;
        p2_pos(k); p2_pos(h); hom(2, p2(h) as int); hom(0, p2(h) as int); hom(0, p2(k) as int);
        let (x, y) = (p2(h) as real, p2(k) as real);
        assert(y == 2real * x);
        assert(1real / x == 2real * (1real / (2real * x))) by(nonlinear_arith) requires x > 0real;
        assert(1real / y > 0real) by(nonlinear_arith) requires y > 0real;
        if e == -1 { assert(p2(0) == 1); assert(1real / x == 1real) by(nonlinear_arith) requires x == 1real; }
    }
}
pub proof fn rz_add(a: int, n: nat) ensures rz(a + n) == rz(a) * (p2(n) as real), rz(a + n) == rz(a) * rz(n as int) decreases n
{
    if n == 0 { let x = rz(a); assert(x * 1real == x) by(nonlinear_arith); }
    else {
        rz_add(a, (n - 1) as nat); rz_step(a + n - 1);
        let (x, y) = (rz(a), p2((n - 1) as nat) as real);
        hom(2, p2((n - 1) as nat) as int);
        assert(2real * (x * y) == x * (2real * y)) by(nonlinear_arith);
    }
}
pub proof fn rz_inv(n: nat) ensures rz(n as int) * rz(-(n as int)) == 1real, rz(n as int) > 0real, rz(-(n as int)) > 0real
{ rz_add(-(n as int), n); rz_step(n as int); rz_step(-(n as int)); rcom(rz(n as int), rz(-(n as int))); }
/// the magnitude of the pattern k (sign bit removed) of a format with t mantissa bits and smallest subnormal 2^lo
pub open spec fn fmag(t: nat, lo: int, k: nat) -> real {
    let e = k / p2(t); let m = k % p2(t);
    if e == 0 { (m as real) * rz(lo) } else { ((p2(t) + m) as real) * rz(e - 1 + lo) }
}
pub open spec fn fin32(b: u32) -> bool { (b as nat % p2(31)) / p2(23) != 255 }
pub open spec fn fin64(b: u64) -> bool { (b as nat % p2(63)) / p2(52) != 2047 }
pub open spec fn fv32(b: u32) -> real { let a = fmag(23, -149, (b as nat % p2(31)) as nat); if b as nat >= p2(31) { 0real - a } else { a } }
pub open spec fn fv64(b: u64) -> real { let a = fmag(52, -1074, (b as nat % p2(63)) as nat); if b as nat >= p2(63) { 0real - a } else { a } }
pub open spec fn rdif(a: real, b: real) -> real { if a < b { b - a } else { a - b } }
/// no finite float is nearer to x
pub open spec fn near32(b: u32, x: real) -> bool { fin32(b) && forall|c: u32| fin32(c) ==> rdif(fv32(b), x) <= rdif(#[trigger] fv32(c), x) }
pub open spec fn near64(b: u64, x: real) -> bool { fin64(b) && forall|c: u64| fin64(c) ==> rdif(fv64(b), x) <= rdif(#[trigger] fv64(c), x) }
pub proof fn fmag_pack(t: nat, lo: int, e: nat, f: nat)
    requires p2(t) <= f <= 2 * p2(t) || (e == 0 && f <= 2 * p2(t))
    ensures fmag(t, lo, e * p2(t) + f) == (f as real) * rz(e + lo)
{
    let p = p2(t); p2_pos(t);
    let k = e * p + f;
    if f == 2 * p {
        assert(k == (e + 2) * p) by(nonlinear_arith) requires k == e * p + f, f == 2 * p;
        lemma_fundamental_div_mod_converse(k as int, p as int, (e + 2) as int, 0);
        rz_step(e + lo);
        hom(2, p as int);
        let (x, y) = (p as real, rz(e + lo));
        assert(x * (2real * y) == (2real * x) * y) by(nonlinear_arith);
    } else if f >= p {
        assert(k == (e + 1) * p + (f - p)) by(nonlinear_arith) requires k == e * p + f;
        lemma_fundamental_div_mod_converse(k as int, p as int, (e + 1) as int, f - p);
    } else {
        assert(0 * p == 0);
        lemma_fundamental_div_mod_converse(k as int, p as int, 0, f as int);
    }
}
pub proof fn fmag_next(t: nat, lo: int, k: nat) ensures fmag(t, lo, k) <= fmag(t, lo, k + 1), fmag(t, lo, k) >= 0real
{
    let p = p2(t); p2_pos(t);
    let (e, m) = ((k / p) as nat, (k % p) as nat);
    lemma_fundamental_div_mod(k as int, p as int);
    comm(p as int, e as int);
    assert(m < p);
    if e == 0 { fmag_pack(t, lo, 0, m); fmag_pack(t, lo, 0, m + 1); assert(0 * p == 0); assert(k == m); assert(fmag(t, lo, k) == (m as real) * rz(0 + lo)); assert(fmag(t, lo, k + 1) == ((m + 1) as real) * rz(0 + lo)); assert(0 + lo == lo);
        rz_step(lo); fm(m, rz(lo)); }
    else {
        let d = (e - 1) as nat;
        assert(d * p + (p + m) == k) by(nonlinear_arith) requires e * p + m == k, d == e - 1;
        fmag_pack(t, lo, d, p + m); fmag_pack(t, lo, d, p + m + 1);
        assert(fmag(t, lo, k) == ((p + m) as real) * rz(d + lo)); assert(d * p + (p + m + 1) == k + 1); assert(fmag(t, lo, k + 1) == ((p + m + 1) as real) * rz(d + lo));
        rz_step(d + lo); fm(p + m, rz(d + lo));
    }
}
proof fn fm(m: nat, z: real) requires z > 0real ensures (m as real) * z <= ((m + 1) as real) * z, (m as real) * z >= 0real
{
    let x = m as real; hom(m as int, 0);
    assert((m + 1) as real == x + 1real);
    assert(x >= 0real);
    assert((x + 1real) * z == x * z + z) by(nonlinear_arith);
    assert(x * z >= 0real) by(nonlinear_arith) requires x >= 0real, z > 0real;
}
pub proof fn fmag_mono(t: nat, lo: int, j: nat, k: nat) requires j <= k ensures 0real <= fmag(t, lo, j) <= fmag(t, lo, k) decreases k - j
{ if j < k { fmag_mono(t, lo, j, (k - 1) as nat); fmag_next(t, lo, (k - 1) as nat); } else { fmag_next(t, lo, j); } }
/// rounding z units of 2^(e + lo) to f, the nearest integer: no pattern is nearer
pub proof fn fmag_near(t: nat, lo: int, e: nat, z: real, n: nat, f: nat, y: real)
    requires y == z * rz(e + lo), (n as real) <= z < (n as real) + 1real, p2(t) <= n < 2 * p2(t) || (e == 0 && n < 2 * p2(t)), f == if z - (n as real) > 1real / 2real { n + 1 } else { n },
    ensures forall|j: nat| rdif(fmag(t, lo, e * p2(t) + f), y) <= rdif(#[trigger] fmag(t, lo, j), y), fmag(t, lo, e * p2(t) + f) == (f as real) * rz(e + lo)
{
    let p = p2(t); p2_pos(t);
    let u = rz(e + lo); rz_step(e + lo);
    let k = e * p + n;
    fmag_pack(t, lo, e, n); fmag_pack(t, lo, e, n + 1); fmag_pack(t, lo, e, f);
    let a = (n as real) * u; let x = n as real;
    assert((n + 1) as real == x + 1real);
    assert((x + 1real) * u == a + u) by(nonlinear_arith) requires a == x * u;
    assert(a <= y) by(nonlinear_arith) requires a == x * u, y == z * u, x <= z, u > 0real;
    assert(y < a + u) by(nonlinear_arith) requires a == x * u, y == z * u, z < x + 1real, u > 0real;
    if z - x > 1real / 2real { assert(y - a > u / 2real) by(nonlinear_arith) requires a == x * u, y == z * u, z - x > 1real / 2real, u > 0real; }
    else { assert(y - a <= u / 2real) by(nonlinear_arith) requires a == x * u, y == z * u, z - x <= 1real / 2real, u > 0real; }
    assert forall|j: nat| rdif(fmag(t, lo, e * p2(t) + f), y) <= rdif(#[trigger] fmag(t, lo, j), y) by {
        if j <= k { fmag_mono(t, lo, j, k); } else { fmag_mono(t, lo, k + 1, j); }
    }
}
pub proof fn p2_ieee() ensures p2(23) == 0x80_0000, p2(24) == 0x100_0000, p2(31) == 0x8000_0000, p2(52) == 0x10_0000_0000_0000, p2(53) == 0x20_0000_0000_0000, p2(63) == 0x8000_0000_0000_0000
{
    p2_small(); p2_add(20, 3); p2_add(28, 3); assert(p2(23) == 0x80_0000) by { reveal_with_fuel(p2, 24); }
    assert(p2(31) == 0x8000_0000); p2_add(31, 31); p2_add(62, 1); p2_add(23, 29); p2_add(52, 1);
    assert(0x8000_0000 * 0x8000_0000 == 0x4000_0000_0000_0000) by(compute);
    assert(0x80_0000 * 0x2000_0000 == 0x10_0000_0000_0000) by(compute);
}
proof fn p2_vstd(n: nat) ensures p2(n) == vstd::arithmetic::power2::pow2(n) decreases n
{ if n == 0 { vstd::arithmetic::power2::lemma2_to64(); } else { p2_vstd((n - 1) as nat); vstd::arithmetic::power2::lemma_pow2_unfold(n); } }
pub broadcast proof fn shl_u32_p2(x: u32, s: u32) requires s < 32, x * p2(s as nat) <= u32::MAX ensures #[trigger] (x << s) == x * p2(s as nat) { p2_vstd(s as nat); vstd::bits::lemma_u32_shl_is_mul(x, s); }
pub broadcast proof fn shl_u64_p2(x: u64, s: u64) requires s < 64, x * p2(s as nat) <= u64::MAX ensures #[trigger] (x << s) == x * p2(s as nat) { p2_vstd(s as nat); vstd::bits::lemma_u64_shl_is_mul(x, s); }
pub proof fn shr_ieee(x: u32, y: u64) ensures (x >> 23) == x / 0x80_0000, (y >> 52) == y / 0x10_0000_0000_0000
{ assert(x >> 23 == x / 0x80_0000) by(bit_vector); assert(y >> 52 == y / 0x10_0000_0000_0000) by(bit_vector); }
/// fields of a pattern
pub proof fn fields32(b: u32) ensures ({ let k = (b as nat % p2(31)) as nat; k / p2(23) == (b / 0x80_0000) % 256 && k % p2(23) == b % 0x80_0000 && b >> 23 == b / 0x80_0000 && b as nat == k + if b >= 0x8000_0000 { 0x8000_0000 } else { 0int } })
{
    p2_ieee(); shr_ieee(b, 0);
    let (q, m) = (b / 0x80_0000, b % 0x80_0000);
    let k = b as int % 0x8000_0000;
    assert(q < 512);
    assert(k == (q % 256) * 0x80_0000 + m);
    lemma_fundamental_div_mod_converse(k, 0x80_0000, (q % 256) as int, m as int);
}
pub proof fn fields64(b: u64) ensures ({ let k = (b as nat % p2(63)) as nat; k / p2(52) == (b / 0x10_0000_0000_0000) % 2048 && k % p2(52) == b % 0x10_0000_0000_0000 && b >> 52 == b / 0x10_0000_0000_0000 && b as nat == k + if b >= 0x8000_0000_0000_0000 { 0x8000_0000_0000_0000 } else { 0int } })
{
    p2_ieee(); shr_ieee(0, b);
    let (q, m) = (b / 0x10_0000_0000_0000, b % 0x10_0000_0000_0000);
    let k = b as int % 0x8000_0000_0000_0000;
    assert(q < 4096);
    assert(k == (q % 2048) * 0x10_0000_0000_0000 + m);
    lemma_fundamental_div_mod_converse(k, 0x10_0000_0000_0000, (q % 2048) as int, m as int);
}
/// a subnormal m * 2^lo with leading bit l, shifted until bit t is set
pub proof fn subn(t: nat, lo: int, m: nat, l: nat)
    requires 0 < m < p2(t), p2(l) <= m < p2(l + 1)
    ensures l < t, ({ let s = (t - l) as nat; p2(t) <= m * p2(s) < 2 * p2(t) && (m as real) * rz(lo) == ((m * p2(s)) as real) * rz(lo - s) })
{
    if l >= t { if l > t { p2_lt(t, l); } }
    let s = (t - l) as nat;
    p2_add(l, s); p2_add(l + 1, s); p2_pos(s);
    assert(p2(t + 1) == 2 * p2(t));
    assert(l + 1 + s == t + 1);
    assert(p2(l) * p2(s) <= m * p2(s)) by(nonlinear_arith) requires p2(l) <= m;
    assert(m * p2(s) < p2(l + 1) * p2(s)) by(nonlinear_arith) requires m < p2(l + 1), p2(s) >= 1;
    rz_add(lo - s, s);
    hom(m as int, p2(s) as int);
    let (x, y, z) = (m as real, rz(lo - s), p2(s) as real);
    rcom(y, z); rass(x, z, y);
}
pub proof fn p2_ge(t: nat) ensures forall|l: nat| l >= t ==> #[trigger] p2(l) >= p2(t)
{ assert forall|l: nat| l >= t implies #[trigger] p2(l) >= p2(t) by { if l > t { p2_lt(t, l); } } }
/// m * 2^e as an integer or as a quotient
pub proof fn rz_frac(m: int, e: int)
    ensures e >= 0 ==> ((m * p2(e as nat)) as real) == (m as real) * rz(e) && ((-m * p2(e as nat)) as real) == 0real - (m as real) * rz(e),
        e <= 0 ==> p2((-e) as nat) >= 1 && q(m, p2((-e) as nat) as int) == (m as real) * rz(e) && q(-m, p2((-e) as nat) as int) == 0real - (m as real) * rz(e)
{
    let x = m as real;
    assert((-m) as real == 0real - x);
    if e >= 0 {
        let p = p2(e as nat) as int; hom(m, p); hom(-m, p);
        let y = p as real;
        assert((0real - x) * y == 0real - x * y) by(nonlinear_arith);
    }
    if e <= 0 {
        let p = p2((-e) as nat) as int; p2_pos((-e) as nat);
        hom(p, 0);
        let y = p as real; assert(y > 0real);
        q_def(m, p); q_def(-m, p);
        let z = rz(e);
        if e == 0 { assert(1real / 1real == 1real) by(nonlinear_arith); }
        assert(z == 1real / y);
        assert(x / y == x * (1real / y)) by(nonlinear_arith) requires y > 0real;
        assert((0real - x) / y == 0real - x * (1real / y)) by(nonlinear_arith) requires y > 0real;
    }
}
pub proof fn rz_lt(a: int, b: int) ensures a < b <==> rz(a) < rz(b), a == b ==> rz(a) == rz(b), rz(a) > 0real
    decreases if a < b { b - a } else { a - b }
{
    rz_step(a); rz_step(b);
    if a + 1 < b { rz_lt(a, b - 1); rz_step(b - 1); } else if a + 1 == b { }
    else if b + 1 < a { rz_lt(a - 1, b); rz_step(a - 1); }
}
/// the quotient of numbers of a and b bits after the leading one lies between 2^(a-b-1) and 2^(a-b+1)
pub proof fn ylog(n: int, d: int, a: nat, b: nat)
    requires p2(a) <= n < p2(a + 1), p2(b) <= d < p2(b + 1)
    ensures rz(a - b - 1) < q(n, d) < rz(a - b + 1)
{
    p2_pos(a); p2_pos(b);
    q_def(n, d); hom(p2(a) as int, n); hom(n, p2(a + 1) as int); hom(p2(b) as int, d); hom(d, p2(b + 1) as int); hom(d, 0);
    let (y, dr, u, w) = (q(n, d), d as real, rz(a - b - 1), rz(a - b + 1));
    rz_add(a - b - 1, b + 1); rz_add(a - b + 1, b); rz_step(a - b - 1); rz_step(a - b + 1);
    let (s, t) = (p2(b + 1) as real, p2(b) as real);
    assert(u * s <= y * dr);
    assert(y * dr < w * t);
    assert(u * dr < u * s) by(nonlinear_arith) requires u > 0real, dr < s;
    assert(w * t <= w * dr) by(nonlinear_arith) requires w > 0real, t <= dr;
    assert(u < y) by(nonlinear_arith) requires u * dr < y * dr, dr > 0real;
    assert(y < w) by(nonlinear_arith) requires y * dr < w * dr, dr > 0real;
}
/// largest magnitude that rounds to a finite number
pub open spec fn flim(t: nat, lo: int, top: int) -> real { ((p2(t + 2) - 1) as real) * rz(top - 3 + lo) }
pub proof fn to_float(t: nat, lo: int, top: nat, e: nat, z: real, n: nat, f: nat, y: real)
    requires top > 3, e < top, y == z * rz(e + lo), (n as real) <= z < (n as real) + 1real, p2(t) <= n < 2 * p2(t) || (e == 0 && n < 2 * p2(t)), f == if z - (n as real) > 1real / 2real { n + 1 } else { n },
    ensures forall|j: nat| rdif(fmag(t, lo, e * p2(t) + f), y) <= rdif(#[trigger] fmag(t, lo, j), y),
        e * p2(t) + f < top * p2(t) <==> y <= flim(t, lo, top as int), f <= 2 * p2(t)
{
    fmag_near(t, lo, e, z, n, f, y);
    let p = p2(t); p2_pos(t);
    let u = rz(e + lo); rz_step(e + lo);
    let h = rz(top - 3 + lo); rz_step(top - 3 + lo);
    let l = (p2(t + 2) - 1) as real;
    assert(p2(t + 2) == 4 * p) by { assert(p2(t + 1) == 2 * p); }
    let pr = p as real;
    hom(1, p as int);
    assert(pr >= 1real);
    assert(p2(t + 2) as real == 4real * pr);
    assert(l == 4real * pr - 1real);
    assert(flim(t, lo, top as int) == l * h);
    let x = n as real;
    hom(n as int, 2 * p as int); hom(n as int, p as int); hom(n as int + 1, 2 * p as int); hom(n as int + 2, 2 * p as int);
    if e + 2 < top {
        // one binade below the limit
        assert(e * p + f < top * p) by(nonlinear_arith) requires e + 3 <= top, f <= 2 * p, p >= 1;
        rz_lt(e + lo, top - 2 + lo);
        assert(u <= h) by { if e + 3 < top { rz_lt(e + lo, top - 3 + lo); } }
        assert(y < 2real * pr * u) by(nonlinear_arith) requires y == z * u, z < 2real * pr, u > 0real;
        assert(2real * pr * u <= 2real * pr * h) by(nonlinear_arith) requires u <= h, pr >= 1real;
        assert(2real * pr * h <= l * h) by(nonlinear_arith) requires l == 4real * pr - 1real, pr >= 1real, h > 0real;
    } else if e + 2 == top {
        rz_step(top - 3 + lo);
        assert(u == 2real * h);
        assert(top * p == e * p + 2 * p) by(nonlinear_arith) requires e + 2 == top;
        if z > 2real * pr - 1real / 2real {
            assert(n == 2 * p - 1) by { if n + 2 <= 2 * p { assert(((n + 2) as real) == x + 2real); assert(((2 * p) as real) == 2real * pr); } }
            assert(x == 2real * pr - 1real);
            assert(f == 2 * p);
            assert(y > l * h) by(nonlinear_arith) requires y == z * u, u == 2real * h, z > 2real * pr - 1real / 2real, l == 4real * pr - 1real, h > 0real;
        } else {
            if f == 2 * p { assert(x == 2real * pr - 1real); }
            assert(y <= l * h) by(nonlinear_arith) requires y == z * u, u == 2real * h, z <= 2real * pr - 1real / 2real, l == 4real * pr - 1real, h > 0real;
        }
    } else {
        assert(top * p == e * p + p) by(nonlinear_arith) requires e + 1 == top;
        rz_step(top - 2 + lo);
        assert(u == 4real * h);
        assert(f >= p);
        assert(z >= pr);
        assert(y > l * h) by(nonlinear_arith) requires y == z * u, u == 4real * h, z >= pr, l == 4real * pr - 1real, h > 0real;
    }
}
pub proof fn near_signed32(k: u32, b: u32, x: real, y: real)
    requires (k as nat) < 255 * p2(23), y == rabs(x), b as int == if x < 0real && k != 0 { k + 0x8000_0000 } else { k as int }, forall|j: nat| rdif(fmag(23, -149, k as nat), y) <= rdif(#[trigger] fmag(23, -149, j), y)
    ensures near32(b, x)
{
    p2_ieee();
    assert(b as nat % p2(31) == k as nat);
    assert((k as int) / 0x80_0000 < 255);
    assert forall|c: u32| fin32(c) implies rdif(fv32(b), x) <= rdif(#[trigger] fv32(c), x) by {
        let j = (c as nat % p2(31)) as nat;
        let z = fmag(23, -149, 0); fmag_pack(23, -149, 0, 0); let w = rz(-149); assert(0real * w == 0real) by(nonlinear_arith); assert(0 * p2(23) == 0);
        fmag_mono(23, -149, 0, j);
        assert(rdif(fmag(23, -149, k as nat), y) <= rdif(fmag(23, -149, j), y));
        assert(rdif(fmag(23, -149, k as nat), y) <= rdif(fmag(23, -149, 0), y));
    }
}
pub proof fn near_signed64(k: u64, b: u64, x: real, y: real)
    requires (k as nat) < 2047 * p2(52), y == rabs(x), b as int == if x < 0real && k != 0 { k + 0x8000_0000_0000_0000 } else { k as int }, forall|j: nat| rdif(fmag(52, -1074, k as nat), y) <= rdif(#[trigger] fmag(52, -1074, j), y)
    ensures near64(b, x)
{
    p2_ieee();
    assert(b as nat % p2(63) == k as nat);
    assert((k as int) / 0x10_0000_0000_0000 < 2047);
    assert forall|c: u64| fin64(c) implies rdif(fv64(b), x) <= rdif(#[trigger] fv64(c), x) by {
        let j = (c as nat % p2(63)) as nat;
        fmag_pack(52, -1074, 0, 0); let w = rz(-1074); assert(0real * w == 0real) by(nonlinear_arith); assert(0 * p2(52) == 0);
        fmag_mono(52, -1074, 0, j);
        assert(rdif(fmag(52, -1074, k as nat), y) <= rdif(fmag(52, -1074, j), y));
        assert(rdif(fmag(52, -1074, k as nat), y) <= rdif(fmag(52, -1074, 0), y));
    }
}
pub proof fn sign_or(k: u32, l: u64) ensures k < 0x8000_0000 ==> 0x8000_0000u32 | k == k + 0x8000_0000 && 0u32 | k == k, l < 0x8000_0000_0000_0000 ==> 0x8000_0000_0000_0000u64 | l == l + 0x8000_0000_0000_0000 && 0u64 | l == l
{
    if k < 0x8000_0000 { assert(0x8000_0000u32 | k == (k + 0x8000_0000) as u32 && 0u32 | k == k) by(bit_vector) requires k < 0x8000_0000; }
    if l < 0x8000_0000_0000_0000 { assert(0x8000_0000_0000_0000u64 | l == (l + 0x8000_0000_0000_0000) as u64 && 0u64 | l == l) by(bit_vector) requires l < 0x8000_0000_0000_0000; }
}

pub proof fn size_log(d: BigInt) requires d.wf(), d.v() > 0, d.val.0@.len() <= 0x200_0000 ensures vx_lg(d.v() as nat) < 0x4000_0000
{
    canon_bounds(d.val.0@); p2_pw(d.val.0@.len()); lg_is(d.v() as nat);
    let l = vx_lg(d.v() as nat);
    if l >= 0x4000_0000 { let m = 32 * d.val.0@.len(); if m < l { p2_lt(m, l); } }
}
pub proof fn over(t: nat, lo: int, top: int, y: real, l: int)
    requires l >= t + top + lo, y > rz(l - 1)
    ensures y > flim(t, lo, top)
{
    let w = top - 3 + lo;
    rz_add(w, t + 2); rz_step(w);
    if l - 1 > w + t + 2 { rz_lt(w + t + 2, l - 1); }
    let (a, b) = ((p2(t + 2) - 1) as real, p2(t + 2) as real);
    assert(b == a + 1real);
    let z = rz(w);
    assert(a * z < z * b) by(nonlinear_arith) requires b == a + 1real, z > 0real;
}
pub proof fn rz_at() ensures rz(0) == 1real, rz(1) == 2real, rz(3) == 8real, rz(-1) == 1real / 2real, rz(-3) == 1real / 8real
{ p2_small(); }
pub proof fn scale_facts(y: real, l: int)
    requires rz(l - 1) < y < rz(l + 1)
    ensures l < 0 ==> ({ let s = y * (p2((-l) as nat) as real); 1real / 2real < s < 2real && s * rz(l) == y }),
        l > 0 ==> ({ let s = y / (p2(l as nat) as real); 1real / 2real < s < 2real && s * rz(l) == y }),
        -2 <= l <= 2 ==> 1real / 8real < y < 8real,
{
    rz_at();
    if l < 0 {
        let m = (-l) as nat; let p = p2(m) as real; p2_pos(m); hom(p2(m) as int, 0);
        rz_add(l - 1, m); rz_add(l + 1, m); rz_inv(m);
        let (a, b, z) = (rz(l - 1), rz(l + 1), rz(l));
        assert(a * p < y * p) by(nonlinear_arith) requires a < y, p > 0real;
        assert(y * p < b * p) by(nonlinear_arith) requires y < b, p > 0real;
        rass(y, p, z);
        assert(y * 1real == y) by(nonlinear_arith);
    }
    if l > 0 {
        let m = l as nat; let p = p2(m) as real; p2_pos(m); hom(p2(m) as int, 0);
        rz_add(-1, m); rz_add(1, m);
        let s = y / p;
        assert(s * p == y) by(nonlinear_arith) requires s == y / p, p > 0real;
        assert(1real / 2real < s) by(nonlinear_arith) requires (1real / 2real) * p < s * p, p > 0real;
        assert(s < 2real) by(nonlinear_arith) requires s * p < 2real * p, p > 0real;
    }
    if -2 <= l <= 2 {
        if l > -2 { rz_lt(-3, l - 1); } if l < 2 { rz_lt(l + 1, 3); }
    }
}
pub proof fn half(r: real, e: int, y: real) requires r * rz(e) == y ensures (r / 2real) * rz(e + 1) == y
{ rz_step(e); let z = rz(e); assert((r / 2real) * (2real * z) == r * z) by(nonlinear_arith); }
pub proof fn double(r: real, e: int, y: real) requires r * rz(e) == y ensures (r * 2real) * rz(e - 1) == y
{ rz_step(e - 1); let z = rz(e - 1); assert((r * 2real) * z == r * (2real * z)) by(nonlinear_arith); }
pub proof fn dbl_lower(r: real, f: nat) requires f > 0 ensures (r * 2real) * (p2((f - 1) as nat) as real) == r * (p2(f) as real)
{ hom(2, p2((f - 1) as nat) as int); let z = p2((f - 1) as nat) as real; assert((r * 2real) * z == r * (2real * z)) by(nonlinear_arith); }
/// 1 <= r < 2 and y == r * 2^e: e lies below every power that y lies below
pub proof fn norm_exp(r: real, e: int, y: real, top: int) requires r * rz(e) == y, 1real <= r < 2real, y < rz(top) ensures e < top, y < rz(e + 1), rz(e) <= y
{
    rz_step(e); let z = rz(e);
    assert(z <= r * z) by(nonlinear_arith) requires r >= 1real, z > 0real;
    assert(r * z < 2real * z) by(nonlinear_arith) requires r < 2real, z > 0real;
    rz_lt(top, e);
}
/// magnitudes below half of the smallest subnormal round to zero
pub proof fn tiny(t: nat, lo: int, top: nat, y: real) requires top > 3, 0real < y < rz(lo - 1)
    ensures forall|j: nat| rdif(fmag(t, lo, 0), y) <= rdif(#[trigger] fmag(t, lo, j), y), y <= flim(t, lo, top as int)
{
    rz_step(lo - 1); p2_pos(t);
    let u = rz(lo); let z = y / u;
    assert(y == z * u) by(nonlinear_arith) requires z == y / u, u > 0real;
    assert(0real <= z) by(nonlinear_arith) requires y == z * u, y > 0real, u > 0real;
    assert(z < 1real / 2real) by(nonlinear_arith) requires y == z * u, y < u / 2real, u > 0real;
    to_float(t, lo, top, 0, z, 0, 0, y);
    assert(0 * p2(t) == 0);
    assert(0 < top * p2(t)) by(nonlinear_arith) requires top > 3, p2(t) >= 1;
}
/// scaling to the exponent of the subnormals
pub proof fn sub_scale(r: real, e: int, y: real, m: int) requires r * rz(e) == y, 1real <= r < 2real, e < m
    ensures ({ let s = r / (p2((m - e) as nat) as real); s * rz(m) == y && 0real < s < 1real })
{
    let k = (m - e) as nat; let p = p2(k) as real; p2_pos((k - 1) as nat); hom(2, p2(k) as int); hom(p2(k) as int, 0);
    assert(p2(k) >= 2);
    assert(p >= 2real);
    rz_add(e, k);
    let s = r / p; let z = rz(e);
    assert(s * p == r) by(nonlinear_arith) requires s == r / p, p > 0real;
    assert(s < 1real) by(nonlinear_arith) requires s * p < 2real, p >= 2real;
    assert(s > 0real) by(nonlinear_arith) requires s * p >= 1real, p >= 2real;
    rcom(z, p); rass(s, p, z);
}
/// the significand in units of the last place
pub proof fn units(t: nat, r: real, e: int, y: real) requires r * rz(e) == y, 0real < r < 2real
    ensures ({ let z = r * (p2(t) as real); z * rz(e - t) == y && 0real < z < ((2 * p2(t)) as real) && (r >= 1real ==> z >= (p2(t) as real)) })
{
    rz_add(e - t, t); p2_pos(t);
    hom(2, p2(t) as int); hom(p2(t) as int, 0);
    let p = p2(t) as real; let w = rz(e - t);
    rcom(w, p); rass(r, p, w);
    assert(0real < r * p) by(nonlinear_arith) requires r > 0real, p > 0real;
    assert(r * p < 2real * p) by(nonlinear_arith) requires r < 2real, p > 0real;
    if r >= 1real { assert(r * p >= p) by(nonlinear_arith) requires r >= 1real, p > 0real; }
}

pub proof fn zero_ok32(x: real) ensures rabs(x) < rz(-150) ==> near32(0, x) && rabs(x) <= flim(23, -149, 255)
{
    p2_ieee();
    let y = rabs(x);
    rz_step(-150);
    if y < rz(-150) {
        if y > 0real { tiny(23, -149, 255, y); }
        else {
            rz_step(-149); let u = rz(-149); assert(0real * u == 0real) by(nonlinear_arith);
            to_float(23, -149, 255, 0, 0real, 0, 0, y); assert(0 * p2(23) == 0);
        }
        near_signed32(0, 0, x, y);
    }
}
pub proof fn finish32(x: real, e: nat, z: real, n: nat, f: nat)
    requires e < 255, rabs(x) == z * rz(e + -149), (n as real) <= z < (n as real) + 1real, p2(23) <= n < 2 * p2(23) || (e == 0 && n < 2 * p2(23)), f == if z - (n as real) > 1real / 2real { n + 1 } else { n },
    ensures ({ let k = e * p2(23) + f; f <= 2 * p2(23) && k <= 0x80000000 && (f == 0 ==> k == 0) && (k < 255 * p2(23) ==> rabs(x) <= flim(23, -149, 255) && near32((if x < 0real && k != 0 { k + 0x80000000 } else { k }) as u32, x)) && (k >= 255 * p2(23) ==> rabs(x) > flim(23, -149, 255)) })
{
    p2_ieee();
    let k = e * p2(23) + f;
    assert(e * p2(23) <= 254 * p2(23)) by(nonlinear_arith) requires e <= 254;
    assert(e == 0 ==> e * p2(23) == 0) by(nonlinear_arith);
    to_float(23, -149, 255, e, z, n, f, rabs(x));
    if k < 255 * p2(23) { near_signed32(k as u32, (if x < 0real && k != 0 { k + 0x80000000 } else { k }) as u32, x, rabs(x)); }
}

pub proof fn zero_ok64(x: real) ensures rabs(x) < rz(-1075) ==> near64(0, x) && rabs(x) <= flim(52, -1074, 2047)
{
    p2_ieee();
    let y = rabs(x);
    rz_step(-1075);
    if y < rz(-1075) {
        if y > 0real { tiny(52, -1074, 2047, y); }
        else {
            rz_step(-1074); let u = rz(-1074); assert(0real * u == 0real) by(nonlinear_arith);
            to_float(52, -1074, 2047, 0, 0real, 0, 0, y); assert(0 * p2(52) == 0);
        }
        near_signed64(0, 0, x, y);
    }
}
pub proof fn finish64(x: real, e: nat, z: real, n: nat, f: nat)
    requires e < 2047, rabs(x) == z * rz(e + -1074), (n as real) <= z < (n as real) + 1real, p2(52) <= n < 2 * p2(52) || (e == 0 && n < 2 * p2(52)), f == if z - (n as real) > 1real / 2real { n + 1 } else { n },
    ensures ({ let k = e * p2(52) + f; f <= 2 * p2(52) && k <= 0x8000000000000000 && (f == 0 ==> k == 0) && (k < 2047 * p2(52) ==> rabs(x) <= flim(52, -1074, 2047) && near64((if x < 0real && k != 0 { k + 0x8000000000000000 } else { k }) as u64, x)) && (k >= 2047 * p2(52) ==> rabs(x) > flim(52, -1074, 2047)) })
{
    p2_ieee();
    let k = e * p2(52) + f;
    assert(e * p2(52) <= 2046 * p2(52)) by(nonlinear_arith) requires e <= 2046;
    assert(e == 0 ==> e * p2(52) == 0) by(nonlinear_arith);
    to_float(52, -1074, 2047, e, z, n, f, rabs(x));
    if k < 2047 * p2(52) { near_signed64(k as u64, (if x < 0real && k != 0 { k + 0x8000000000000000 } else { k }) as u64, x, rabs(x)); }
}
