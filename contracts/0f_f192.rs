// F192: (2^127 + digits % 2^127) * 2^(exp - 2^48), negative iff the top bit of digits is set; (0, 0) is zero
pub struct F192 { pub digits: u128, pub exp: u64 }
impl Clone for F192 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for F192 {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for F192 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &F192) -> bool { self.digits == other.digits && self.exp == other.exp }
}
impl PartialEq for F192 {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { self.digits == other.digits && self.exp == other.exp }
}
pub open spec fn f_cmp(a: F192, b: F192) -> Ordering { if a.wf() && b.wf() { if a.fv() < b.fv() { Ordering::Less } else if a.fv() == b.fv() { Ordering::Equal } else { Ordering::Greater } } else { arbitrary() } }
// Ord and PartialOrd of F192, as proved for its `cmp` and `partial_cmp`; std derives the operators from partial_cmp
impl Eq for F192 {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F192 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &F192) -> Option<Ordering> { Some(f_cmp(*self, *other)) }
}
impl PartialOrd for F192 {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::OrdSpecImpl for F192 {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &F192) -> Ordering { f_cmp(*self, *other) }
}
impl Ord for F192 {
    #[verifier::external_body]
    fn cmp(&self, other: &Self) -> Ordering { unimplemented!() }
}
pub spec const T127: u128 = 0x8000_0000_0000_0000_0000_0000_0000_0000u128;
pub spec const E0: int = 0x1_0000_0000_0000;
impl F192 {
    pub open spec fn z(&self) -> bool { self.digits == 0 && self.exp == 0 }
    pub open spec fn wf(&self) -> bool { !(self.exp == 0 && self.digits == T127) }
    pub open spec fn sg(&self) -> bool { self.digits >= T127 }
    pub open spec fn mag(&self) -> int { T127 as int + self.digits as int % T127 as int }
    pub open spec fn m(&self) -> int { if self.z() { 0 } else if self.sg() { -self.mag() } else { self.mag() } }
    pub open spec fn e(&self) -> int { self.exp as int - E0 }
    // the range of the arithmetic: a magnitude between 2^(-2^32) and 2^(2^32)
    pub open spec fn rg(&self) -> bool { self.z() || -0x1_0000_0000 < self.e() < 0x1_0000_0000 }
    pub open spec fn fv(&self) -> real { (self.m() as real) * rz(self.e()) }
}
pub proof fn f_bits(d: u128)
    ensures d & !0x8000_0000_0000_0000_0000_0000_0000_0000u128 == d as int % T127 as int, 0x8000_0000_0000_0000_0000_0000_0000_0000u128 | d == T127 + d as int % T127 as int, d | 0x8000_0000_0000_0000_0000_0000_0000_0000u128 == T127 + d as int % T127 as int,
        d >> 127u128 == d as int / T127 as int, d >> 127i32 == d as int / T127 as int, d >> 127i32 == 1 <==> d >= T127, d ^ 0x8000_0000_0000_0000_0000_0000_0000_0000u128 == if d >= T127 { d - T127 } else { d + T127 },
        !0x8000_0000_0000_0000_0000_0000_0000_0000u128 == T127 - 1,
        d & 0x8000_0000_0000_0000_0000_0000_0000_0000u128 == if d >= T127 { T127 as int } else { 0 },
{
    assert(!0x8000_0000_0000_0000_0000_0000_0000_0000u128 == 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128) by(bit_vector);
    assert(d & !0x8000_0000_0000_0000_0000_0000_0000_0000u128 == d % 0x8000_0000_0000_0000_0000_0000_0000_0000u128) by(bit_vector);
    assert(0x8000_0000_0000_0000_0000_0000_0000_0000u128 | d == 0x8000_0000_0000_0000_0000_0000_0000_0000u128 + d % 0x8000_0000_0000_0000_0000_0000_0000_0000u128) by(bit_vector);
    assert(d | 0x8000_0000_0000_0000_0000_0000_0000_0000u128 == 0x8000_0000_0000_0000_0000_0000_0000_0000u128 | d) by(bit_vector);
    assert(d >> 127u128 == d / 0x8000_0000_0000_0000_0000_0000_0000_0000u128) by(bit_vector);
    assert(d >> 127i32 == d / 0x8000_0000_0000_0000_0000_0000_0000_0000u128) by(bit_vector);
    assert(d ^ 0x8000_0000_0000_0000_0000_0000_0000_0000u128 == if d >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 { sub(d, 0x8000_0000_0000_0000_0000_0000_0000_0000u128) } else { add(d, 0x8000_0000_0000_0000_0000_0000_0000_0000u128) }) by(bit_vector);
    assert(d & 0x8000_0000_0000_0000_0000_0000_0000_0000u128 == if d >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 { 0x8000_0000_0000_0000_0000_0000_0000_0000u128 } else { 0u128 }) by(bit_vector);
}
pub proof fn rz_mono(a: int, b: int) requires a <= b ensures rz(a) <= rz(b), rz(a) > 0real decreases b - a
{ rz_step(a); if a < b { rz_mono(a + 1, b); } }
/// magnitudes with different exponents
pub proof fn mag_lt(a: int, ea: int, b: int, eb: int)
    requires 0 < a < 2 * T127, b >= T127, ea < eb
    ensures (a as real) * rz(ea) < (b as real) * rz(eb), (a as real) * rz(ea) > 0real
{
    rz_step(ea); rz_mono(ea + 1, eb);
    let (x, y, u, v) = (a as real, b as real, rz(ea), rz(eb));
    assert(x < 2real * y);
    assert(x * u < (2real * y) * u) by(nonlinear_arith) requires x < 2real * y, u > 0real;
    assert((2real * y) * u == y * (2real * u)) by(nonlinear_arith);
    assert(y * (2real * u) <= y * v) by(nonlinear_arith) requires 2real * u <= v, y > 0real;
    assert(x * u > 0real) by(nonlinear_arith) requires x > 0real, u > 0real;
}
pub proof fn fv_sign(x: &F192) ensures x.z() ==> x.fv() == 0real, !x.z() && x.sg() ==> x.fv() < 0real && x.fv() == 0real - (x.mag() as real) * rz(x.e()), !x.z() && !x.sg() ==> x.fv() > 0real, T127 <= x.mag() < 2 * T127, rz(x.e()) > 0real
{
    rz_step(x.e());
    let (u, w) = (x.mag() as real, rz(x.e()));
    assert(0real * w == 0real) by(nonlinear_arith);
    assert(u * w > 0real) by(nonlinear_arith) requires u > 0real, w > 0real;
    assert((0real - u) * w == 0real - u * w) by(nonlinear_arith);
    if x.sg() && !x.z() { assert((x.m() as real) == 0real - u); }
}
/// the order of two numbers that are not of different sign
pub proof fn fv_cmp(x: &F192, y: &F192) requires x.wf(), y.wf(), x.sg() == y.sg()
    ensures x.exp < y.exp ==> (if x.sg() { x.fv() > y.fv() } else { x.fv() < y.fv() }),
        x.exp == y.exp && x.digits < y.digits ==> (if x.sg() { x.fv() > y.fv() } else { x.fv() < y.fv() }),
{
    fv_sign(x); fv_sign(y);
    if x.exp < y.exp { mag_lt(x.mag(), x.e(), y.mag(), y.e()); }
    else if x.exp == y.exp && x.digits < y.digits {
        let (a, b, w) = (x.mag() as real, y.mag() as real, rz(x.e()));
        assert(x.mag() < y.mag());
        assert(a < b);
        assert(a * w < b * w) by(nonlinear_arith) requires a < b, w > 0real;
    }
}
pub open spec fn f_ord(r: Ordering, a: real, b: real) -> bool { match r { Ordering::Less => a < b, Ordering::Equal => a == b, Ordering::Greater => a > b } }

pub assume_specification [u128::leading_zeros] (x: u128) -> (r: u32) ensures r <= 128, x == 0 <==> r == 128, x > 0 ==> T127 as int <= (x as int) * (p2(r as nat) as int) < 2 * (T127 as int);
pub proof fn shr_u128(x: u128, k: u64) requires k < 128 ensures (x >> k) as int == (x as int) / (p2(k as nat) as int), p2(k as nat) > 0
{ p2_pos(k as nat); shr_div(x, k as u32); assert(x >> k == x >> (k as u32)) by(bit_vector) requires k < 128; }
pub proof fn p2_127() ensures p2(127) == T127, p2(128) == 2 * T127 { reveal_with_fuel(p2, 140); assert(p2(127) == 0x8000_0000_0000_0000_0000_0000_0000_0000int) by(compute); assert(p2(128) == 2 * p2(127)); }
/// m * 2^-k over the reals
pub proof fn rz_cancel(m: int, k: nat) ensures ((m * (p2(k) as int)) as real) * rz(-(k as int)) == m as real
{
    rz_inv(k); hom(m, p2(k) as int);
    let (a, b, c) = (m as real, p2(k) as real, rz(-(k as int)));
    assert(rz(k as int) == b);
    assert((a * b) * c == a * (b * c)) by(nonlinear_arith);
    assert(a * 1real == a) by(nonlinear_arith);
}
/// m * 2^e * 2^k
pub proof fn fv_shift(m: int, e: int, k: int) ensures (m as real) * rz(e + k) == ((m as real) * rz(e)) * rz(k)
{
    if k >= 0 { rz_add(e, k as nat); } else { rz_add(e + k, (-k) as nat); rz_inv((-k) as nat); }
    let (a, b, c, d) = (m as real, rz(e), rz(e + k), rz(k));
    if k >= 0 { assert(a * (b * d) == (a * b) * d) by(nonlinear_arith); }
    else { let f = rz(-k); assert(b == c * f); assert(f * d == 1real); assert((a * (c * f)) * d == (a * c) * (f * d)) by(nonlinear_arith); assert((a * c) * 1real == a * c) by(nonlinear_arith); }
}
/// digits shifted up to the top
pub proof fn fv_norm(r: &F192, m: int, k: nat) requires r.m() == m * (p2(k) as int), r.e() == -(k as int) ensures r.fv() == m as real { rz_cancel(m, k); }
pub proof fn to_u(x: &F192) requires !x.z(), !x.sg()
    ensures x.e() > 0 ==> x.fv() >= (2 * (T127 as int)) as real, x.e() < -127 ==> 0real <= x.fv() < 1real,
        -127 <= x.e() <= 0 ==> ({ let n = x.mag() / (p2((-x.e()) as nat) as int); n as real <= x.fv() < n as real + 1real && x.fv() < (2 * (T127 as int)) as real })
{
    fv_sign(x); p2_127();
    let m = x.mag();
    let w = rz(x.e());
    if x.e() > 0 { rz_mono(1, x.e()); rz_step(0); assert(rz(0) == 1real); let (a, t) = (m as real, T127 as int as real); assert(a * w >= 2real * t) by(nonlinear_arith) requires a >= t, w >= 2real, t > 0real; }
    else if x.e() < -127 { mag_lt(m, x.e(), T127 as int, -127); rz_cancel(1, 127); assert(1 * (p2(127) as int) == T127); }
    else {
        let k = (-x.e()) as nat; let p = p2(k) as int; p2_pos(k);
        let n = m / p; let f = m % p;
        lemma_fundamental_div_mod(m, p);
        assert(m == n * p + f) by(nonlinear_arith) requires m == p * n + f;
        rz_cancel(n, k); rz_cancel(1, k); assert(1 * p == p);
        let (a, b, c, g) = (m as real, (n * p) as real, f as real, p as real);
        assert(a == b + c);
        assert(0real <= c < g);
        assert((b + c) * w == b * w + c * w) by(nonlinear_arith);
        assert(0real <= c * w < g * w) by(nonlinear_arith) requires 0real <= c < g, w > 0real;
        rz_mono(x.e(), 0); assert(rz(0) == 1real);
        let t = (2 * (T127 as int)) as real;
        assert(a < t);
        assert(a * w < t) by(nonlinear_arith) requires a < t, 0real < w <= 1real, a >= 0real;
    }
}
pub proof fn mag_step(x: &F192) requires !x.z()
    ensures ((x.mag() + 1) as real) * rz(x.e()) == (x.mag() as real) * rz(x.e()) + rz(x.e()), x.mag() + 1 == 2 * T127 ==> (T127 as int as real) * rz(x.e() + 1) == ((x.mag() + 1) as real) * rz(x.e())
{
    rz_step(x.e());
    let (a, w, t) = (x.mag() as real, rz(x.e()), T127 as int as real);
    assert((a + 1real) * w == a * w + w) by(nonlinear_arith);
    assert(t * (2real * w) == (2real * t) * w) by(nonlinear_arith);
}
pub proof fn trunc_bits(d: u128, k: u32) requires k < 128
    ensures ({ let r = (d >> k) << k; let p = p2(k as nat) as int; p > 0 && (k <= 127 ==> (r >= T127 <==> d >= T127) && T127 + r as int % T127 as int == ((T127 + d as int % T127 as int) / p) * p) && (((d >> k) << k) == d <==> d as int % p == 0) && (d as int % p == 0 <==> (T127 + d as int % T127 as int) % p == 0) })
{
    let p = p2(k as nat) as int; let t = T127 as int; let q = p2((127 - k) as nat) as int;
    p2_pos(k as nat); p2_pos((127 - k) as nat); p2_127(); p2_add(k as nat, (127 - k) as nat);
    assert(t == p * q);
    let x = d as int; let s = x / t; let lo = x % t;
    let a = lo / p; let b = lo % p;
    lemma_fundamental_div_mod(x, t); lemma_fundamental_div_mod(lo, p); lemma_fundamental_div_mod(x, p);
    assert(s == 0 || s == 1);
    assert(x == (s * q + a) * p + b) by(nonlinear_arith) requires x == t * s + lo, lo == p * a + b, t == p * q;
    lemma_fundamental_div_mod_converse(x, p, s * q + a, b);
    assert(t + lo == (q + a) * p + b) by(nonlinear_arith) requires lo == p * a + b, t == p * q;
    lemma_fundamental_div_mod_converse(t + lo, p, q + a, b);
    shr_div(d, k);
    let h = (d >> k);
    assert((x / p) * p <= x) by(nonlinear_arith) requires x == p * (x / p) + x % p, x % p >= 0;
    shl_mul(h, k);
    let r = (h << k) as int;
    assert(r == (s * q + a) * p);
    assert(r == s * t + a * p) by(nonlinear_arith) requires r == (s * q + a) * p, t == p * q;
    assert(0 <= a * p < t) by(nonlinear_arith) requires lo == p * a + b, b >= 0, lo < t, a >= 0, p > 0;
    lemma_fundamental_div_mod_converse(r, t, s, a * p);
    assert((q + a) * p == t + a * p) by(nonlinear_arith) requires t == p * q;
}
pub proof fn f_trunc(x: &F192, r: &F192) requires !x.z(), -127 <= x.e() < 0, r.exp == x.exp, r.digits == (x.digits >> ((-x.e()) as u32)) << ((-x.e()) as u32)
    ensures r.wf(), exists|k: int| #[trigger] is_trunc(k, x.fv()) && r.fv() == k as real
{
    let k = (-x.e()) as u32;
    trunc_bits(x.digits, k);
    fv_sign(x); fv_sign(r);
    let y = F192 { digits: (x.digits as int % T127 as int) as u128, exp: x.exp };
    fv_sign(&y); to_u(&y);
    let n = x.mag() / (p2(k as nat) as int);
    rz_cancel(n, k as nat);
    let (a, w) = (x.mag() as real, rz(x.e()));
    let i = if x.sg() { -n } else { n };
    assert(r.mag() == n * (p2(k as nat) as int));
    assert(is_trunc(i, x.fv()));
    assert(r.fv() == i as real);
}
pub proof fn f_big(x: &F192) requires !x.z(), x.e() >= 0 ensures ({ let k = x.m() * (p2(x.e() as nat) as int); is_trunc(k, x.fv()) && x.fv() == k as real })
{ hom(x.m(), p2(x.e() as nat) as int); }
pub proof fn f_small(x: &F192) requires x.wf(), !x.z(), x.e() < -127 ensures is_trunc(0, x.fv())
{ fv_sign(x); let y = F192 { digits: (x.digits as int % T127 as int) as u128, exp: x.exp }; fv_sign(&y); to_u(&y); }
pub proof fn f_pack(frac: u128, s: bool, t: u32) requires t == 104 ==> frac < 0x80_0000, t == 75 ==> frac < 0x10_0000_0000_0000, t == 104 || t == 75
    ensures ({ let r = (frac << t) | ((if s { 1u128 } else { 0u128 }) << 127i32); let p = p2(t as nat) as int; (r >= T127 <==> s) && T127 + r as int % T127 as int == if t == 104 { (0x80_0000 + frac) * p } else { (0x10_0000_0000_0000 + frac) * p } })
{
    p2_v104();
    if t == 104 {
        assert((frac << 104u32) | (1u128 << 127i32) == 0x8000_0000_0000_0000_0000_0000_0000_0000u128 + frac * 0x100_0000_0000_0000_0000_0000_0000u128) by(bit_vector) requires frac < 0x80_0000;
        assert((frac << 104u32) | (0u128 << 127i32) == frac * 0x100_0000_0000_0000_0000_0000_0000u128) by(bit_vector) requires frac < 0x80_0000;
    } else {
        assert((frac << 75u32) | (1u128 << 127i32) == 0x8000_0000_0000_0000_0000_0000_0000_0000u128 + frac * 0x800_0000_0000_0000_0000u128) by(bit_vector) requires frac < 0x10_0000_0000_0000;
        assert((frac << 75u32) | (0u128 << 127i32) == frac * 0x800_0000_0000_0000_0000u128) by(bit_vector) requires frac < 0x10_0000_0000_0000;
    }
}
pub proof fn p2_v104() ensures p2(104) == 0x100_0000_0000_0000_0000_0000_0000, p2(75) == 0x800_0000_0000_0000_0000 { assert(p2(104) == 0x100_0000_0000_0000_0000_0000_0000int) by(compute); assert(p2(75) == 0x800_0000_0000_0000_0000int) by(compute); }
/// (c * 2^t) * 2^(e - 127) == c * 2^(e - 127 + t)
pub proof fn f_lift(c: int, e: int, t: nat) ensures ((c * (p2(t) as int)) as real) * rz(e) == (c as real) * rz(e + t), (0real - (c as real)) * rz(e + t) == 0real - (c as real) * rz(e + t)
{
    rz_add(e, t); hom(c, p2(t) as int);
    let (a, b, w) = (c as real, p2(t) as real, rz(e));
    assert((a * b) * w == a * (w * b)) by(nonlinear_arith);
    let v = rz(e + t);
    assert((0real - a) * v == 0real - a * v) by(nonlinear_arith);
}
pub open spec fn rz_abs(e: int) -> nat { if e < 0 { (-e) as nat } else { e as nat } }
pub proof fn f_ratio(n: &F192) ensures !n.z() ==> ({ let p = p2(rz_abs(n.e())) as int; let a = n.mag() as real; n.fv() == (if n.sg() { 0real - (if n.e() < 0 { a / (p as real) } else { a * (p as real) }) } else if n.e() < 0 { a / (p as real) } else { a * (p as real) }) })
{
    fv_sign(n);
    let p = p2(rz_abs(n.e())) as real; let a = n.mag() as real; p2_pos(rz_abs(n.e()));
    if n.e() < 0 { assert(a * (1real / p) == a / p) by(nonlinear_arith) requires p > 0real; }
}
pub proof fn f_log(x: &F192) requires x.wf(), x.fv() > 0real ensures rz(x.e() + 127) <= x.fv() < rz(x.e() + 128), !x.z(), !x.sg()
{
    fv_sign(x); p2_127(); f_lift(1, x.e(), 127); f_lift(1, x.e(), 128);
    assert(1 * (p2(127) as int) == T127 && 1 * (p2(128) as int) == 2 * T127);
    let (a, b, c, w) = (T127 as int as real, x.mag() as real, (2 * T127 as int) as real, rz(x.e()));
    assert(a * w <= b * w && b * w < c * w) by(nonlinear_arith) requires a <= b, b < c, w > 0real;
}
pub proof fn f_pow(e: int) ensures (T127 as int as real) * rz(e) == rz(e + 127) { f_lift(1, e, 127); p2_127(); assert(1 * (p2(127) as int) == T127); }
/// a multiple of 2^k divided by 2^k is an integer, and nothing else is
pub proof fn f_int(x: &F192) requires x.wf(), !x.z(), -127 <= x.e() < 0
    ensures (exists|k: int| #[trigger] isint(k, x.fv())) <==> x.mag() % (p2((-x.e()) as nat) as int) == 0
{
    let k = (-x.e()) as nat; let p = p2(k) as int; p2_pos(k);
    fv_sign(x);
    let y = F192 { digits: (x.digits as int % T127 as int) as u128, exp: x.exp };
    fv_sign(&y); to_u(&y);
    let m = x.mag(); let n = m / p;
    lemma_fundamental_div_mod(m, p);
    rz_cancel(n, k);
    if m % p == 0 { assert(m == n * p) by(nonlinear_arith) requires m == p * n + m % p, m % p == 0; let i = if x.sg() { -n } else { n }; assert(isint(i, x.fv())); }
    if exists|k: int| #[trigger] isint(k, x.fv()) {
        let i = choose|k: int| #[trigger] isint(k, x.fv());
        let j = if x.sg() { -i } else { i };
        assert((j as real) == y.fv());
        assert(j == n);
        let (a, b, w) = (m as real, (n * p) as real, rz(x.e()));
        assert(a == b) by(nonlinear_arith) requires a * w == b * w, w > 0real;
        assert(m == n * p);
        assert(n * p == p * n) by(nonlinear_arith);
    }
}
pub proof fn f_frac(x: &F192) requires x.wf(), !x.z(), x.e() < -127 ensures forall|k: int| !#[trigger] isint(k, x.fv())
{
    f_small(x); fv_sign(x);
    let y = F192 { digits: (x.digits as int % T127 as int) as u128, exp: x.exp }; fv_sign(&y); to_u(&y);
    assert forall|k: int| !#[trigger] isint(k, x.fv()) by { if k >= 1 { assert(k as real >= 1real); } else if k <= -1 { assert(k as real <= -1real); } else { assert(k as real == 0real); } }
}
pub open spec fn isint(k: int, x: real) -> bool { (k as real) == x }
pub open spec fn T127r() -> real { T127 as int as real }
/// no F192 is nearer to x, and the relative error is at most 2^-127
pub open spec fn fnear(r: F192, x: real) -> bool {
    r.wf() && rabs(r.fv() - x) * T127r() <= rabs(x) && forall|y: F192| y.wf() ==> rabs(r.fv() - x) <= rabs(#[trigger] y.fv() - x)
}
pub proof fn rz_ltc(a: int, b: int) requires rz(a) < rz(b) ensures a < b { if b <= a { rz_mono(b, a); } }
pub open spec fn nearint(d: int, y: real) -> bool { (d as real) - 0.5real <= y && y <= (d as real) + 0.5real }
/// an integer is not nearer
pub proof fn nearint_best(d: int, y: real, k: int) requires nearint(d, y) ensures rabs(d as real - y) <= rabs(k as real - y), rabs(d as real - y) <= 0.5real
{ if k < d { assert(k + 1 <= d); assert((k as real) + 1real <= d as real); } else if k > d { assert(k >= d + 1); assert((k as real) >= d as real + 1real); } }
pub proof fn rabs_mul(a: real, w: real) requires w > 0real ensures rabs(a * w) == rabs(a) * w
{ assert((0real - a) * w == 0real - a * w) by(nonlinear_arith); assert(a > 0real ==> a * w > 0real) by(nonlinear_arith) requires w > 0real; assert(a < 0real ==> a * w < 0real) by(nonlinear_arith) requires w > 0real; }
