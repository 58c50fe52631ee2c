// rationals: the real number n / d, lowest terms, Gauss' lemma
pub open spec fn q(n: int, d: int) -> real { (n as real) / (d as real) }
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
pub open spec fn coprime(a: int, b: int) -> bool { is_gcd(1, a, b) }

pub struct Ratio { pub denom: BigInt, pub numer: BigInt }
impl Ratio {
    pub open spec fn wf(&self) -> bool { self.denom.wf() && self.numer.wf() && self.denom.v() > 0 && coprime(self.denom.v(), self.numer.v()) }
    pub open spec fn rv(&self) -> real { q(self.numer.v(), self.denom.v()) }
}
// expansion of #[derive(Clone)]
impl Clone for Ratio {
    fn clone(&self) -> (r: Self) ensures r.denom.val.0@ == self.denom.val.0@, r.denom._is_neg == self.denom._is_neg, r.numer.val.0@ == self.numer.val.0@, r.numer._is_neg == self.numer._is_neg, r.rv() == self.rv(), r.wf() == self.wf(), r.denom.v() == self.denom.v(), r.numer.v() == self.numer.v()
    { Ratio { denom: self.denom.clone(), numer: self.numer.clone() } }
}
// expansion of #[derive(PartialEq)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for Ratio {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Ratio) -> bool { self.denom.val.0@ == other.denom.val.0@ && self.denom._is_neg == other.denom._is_neg && self.numer.val.0@ == other.numer.val.0@ && self.numer._is_neg == other.numer._is_neg }
}
impl PartialEq for Ratio {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { self.denom == other.denom && self.numer == other.numer }
}
pub proof fn hom(a: int, b: int)
    ensures (a * b) as real == (a as real) * (b as real), (a + b) as real == (a as real) + (b as real), (a as real == b as real) <==> a == b, (a as real) < (b as real) <==> a < b
{ assert((a * b) as real == (a as real) * (b as real)) by(nonlinear_arith); }
pub proof fn q_def(n: int, d: int)
    requires d != 0
    ensures q(n, d) * (d as real) == n as real, (d as real) != 0real, d > 0 ==> (q(n, d) < 0real <==> n < 0) && (q(n, d) == 0real <==> n == 0), d > 0 ==> (d as real) > 0real
{
    let (a, b) = (n as real, d as real);
    hom(d, 0);
    assert((a / b) * b == a) by(nonlinear_arith) requires b != 0real;
    let x = a / b;
    assert(b > 0real ==> (x < 0real <==> a < 0real) && (x == 0real <==> a == 0real)) by(nonlinear_arith) requires x * b == a;
}
pub proof fn q_uniq(x: real, n: int, d: int)
    requires d != 0, x * (d as real) == n as real
    ensures x == q(n, d)
{
    q_def(n, d);
    let (y, b) = (q(n, d), d as real);
    assert(x == y) by(nonlinear_arith) requires x * b == y * b, b != 0real;
}
pub proof fn q_eq(n: int, d: int, m: int, e: int)
    requires d != 0, e != 0
    ensures (q(n, d) == q(m, e)) <==> n * e == m * d
{
    let (a, b, c, f) = (n as real, d as real, m as real, e as real);
    hom(n, e); hom(m, d); hom(n * e, m * d); q_def(n, d); q_def(m, e);
    let (x, y) = (q(n, d), q(m, e));
    assert(x == y ==> a * f == c * b) by(nonlinear_arith) requires x * b == a, y * f == c;
    assert(a * f == c * b ==> x == y) by(nonlinear_arith) requires x * b == a, y * f == c, b != 0real, f != 0real;
}
pub proof fn q_lt(n: int, d: int, m: int, e: int)
    requires d > 0, e > 0
    ensures (q(n, d) < q(m, e)) <==> n * e < m * d
{
    let (a, b, c, f) = (n as real, d as real, m as real, e as real);
    hom(n, e); hom(m, d); hom(n * e, m * d); q_def(n, d); q_def(m, e);
    let (x, y) = (q(n, d), q(m, e));
    assert(a * f == x * (b * f)) by(nonlinear_arith) requires x * b == a;
    assert(c * b == y * (b * f)) by(nonlinear_arith) requires y * f == c;
    let bf = b * f;
    assert(bf > 0real) by(nonlinear_arith) requires b > 0real, f > 0real, bf == b * f;
    assert(x < y <==> x * bf < y * bf) by(nonlinear_arith) requires bf > 0real;
}
pub proof fn q_ops(n: int, d: int, m: int, e: int)
    requires d != 0, e != 0
    ensures d * e != 0, q(n * e + m * d, d * e) == q(n, d) + q(m, e), q(n * e - m * d, d * e) == q(n, d) - q(m, e), q(n * m, d * e) == q(n, d) * q(m, e),
        m != 0 ==> d * m != 0 && q(m, e) != 0real && q(n * e, d * m) == q(n, d) / q(m, e),
{
    let (a, b, c, f) = (n as real, d as real, m as real, e as real);
    let (x, y) = (q(n, d), q(m, e));
    q_def(n, d); q_def(m, e); mul_sign(d, e); mul_sign(d, m);
    hom(n, e); hom(m, d); hom(d, e); hom(n, m); hom(d, m); hom(n * e, m * d); hom(n * e, -(m * d));
    assert((x + y) * (b * f) == a * f + c * b) by(nonlinear_arith) requires x * b == a, y * f == c;
    q_uniq(x + y, n * e + m * d, d * e);
    assert((x - y) * (b * f) == a * f - c * b) by(nonlinear_arith) requires x * b == a, y * f == c;
    q_uniq(x - y, n * e - m * d, d * e);
    assert((x * y) * (b * f) == a * c) by(nonlinear_arith) requires x * b == a, y * f == c;
    q_uniq(x * y, n * m, d * e);
    if m != 0 {
        assert(y != 0real) by(nonlinear_arith) requires y * f == c, c != 0real;
        let z = x / y;
        assert(z * y == x) by(nonlinear_arith) requires z == x / y, y != 0real;
        assert(z * (b * c) == a * f) by(nonlinear_arith) requires x * b == a, y * f == c, z * y == x;
        q_uniq(z, n * e, d * m);
    }
}
pub proof fn q_one(n: int) ensures q(n, 1) == n as real { q_uniq(n as real, n, 1); }
pub proof fn q_neg(n: int, d: int) requires d != 0 ensures q(-n, d) == 0real - q(n, d), q(n, -d) == 0real - q(n, d), q(-n, -d) == q(n, d), d > 0 ==> q(iabs(n) as int, d) == rabs(q(n, d))
{
    q_def(n, d); mul_sign(n, d); hom(-1, n); hom(-1, d);
    let (x, b, a) = (q(n, d), d as real, n as real);
    assert((-n) as real == 0real - a); assert((-d) as real == 0real - b);
    assert((0real - x) * b == 0real - a) by(nonlinear_arith) requires x * b == a; q_uniq(0real - x, -n, d);
    assert((0real - x) * (0real - b) == a) by(nonlinear_arith) requires x * b == a; q_uniq(0real - x, n, -d);
    assert(x * (0real - b) == 0real - a) by(nonlinear_arith) requires x * b == a; q_uniq(x, -n, -d);
}
// sum with and multiple of an integer, quotient by an integer
pub proof fn q_int(n: int, d: int, k: int)
    requires d != 0
    ensures q(n + d * k, d) == q(n, d) + (k as real), q(n - d * k, d) == q(n, d) - (k as real), q(n * k, d) == q(n, d) * (k as real), k != 0 ==> d * k != 0 && q(n, d * k) == q(n, d) / (k as real)
{
    let (x, b, a, r) = (q(n, d), d as real, n as real, k as real);
    q_def(n, d); hom(d, k); hom(n, k); hom(n, d * k); hom(n, -(d * k)); mul_sign(d, k); hom(k, 0);
    assert((x + r) * b == a + b * r) by(nonlinear_arith) requires x * b == a; q_uniq(x + r, n + d * k, d);
    assert((x - r) * b == a - b * r) by(nonlinear_arith) requires x * b == a; q_uniq(x - r, n - d * k, d);
    assert((x * r) * b == a * r) by(nonlinear_arith) requires x * b == a; q_uniq(x * r, n * k, d);
    if k != 0 { let z = x / r; assert(z * r == x) by(nonlinear_arith) requires z == x / r, r != 0real; assert(z * (b * r) == a) by(nonlinear_arith) requires x * b == a, z * r == x; q_uniq(z, n, d * k); }
}
pub proof fn q_cmp_int(n: int, d: int, k: int)
    requires d > 0
    ensures q(n, d) < (k as real) <==> n < d * k, q(n, d) > (k as real) <==> n > d * k, q(n, d) == (k as real) <==> n == d * k
{ q_one(k); q_lt(n, d, k, 1); q_lt(k, 1, n, d); q_eq(n, d, k, 1); assert(d * k == k * d) by(nonlinear_arith); }

pub proof fn coprime_sym(a: int, b: int) requires coprime(a, b) ensures coprime(b, a), coprime(-a, b), coprime(a, -b)
{
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (a * x + b * y);
    assert(1 == b * y + a * x);
    assert(a == 1 * a && b == 1 * b && -a == 1 * (-a) && -b == 1 * (-b));
    mul_sign(a, x); mul_sign(b, y);
    assert(1 == (-a) * (-x) + b * y); assert(1 == a * x + (-b) * (-y));
}
pub proof fn coprime_bez(a: int, b: int, x: int, y: int) requires a * x + b * y == 1 ensures coprime(a, b)
{ assert(a == 1 * a && b == 1 * b); assert(1 == a * x + b * y); }
pub proof fn coprime_one(n: int) ensures coprime(1, n), coprime(n, 1) { coprime_bez(1, n, 1, 0); coprime_bez(n, 1, 0, 1); }
pub proof fn coprime_zero(d: int) requires coprime(d, 0), d > 0 ensures d == 1
{ let (x, y) = choose|x: int, y: int| 1 == #[trigger] (d * x + 0 * y); assert(d == 1) by(nonlinear_arith) requires d * x == 1, d > 0; }
pub proof fn coprime_add(d: int, n: int, k: int) requires coprime(d, n) ensures coprime(d, n + d * k), coprime(d, n - d * k)
{
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (d * x + n * y);
    assert(d * (x - k * y) + (n + d * k) * y == 1) by(nonlinear_arith) requires d * x + n * y == 1;
    coprime_bez(d, n + d * k, x - k * y, y);
    assert(d * (x + k * y) + (n - d * k) * y == 1) by(nonlinear_arith) requires d * x + n * y == 1;
    coprime_bez(d, n - d * k, x + k * y, y);
}
pub proof fn coprime_mul(a: int, b: int, c: int) requires coprime(a, b), coprime(a, c) ensures coprime(a, b * c), coprime(b * c, a)
{
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (a * x + b * y);
    let (z, w) = choose|z: int, w: int| 1 == #[trigger] (a * z + c * w);
    // b * (a * z + c * w) = b, so b * y = a * (b * z * y) + (b * c) * (w * y)
    assert(b * y == a * (b * z * y) + (b * c) * (w * y)) by {
        assert(b * y == (b * y) * 1);
        assert((b * y) * (a * z + c * w) == (b * y) * (a * z) + (b * y) * (c * w)) by(nonlinear_arith);
        assert((b * y) * (a * z) == a * (b * z * y)) by(nonlinear_arith);
        assert((b * y) * (c * w) == (b * c) * (w * y)) by(nonlinear_arith);
    }
    assert(a * (x + b * z * y) == a * x + a * (b * z * y)) by(nonlinear_arith);
    coprime_bez(a, b * c, x + b * z * y, w * y);
    coprime_sym(a, b * c);
}
pub proof fn coprime_factor(a: int, b: int, c: int) requires coprime(a, b * c) ensures coprime(a, b), coprime(a, c), coprime(b, a), coprime(c, a)
{
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (a * x + (b * c) * y);
    assert(a * x + b * (c * y) == 1) by(nonlinear_arith) requires a * x + (b * c) * y == 1;
    assert(a * x + c * (b * y) == 1) by(nonlinear_arith) requires a * x + (b * c) * y == 1;
    coprime_bez(a, b, x, c * y); coprime_bez(a, c, x, b * y); coprime_sym(a, b); coprime_sym(a, c);
}
pub proof fn coprime_pow(a: int, b: int, n: nat) requires coprime(a, b) ensures coprime(ipow(a, n), b), coprime(b, ipow(a, n)) decreases n
{
    if n == 0 { coprime_one(b); } else { coprime_pow(a, b, (n - 1) as nat); coprime_sym(a, b); coprime_mul(b, a, ipow(a, (n - 1) as nat)); }
}
pub proof fn coprime_pow2(a: int, b: int, n: nat) requires coprime(a, b) ensures coprime(ipow(a, n), ipow(b, n))
{ coprime_pow(a, b, n); coprime_sym(ipow(a, n), b); coprime_pow(b, ipow(a, n), n); }
pub proof fn gauss(a: int, b: int, c: int) requires coprime(a, b), divides(a, b * c) ensures divides(a, c)
{
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (a * x + b * y);
    let k = choose|k: int| b * c == #[trigger] (a * k);
    assert(c == a * (x * c + y * k)) by(nonlinear_arith) requires a * x + b * y == 1, b * c == a * k;
}
pub proof fn lowest_unique(d: int, n: int, e: int, m: int)
    requires d > 0, e > 0, coprime(d, n), coprime(e, m), n * e == m * d
    ensures d == e, n == m
{
    assert(n * e == d * m) by(nonlinear_arith) requires n * e == m * d;
    assert(m * d == e * n) by(nonlinear_arith) requires n * e == m * d;
    gauss(d, n, e); gauss(e, m, d);
    div_le(d, e); div_le(e, d);
    assert(n == m) by(nonlinear_arith) requires n * e == m * e, e > 0;
}
pub proof fn ratio_unique(a: Ratio, b: Ratio)
    requires a.wf(), b.wf()
    ensures a.rv() == b.rv() <==> (a.denom.v() == b.denom.v() && a.numer.v() == b.numer.v()), a.rv() == b.rv() <==> vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)
{
    q_eq(a.numer.v(), a.denom.v(), b.numer.v(), b.denom.v());
    if a.rv() == b.rv() { lowest_unique(a.denom.v(), a.numer.v(), b.denom.v(), b.numer.v()); bi_unique(a.denom, b.denom); bi_unique(a.numer, b.numer); }
}
pub proof fn tdiv_exact(g: int, k: int) requires g != 0 ensures tdiv(g * k, g) == k
{
    let (p, c) = (iabs(g) as int, iabs(k) as int);
    mul_sign(g, k);
    assert(iabs(g * k) == c * p) by { assert(c * p == p * c) by(nonlinear_arith); }
    lemma_div_multiples_vanish(c, p);
    assert(p * c == c * p) by(nonlinear_arith);
    assert((p * c) / p == c);
}
// division of both by their gcd
pub proof fn lowest(d: int, n: int, g: int)
    requires is_gcd(g, d, n), d != 0
    ensures g > 0, tdiv(d, g) * g == d, tdiv(n, g) * g == n, coprime(tdiv(d, g), tdiv(n, g)), d > 0 ==> tdiv(d, g) > 0, tdiv(d, g) != 0, q(tdiv(n, g), tdiv(d, g)) == q(n, d)
{
    let k = choose|k: int| d == #[trigger] (g * k);
    let l = choose|l: int| n == #[trigger] (g * l);
    let (x, y) = choose|x: int, y: int| g == #[trigger] (d * x + n * y);
    mul_sign(g, k);
    tdiv_exact(g, k); tdiv_exact(g, l);
    assert(k * x + l * y == 1) by(nonlinear_arith) requires g == d * x + n * y, d == g * k, n == g * l, g > 0;
    coprime_bez(k, l, x, y);
    assert(k * g == g * k && l * g == g * l) by(nonlinear_arith);
    q_eq(l, k, n, d);
    assert(l * d == n * k) by(nonlinear_arith) requires d == g * k, n == g * l;
}
// n/d times o where g = gcd(d, o)
pub proof fn mul_lowest(d: int, n: int, o: int, g: int)
    requires coprime(d, n), d > 0, is_gcd(g, d, o)
    ensures g > 0, tdiv(d, g) > 0, coprime(tdiv(d, g), n * tdiv(o, g)), q(n * tdiv(o, g), tdiv(d, g)) == q(n, d) * (o as real)
{
    lowest(d, o, g);
    let (k, l) = (tdiv(d, g), tdiv(o, g));
    coprime_sym(d, n);
    coprime_factor(n, k, g);
    coprime_mul(k, n, l);
    q_int(n, d, o);
    q_eq(n * l, k, n * o, d);
    assert((n * l) * d == (n * o) * k) by(nonlinear_arith) requires d == k * g, o == l * g;
}
pub proof fn div_lowest(d: int, n: int, o: int, g: int)
    requires coprime(d, n), d > 0, is_gcd(g, n, o), o != 0
    ensures g > 0, tdiv(o, g) != 0, d * tdiv(o, g) != 0, coprime(d * tdiv(o, g), tdiv(n, g)), q(tdiv(n, g), d * tdiv(o, g)) == q(n, d) / (o as real), d * tdiv(o, g) > 0 <==> o > 0
{
    is_gcd_sym(g, n, o);
    lowest(o, n, g);
    let (k, l) = (tdiv(o, g), tdiv(n, g));
    coprime_factor(d, l, g);
    coprime_sym(k, l);
    coprime_mul(l, d, k);
    q_int(n, d, o);
    mul_sign(d, k); mul_sign(k, g); mul_sign(d, o);
    q_eq(l, d * k, n, d * o);
    assert(l * (d * o) == n * (d * k)) by(nonlinear_arith) requires n == l * g, o == k * g;
    assert(g > 0 && k * g == o ==> (o > 0 <==> k > 0)) by(nonlinear_arith);
}
pub proof fn is_gcd_sym(g: int, a: int, b: int) requires is_gcd(g, a, b) ensures is_gcd(g, b, a)
{ let (x, y) = choose|x: int, y: int| g == #[trigger] (a * x + b * y); assert(g == b * y + a * x); }
pub proof fn q_pow(n: int, d: int, k: nat)
    requires d != 0
    ensures ipow(d, k) != 0, q(ipow(n, k), ipow(d, k)) == rpow(q(n, d), k)
    decreases k
{
    if k == 0 { q_one(1); } else { let j = (k - 1) as nat; q_pow(n, d, j); q_ops(n, d, ipow(n, j), ipow(d, j)); }
}
// truncation: q(n, d) = tdiv + trem/d
pub open spec fn is_trunc(k: int, x: real) -> bool { if x >= 0real { (k as real) <= x && x < ((k + 1) as real) } else { ((k - 1) as real) < x && x <= (k as real) } }
pub open spec fn is_floor(k: int, x: real) -> bool { (k as real) <= x && x < ((k + 1) as real) }
// nearest integer, halves away from zero
pub open spec fn is_round(k: int, x: real) -> bool { let e = rabs((k as real) - x); 2real * e <= 1real && (2real * e == 1real ==> rabs(k as real) > rabs(x)) }
pub proof fn trunc_q(n: int, d: int)
    requires d > 0
    ensures is_trunc(tdiv(n, d), q(n, d)), q(trem(n, d), d) == q(n, d) - (tdiv(n, d) as real), trem(n, d) == n - d * tdiv(n, d), iabs(trem(n, d)) < d,
        n < 0 && d > 1 && coprime(d, n) ==> trem(n, d) < 0, n >= 0 ==> trem(n, d) >= 0, n <= 0 ==> trem(n, d) <= 0
{
    let k = tdiv(n, d);
    trem_def(n, d);
    assert(k * d == d * k) by(nonlinear_arith);
    q_int(n, d, k);
    q_def(n, d);
    q_cmp_int(n, d, k); q_cmp_int(n, d, k + 1); q_cmp_int(n, d, k - 1);
    assert(d * (k + 1) == d * k + d && d * (k - 1) == d * k - d) by(nonlinear_arith);
    if n < 0 && d > 1 && coprime(d, n) && trem(n, d) == 0 {
        assert(n == d * k);
        let (x, y) = choose|x: int, y: int| 1 == #[trigger] (d * x + n * y);
        assert(d * (x + k * y) == 1) by(nonlinear_arith) requires d * x + n * y == 1, n == d * k;
        let z = x + k * y;
        assert(false) by(nonlinear_arith) requires d * z == 1, d > 1;
    }
}
pub proof fn round_q(n: int, d: int)
    requires d > 0
    ensures ({ let (k, r) = (tdiv(n, d), trem(n, d)); (2 * iabs(r) < d ==> is_round(k, q(n, d))) && (2 * iabs(r) >= d ==> is_round(if n < 0 { k - 1 } else { k + 1 }, q(n, d))) })
{
    trunc_q(n, d); trem_def(n, d);
    let (k, r) = (tdiv(n, d), trem(n, d));
    q_def(n, d); q_neg(r, d); q_def(r, d);
    let f = q(r, d); let x = q(n, d);
    q_int(r, d, 2); q_cmp_int(r * 2, d, 1); q_cmp_int(r * 2, d, -1);
    assert(x == f + (k as real));
    q_cmp_int(r, d, 1); q_cmp_int(r, d, -1);
    if 2 * iabs(r) >= d { if n < 0 { assert(r < 0); } }
}
pub proof fn comm(a: int, b: int) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn rpow_ne(x: real, n: nat) requires x != 0real ensures rpow(x, n) != 0real decreases n
{ if n > 0 { rpow_ne(x, (n - 1) as nat); let y = rpow(x, (n - 1) as nat); assert(x * y != 0real) by(nonlinear_arith) requires x != 0real, y != 0real; } }
pub proof fn pow_ratio(d: int, n: int, k: nat)
    requires d > 0, coprime(d, n)
    ensures ipow(d, k) > 0, coprime(ipow(d, k), ipow(n, k)), q(ipow(n, k), ipow(d, k)) == rpow(q(n, d), k), q(n, d) != 0real ==> rpow(q(n, d), k) != 0real
{ ipow_pos(d, k); coprime_pow2(d, n, k); q_pow(n, d, k); if q(n, d) != 0real { rpow_ne(q(n, d), k); } }
pub proof fn reci_q(d: int, n: int)
    requires d > 0, coprime(d, n)
    ensures q(n, d) == 0real <==> n == 0, n != 0 ==> q(d, n) == 1real / q(n, d) && coprime(n, d) && coprime(-n, -d) && q(-d, -n) == 1real / q(n, d)
{
    q_def(n, d); coprime_sym(d, n); coprime_sym(n, d); coprime_sym(-n, d);
    if n != 0 {
        q_one(1); q_ops(1, 1, n, d); q_neg(d, n);
    }
}
pub proof fn common_q(d: int, n: int, e: int, m: int, g: int)
    requires d > 0, e > 0, is_gcd(g, d, e)
    ensures g > 0, d * tdiv(e, g) > 0, q(n, d) == q(n * tdiv(e, g), d * tdiv(e, g)), q(m, e) == q(m * tdiv(d, g), d * tdiv(e, g))
{
    lowest(d, e, g); is_gcd_sym(g, d, e); lowest(e, d, g);
    let (k, l) = (tdiv(d, g), tdiv(e, g));
    mul_sign(d, l);
    q_eq(n, d, n * l, d * l); q_eq(m, e, m * k, d * l);
    assert(n * (d * l) == (n * l) * d) by(nonlinear_arith);
    assert(m * (d * l) == (m * k) * e) by(nonlinear_arith) requires d == k * g, e == l * g;
}
pub proof fn tdiv_small(a: int, b: int) requires b > 0 ensures iabs(tdiv(a, b)) <= iabs(a), a == 0 ==> tdiv(a, b) == 0, a > 0 ==> tdiv(a, b) == a / b, a < 0 ==> tdiv(a, b) == -((-a) / b)
{ lemma_div_basics(b); let x = iabs(a) as int; fdm(x, b); let qq = x / b; assert(qq <= x) by(nonlinear_arith) requires x == qq * b + x % b, x % b >= 0, b >= 1, qq >= 0; }
pub proof fn gcd_i32_small(a: int, b: int)
    requires -0x8000_0000 <= a <= 0x7fff_ffff, -0x8000_0000 <= b <= 0x7fff_ffff, !(a == -0x8000_0000 && (b == 0 || b == -0x8000_0000)), !(b == -0x8000_0000 && a == 0)
    ensures forall|g: int| is_gcd(g, a, b) ==> g <= 0x7fff_ffff
{
    assert forall|g: int| is_gcd(g, a, b) implies g <= 0x7fff_ffff by {
        if a != 0 { lowest(a, b, g); gle(a, tdiv(a, g), g); if b != 0 { gle(b, tdiv(b, g), g); } }
        else if b != 0 { is_gcd_sym(g, a, b); lowest(b, a, g); gle(b, tdiv(b, g), g); }
        else { let (x, y) = choose|x: int, y: int| g == #[trigger] (a * x + b * y); assert(a * x == 0 && b * y == 0) by(nonlinear_arith) requires a == 0, b == 0; }
        if g > 0x7fff_ffff && a != 0 { gdiv2(a, tdiv(a, g), g); gdiv2(b, tdiv(b, g), g); }
    }
}
proof fn gle(a: int, k: int, g: int) requires k * g == a, g > 0, a != 0 ensures g <= iabs(a)
{ assert(g <= iabs(a)) by(nonlinear_arith) requires k * g == a, g > 0, a != 0, iabs(a) == a || iabs(a) == -a, iabs(a) > 0; }
proof fn gdiv2(a: int, k: int, g: int) requires k * g == a, g > 0x7fff_ffff, -0x8000_0000 <= a <= 0x7fff_ffff ensures a == 0 || a == -0x8000_0000
{ assert(k == 0 || k == -1) by(nonlinear_arith) requires k * g == a, g > 0x7fff_ffff, -0x8000_0000 <= a <= 0x7fff_ffff; assert(k == 0 ==> k * g == 0) by(nonlinear_arith); assert(k == -1 ==> k * g == -g) by(nonlinear_arith); }
pub proof fn irem(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a % b < b, a == 0 ==> a % b == 0, trem(a, b) == a % b
{ lemma_mod_bound(a, b); lemma_small_mod(0, b as nat); }
pub proof fn neg1(a: int) ensures a * (-1) == -a { assert(a * (-1) == -a) by(nonlinear_arith); }
