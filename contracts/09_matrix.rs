#[derive(Debug)]
pub enum MatrixError {
    WrongDimension { expected: (usize, usize), got: (usize, usize) },
    InconsistetRow,
    NotSquare(usize, usize),
    EmptyMatrix,
    ZeroDeterminant,
}
pub struct Matrix { pub data: Vec<Vec<Ratio>>, pub cols: usize, pub rows: usize }
impl Matrix {
    pub open spec fn f(&self) -> M { |i: int, j: int| self.data@[i]@[j].rv() }
    pub open spec fn wf(&self) -> bool { shape(self.data@, self.cols as int) && self.data@.len() == self.rows }
}
pub open spec fn wfrow(v: Seq<Ratio>) -> bool { forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).wf() }
pub open spec fn shape(d: Seq<Vec<Ratio>>, cols: int) -> bool { forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i])@.len() == cols && wfrow(d[i]@) }
// matrices over the reals as functions of (row, column); determinants by Laplace expansion along the first row
pub type M = spec_fn(int, int) -> real;
pub open spec fn sum(f: spec_fn(int) -> real, n: nat) -> real decreases n { if n == 0 { 0real } else { sum(f, (n - 1) as nat) + f(n - 1) } }
/// the position, in the full index range, of index a of the range with i left out
pub open spec fn sk(a: int, i: int) -> int { if a < i { a } else { a + 1 } }
pub open spec fn un(a: int, i: int) -> int { if a < i { a } else { a - 1 } }
pub open spec fn mminor(m: M, i: int, j: int) -> M { |a: int, b: int| m(sk(a, i), sk(b, j)) }
pub open spec fn sg(k: int) -> real { if k % 2 == 0 { 1real } else { 0real - 1real } }
pub open spec fn dsum(m: M, n: nat, k: nat) -> real decreases n, k {
    if n == 0 || k == 0 { 0real } else { dsum(m, n, (k - 1) as nat) + m(0, k - 1) * (sg(k - 1) * (if n == 1 { 1real } else { dsum(mminor(m, 0, k - 1), (n - 1) as nat, (n - 1) as nat) })) }
}
pub open spec fn mdet(m: M, n: nat) -> real { if n == 0 { 1real } else { dsum(m, n, n) } }
pub open spec fn mcof(m: M, n: nat, i: int, j: int) -> real { sg(i + j) * mdet(mminor(m, i, j), (n - 1) as nat) }
pub open spec fn row_exp(m: M, n: nat, i: int) -> real { sum(|j: int| m(i, j) * mcof(m, n, i, j), n) }
pub open spec fn mmul(a: M, b: M, n: nat) -> M { |i: int, j: int| sum(|k: int| a(i, k) * b(k, j), n) }
pub open spec fn mid(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
pub open spec fn meq(a: M, b: M, n: nat) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] a(i, j) == #[trigger] b(i, j) }

pub proof fn sum_ext(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == #[trigger] g(i)
    ensures sum(f, n) == sum(g, n)
    decreases n
{ if n > 0 { sum_ext(f, g, (n - 1) as nat); assert(f(n - 1) == g(n - 1)); } }
pub proof fn sum_add(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: nat)
    ensures sum(|i: int| f(i) + g(i), n) == sum(f, n) + sum(g, n)
    decreases n
{ if n > 0 { sum_add(f, g, (n - 1) as nat); } }
pub proof fn sum_scale(f: spec_fn(int) -> real, c: real, n: nat)
    ensures sum(|i: int| c * f(i), n) == c * sum(f, n)
    decreases n
{
    if n > 0 {
        sum_scale(f, c, (n - 1) as nat);
        let (x, y) = (sum(f, (n - 1) as nat), f(n - 1));
        assert(c * (x + y) == c * x + c * y) by(nonlinear_arith);
    } else { assert(c * 0real == 0real) by(nonlinear_arith); }
}
pub proof fn sum_zero(f: spec_fn(int) -> real, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real
    ensures sum(f, n) == 0real
    decreases n
{ if n > 0 { sum_zero(f, (n - 1) as nat); assert(f(n - 1) == 0real); } }
pub open spec fn inner(f: spec_fn(int, int) -> real, m: nat) -> spec_fn(int) -> real { |i: int| sum(|j: int| f(i, j), m) }
pub open spec fn inner2(f: spec_fn(int, int) -> real, n: nat) -> spec_fn(int) -> real { |j: int| sum(|i: int| f(i, j), n) }
pub proof fn fubini(f: spec_fn(int, int) -> real, n: nat, m: nat)
    ensures sum(inner(f, m), n) == sum(inner2(f, n), m)
    decreases n
{
    if n == 0 { sum_zero(inner2(f, n), m); }
    else {
        let p = (n - 1) as nat;
        fubini(f, p, m);
        let g = |j: int| f(n - 1, j);
        sum_add(inner2(f, p), g, m);
        sum_ext(inner2(f, n), |j: int| inner2(f, p)(j) + g(j), m);
        assert(inner(f, m)(n - 1) == sum(g, m));
    }
}
/// a sum over the indices with j left out
pub proof fn sum_skip(g: spec_fn(int) -> real, n: nat, j: int)
    requires 0 <= j < n
    ensures sum(|k: int| g(sk(k, j)), (n - 1) as nat) == sum(|l: int| if l == j { 0real } else { g(l) }, n)
    decreases n
{
    let a = |k: int| g(sk(k, j));
    let b = |l: int| if l == j { 0real } else { g(l) };
    let p = (n - 1) as nat;
    if j == n - 1 {
        sum_ext(a, b, p);
        assert(b(n - 1) == 0real);
    } else {
        sum_skip(g, p, j);
        assert(a(n - 2) == g(n - 1));
        assert(b(n - 1) == g(n - 1));
    }
}
pub proof fn sg_facts(a: int, b: int) ensures (a - b) % 2 == 0 ==> sg(a) == sg(b), sg(a + b) == sg(a) * sg(b), sg(a) * sg(a) == 1real
{
    assert((0real - 1real) * (0real - 1real) == 1real) by(nonlinear_arith);
    assert((0real - 1real) * 1real == 0real - 1real) by(nonlinear_arith);
    assert(1real * (0real - 1real) == 0real - 1real) by(nonlinear_arith);
    assert(1real * 1real == 1real) by(nonlinear_arith);
}
pub proof fn det_ext(a: M, b: M, n: nat)
    requires meq(a, b, n)
    ensures mdet(a, n) == mdet(b, n)
    decreases n
{ if n > 0 { dsum_ext(a, b, n, n); } }
pub proof fn dsum_ext(a: M, b: M, n: nat, k: nat)
    requires meq(a, b, n), k <= n, n > 0
    ensures dsum(a, n, k) == dsum(b, n, k)
    decreases n, k
{
    if k > 0 {
        dsum_ext(a, b, n, (k - 1) as nat);
        assert(a(0, k - 1) == b(0, k - 1));
        if n > 1 {
            let (x, y) = (mminor(a, 0, k - 1), mminor(b, 0, k - 1));
            assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 implies #[trigger] x(i, j) == #[trigger] y(i, j) by { assert(a(sk(i, 0), sk(j, k - 1)) == b(sk(i, 0), sk(j, k - 1))); }
            dsum_ext(x, y, (n - 1) as nat, (n - 1) as nat);
        }
    }
}
pub proof fn dsum_row(m: M, n: nat, k: nat)
    requires k <= n, n > 0
    ensures dsum(m, n, k) == sum(|j: int| m(0, j) * mcof(m, n, 0, j), k)
    decreases k
{ if k > 0 { dsum_row(m, n, (k - 1) as nat); } }
pub proof fn det_row0(m: M, n: nat)
    requires n > 0
    ensures mdet(m, n) == row_exp(m, n, 0)
{ dsum_row(m, n, n); }

pub open spec fn lt(m: M, n: nat, i: int) -> spec_fn(int, int) -> real {
    |j: int, l: int| if l == j { 0real } else { m(0, j) * (sg(j) * (m(i, l) * (sg(i - 1 + un(l, j)) * mdet(mminor(mminor(m, 0, j), i - 1, un(l, j)), (n - 2) as nat)))) }
}
pub open spec fn rt(m: M, n: nat, i: int) -> spec_fn(int, int) -> real {
    |j: int, l: int| if l == j { 0real } else { m(i, l) * (sg(i + l) * (m(0, j) * (sg(un(j, l)) * mdet(mminor(mminor(m, i, l), 0, un(j, l)), (n - 2) as nat)))) }
}
proof fn expand_any_left(m: M, n: nat, i: int, j: int)
    requires 0 < i < n, n >= 2, 0 <= j < n, mdet(mminor(m, 0, j), (n - 1) as nat) == row_exp(mminor(m, 0, j), (n - 1) as nat, i - 1)
    ensures m(0, j) * mcof(m, n, 0, j) == inner(lt(m, n, i), n)(j)
{
    let p = (n - 1) as nat;
    let x = mminor(m, 0, j);
    let h = |l: int| m(i, l) * (sg(i - 1 + un(l, j)) * mdet(mminor(x, i - 1, un(l, j)), (n - 2) as nat));
    sum_skip(h, n, j);
    let e = |k: int| x(i - 1, k) * mcof(x, p, i - 1, k);
    sum_ext(e, |k: int| h(sk(k, j)), p);
    let h0 = |l: int| if l == j { 0real } else { h(l) };
    assert(mdet(x, p) == sum(h0, n));
    sum_scale(h0, sg(j), n);
    let h1 = |l: int| sg(j) * h0(l);
    sum_scale(h1, m(0, j), n);
    let h2 = |l: int| m(0, j) * h1(l);
    let f = |l: int| lt(m, n, i)(j, l);
    assert forall|l: int| 0 <= l < n implies #[trigger] h2(l) == #[trigger] f(l) by {
        if l == j { let (c, d) = (m(0, j), sg(j)); assert(c * (d * 0real) == 0real) by(nonlinear_arith); }
    }
    sum_ext(h2, f, n);
}
proof fn expand_any_right(m: M, n: nat, i: int, l: int)
    requires 0 < i < n, n >= 2, 0 <= l < n
    ensures m(i, l) * mcof(m, n, i, l) == inner2(rt(m, n, i), n)(l)
{
    let p = (n - 1) as nat;
    let x = mminor(m, i, l);
    det_row0(x, p);
    let h = |j: int| m(0, j) * (sg(un(j, l)) * mdet(mminor(x, 0, un(j, l)), (n - 2) as nat));
    sum_skip(h, n, l);
    let e = |k: int| x(0, k) * mcof(x, p, 0, k);
    sum_ext(e, |k: int| h(sk(k, l)), p);
    let h0 = |j: int| if j == l { 0real } else { h(j) };
    assert(mdet(x, p) == sum(h0, n));
    sum_scale(h0, sg(i + l), n);
    let h1 = |j: int| sg(i + l) * h0(j);
    sum_scale(h1, m(i, l), n);
    let h2 = |j: int| m(i, l) * h1(j);
    let f = |j: int| rt(m, n, i)(j, l);
    assert forall|j: int| 0 <= j < n implies #[trigger] h2(j) == #[trigger] f(j) by {
        if l == j { let (c, d) = (m(i, l), sg(i + l)); assert(c * (d * 0real) == 0real) by(nonlinear_arith); }
    }
    sum_ext(h2, f, n);
}
pub proof fn rass(a: real, b: real, c: real) ensures a * (b * c) == (a * b) * c { assert(a * (b * c) == (a * b) * c) by(nonlinear_arith); }
pub proof fn rcom(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
proof fn shuffle(x: real, s: real, y: real, t: real, d: real) ensures x * (s * (y * (t * d))) == (s * t) * ((x * y) * d)
{
    rass(y, t, d); rcom(y, t); rass(t, y, d); // y*(t*d) == t*(y*d)
    let w = y * d;
    rass(s, t, w); let st = s * t; // s*(t*w) == st*w
    rass(x, st, w); rcom(x, st); rass(st, x, w); rass(x, y, d);
}
proof fn expand_same(m: M, n: nat, i: int, j: int, l: int)
    requires 0 < i < n, 0 <= j < n, 0 <= l < n
    ensures lt(m, n, i)(j, l) == rt(m, n, i)(j, l)
{
    if j != l {
        let a = mminor(mminor(m, 0, j), i - 1, un(l, j));
        let b = mminor(mminor(m, i, l), 0, un(j, l));
        let q = (n - 2) as nat;
        assert(meq(a, b, q));
        det_ext(a, b, q);
        let d = mdet(a, q);
        let (s1, s2, s3, s4) = (sg(j), sg(i - 1 + un(l, j)), sg(i + l), sg(un(j, l)));
        sg_facts(j, i - 1 + un(l, j)); sg_facts(i + l, un(j, l));
        sg_facts(j + (i - 1 + un(l, j)), i + l + un(j, l));
        assert(s1 * s2 == s3 * s4);
        let (x, y) = (m(0, j), m(i, l));
        shuffle(x, s1, y, s2, d); shuffle(y, s3, x, s4, d); rcom(x, y);
    }
}
/// Laplace expansion along any row
pub proof fn expand_any(m: M, n: nat, i: int)
    requires 0 <= i < n
    ensures mdet(m, n) == row_exp(m, n, i)
    decreases n
{
    det_row0(m, n);
    if i > 0 {
        let p = (n - 1) as nat;
        let f0 = |j: int| m(0, j) * mcof(m, n, 0, j);
        let (lf, rf) = (lt(m, n, i), rt(m, n, i));
        assert forall|j: int| 0 <= j < n implies #[trigger] f0(j) == #[trigger] inner(lf, n)(j) by { expand_any(mminor(m, 0, j), p, i - 1); expand_any_left(m, n, i, j); }
        sum_ext(f0, inner(lf, n), n);
        assert forall|j: int| 0 <= j < n implies #[trigger] inner(lf, n)(j) == #[trigger] inner(rf, n)(j) by {
            let (u, v) = (|l: int| lf(j, l), |l: int| rf(j, l));
            assert forall|l: int| 0 <= l < n implies #[trigger] u(l) == #[trigger] v(l) by { expand_same(m, n, i, j, l); }
            sum_ext(u, v, n);
        }
        sum_ext(inner(lf, n), inner(rf, n), n);
        fubini(rf, n, n);
        let f1 = |l: int| m(i, l) * mcof(m, n, i, l);
        assert forall|l: int| 0 <= l < n implies #[trigger] inner2(rf, n)(l) == #[trigger] f1(l) by { expand_any_right(m, n, i, l); }
        sum_ext(inner2(rf, n), f1, n);
    }
}
pub proof fn det1(m: M) ensures mdet(m, 1) == m(0, 0) {
    reveal_with_fuel(dsum, 3); let a = m(0, 0); assert(a * (1real * 1real) == a) by(nonlinear_arith);
}
pub proof fn det2(m: M) ensures mdet(m, 2) == m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0) {
    reveal_with_fuel(sum, 3);
    det_row0(m, 2);
    det1(mminor(m, 0, 0)); det1(mminor(m, 0, 1));
    let (a, b, c, d) = (m(0, 0), m(0, 1), m(1, 0), m(1, 1));
    assert(a * (1real * d) == a * d) by(nonlinear_arith);
    assert(b * ((0real - 1real) * c) == 0real - b * c) by(nonlinear_arith);
    assert(row_exp(m, 2, 0) == 0real + a * (1real * d) + b * ((0real - 1real) * c));
}
/// two equal rows: the determinant is 0
pub proof fn det_equal_rows(m: M, n: nat, p: int, q: int)
    requires 0 <= p < q < n, forall|j: int| 0 <= j < n ==> #[trigger] m(p, j) == m(q, j)
    ensures mdet(m, n) == 0real
    decreases n
{
    if n == 2 { det2(m); assert(m(0, 0) == m(1, 0) && m(0, 1) == m(1, 1)); let (a, b) = (m(0, 0), m(0, 1)); assert(a * b - b * a == 0real) by(nonlinear_arith); }
    else {
        let r: int = if p > 0 { 0 } else if q > 1 { 1 } else { 2 };
        expand_any(m, n, r);
        let f = |j: int| m(r, j) * mcof(m, n, r, j);
        assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == 0real by {
            let x = mminor(m, r, j);
            assert forall|b: int| 0 <= b < n - 1 implies #[trigger] x(un(p, r), b) == x(un(q, r), b) by { assert(m(p, sk(b, j)) == m(q, sk(b, j))); }
            det_equal_rows(x, (n - 1) as nat, un(p, r), un(q, r));
            let (c, s) = (m(r, j), sg(r + j));
            assert(c * (s * 0real) == 0real) by(nonlinear_arith);
        }
        sum_zero(f, n);
    }
}
pub open spec fn madj(m: M, n: nat) -> M { |i: int, j: int| mcof(m, n, j, i) }
/// m * adjugate(m) == det(m) * identity
pub proof fn adj_thm(m: M, n: nat, i: int, k: int)
    requires 0 <= i < n, 0 <= k < n
    ensures mmul(m, madj(m, n), n)(i, k) == if i == k { mdet(m, n) } else { 0real }
{
    let f = |j: int| m(i, j) * madj(m, n)(j, k);
    if i == k { expand_any(m, n, i); sum_ext(f, |j: int| m(i, j) * mcof(m, n, i, j), n); }
    else {
        let w: M = |a: int, b: int| if a == k { m(i, b) } else { m(a, b) };
        expand_any(w, n, k);
        if i < k { det_equal_rows(w, n, i, k); } else { det_equal_rows(w, n, k, i); }
        let g = |j: int| w(k, j) * mcof(w, n, k, j);
        assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == #[trigger] g(j) by {
            assert(meq(mminor(m, k, j), mminor(w, k, j), (n - 1) as nat));
            det_ext(mminor(m, k, j), mminor(w, k, j), (n - 1) as nat);
        }
        sum_ext(f, g, n);
    }
}
#[verifier::opaque]
pub open spec fn d3(a: real, b: real, c: real, d: real, e: real, f: real, g: real, h: real, i: real) -> real { a * (e * i) + b * (f * g) + c * (d * h) - c * (e * g) - b * (d * i) - a * (f * h) }
pub proof fn det3(m: M) ensures mdet(m, 3) == d3(m(0, 0), m(0, 1), m(0, 2), m(1, 0), m(1, 1), m(1, 2), m(2, 0), m(2, 1), m(2, 2)) {
    reveal(d3);
    reveal_with_fuel(sum, 4);
    det_row0(m, 3);
    det2(mminor(m, 0, 0)); det2(mminor(m, 0, 1)); det2(mminor(m, 0, 2));
    let (a, b, c, d, e, f, g, h, i) = (m(0, 0), m(0, 1), m(0, 2), m(1, 0), m(1, 1), m(1, 2), m(2, 0), m(2, 1), m(2, 2));
    let (x, y, z) = (e * i - f * h, d * i - f * g, d * h - e * g);
    assert(row_exp(m, 3, 0) == 0real + a * (1real * x) + b * ((0real - 1real) * y) + c * (1real * z));
    assert(a * (1real * x) == a * (e * i) - a * (f * h)) by(nonlinear_arith) requires x == e * i - f * h;
    assert(b * ((0real - 1real) * y) == b * (f * g) - b * (d * i)) by(nonlinear_arith) requires y == d * i - f * g;
    assert(c * (1real * z) == c * (d * h) - c * (e * g)) by(nonlinear_arith) requires z == d * h - e * g;
}
pub proof fn det4(m: M) ensures mdet(m, 4) == m(0, 0) * mdet(mminor(m, 0, 0), 3) - m(0, 1) * mdet(mminor(m, 0, 1), 3) + m(0, 2) * mdet(mminor(m, 0, 2), 3) - m(0, 3) * mdet(mminor(m, 0, 3), 3) {
    reveal_with_fuel(sum, 5);
    det_row0(m, 4);
    let (a, b, c, d) = (m(0, 0), m(0, 1), m(0, 2), m(0, 3));
    let (w, x, y, z) = (mdet(mminor(m, 0, 0), 3), mdet(mminor(m, 0, 1), 3), mdet(mminor(m, 0, 2), 3), mdet(mminor(m, 0, 3), 3));
    assert(row_exp(m, 4, 0) == 0real + a * (1real * w) + b * ((0real - 1real) * x) + c * (1real * y) + d * ((0real - 1real) * z));
    assert(a * (1real * w) == a * w) by(nonlinear_arith);
    assert(b * ((0real - 1real) * x) == 0real - b * x) by(nonlinear_arith);
    assert(c * (1real * y) == c * y) by(nonlinear_arith);
    assert(d * ((0real - 1real) * z) == 0real - d * z) by(nonlinear_arith);
}
// polynomials, highest coefficient first
pub open spec fn peval(c: Seq<real>, x: real) -> real decreases c.len() { if c.len() == 0 { 0real } else { peval(c.drop_last(), x) * x + c.last() } }
pub open spec fn synth(c: Seq<real>, r: real) -> Seq<real> { Seq::new((c.len() - 1) as nat, |k: int| peval(c.take(k + 1), r)) }
pub proof fn rdist(a: real, b: real, c: real) ensures a * (b + c) == a * b + a * c, (b - c) * a == b * a - c * a { assert(a * (b + c) == a * b + a * c) by(nonlinear_arith); assert((b - c) * a == b * a - c * a) by(nonlinear_arith); }
proof fn synth_step(a: real, b: real, e: real, x: real, r: real)
    requires a - b == (x - r) * e
    ensures a * x - b * r == (x - r) * (e * x + b)
{
    let u = x - r;
    rdist(u, e * x, b); rass(u, e, x); rdist(x, a, b); rdist(b, x, r); rcom(x, b); rcom(r, b);
}
pub proof fn synth_div(c: Seq<real>, x: real, r: real)
    requires c.len() > 0
    ensures peval(c, x) - peval(c, r) == (x - r) * peval(synth(c, r), x), synth(c, r).len() == c.len() - 1, c.len() > 1 ==> synth(c, r)[0] == c[0]
    decreases c.len()
{
    let d = c.drop_last();
    reveal_with_fuel(peval, 2);
    if c.len() == 1 {
        assert(d =~= Seq::empty());
        assert(0real * x == 0real) by(nonlinear_arith); assert(0real * r == 0real) by(nonlinear_arith);
        assert((x - r) * 0real == 0real) by(nonlinear_arith);
    } else {
        synth_div(d, x, r);
        let (q, p) = (synth(c, r), synth(d, r));
        assert(q.drop_last() =~= p) by { assert forall|k: int| 0 <= k < p.len() implies q[k] == p[k] by { assert(c.take(k + 1) =~= d.take(k + 1)); } }
        assert(c.take(c.len() - 1) =~= d);
        assert(q.last() == peval(d, r));
        let (a, b, e) = (peval(d, x), peval(d, r), peval(p, x));
        synth_step(a, b, e, x, r);
        assert(c.take(1).drop_last() =~= Seq::empty());
        assert(peval(Seq::empty(), r) == 0real);
        assert(0real * r == 0real) by(nonlinear_arith);
        assert(peval(c.take(1), r) == c[0]);
    }
}
/// a polynomial with as many distinct roots as coefficients has leading coefficient 0
pub proof fn roots(c: Seq<real>, r: spec_fn(int) -> real)
    requires c.len() > 0, forall|i: int| 0 <= i < c.len() ==> peval(c, #[trigger] r(i)) == 0real, forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] r(i) != #[trigger] r(j)
    ensures c[0] == 0real
    decreases c.len()
{
    let n = c.len() - 1;
    let t = r(n);
    synth_div(c, t, t);
    if n == 0 {
        reveal_with_fuel(peval, 2);
        assert(c.drop_last() =~= Seq::empty()); assert(0real * r(0) == 0real) by(nonlinear_arith); assert(peval(c, r(0)) == c[0]);
    } else {
        let q = synth(c, t);
        assert forall|i: int| 0 <= i < q.len() implies peval(q, #[trigger] r(i)) == 0real by {
            synth_div(c, r(i), t);
            assert(r(i) != r(n));
            let (u, v) = (r(i) - t, peval(q, r(i)));
            assert(v == 0real) by(nonlinear_arith) requires u * v == 0real, u != 0real;
        }
        roots(q, r);
    }
}
pub open spec fn pterm(c: Seq<real>, x: real) -> spec_fn(int) -> real { |j: int| rpow(x, (c.len() - 1 - j) as nat) * c[j] }
pub proof fn peval_sum(c: Seq<real>, x: real)
    ensures peval(c, x) == sum(pterm(c, x), c.len())
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last();
        let n = d.len();
        peval_sum(d, x);
        let (f, g) = (pterm(c, x), pterm(d, x));
        let h = |j: int| x * g(j);
        assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == #[trigger] h(j) by {
            assert(d[j] == c[j]);
            rass(x, rpow(x, (n - 1 - j) as nat), c[j]);
            assert(rpow(x, (n - j) as nat) == x * rpow(x, (n - 1 - j) as nat));
        }
        sum_ext(f, h, n);
        sum_scale(g, x, n);
        rcom(x, peval(d, x));
        let l = c.last(); assert(1real * l == l) by(nonlinear_arith);
        assert(f(n as int) == l);
    }
}
pub open spec fn vand(x: spec_fn(int) -> real, n: nat) -> M { |i: int, j: int| rpow(x(i), (n - 1 - j) as nat) }
/// the Vandermonde matrix of distinct points is regular
pub proof fn vandermonde(x: spec_fn(int) -> real, n: nat)
    requires n > 0, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] x(i) != #[trigger] x(j)
    ensures mdet(vand(x, n), n) != 0real
    decreases n
{
    let v = vand(x, n);
    if n == 1 { det1(v); assert(rpow(x(0), 0) == 1real); }
    else {
        let p = (n - 1) as nat;
        vandermonde(x, p);
        let w = mminor(v, n - 1, 0);
        assert(meq(w, vand(x, p), p));
        det_ext(w, vand(x, p), p);
        if mdet(v, n) == 0real {
            let c = Seq::new(n, |j: int| mcof(v, n, n - 1, j));
            assert forall|i: int| 0 <= i < c.len() implies peval(c, #[trigger] x(i)) == 0real by {
                peval_sum(c, x(i));
                adj_thm(v, n, i, n - 1);
                sum_ext(pterm(c, x(i)), |j: int| v(i, j) * madj(v, n)(j, n - 1), n);
            }
            roots(c, x);
            let (s, d) = (sg(n - 1 + 0), mdet(w, p));
            assert(s * d != 0real) by(nonlinear_arith) requires s == 1real || s == 0real - 1real, d != 0real;
        }
    }
}
/// a (n x n), b: a*b == identity; then a*(b*y) == y
pub proof fn solve(a: M, b: M, y: M, n: nat, i: int, k: int)
    requires 0 <= i < n, forall|u: int, v: int| 0 <= u < n && 0 <= v < n ==> #[trigger] mmul(a, b, n)(u, v) == mid(u, v)
    ensures mmul(a, mmul(b, y, n), n)(i, k) == y(i, k)
{
    let f: spec_fn(int, int) -> real = |s: int, t: int| a(i, s) * (b(s, t) * y(t, k));
    let l = |s: int| a(i, s) * mmul(b, y, n)(s, k);
    assert forall|s: int| 0 <= s < n implies #[trigger] l(s) == #[trigger] inner(f, n)(s) by { sum_scale(|t: int| b(s, t) * y(t, k), a(i, s), n); sum_ext(|t: int| a(i, s) * (|t: int| b(s, t) * y(t, k))(t), |t: int| f(s, t), n); }
    sum_ext(l, inner(f, n), n);
    fubini(f, n, n);
    let r = |t: int| mid(i, t) * y(t, k);
    assert forall|t: int| 0 <= t < n implies #[trigger] inner2(f, n)(t) == #[trigger] r(t) by {
        let g = |s: int| a(i, s) * b(s, t);
        let yt = y(t, k);
        sum_scale(g, yt, n);
        let (u, w) = (|s: int| yt * g(s), |s: int| f(s, t));
        assert forall|s: int| 0 <= s < n implies #[trigger] u(s) == #[trigger] w(s) by { rass(a(i, s), b(s, t), yt); rcom(yt, g(s)); }
        sum_ext(u, w, n);
        assert(sum(g, n) == mmul(a, b, n)(i, t));
        rcom(yt, mid(i, t));
    }
    sum_ext(inner2(f, n), r, n);
    assert forall|t: int| 0 <= t < n && t != i implies #[trigger] r(t) == 0real by { let z = y(t, k); assert(0real * z == 0real) by(nonlinear_arith); }
    pick(r, n, i, y(i, k));
    assert(l == (|s: int| a(i, s) * mmul(b, y, n)(s, k)));
}
pub proof fn pick(r: spec_fn(int) -> real, n: nat, i: int, y: real)
    requires 0 <= i < n, r(i) == 1real * y, forall|t: int| 0 <= t < n && t != i ==> #[trigger] r(t) == 0real
    ensures sum(r, n) == y
    decreases n
{
    assert(1real * y == y) by(nonlinear_arith);
    let p = (n - 1) as nat;
    if i == n - 1 { sum_zero(r, p); } else { pick(r, p, i, y); }
}
pub open spec fn e3(m: M, a: int, b: int, c: int, x: int, y: int, z: int) -> real { d3(m(a, x), m(a, y), m(a, z), m(b, x), m(b, y), m(b, z), m(c, x), m(c, y), m(c, z)) }
pub proof fn det4_code(m: M)
    ensures mdet(m, 4) == e3(m, 1, 2, 3, 1, 2, 3) * m(0, 0) + (0real - e3(m, 1, 2, 3, 0, 2, 3)) * m(0, 1) + e3(m, 1, 2, 3, 0, 1, 3) * m(0, 2) + (0real - e3(m, 1, 2, 3, 0, 1, 2)) * m(0, 3)
{
    det4(m);
    det3(mminor(m, 0, 0)); det3(mminor(m, 0, 1)); det3(mminor(m, 0, 2)); det3(mminor(m, 0, 3));
    let (a, b, c, d) = (m(0, 0), m(0, 1), m(0, 2), m(0, 3));
    let (w, x, y, z) = (mdet(mminor(m, 0, 0), 3), mdet(mminor(m, 0, 1), 3), mdet(mminor(m, 0, 2), 3), mdet(mminor(m, 0, 3), 3));
    rcom(a, w); rcom(c, y);
    assert((0real - x) * b == 0real - b * x) by(nonlinear_arith);
    assert((0real - z) * d == 0real - d * z) by(nonlinear_arith);
}
pub proof fn cof_sign(m: M, n: nat, i: int, j: int) ensures mcof(m, n, i, j) == if (i + j) % 2 == 0 { mdet(mminor(m, i, j), (n - 1) as nat) } else { 0real - mdet(mminor(m, i, j), (n - 1) as nat) }
{ let d = mdet(mminor(m, i, j), (n - 1) as nat); assert(1real * d == d) by(nonlinear_arith); assert((0real - 1real) * d == 0real - d) by(nonlinear_arith); }
pub proof fn cof2(m: M, i: int, j: int) requires 0 <= i < 2, 0 <= j < 2 ensures mcof(m, 2, i, j) == if i == j { m(1 - i, 1 - j) } else { 0real - m(1 - i, 1 - j) }
{ cof_sign(m, 2, i, j); det1(mminor(m, i, j)); }
pub proof fn cof3(m: M, i: int, j: int) requires 0 <= i < 3, 0 <= j < 3 ensures ({ let d = m(sk(0, i), sk(0, j)) * m(sk(1, i), sk(1, j)) - m(sk(0, i), sk(1, j)) * m(sk(1, i), sk(0, j)); mcof(m, 3, i, j) == if (i + j) % 2 == 0 { d } else { 0real - d } })
{ cof_sign(m, 3, i, j); det2(mminor(m, i, j)); }
pub proof fn cof4(m: M, i: int, j: int) requires 0 <= i < 4, 0 <= j < 4 ensures ({ let d = e3(m, sk(0, i), sk(1, i), sk(2, i), sk(0, j), sk(1, j), sk(2, j)); mcof(m, 4, i, j) == if (i + j) % 2 == 0 { d } else { 0real - d } })
{ cof_sign(m, 4, i, j); det3(mminor(m, i, j)); }
pub proof fn inv_thm(m: M, b: M, n: nat)
    requires n > 0, mdet(m, n) != 0real, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] b(i, j) == madj(m, n)(i, j) * (1real / mdet(m, n))
    ensures forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mmul(m, b, n)(i, j) == mid(i, j)
{
    let k = 1real / mdet(m, n);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mmul(m, b, n)(i, j) == mid(i, j) by {
        adj_thm(m, n, i, j);
        let f = |s: int| m(i, s) * madj(m, n)(s, j);
        sum_scale(f, k, n);
        let (g, h) = (|s: int| k * f(s), |s: int| m(i, s) * b(s, j));
        assert forall|s: int| 0 <= s < n implies #[trigger] g(s) == #[trigger] h(s) by { rass(m(i, s), madj(m, n)(s, j), k); rcom(k, f(s)); }
        sum_ext(g, h, n);
        let d = mdet(m, n);
        assert(k * d == 1real) by(nonlinear_arith) requires k == 1real / d, d != 0real;
        assert(k * 0real == 0real) by(nonlinear_arith);
    }
}
pub open spec fn rowat(d: Seq<Vec<Ratio>>, i: int) -> Seq<Ratio> { d[i]@ }
// polynomials
pub struct Polynomial { pub coeffs: Vec<Ratio> }
impl Polynomial {
    pub open spec fn c(&self) -> Seq<real> { rvs(self.coeffs@) }
    /// no leading zero, except for the zero polynomial
    pub open spec fn wf(&self) -> bool { wfrow(self.coeffs@) && self.coeffs@.len() > 0 && (self.coeffs@.len() > 1 ==> self.coeffs@[0].rv() != 0real) }
}
impl Clone for Polynomial {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.c() == self.c(), r.wf() == self.wf() { unimplemented!() }
}
pub open spec fn rvs(s: Seq<Ratio>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].rv()) }
/// the derivative, coefficient by coefficient
pub open spec fn deriv(c: Seq<real>) -> Seq<real> { Seq::new((c.len() - 1) as nat, |i: int| c[i] * ((c.len() - 1 - i) as real)) }
/// leading zeros removed
pub open spec fn strip(c: Seq<real>) -> Seq<real> decreases c.len() { if c.len() == 0 { seq![0real] } else if c[0] == 0real { strip(c.skip(1)) } else { c } }
pub proof fn peval_zero_lead(c: Seq<real>, x: real)
    requires c.len() > 0, c[0] == 0real
    ensures peval(c, x) == peval(c.skip(1), x)
    decreases c.len()
{
    if c.len() == 1 { reveal_with_fuel(peval, 2); assert(c.drop_last() =~= Seq::empty()); assert(c.skip(1) =~= Seq::empty()); assert(0real * x == 0real) by(nonlinear_arith); }
    else { peval_zero_lead(c.drop_last(), x); assert(c.drop_last().skip(1) =~= c.skip(1).drop_last()); }
}
pub proof fn peval_strip(c: Seq<real>, x: real)
    ensures peval(strip(c), x) == peval(c, x)
    decreases c.len()
{
    if c.len() == 0 { reveal_with_fuel(peval, 2); assert(seq![0real].drop_last() =~= Seq::empty()); assert(0real * x == 0real) by(nonlinear_arith); }
    else if c[0] == 0real { peval_zero_lead(c, x); peval_strip(c.skip(1), x); }
}
pub proof fn strip_skip(c: Seq<real>, i: int)
    requires 0 <= i <= c.len(), forall|k: int| 0 <= k < i ==> c[k] == 0real
    ensures strip(c) == strip(c.skip(i))
    decreases i
{
    if i > 0 { assert(c.skip(1).skip(i - 1) =~= c.skip(i)); strip_skip(c.skip(1), i - 1); }
    else { assert(c.skip(0) =~= c); }
}
/// every coefficient multiplied by k
pub open spec fn scale(c: Seq<real>, k: real) -> Seq<real> { Seq::new(c.len(), |i: int| c[i] * k) }
pub proof fn peval_scale(c: Seq<real>, k: real, x: real)
    ensures peval(scale(c, k), x) == peval(c, x) * k
    decreases c.len()
{
    if c.len() == 0 { assert(0real * k == 0real) by(nonlinear_arith); assert(scale(c, k) =~= Seq::empty()); }
    else {
        peval_scale(c.drop_last(), k, x);
        assert(scale(c, k).drop_last() =~= scale(c.drop_last(), k));
        let (p, l) = (peval(c.drop_last(), x), c.last());
        assert((p * k) * x + l * k == (p * x + l) * k) by(nonlinear_arith);
    }
}
pub proof fn strip_facts(c: Seq<real>) ensures strip(c).len() > 0, strip(c).len() > 1 ==> strip(c)[0] != 0real
    decreases c.len()
{ if c.len() > 0 && c[0] == 0real { strip_facts(c.skip(1)); } }
pub proof fn real_prod_nz(a: real, b: real) requires a != 0real, b != 0real ensures a * b != 0real { assert(a * b != 0real) by(nonlinear_arith) requires a != 0real, b != 0real; }
pub proof fn real_prod_nz0(a: real, b: real) ensures a != 0real && b != 0real ==> a * b != 0real { if a != 0real && b != 0real { real_prod_nz(a, b); } }
pub proof fn peval_empty(x: real) ensures peval(rvs(Seq::empty()), x) == 0real, peval(Seq::empty(), x) == 0real, strip(rvs(Seq::empty())) == seq![0real] { assert(rvs(Seq::empty()) =~= Seq::empty()); }
pub proof fn deriv_fix(c: Seq<real>)
    requires c.len() > 0, c.len() > 1 ==> c[0] != 0real
    ensures c.len() == 1 ==> strip(deriv(c)) == seq![0real], c.len() > 1 ==> strip(deriv(c)) == deriv(c) && deriv(c)[0] != 0real, strip(seq![0real]) == seq![0real]
{
    assert(seq![0real].skip(1) =~= Seq::empty());
    assert(strip(seq![0real].skip(1)) == seq![0real]);
    if c.len() == 1 { assert(deriv(c) =~= Seq::empty()); }
    else { let n = (c.len() - 1) as real; assert(n != 0real); real_prod_nz(c[0], n); }
}
/// interpolation: c = b * y with b a right inverse of the Vandermonde matrix of x
pub proof fn interp(x: spec_fn(int) -> real, a: M, b: M, y: M, c: Seq<real>, n: nat, i: int)
    requires 0 <= i < n, meq(a, vand(x, n), n), forall|u: int, v: int| 0 <= u < n && 0 <= v < n ==> #[trigger] mmul(a, b, n)(u, v) == mid(u, v),
        c.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] c[k] == mmul(b, y, n)(k, 0)
    ensures peval(c, x(i)) == y(i, 0)
{
    solve(a, b, y, n, i, 0);
    peval_sum(c, x(i));
    let w = mmul(b, y, n);
    let f = |k: int| a(i, k) * w(k, 0);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == #[trigger] pterm(c, x(i))(k) by { assert(a(i, k) == vand(x, n)(i, k)); assert(c[k] == w(k, 0)); }
    sum_ext(f, pterm(c, x(i)), n);
    assert(mmul(a, w, n)(i, 0) == sum(f, n));
}
pub proof fn strip_len(c: Seq<real>) ensures strip(c).len() <= c.len() || (c.len() == 0 && strip(c).len() == 1) || strip(c).len() == 1
    decreases c.len()
{ if c.len() > 0 && c[0] == 0real { strip_len(c.skip(1)); } }
pub open spec fn px(p: Seq<(Ratio, Ratio)>) -> spec_fn(int) -> real { |i: int| p[i].0.rv() }
pub open spec fn distinct(x: spec_fn(int) -> real, n: nat) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] x(i) != #[trigger] x(j) }
/// the determinant of a matrix of powers vanishes exactly when two points coincide
pub proof fn vand_det(x: spec_fn(int) -> real, a: M, n: nat)
    requires n > 0, meq(a, vand(x, n), n)
    ensures mdet(a, n) != 0real <==> distinct(x, n)
{
    det_ext(a, vand(x, n), n);
    if distinct(x, n) { vandermonde(x, n); }
    else {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < n && #[trigger] x(i) == #[trigger] x(j);
        det_equal_rows(vand(x, n), n, i, j);
    }
}
pub proof fn peval1(a: real, x: real) ensures peval(seq![a], x) == a
{ reveal_with_fuel(peval, 2); assert(seq![a].drop_last() =~= Seq::empty()); assert(0real * x == 0real) by(nonlinear_arith); }
pub proof fn peval2(a: real, b: real, x: real) ensures peval(seq![a, b], x) == a * x + b
{ peval1(a, x); assert(seq![a, b].drop_last() =~= seq![a]); }
pub proof fn peval3(a: real, b: real, c: real, x: real) ensures peval(seq![a, b, c], x) == (a * x + b) * x + c
{ peval2(a, b, x); assert(seq![a, b, c].drop_last() =~= seq![a, b]); }
pub proof fn peval4(a: real, b: real, c: real, d: real, x: real) ensures peval(seq![a, b, c, d], x) == ((a * x + b) * x + c) * x + d
{ peval3(a, b, c, x); assert(seq![a, b, c, d].drop_last() =~= seq![a, b, c]); }
pub proof fn lin_eval(t: real, k: real, a: real, b: real, v1: real, v2: real)
    requires k == v1 - a * t, a == b ==> t == 0real, a != b ==> t == (v2 - v1) / (b - a)
    ensures peval(seq![t, k], a) == v1, a != b ==> peval(seq![t, k], b) == v2, a == b ==> strip(seq![t, k]) == seq![v1]
{
    peval2(t, k, a); peval2(t, k, b);
    rcom(a, t);
    if a != b {
        let (u, w) = (v2 - v1, b - a);
        assert((u / w) * w == u) by(nonlinear_arith) requires w != 0real;
        assert(t * (b - a) == t * b - t * a) by(nonlinear_arith);
    } else {
        assert(a * 0real == 0real) by(nonlinear_arith);
        assert(seq![t, k].skip(1) =~= seq![v1]);
        assert(strip(seq![t, k]) == strip(seq![v1]));
        assert(seq![v1].skip(1) =~= Seq::empty());
        assert(strip(Seq::<real>::empty()) == seq![0real]);
    }
}
pub open spec fn one_of(y: real, c1: bool, y1: real, c2: bool, y2: real, c3: bool, y3: real) -> bool { (c1 && y == y1) || (c2 && y == y2) || (c3 && y == y3) }
pub open spec fn at3(a: real, b: real, c: real) -> spec_fn(int) -> real { |i: int| if i == 0 { a } else if i == 1 { b } else { c } }
pub proof fn quad_mat(x: spec_fn(int) -> real, m: M)
    requires forall|i: int| 0 <= i < 3 ==> #[trigger] m(i, 0) == x(i) * x(i) && m(i, 1) == x(i) && m(i, 2) == 1real
    ensures meq(m, vand(x, 3), 3)
{
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] m(i, j) == #[trigger] vand(x, 3)(i, j) by {
        reveal_with_fuel(rpow, 4);
        let t = x(i);
        assert(t * 1real == t) by(nonlinear_arith);
        assert(m(i, 0) == x(i) * x(i));
    }
}
pub proof fn rvs3(a: real, b: real, c: real) ensures forall|q: Seq<Ratio>| q.len() == 3 && q[0].rv() == a && q[1].rv() == b && q[2].rv() == c ==> #[trigger] rvs(q) == seq![a, b, c]
{ assert forall|q: Seq<Ratio>| q.len() == 3 && q[0].rv() == a && q[1].rv() == b && q[2].rv() == c implies #[trigger] rvs(q) == seq![a, b, c] by { assert(rvs(q) =~= seq![a, b, c]); } }
pub proof fn rvs4(a: real, b: real, c: real, d: real) ensures forall|q: Seq<Ratio>| q.len() == 4 && q[0].rv() == a && q[1].rv() == b && q[2].rv() == c && q[3].rv() == d ==> #[trigger] rvs(q) == seq![a, b, c, d]
{ assert forall|q: Seq<Ratio>| q.len() == 4 && q[0].rv() == a && q[1].rv() == b && q[2].rv() == c && q[3].rv() == d implies #[trigger] rvs(q) == seq![a, b, c, d] by { assert(rvs(q) =~= seq![a, b, c, d]); } }
pub proof fn deriv_strip(c: Seq<real>, x: real)
    requires c.len() > 0
    ensures peval(deriv(strip(c)), x) == peval(deriv(c), x)
    decreases c.len()
{
    if c[0] == 0real {
        let n = (c.len() - 1) as real;
        assert(0real * n == 0real) by(nonlinear_arith);
        if c.len() == 1 {
            assert(c.skip(1) =~= Seq::empty());
            assert(strip(Seq::<real>::empty()) == seq![0real]);
            assert(strip(c) == seq![0real]);
            assert(deriv(seq![0real]) =~= Seq::empty()); assert(deriv(c) =~= Seq::empty());
        } else {
            deriv_strip(c.skip(1), x);
            assert(deriv(c).skip(1) =~= deriv(c.skip(1)));
            peval_zero_lead(deriv(c), x);
        }
    }
}
/// the coefficient matrix of the cubic through two points with given slopes
pub open spec fn herm(a: real, b: real, m: M) -> bool {
    m(0, 0) == (a * a) * a && m(0, 1) == a * a && m(0, 2) == a && m(0, 3) == 1real
    && m(1, 0) == (b * b) * b && m(1, 1) == b * b && m(1, 2) == b && m(1, 3) == 1real
    && m(2, 0) == (a * a) * 3real && m(2, 1) == a * 2real && m(2, 2) == 1real && m(2, 3) == 0real
    && m(3, 0) == (b * b) * 3real && m(3, 1) == b * 2real && m(3, 2) == 1real && m(3, 3) == 0real
}
proof fn mo1(q: real, a: real, b: real) ensures (q * b) * (a * 2real) == 2real * (q * (a * b)), b * (q * a) == q * (a * b), a * (q * b) == q * (a * b), (q * b) * a == q * (a * b), a * (b * q) == q * (a * b) {
    assert((q * b) * (a * 2real) == 2real * (q * (a * b))) by(nonlinear_arith);
    assert(b * (q * a) == q * (a * b)) by(nonlinear_arith);
    assert(a * (q * b) == q * (a * b)) by(nonlinear_arith);
    assert(a * (b * q) == q * (a * b)) by(nonlinear_arith);
    assert((q * b) * a == q * (a * b)) by(nonlinear_arith);
}
proof fn mo2(q: real, b: real, a: real) ensures b * ((q * 3real) * (a * 2real)) == 6real * (q * (a * b)) {
    assert(b * ((q * 3real) * (a * 2real)) == 6real * (q * (a * b))) by(nonlinear_arith);
}
proof fn mo3(q: real, p: real) ensures q * (p * 3real) == 3real * (p * q), q * (1real * p) == p * q {
    assert(q * (p * 3real) == 3real * (p * q)) by(nonlinear_arith);
    assert(q * (1real * p) == p * q) by(nonlinear_arith);
}
proof fn sq(a: real, b: real) ensures (a - b) * (a - b) == a * a - 2real * (a * b) + b * b, (a - b) * (a + b) == a * a - b * b, (a - b) * (3real * a - b) == 3real * (a * a) - 4real * (a * b) + b * b {
    assert((a - b) * (a - b) == a * a - 2real * (a * b) + b * b) by(nonlinear_arith);
    assert((a - b) * (a + b) == a * a - b * b) by(nonlinear_arith);
    assert((a - b) * (3real * a - b) == 3real * (a * a) - 4real * (a * b) + b * b) by(nonlinear_arith);
}
proof fn cube(a: real, b: real, p: real, q: real, r: real) ensures (a - b) * (p - 2real * r + q) == a * p - 2real * (a * r) + a * q - b * p + 2real * (b * r) - b * q {
    assert((a - b) * (p - 2real * r + q) == a * p - 2real * (a * r) + a * q - b * p + 2real * (b * r) - b * q) by(nonlinear_arith);
}
proof fn d3z(a: real, b: real, d: real, e: real, g: real, h: real) ensures d3(a, b, 1real, d, e, 0real, g, h, 0real) == d * h - e * g
{
    reveal(d3);
    assert(a * (e * 0real) == 0real) by(nonlinear_arith);
    assert(b * (0real * g) == 0real) by(nonlinear_arith);
    assert(1real * (d * h) == d * h) by(nonlinear_arith);
    assert(1real * (e * g) == e * g) by(nonlinear_arith);
    assert(b * (d * 0real) == 0real) by(nonlinear_arith);
    assert(a * (0real * h) == 0real) by(nonlinear_arith);
}
pub proof fn herm_det(a: real, b: real, m: M)
    requires herm(a, b, m)
    ensures mdet(m, 4) == 0real - (a - b) * ((a - b) * ((a - b) * (a - b)))
{
    let (p, q, r, d) = (a * a, b * b, a * b, a - b);
    det4_code(m);
    d3z(q, b, a * 2real, 1real, b * 2real, 1real);
    let e1 = e3(m, 1, 2, 3, 1, 2, 3);
    assert(e1 == (a * 2real) * 1real - 1real * (b * 2real));
    assert(e1 == 2real * a - 2real * b);
    d3z(q * b, b, p * 3real, 1real, q * 3real, 1real);
    let e2 = e3(m, 1, 2, 3, 0, 2, 3);
    assert(e2 == 3real * p - 3real * q);
    d3z(q * b, q, p * 3real, a * 2real, q * 3real, b * 2real);
    let e3_ = e3(m, 1, 2, 3, 0, 1, 3);
    assert(e3_ == (p * 3real) * (b * 2real) - (a * 2real) * (q * 3real));
    let e4 = e3(m, 1, 2, 3, 0, 1, 2);
    assert(e4 == d3(q * b, q, b, p * 3real, a * 2real, 1real, q * 3real, b * 2real, 1real));
    // e4 == q * (q + 3p - 4r)
    assert(e4 == q * q + 3real * (p * q) - 4real * (q * r)) by {
        reveal(d3);
        mo1(q, a, b); mo1(q, b, b); mo2(p, b, b); mo2(q, b, a); mo3(q, p); mo3(q, q);
        let t = a * 2real; assert(t * 1real == t && 1real * (q * 3real) == q * 3real && (p * 3real) * 1real == p * 3real && 1real * (b * 2real) == b * 2real);
        assert(b * (t * (q * 3real)) == 6real * (q * (a * b))) by { rcom(t, q * 3real); mo2(q, b, a); }
        rcom(p, q);
    }
    // e1*m00 - e2*m01 + e3*m02 - e4*m03
    let (ap, bp, aq, bq) = (a * p, b * p, a * q, b * q);
    sq(a, b); cube(a, b, p, q, r);
    assert(a * r == bp) by { rass(a, a, b); rcom(p, b); }
    assert(b * r == aq) by { rass(b, a, b); rcom(b, a); rass(a, b, b); }
    assert(d * (d * d) == ap - 3real * bp + 3real * aq - bq);
    let k = ap - 3real * bp + 3real * aq - bq;
    // d * k
    let (x1, x2, x3, x4, y1, y2, y3, y4) = (a * ap, a * bp, a * aq, a * bq, b * ap, b * bp, b * aq, b * bq);
    assert(d * k == (x1 - 3real * x2 + 3real * x3 - x4) - (y1 - 3real * y2 + 3real * y3 - y4)) by { dk(a, b, ap, bp, aq, bq); }
    assert(x1 == p * p && x2 == p * r && x3 == p * q && x4 == q * r && y1 == p * r && y2 == p * q && y3 == q * r && y4 == q * q) by {
        rass(a, a, p); rass(a, b, p); rass(a, a, q); rass(a, b, q); rass(b, a, p); rass(b, b, p); rass(b, a, q); rass(b, b, q); rcom(b, a); rcom(r, p); rcom(r, q); rcom(q, p);
    }
    assert(d * k == p * p - 4real * (p * r) + 6real * (p * q) - 4real * (q * r) + q * q);
    // the expansion
    assert(e1 * (p * a) == 2real * (p * p) - 2real * (p * r)) by { let z = p * a; rcom(p, a); assert((2real * a - 2real * b) * z == 2real * (a * z) - 2real * (b * z)) by(nonlinear_arith); rass(a, a, p); rass(b, a, p); rcom(b, a); rcom(r, p); }
    assert((0real - e2) * p == 3real * (p * q) - 3real * (p * p)) by { assert((0real - (3real * p - 3real * q)) * p == 3real * (p * q) - 3real * (p * p)) by(nonlinear_arith); }
    assert(e3_ * a == 6real * (p * r) - 6real * (p * q)) by {
        let (u, v) = ((p * 3real) * (b * 2real), (a * 2real) * (q * 3real));
        rdist(a, u, v); rcom(a, u); rcom(a, v);
        mo2(p, a, b); rcom(b, a); rcom(a, u);
        mo2(q, a, a); rcom(a * 2real, q * 3real); rcom(q, p);
        assert((u - v) * a == u * a - v * a) by(nonlinear_arith);
    }
    assert((0real - e4) * 1real == 0real - e4);
}
proof fn dk(a: real, b: real, ap: real, bp: real, aq: real, bq: real)
    ensures (a - b) * (ap - 3real * bp + 3real * aq - bq) == (a * ap - 3real * (a * bp) + 3real * (a * aq) - a * bq) - (b * ap - 3real * (b * bp) + 3real * (b * aq) - b * bq)
{ assert((a - b) * (ap - 3real * bp + 3real * aq - bq) == (a * ap - 3real * (a * bp) + 3real * (a * aq) - a * bq) - (b * ap - 3real * (b * bp) + 3real * (b * aq) - b * bq)) by(nonlinear_arith); }
pub proof fn herm_solve(a: real, b: real, m: M, w: M, y: M, cs: Seq<real>)
    requires herm(a, b, m), forall|u: int, v: int| 0 <= u < 4 && 0 <= v < 4 ==> #[trigger] mmul(m, w, 4)(u, v) == mid(u, v), cs.len() == 4, forall|k: int| 0 <= k < 4 ==> #[trigger] cs[k] == mmul(w, y, 4)(k, 0)
    ensures peval(cs, a) == y(0, 0), peval(cs, b) == y(1, 0), peval(deriv(cs), a) == y(2, 0), peval(deriv(cs), b) == y(3, 0)
{
    let z = mmul(w, y, 4);
    let (c0, c1, c2, c3) = (cs[0], cs[1], cs[2], cs[3]);
    solve(m, w, y, 4, 0, 0); solve(m, w, y, 4, 1, 0); solve(m, w, y, 4, 2, 0); solve(m, w, y, 4, 3, 0);
    reveal_with_fuel(sum, 5);
    assert(cs =~= seq![c0, c1, c2, c3]);
    peval4(c0, c1, c2, c3, a); peval4(c0, c1, c2, c3, b);
    assert(deriv(cs) =~= seq![c0 * 3real, c1 * 2real, c2 * 1real]);
    peval3(c0 * 3real, c1 * 2real, c2 * 1real, a); peval3(c0 * 3real, c1 * 2real, c2 * 1real, b);
    herm_row(a, c0, c1, c2, c3); herm_row(b, c0, c1, c2, c3);
    assert(mmul(m, z, 4)(0, 0) == sum(|k: int| m(0, k) * z(k, 0), 4));
    assert(mmul(m, z, 4)(1, 0) == sum(|k: int| m(1, k) * z(k, 0), 4));
    assert(mmul(m, z, 4)(2, 0) == sum(|k: int| m(2, k) * z(k, 0), 4));
    assert(mmul(m, z, 4)(3, 0) == sum(|k: int| m(3, k) * z(k, 0), 4));
}
proof fn herm_row(a: real, c0: real, c1: real, c2: real, c3: real)
    ensures ((c0 * a + c1) * a + c2) * a + c3 == 0real + ((a * a) * a) * c0 + (a * a) * c1 + a * c2 + 1real * c3,
        ((c0 * 3real) * a + c1 * 2real) * a + c2 * 1real == 0real + ((a * a) * 3real) * c0 + (a * 2real) * c1 + 1real * c2 + 0real * c3
{
    let p = a * a;
    // (c0 a + c1) a = p c0 + a c1
    hsum2(c0 * a, c1, a); hswap(c0, a, a); hcom(p, c0); hcom(c1, a);
    hsum3(p * c0, a * c1, c2, a); hswap2(p, c0, a); hswap2(a, c1, a); hcom(c2, a);
    // ((3 c0) a + 2 c1) a
    hsum2((c0 * 3real) * a, c1 * 2real, a); hswap(c0 * 3real, a, a); hcom(c0, 3real); hcom(c0 * 3real, p); hswap2(p, 3real, c0); hass(p, 3real, c0); hswap(c1, 2real, a); hcom(c1, 2real * a); hcom(2real, a);
}
proof fn hcom(x: real, y: real) ensures x * y == y * x { assert(x * y == y * x) by(nonlinear_arith); }
proof fn hass(x: real, y: real, z: real) ensures (x * y) * z == x * (y * z) { assert((x * y) * z == x * (y * z)) by(nonlinear_arith); }
proof fn hswap(x: real, y: real, z: real) ensures (x * y) * z == x * (y * z) { hass(x, y, z); }
proof fn hswap2(x: real, y: real, z: real) ensures (x * y) * z == (x * z) * y { hass(x, y, z); hass(x, z, y); hcom(y, z); }
proof fn hsum2(x: real, y: real, a: real) ensures (x + y) * a == x * a + y * a { assert((x + y) * a == x * a + y * a) by(nonlinear_arith); }
proof fn hsum3(x: real, y: real, z: real, a: real) ensures (x + y + z) * a == x * a + y * a + z * a { assert((x + y + z) * a == x * a + y * a + z * a) by(nonlinear_arith); }
pub proof fn rvs2(a: real, b: real) ensures forall|q: Seq<Ratio>| q.len() == 2 && q[0].rv() == a && q[1].rv() == b ==> #[trigger] rvs(q) == seq![a, b]
{ assert forall|q: Seq<Ratio>| q.len() == 2 && q[0].rv() == a && q[1].rv() == b implies #[trigger] rvs(q) == seq![a, b] by { assert(rvs(q) =~= seq![a, b]); } }
