// truncated division (Rust semantics) and absolute value
pub open spec fn iabs(a: int) -> nat { if a < 0 { (-a) as nat } else { a as nat } }
pub open spec fn tdiv(a: int, b: int) -> int { let q = (iabs(a) / iabs(b)) as int; if (a < 0) != (b < 0) { -q } else { q } }
pub open spec fn trem(a: int, b: int) -> int { let q = (iabs(a) % iabs(b)) as int; if a < 0 { -q } else { q } }
pub proof fn mul_sign(a: int, b: int)
    ensures (-a) * b == -(a * b), a * (-b) == -(a * b), (-a) * (-b) == a * b, a * b == 0 <==> (a == 0 || b == 0), (iabs(a) * iabs(b)) as int == if (a < 0) == (b < 0) { a * b } else { -(a * b) },
        a > 0 && b > 0 ==> a * b > 0, a < 0 && b > 0 ==> a * b < 0, a > 0 && b < 0 ==> a * b < 0, a < 0 && b < 0 ==> a * b > 0,
{
    assert((-a) * b == -(a * b)) by(nonlinear_arith);
    assert(a * (-b) == -(a * b)) by(nonlinear_arith);
    assert((-a) * (-b) == a * b) by(nonlinear_arith);
    assert(a * b == 0 <==> (a == 0 || b == 0)) by(nonlinear_arith);
    assert(a > 0 && b > 0 ==> a * b > 0) by(nonlinear_arith);
    assert(a < 0 && b > 0 ==> a * b < 0) by(nonlinear_arith);
    assert(a > 0 && b < 0 ==> a * b < 0) by(nonlinear_arith);
    assert(a < 0 && b < 0 ==> a * b > 0) by(nonlinear_arith);
}
pub proof fn trem_def(a: int, b: int)
    requires b != 0
    ensures trem(a, b) == a - tdiv(a, b) * b, iabs(trem(a, b)) < iabs(b), iabs(a) % iabs(b) < iabs(b)
{
    let (x, y) = (iabs(a) as int, iabs(b) as int);
    fdm(x, y);
    let q = x / y;
    mul_sign(q, y);
}
pub open spec fn ipow(a: int, n: nat) -> int decreases n { if n == 0 { 1 } else { a * ipow(a, (n - 1) as nat) } }
pub proof fn ipow_add(a: int, m: nat, n: nat)
    ensures ipow(a, m + n) == ipow(a, m) * ipow(a, n)
    decreases m
{
    if m == 0 { assert(ipow(a, 0) == 1); assert(1 * ipow(a, n) == ipow(a, n)); }
    else {
        ipow_add(a, (m - 1) as nat, n);
        assert((m + n - 1) as nat == (m - 1) as nat + n);
        assert(a * (ipow(a, (m - 1) as nat) * ipow(a, n)) == a * ipow(a, (m - 1) as nat) * ipow(a, n)) by(nonlinear_arith);
    }
}
pub proof fn ipow_neg(a: int, n: nat)
    ensures ipow(-a, n) == if n % 2 == 1 { -ipow(a, n) } else { ipow(a, n) }
    decreases n
{
    if n > 0 { ipow_neg(a, (n - 1) as nat); mul_sign(a, ipow(a, (n - 1) as nat)); }
}
pub proof fn ipow_pos(a: int, n: nat)
    requires a >= 0
    ensures ipow(a, n) >= 0, a > 0 ==> ipow(a, n) > 0
    decreases n
{ if n > 0 { ipow_pos(a, (n - 1) as nat); let p = ipow(a, (n - 1) as nat); assert(a * p >= 0) by(nonlinear_arith) requires a >= 0, p >= 0; assert(a > 0 && p > 0 ==> a * p > 0) by(nonlinear_arith); } }
pub proof fn ipow_1(a: int) ensures ipow(a, 0) == 1, ipow(a, 1) == a, ipow(a, 2) == a * a
{ assert(ipow(a, 0) == 1); assert(ipow(a, 1) == a * ipow(a, 0)); assert(ipow(a, 2) == a * ipow(a, 1)); }
pub proof fn bi_unique(a: BigInt, b: BigInt)
    requires a.wf(), b.wf(), a.v() == b.v()
    ensures a.val.0@ == b.val.0@, a._is_neg == b._is_neg
{ canon_unique(a.val.0@, b.val.0@); }
