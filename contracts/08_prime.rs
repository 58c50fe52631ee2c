// factorial, fibonacci, primes
pub open spec fn fact(n: nat) -> nat decreases n { if n == 0 { 1 } else { n * fact((n - 1) as nat) } }
pub open spec fn fib2(n: nat) -> (nat, nat) decreases n { if n == 0 { (0, 1) } else { let p = fib2((n - 1) as nat); (p.1, p.0 + p.1) } }
pub open spec fn fib(n: nat) -> nat { fib2(n).0 }
pub proof fn fact_mono(a: nat, b: nat) requires a <= b ensures fact(a) <= fact(b), fact(a) >= 1 decreases b + a
{
    if a < b { fact_mono(a, (b - 1) as nat); let f = fact((b - 1) as nat); assert(b * f >= f) by(nonlinear_arith) requires b >= 1, f >= 1; }
    else if a > 0 { fact_mono((a - 1) as nat, (a - 1) as nat); let f = fact((a - 1) as nat); assert(a * f >= 1) by(nonlinear_arith) requires a >= 1, f >= 1; }
}
pub proof fn fact_step(n: nat) requires n >= 1 ensures fact(n) == n * fact((n - 1) as nat), fact(n) == fact((n - 1) as nat) * n
{ let f = fact((n - 1) as nat); assert(n * f == f * n) by(nonlinear_arith); }
pub proof fn fact_20() ensures fact(20) == 2432902008176640000, fact(1) == 1, fact(0) == 1 { assert(fact(20) == 2432902008176640000) by(compute); assert(fact(1) == 1) by(compute); }
pub proof fn fib_step(n: nat) ensures fib(n + 2) == fib(n + 1) + fib(n), fib2(n) == (fib(n), fib(n + 1))
{ assert((n + 2 - 1) as nat == n + 1); assert((n + 1 - 1) as nat == n); assert(fib2(n + 1) == (fib2(n).1, fib2(n).0 + fib2(n).1)); assert(fib2(n + 2) == (fib2(n + 1).1, fib2(n + 1).0 + fib2(n + 1).1)); }
pub proof fn fib_mono(a: nat, b: nat) requires a <= b ensures fib(a) <= fib(b) decreases b
{
    if a < b {
        fib_mono(a, (b - 1) as nat);
        if b >= 2 { fib_step((b - 2) as nat); } else { assert(fib(0) == 0 && fib(1) >= 0); }
    }
}
pub proof fn fib_tab() ensures fib(0) == 0, fib(1) == 1, fib(2) == 1, fib(3) == 2, fib(4) == 3, fib(5) == 5, fib(6) == 8, fib(7) == 13, fib(8) == 21, fib(9) == 34, fib(10) == 55, fib(11) == 89, fib(12) == 144, fib(13) == 233,
    fib(186) == 332825110087067562321196029789634457848, fib(185) == 205697230343233228174223751303346572685,
{
    reveal_with_fuel(fib2, 15);
    assert(fib(186) == 332825110087067562321196029789634457848) by(compute);
    assert(fib(185) == 205697230343233228174223751303346572685) by(compute);
}
// no divisor of n in 2..k
pub open spec fn nofac(n: int, k: int) -> bool { forall|d: int| 2 <= d < k ==> #[trigger] (n % d) != 0 }
pub open spec fn prime(n: int) -> bool { n >= 2 && nofac(n, n) }
pub proof fn mod_mul(n: int, d: int, e: int) requires d > 0, e > 0, n % d == 0, d % e == 0 ensures n % e == 0
{
    fdm(n, d); fdm(d, e);
    let (a, b) = (n / d, d / e);
    assert(n == (a * b) * e) by(nonlinear_arith) requires n == a * d, d == b * e;
    lemma_mod_multiples_basic(a * b, e);
}
pub proof fn prime_by_sqrt(n: int, k: int)
    requires n >= 2, k >= 1, nofac(n, k), n < k * k
    ensures prime(n)
{
    assert forall|d: int| 2 <= d < n implies #[trigger] (n % d) != 0 by {
        if n % d == 0 && d >= k {
            fdm(n, d);
            let c = n / d;
            assert(c >= 2) by(nonlinear_arith) requires n == c * d, 2 <= d < n, n >= 2;
            assert(c < k) by { if c >= k { assert(c * d >= k * k) by(nonlinear_arith) requires c >= k, d >= k, k >= 1; } }
            assert(c * d == d * c) by(nonlinear_arith);
            lemma_mod_multiples_basic(d, c);
            assert(n % c == 0);
        }
    }
}
// n odd and no odd divisor below k: the next even candidate needs no test
pub proof fn nofac_next(n: int, k: int)
    requires nofac(n, k), n % k != 0, k >= 3, k % 2 == 1, n % 2 != 0
    ensures nofac(n, k + 2)
{
    assert forall|d: int| 2 <= d < k + 2 implies #[trigger] (n % d) != 0 by {
        if d == k + 1 && n % d == 0 { assert(d % 2 == 0); mod_mul(n, d, 2); }
    }
}
pub proof fn composite_not_prime(n: int, d: int) requires n % d == 0, 2 <= d < n ensures !prime(n) { }
// a divisor without smaller divisors of n is prime
pub proof fn least_is_prime(n: int, d: int) requires nofac(n, d), n % d == 0, d >= 2, n > 0 ensures prime(d)
{ assert forall|e: int| 2 <= e < d implies #[trigger] (d % e) != 0 by { if d % e == 0 { mod_mul(n, d, e); } } }
pub proof fn nofac_div(n: int, k: int, d: int) requires nofac(n, k), d > 0, n % d == 0 ensures nofac(n / d, k)
{
    assert forall|e: int| 2 <= e < k implies #[trigger] ((n / d) % e) != 0 by {
        if (n / d) % e == 0 {
            fdm(n, d); fdm(n / d, e); let (a, b) = (n / d, (n / d) / e);
            assert(n == (b * d) * e) by(nonlinear_arith) requires n == a * d, a == b * e;
            lemma_mod_multiples_basic(b * d, e);
            assert(n % e == 0);
        }
    }
}
pub open spec fn prod(s: Seq<UBigInt>) -> nat decreases s.len() { if s.len() == 0 { 1 } else { prod(s.drop_last()) * s.last().v() } }
pub proof fn prod_push(s: Seq<UBigInt>, x: UBigInt) ensures prod(s.push(x)) == prod(s) * x.v() { assert(s.push(x).drop_last() =~= s); }
pub open spec fn factors(s: Seq<UBigInt>, hi: int) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() && prime(s[i].v() as int) && s[i].v() <= hi)
    && (forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).v() <= (#[trigger] s[j]).v())
}
pub proof fn take_factor(s: Seq<UBigInt>, x: UBigInt, c: int, d: int, n: int)
    requires factors(s, d), x.wf(), x.v() == d, prime(d), prod(s) * c == n, c % d == 0, c > 0
    ensures factors(s.push(x), d), prod(s.push(x)) * (c / d) == n, 0 < c / d < c
{
    prod_push(s, x); fdm(c, d); let (p, e) = (prod(s) as int, c / d);
    assert((p * d) * e == p * c) by(nonlinear_arith) requires c == e * d;
    assert(0 < e < c) by(nonlinear_arith) requires c == e * d, c > 0, d >= 2;
}
pub proof fn nofac_le(n: int, k: int) requires nofac(n, k), n >= 2 ensures n >= k { if n < k { assert(n % n == 0) by(nonlinear_arith) requires n >= 2; } }
pub proof fn nofac_weak(n: int, k: int, l: int) requires nofac(n, k), l <= k ensures nofac(n, l) { }
pub proof fn len_mono(s: Seq<u32>, t: Seq<u32>) requires canon(s), canon(t), val(s) <= val(t) ensures s.len() <= t.len()
{ canon_bounds(s); canon_bounds(t); if s.len() > t.len() { pw_mono(t.len(), (s.len() - 1) as nat); } }
pub proof fn low_parity(s: Seq<u32>) requires canon(s) ensures (s[0] % 2) as int == (val(s) as int) % 2, s.len() == 1 ==> val(s) == s[0], s.len() > 1 ==> val(s) >= B, (s[0] as int) % 2 == (val(s) as int) % 2
{ axiom_p2_1(); rem_p2(s, 2); canon_bounds(s); vp_small(s); pw_1(); if s.len() > 1 { pw_mono(1, (s.len() - 1) as nat); } else { vp_1(s); } }
pub proof fn axiom_p2_1() ensures ispow2(2) { p2_small(); assert(2 == p2(1)); }
pub proof fn tab_fact20() ensures val(seq![2192834560u32, 566454140u32]) == fact(20), canon(seq![2192834560u32, 566454140u32])
{ fact_20(); assert(val(seq![2192834560u32, 566454140u32]) == 2432902008176640000) by(compute); }
pub open spec fn tab128() -> Seq<u32> { seq![0u32, 0u32, 0u32, 2147483648u32, 1653232837u32, 595720861u32, 948844160u32, 1991672462u32, 2500910141u32, 2421394908u32, 1199558731u32, 684006397u32, 4097118094u32, 3861115933u32, 3624737256u32, 703871983u32, 1875727135u32, 2498653150u32, 380736459u32, 2256750694u32, 3845178240u32, 3753984225u32, 4581u32] }
pub proof fn tab_fact128() ensures val(tab128()) == fact(128), canon(tab128())
{ assert(val(tab128()) == fact(128)) by(compute); }
pub proof fn tab_fib()
    ensures val(seq![858943736u32, 3366396219u32, 4196493967u32, 4200843481u32]) == fib(186), val(seq![3883453837u32, 806826839u32, 1203823756u32, 2596264053u32]) == fib(185)
{
    assert(val(seq![858943736u32, 3366396219u32, 4196493967u32, 4200843481u32]) == fib(186)) by(compute);
    assert(val(seq![3883453837u32, 806826839u32, 1203823756u32, 2596264053u32]) == fib(185)) by(compute);
}
pub proof fn odd_div(c: int, d: int) requires c % d == 0, c > 0, d > 0, c % 2 != 0 ensures (c / d) % 2 != 0
{ fdm(c, d); let e = c / d; if e % 2 == 0 { let h = e / 2; assert(c == 2 * (h * d)) by(nonlinear_arith) requires c == e * d, e == 2 * h; } }
pub proof fn last_factor(s: Seq<UBigInt>, x: UBigInt, lo: int, n: int)
    requires factors(s, lo), x.wf(), prime(x.v() as int), x.v() >= lo, lo >= 2, prod(s) * x.v() == n
    ensures prod(s.push(x)) == n, factors(s.push(x), n)
{
    prod_push(s, x);
    let (p, c) = (prod(s) as int, x.v() as int);
    prod_pos(s, lo);
    assert(p * c >= c) by(nonlinear_arith) requires p >= 1, c >= 0;
}
pub proof fn prod_pos(s: Seq<UBigInt>, lo: int) requires factors(s, lo) ensures prod(s) >= 1, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() <= prod(s) decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(factors(t, lo)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() && prime(t[i].v() as int) && t[i].v() <= lo by { assert(t[i] == s[i]); }
            assert forall|i: int, j: int| 0 <= i <= j < t.len() implies (#[trigger] t[i]).v() <= (#[trigger] t[j]).v() by { assert(t[i] == s[i] && t[j] == s[j]); } }
        prod_pos(t, lo);
        let (p, c) = (prod(t) as int, s.last().v() as int);
        assert(prime(s[s.len() - 1].v() as int));
        assert(p * c >= c && p * c >= p) by(nonlinear_arith) requires p >= 1, c >= 2;
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).v() <= prod(s) by { if i < t.len() { assert(s[i] == t[i]); } }
    }
}
pub proof fn last_factor1(s: Seq<UBigInt>, lo: int, n: int)
    requires factors(s, lo), prod(s) == n
    ensures factors(s, n)
{ prod_pos(s, lo); }
