// decimal literals of rationals
#[verifier::external_body]
pub fn vx_find_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| call_requires(f, (c,)),
    ensures match r {
        Some(i) => exists|k: int| 0 <= k < s@.len() && call_ensures(f, (s@[k],), true) && i == blen(#[trigger] s@.take(k)) && (forall|j: int| 0 <= j < k ==> call_ensures(f, (#[trigger] s@[j],), false)),
        None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false) }
{ s.find(f) }
/// first position of a character, without regard to case
pub open spec fn find1(s: Seq<char>, c: char, i: int) -> Option<int> decreases s.len() - i { if i < 0 || i >= s.len() { None } else if lower(s[i]) == c { Some(i) } else { find1(s, c, i + 1) } }
pub proof fn find1_is(s: Seq<char>, c: char, i: int, k: int) requires 0 <= i <= k <= s.len(), forall|j: int| i <= j < k ==> lower(#[trigger] s[j]) != c, k < s.len() ==> lower(s[k]) == c
    ensures find1(s, c, i) == if k < s.len() { Some(k) } else { None } decreases k - i
{ if i < k { find1_is(s, c, i + 1, k); } }
/// first significant character, unless it is a decimal digit
pub open spec fn ndc(s: Seq<char>, i: int) -> Option<char> decreases s.len() - i {
    if i < 0 || i >= s.len() { None } else { let x = lower(s[i]); if x == '-' || x == '0' || x == '.' || x == '_' { ndc(s, i + 1) } else if isd(x, 10) { None } else { Some(s[i]) } }
}
pub open spec fn fracval(t: Seq<char>) -> Option<real> { let u = clean(t); if alld(u, 10) { Some(q(dnum(u, 10) as int, ipow(10, u.len()))) } else { None } }
#[verifier::opaque]
pub open spec fn scale10(x: real, e: int) -> real { if e >= 0 { x * (ipow(10, e as nat) as real) } else { x / (ipow(10, (-e) as nat) as real) } }
pub open spec fn parse_exp(t: Seq<char>) -> Option<int> { match parse_i(t) { Some(x) => if -0x8000_0000 <= x <= 0x7fff_ffff { Some(x) } else { None }, None => None } }
pub open spec fn parse_f(s: Seq<char>, d: Option<int>, e: Option<int>) -> Option<real> {
    match d { None => Some(0real), Some(i) => { let end = match e { Some(j) => j, None => s.len() as int }; if i + 1 <= end { fracval(s.subrange(i + 1, end)) } else { None } } }
}
pub open spec fn parse_e(s: Seq<char>, e: Option<int>) -> Option<int> { match e { None => Some(0int), Some(i) => parse_exp(s.skip(i + 1)) } }
pub open spec fn parse_n(s: Seq<char>, d: Option<int>, e: Option<int>) -> Option<int> { parse_i(s.take(match d { Some(i) => i, None => e->Some_0 })) }
pub open spec fn expo(s: Seq<char>) -> Option<int> { if ndc(s, 0) is Some && lower(ndc(s, 0)->Some_0) == 'x' { None } else { find1(s, 'e', 0) } }
/// the number a literal denotes: an integer literal of any base, or a decimal integer with fraction and exponent
#[verifier::opaque]
pub open spec fn parse_q(s: Seq<char>) -> Option<real> {
    let d = find1(s, '.', 0); let e = expo(s);
    if d is None && e is None { match parse_i(s) { Some(n) => Some(n as real), None => None } }
    else if ndc(s, 0) is Some && lower(ndc(s, 0)->Some_0) != 'e' { None }
    else { match (parse_n(s, d, e), parse_f(s, d, e), parse_e(s, e)) {
        (Some(n), Some(f), Some(x)) => Some(scale10((n as real) + (if s[0] == '-' { 0real - f } else { f }), x)),
        _ => None,
    } }
}
pub proof fn one_byte(s: Seq<char>, k: int) requires 0 <= k < s.len(), (s[k] as u32) < 0x80 ensures blen(s.take(k + 1)) == blen(s.take(k)) + 1, blen(s.take(k)) < blen(s)
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); blen_take(s, k + 1, s.len() as int); assert(s.take(s.len() as int) =~= s); }
pub proof fn boundary(s: Seq<char>) ensures blen(s) == blen(s.take(s.len() as int)), bpos(s, 0) == Some(0int), bpos(s, blen(s) as int) == Some(s.len() as int)
{ assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::empty()); bpos_is(s, 0); bpos_is(s, s.len() as int); }
pub proof fn blen_le(s: Seq<char>, j: int, k: int) requires 0 <= j <= s.len(), 0 <= k <= s.len() ensures j <= k <==> blen(s.take(j)) <= blen(s.take(k)) { if j <= k { blen_take(s, j, k); } else { blen_take(s, k, j); } }
/// one more digit of the fraction
pub proof fn frac_step(t: Seq<char>, i: int) requires 0 <= i < t.len()
    ensures ({ let u = clean(t.take(i)); let w = clean(t.take(i + 1)); let c = t[i];
        if c == '_' { w == u } else { w.len() == u.len() + 1 && dnum(w, 10) == dnum(u, 10) * 10 + digv(c)->Some_0 && ipow(10, w.len()) == ipow(10, u.len()) * 10 && (alld(w, 10) <==> alld(u, 10) && isd(c, 10)) } })
{ clean_push(t, i); alld_push(clean(t.take(i)), t[i], 10); comm(10, ipow(10, clean(t.take(i)).len())); }
pub proof fn frac_dead(t: Seq<char>, i: int) requires 0 <= i <= t.len(), !alld(clean(t.take(i)), 10) ensures fracval(t) is None
{
    clean_prefix(t, i, t.len() as int); assert(t.take(t.len() as int) =~= t);
    let p = clean(t.take(i)); let w = clean(t);
    let j = choose|j: int| 0 <= j < p.len() && !isd(#[trigger] p[j], 10);
    assert(w.take(p.len() as int)[j] == w[j]);
}
#[verifier::opaque]
pub open spec fn ten(a: nat, b: nat) -> int { ipow(2, a) * ipow(5, b) }
pub proof fn ten_is(k: nat) ensures ipow(10, k) == ten(k, k), ipow(10, k) >= 1 decreases k
{
    reveal(ten); if k > 0 { ten_is((k - 1) as nat); let (x, y) = (ipow(2, (k - 1) as nat), ipow(5, (k - 1) as nat)); assert(10 * (x * y) == (2 * x) * (5 * y)) by(nonlinear_arith); }
    else { assert(1 * 1 == 1); }
}
pub proof fn co2(d: int) requires d % 2 != 0 ensures coprime(d, 2), coprime(2, d) { let k = d / 2; assert(d == 2 * k + 1); coprime_bez(d, 2, 1, -k); coprime_bez(2, d, -k, 1); }
pub proof fn co5(d: int) requires d % 5 != 0 ensures coprime(d, 5), coprime(5, d)
{
    let k = d / 5; let r = d % 5; assert(d == 5 * k + r);
    let y: int = if r == 1 { 1 } else if r == 2 { 3 } else if r == 3 { 2 } else { 4 };
    let z: int = if r == 1 { 0 } else if r == 2 { 1 } else if r == 3 { 1 } else { 3 };
    let x = -(k * y + z);
    if r == 1 { } else if r == 2 { } else if r == 3 { } else { assert(r == 4); }
    assert(d * y + 5 * x == 1) by { assert(d * y == 5 * (k * y) + r * y) by(nonlinear_arith) requires d == 5 * k + r; if r == 1 { assert(r * y == 1); } else if r == 2 { assert(r * y == 6); } else if r == 3 { assert(r * y == 6); } else { assert(r * y == 16); } }
    coprime_bez(d, 5, y, x); coprime_bez(5, d, x, y);
}
pub proof fn ten_parity(a: nat, b: nat) ensures a == 0 ==> ten(a, b) % 2 != 0, b == 0 ==> ten(a, b) % 5 != 0, a > 0 ==> ten(a, b) == 2 * ten((a - 1) as nat, b), b > 0 ==> ten(a, b) == 5 * ten(a, (b - 1) as nat), ten(a, b) >= 1
{
    reveal(ten); odd5(b); no5(a);
    let (x, y) = (ipow(2, a), ipow(5, b));
    if a == 0 { assert(1 * y == y); }
    if b == 0 { assert(x * 1 == x); }
    if a > 0 { let u = ipow(2, (a - 1) as nat); assert((2 * u) * y == 2 * (u * y)) by(nonlinear_arith); }
    if b > 0 { let u = ipow(5, (b - 1) as nat); assert(x * (5 * u) == 5 * (x * u)) by(nonlinear_arith); }
    assert(x * y >= 1) by(nonlinear_arith) requires x >= 1, y >= 1;
}
proof fn odd5(b: nat) ensures ipow(5, b) % 2 == 1, ipow(5, b) >= 1 decreases b { if b > 0 { odd5((b - 1) as nat); } }
proof fn no5(a: nat) ensures ipow(2, a) % 5 != 0, ipow(2, a) >= 1 decreases a { if a > 0 { no5((a - 1) as nat); } }
/// dividing both by p (2 or 5) keeps the common factor
pub proof fn cancel(d: int, e: int, c: int, d0: int, e0: int, p: int)
    requires d * c == d0, e * c == e0, p > 0, d % p == 0, e % p == 0
    ensures (d / p) * (c * p) == d0, (e / p) * (c * p) == e0, d == (d / p) * p, e == (e / p) * p, tdiv(d, p) == d / p, tdiv(e, p) == e / p
{
    let (x, y) = (d / p, e / p);
    lemma_fundamental_div_mod(d, p); lemma_fundamental_div_mod(e, p);
    assert(d == x * p && e == y * p) by(nonlinear_arith) requires d == p * x + 0, e == p * y + 0;
    assert(x * (c * p) == (x * p) * c) by(nonlinear_arith);
    assert(y * (c * p) == (y * p) * c) by(nonlinear_arith);
    tdiv_exact(x, p); tdiv_exact(y, p);
}
proof fn tdiv_exact(x: int, p: int) requires p > 0 ensures tdiv(x * p, p) == x
{
    let a = x * p;
    if x < 0 { assert(a < 0) by(nonlinear_arith) requires a == x * p, x < 0, p > 0; let k = -x; assert(-a == k * p) by(nonlinear_arith) requires a == x * p, k == -x; lemma_fundamental_div_mod_converse(-a, p, k, 0); }
    else { assert(a >= 0) by(nonlinear_arith) requires a == x * p, x >= 0, p > 0; lemma_fundamental_div_mod_converse(a, p, x, 0); }
}
pub proof fn trem_zero(d: int, p: int) requires p == 2 || p == 5 ensures trem(d, p) == 0 <==> d % p == 0
{ if p == 2 { assert((-d) % 2 == 0 <==> d % 2 == 0); } else { assert((-d) % 5 == 0 <==> d % 5 == 0); } }
pub proof fn ten_coprime(d: int, a: nat, b: nat)
    requires d % 2 != 0 || ten(a, b) % 2 != 0, d % 5 != 0 || ten(a, b) % 5 != 0
    ensures coprime(d, ten(a, b)), coprime(ten(a, b), d)
{
    reveal(ten); ten_parity(a, b); coprime_one(d);
    if a > 0 { assert(ten(a, b) % 2 == 0); co2(d); coprime_pow(2, d, a); } else { assert(ipow(2, 0) == 1); }
    if b > 0 { assert(ten(a, b) % 5 == 0); co5(d); coprime_pow(5, d, b); } else { assert(ipow(5, 0) == 1); }
    coprime_mul(d, ipow(2, a), ipow(5, b));
}
/// n / d0 times e0, after cancelling
pub proof fn times10(n: int, d: int, e: int, c: int, d0: int, e0: int)
    requires d0 > 0, e0 > 0, e > 0, coprime(d0, n), d * c == d0, e * c == e0, coprime(d, e)
    ensures d > 0, coprime(d, n * e), q(n * e, d) == q(n, d0) * (e0 as real)
{
    assert(c > 0) by(nonlinear_arith) requires e * c > 0, e > 0;
    assert(d > 0) by(nonlinear_arith) requires d * c > 0, c > 0;
    coprime_sym(d0, n); coprime_factor(n, d, c); coprime_mul(d, n, e);
    q_int(n, d0, e0); 
    assert((n * e) * d0 == (n * e0) * d) by(nonlinear_arith) requires d * c == d0, e * c == e0;
    q_eq(n * e, d, n * e0, d0);
}
pub proof fn div10(n: int, d: int, e: int, c: int, n0: int, e0: int)
    requires d > 0, e0 > 0, e > 0, coprime(d, n0), n * c == n0, e * c == e0, coprime(n, e)
    ensures d * e > 0, coprime(d * e, n), q(n, d * e) == q(n0, d) / (e0 as real)
{
    assert(d * e > 0) by(nonlinear_arith) requires d > 0, e > 0;
    coprime_factor(d, n, c); coprime_mul(n, d, e);
    q_int(n0, d, e0);
    assert(n * (d * e0) == n0 * (d * e)) by(nonlinear_arith) requires n * c == n0, e * c == e0;
    q_eq(n, d * e, n0, d * e0);
}
/// what a search result says about the first occurrence
pub open spec fn found(s: Seq<char>, c: char, o: Option<usize>) -> bool {
    match o { Some(i) => exists|k: int| 0 <= k < s.len() && lower(s[k]) == c && i == blen(#[trigger] s.take(k)) && (forall|j: int| 0 <= j < k ==> lower(#[trigger] s[j]) != c), None => forall|j: int| 0 <= j < s.len() ==> lower(#[trigger] s[j]) != c }
}
pub proof fn found_is(s: Seq<char>, c: char, o: Option<usize>) requires found(s, c, o), c == '.' || c == 'e'
    ensures match find1(s, c, 0) { Some(k) => o is Some && 0 <= k < s.len() && o->Some_0 == blen(s.take(k)) && o->Some_0 + 1 == blen(s.take(k + 1)) && o->Some_0 < blen(s) && bpos(s, o->Some_0 as int) == Some(k) && bpos(s, o->Some_0 + 1) == Some(k + 1), None => o is None }
{
    match o {
        Some(i) => { let k = choose|k: int| 0 <= k < s.len() && lower(s[k]) == c && i == blen(#[trigger] s.take(k)) && (forall|j: int| 0 <= j < k ==> lower(#[trigger] s[j]) != c); find1_is(s, c, 0, k); one_byte(s, k); bpos_is(s, k); bpos_is(s, k + 1); },
        None => { find1_is(s, c, 0, s.len() as int); },
    }
}
pub proof fn lower_dots() ensures forall|c: char| lower(c) == '.' <==> c == '.' {}
/// the state of cancelling common factors 2 and 5
#[verifier::opaque]
pub open spec fn can(d: int, e: int, c: int, d0: int, e0: int, a: nat, b: nat) -> bool { d * c == d0 && e * c == e0 && e == ten(a, b) }
pub proof fn can_start(d: int, k: nat) ensures can(d, ipow(10, k), 1, d, ipow(10, k), k, k) { reveal(can); ten_is(k); assert(d * 1 == d); assert(ipow(10, k) * 1 == ipow(10, k)); }
pub proof fn can_step(d: int, e: int, c: int, d0: int, e0: int, a: nat, b: nat, p: int)
    requires can(d, e, c, d0, e0, a, b), p == 2 || p == 5, trem(d, p) == 0, trem(e, p) == 0
    ensures tdiv(d, p) * p == d, 0 < tdiv(e, p) < e, p == 2 ==> a > 0 && can(tdiv(d, p), tdiv(e, p), c * 2, d0, e0, (a - 1) as nat, b), p == 5 ==> b > 0 && can(tdiv(d, p), tdiv(e, p), c * 5, d0, e0, a, (b - 1) as nat),
        p == 5 && (d % 2 != 0 || e % 2 != 0) ==> tdiv(d, p) % 2 != 0 || tdiv(e, p) % 2 != 0
{ reveal(can); trem_zero(d, p); trem_zero(e, p); ten_parity(a, b); cancel(d, e, c, d0, e0, p); if p == 2 { ten_parity((a - 1) as nat, b); } else { ten_parity(a, (b - 1) as nat); } }
pub proof fn two_pow2() ensures ispow2(2) { reveal_with_fuel(p2, 3); assert(p2(1) == 2); }
/// the cases of a literal
pub proof fn pq_int(s: Seq<char>) requires find1(s, '.', 0) is None, expo(s) is None ensures parse_i(s) is None ==> parse_q(s) is None, parse_i(s) matches Some(n) ==> parse_q(s) == Some(n as real) { reveal(parse_q); }
pub proof fn pq_bad(s: Seq<char>) requires find1(s, '.', 0) is Some || expo(s) is Some
    ensures ndc(s, 0) is Some && lower(ndc(s, 0)->Some_0) != 'e' ==> parse_q(s) is None, parse_n(s, find1(s, '.', 0), expo(s)) is None ==> parse_q(s) is None, parse_f(s, find1(s, '.', 0), expo(s)) is None ==> parse_q(s) is None, parse_e(s, expo(s)) is None ==> parse_q(s) is None
{ reveal(parse_q); }
pub open spec fn signed(s: Seq<char>, n: int, f: real) -> real { (n as real) + (if s[0] == '-' { 0real - f } else { f }) }
pub proof fn pq_ok(s: Seq<char>, n: int, f: real, x: int)
    requires find1(s, '.', 0) is Some || expo(s) is Some, ndc(s, 0) is Some ==> lower(ndc(s, 0)->Some_0) == 'e', parse_n(s, find1(s, '.', 0), expo(s)) == Some(n), parse_f(s, find1(s, '.', 0), expo(s)) == Some(f), parse_e(s, expo(s)) == Some(x)
    ensures parse_q(s) == Some(scale10(signed(s, n, f), x))
{ reveal(parse_q); }
pub proof fn scale_zero(x: real) ensures scale10(x, 0) == x { reveal(scale10); assert(ipow(10, 0) == 1); assert(x * 1real == x) by(nonlinear_arith); }
pub proof fn can_mul(n: int, d: int, e: int, c: int, d0: int, e0: int, a: nat, b: nat, x: int)
    requires can(d, e, c, d0, e0, a, b), d % 2 != 0 || e % 2 != 0, trem(d, 5) != 0 || trem(e, 5) != 0, d0 > 0, coprime(d0, n), e0 == ipow(10, x as nat), x > 0
    ensures d > 0, coprime(d, n * e), q(n * e, d) == scale10(q(n, d0), x)
{ reveal(can); reveal(scale10); trem_zero(d, 5); trem_zero(e, 5); ten_parity(a, b); ten_is(x as nat); ten_coprime(d, a, b); times10(n, d, e, c, d0, e0); }
pub proof fn can_div(n: int, d: int, e: int, c: int, n0: int, e0: int, a: nat, b: nat, x: int)
    requires can(n, e, c, n0, e0, a, b), n % 2 != 0 || e % 2 != 0, trem(n, 5) != 0 || trem(e, 5) != 0, d > 0, coprime(d, n0), e0 == ipow(10, (-x) as nat), x < 0
    ensures d * e > 0, coprime(d * e, n), q(n, d * e) == scale10(q(n0, d), x)
{ reveal(can); reveal(scale10); trem_zero(n, 5); trem_zero(e, 5); ten_parity(a, b); ten_is((-x) as nat); ten_coprime(n, a, b); div10(n, d, e, c, n0, e0); }
pub proof fn pq_empty(s: Seq<char>) requires s.len() == 0 ensures parse_q(s) is None { reveal(parse_q); assert(find1(s, '.', 0) is None && find1(s, 'e', 0) is None && parse_i(s) is None); }
