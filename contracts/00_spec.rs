// Specification library: the value of a limb vector.
pub spec const B: nat = 0x1_0000_0000;

pub open spec fn pw(n: nat) -> nat decreases n { if n == 0 { 1 } else { B * pw((n - 1) as nat) } }

/// value of the low n limbs
pub open spec fn vp(s: Seq<u32>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { vp(s, (n - 1) as nat) + (s[n - 1] as nat) * pw((n - 1) as nat) }
}
pub open spec fn val(s: Seq<u32>) -> nat { vp(s, s.len()) }

pub open spec fn vp64(s: Seq<u64>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { vp64(s, (n - 1) as nat) + (s[n - 1] as nat) * pw((n - 1) as nat) }
}
pub open spec fn val64(s: Seq<u64>) -> nat { vp64(s, s.len()) }

/// canonical limb vector: non-empty, no leading (most significant) zero limb except for the number 0
pub open spec fn canon(s: Seq<u32>) -> bool { s.len() >= 1 && (s.len() > 1 ==> s[s.len() - 1] != 0) }

pub proof fn pw_pos(n: nat) ensures pw(n) >= 1 decreases n { if n > 0 { pw_pos((n - 1) as nat); assert(B * pw((n - 1) as nat) >= 1) by(nonlinear_arith) requires pw((n - 1) as nat) >= 1; } }

pub proof fn pw_add(a: nat, b: nat) ensures pw(a + b) == pw(a) * pw(b) decreases a {
    if a == 0 { assert(pw(0) * pw(b) == pw(b)) by(nonlinear_arith) requires pw(0) == 1; }
    else {
        pw_add((a - 1) as nat, b);
        assert(pw(a + b) == B * pw((a + b - 1) as nat));
        assert((a + b - 1) as nat == (a - 1) as nat + b);
        assert(B * (pw((a - 1) as nat) * pw(b)) == (B * pw((a - 1) as nat)) * pw(b)) by(nonlinear_arith);
    }
}
pub proof fn pw_mono(a: nat, b: nat) requires a <= b ensures pw(a) <= pw(b) {
    pw_add(a, (b - a) as nat); pw_pos((b - a) as nat); pw_pos(a);
    assert(pw(a) * pw((b - a) as nat) >= pw(a)) by(nonlinear_arith) requires pw((b - a) as nat) >= 1;
}
pub proof fn pw_1() ensures pw(0) == 1, pw(1) == B, pw(2) == B * B, pw(3) == B * B * B, pw(4) == B * B * B * B {
    reveal_with_fuel(pw, 6);
}

pub proof fn vp_bound(s: Seq<u32>, n: nat) requires n <= s.len() ensures vp(s, n) < pw(n) decreases n {
    if n > 0 {
        let m = (n - 1) as nat;
        vp_bound(s, m);
        pw_pos(m);
        assert((s[m as int] as nat) * pw(m) <= (B - 1) * pw(m)) by(nonlinear_arith) requires (s[m as int] as nat) <= B - 1;
        assert((B - 1) * pw(m) + pw(m) == B * pw(m)) by(nonlinear_arith);
    } 
}
pub proof fn vp_ext(s: Seq<u32>, t: Seq<u32>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures vp(s, n) == vp(t, n) decreases n
{ if n > 0 { vp_ext(s, t, (n - 1) as nat); } }

pub proof fn vp64_ext(s: Seq<u64>, t: Seq<u64>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures vp64(s, n) == vp64(t, n) decreases n
{ if n > 0 { vp64_ext(s, t, (n - 1) as nat); } }

pub proof fn vp_vp64(s: Seq<u32>, t: Seq<u64>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] as nat == t[i] as nat
    ensures vp(s, n) == vp64(t, n) decreases n
{ if n > 0 { vp_vp64(s, t, (n - 1) as nat); } }

pub proof fn vp_zero(s: Seq<u32>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] == 0
    ensures vp(s, n) == 0 decreases n
{ if n > 0 { vp_zero(s, (n - 1) as nat); assert(0 * pw((n - 1) as nat) == 0) by(nonlinear_arith); } }

pub proof fn vp64_zero(s: Seq<u64>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] == 0
    ensures vp64(s, n) == 0 decreases n
{ if n > 0 { vp64_zero(s, (n - 1) as nat); assert(0 * pw((n - 1) as nat) == 0) by(nonlinear_arith); } }

/// split at limb k
pub proof fn vp_split(s: Seq<u32>, k: nat, n: nat)
    requires k <= n <= s.len()
    ensures vp(s, n) == vp(s, k) + pw(k) * vp(s.skip(k as int), (n - k) as nat) decreases n
{
    if n == k { assert(pw(k) * 0 == 0) by(nonlinear_arith); }
    else {
        let m = (n - 1) as nat;
        vp_split(s, k, m);
        let t = s.skip(k as int);
        assert(t[m - k] == s[m as int]);
        pw_add(k, (m - k) as nat);
        let x = s[m as int] as nat;
        assert(pw(k) * (vp(t, (m - k) as nat) + x * pw((m - k) as nat)) == pw(k) * vp(t, (m - k) as nat) + x * (pw(k) * pw((m - k) as nat))) by(nonlinear_arith);
    }
}
/// most significant limb non-zero: lower bound
pub proof fn vp_lower(s: Seq<u32>, n: nat) requires 1 <= n <= s.len(), s[n - 1] != 0 ensures vp(s, n) >= pw((n - 1) as nat) {
    let x = s[n - 1] as nat; let p = pw((n - 1) as nat);
    assert(x * p >= p) by(nonlinear_arith) requires x >= 1;
}
/// length is determined by the value
pub proof fn canon_bounds(s: Seq<u32>) requires canon(s)
    ensures val(s) < pw(s.len()), s.len() > 1 ==> val(s) >= pw((s.len() - 1) as nat), s.len() == 1 ==> val(s) == s[0] as nat, s.len() > 1 ==> val(s) >= B, val(s) == 0 <==> (s.len() == 1 && s[0] == 0)
{
    vp_bound(s, s.len());
    if s.len() > 1 { vp_lower(s, s.len()); pw_mono(1, (s.len() - 1) as nat); pw_1(); }
    else { reveal_with_fuel(vp, 3); pw_1(); }
}
pub proof fn canon_len_lt(s: Seq<u32>, t: Seq<u32>) requires canon(s), canon(t), s.len() < t.len() ensures val(s) < val(t) {
    canon_bounds(s); canon_bounds(t); pw_mono(s.len(), (t.len() - 1) as nat);
}
/// comparison decided at limb k when the limbs above k agree
pub proof fn vp_cmp(s: Seq<u32>, t: Seq<u32>, k: nat, n: nat)
    requires n <= s.len(), n <= t.len(), k < n, s[k as int] < t[k as int], forall|i: int| k < i < n ==> s[i] == t[i]
    ensures vp(s, n) < vp(t, n) decreases n
{
    if n == k + 1 {
        vp_bound(s, k); 
        let (a, b, p) = (s[k as int] as nat, t[k as int] as nat, pw(k));
        assert(a * p + p <= b * p) by(nonlinear_arith) requires a + 1 <= b;
    } else { vp_cmp(s, t, k, (n - 1) as nat); }
}
pub proof fn canon_unique(s: Seq<u32>, t: Seq<u32>) requires canon(s), canon(t), val(s) == val(t) ensures s =~= t {
    if s.len() < t.len() { canon_len_lt(s, t); }
    else if t.len() < s.len() { canon_len_lt(t, s); }
    else { vp_unique(s, t, s.len()); }
}
pub proof fn vp_unique(s: Seq<u32>, t: Seq<u32>, n: nat) requires n <= s.len(), n <= t.len(), vp(s, n) == vp(t, n) ensures forall|i: int| 0 <= i < n ==> s[i] == t[i] decreases n {
    if n > 0 {
        let m = (n - 1) as nat;
        if s[m as int] < t[m as int] { vp_cmp(s, t, m, n); }
        else if t[m as int] < s[m as int] { vp_cmp(t, s, m, n); }
        else { vp_unique(s, t, m); }
    }
}
/// one limb step of a ripple loop: changing limb i only
pub proof fn vp_step(s: Seq<u32>, i: nat) requires i < s.len() ensures vp(s, i + 1) == vp(s, i) + (s[i as int] as nat) * pw(i) { }
pub proof fn vp64_step(s: Seq<u64>, i: nat) requires i < s.len() ensures vp64(s, i + 1) == vp64(s, i) + (s[i as int] as nat) * pw(i) { }

/// a vector that fits its value below pw(k) has zero limbs from k on
pub proof fn vp_high_zero(s: Seq<u32>, k: nat, n: nat) requires k <= n <= s.len(), vp(s, n) < pw(k) ensures forall|i: int| k <= i < n ==> s[i] == 0, vp(s, n) == vp(s, k) decreases n {
    if n > k {
        let m = (n - 1) as nat;
        if s[m as int] != 0 { vp_lower(s, n); pw_mono(k, m); }
        assert(0 * pw(m) == 0) by(nonlinear_arith);
        vp_high_zero(s, k, m);
    }
}
// shifts by whole limbs are divisions / multiplications
pub broadcast proof fn shr32_u64(x: u64) ensures #[trigger] (x >> 32) == x / 0x1_0000_0000 { assert(x >> 32 == x / 0x1_0000_0000) by(bit_vector); }
pub broadcast proof fn shr32_u128(x: u128) ensures #[trigger] (x >> 32) == x / 0x1_0000_0000 { assert(x >> 32 == x / 0x1_0000_0000) by(bit_vector); }
pub broadcast proof fn shr64_u128(x: u128) ensures #[trigger] (x >> 64) == x / 0x1_0000_0000_0000_0000 { assert(x >> 64 == x / 0x1_0000_0000_0000_0000) by(bit_vector); }
pub broadcast proof fn shr96_u128(x: u128) ensures #[trigger] (x >> 96) == x / 0x1_0000_0000_0000_0000_0000_0000 { assert(x >> 96 == x / 0x1_0000_0000_0000_0000_0000_0000) by(bit_vector); }
pub broadcast proof fn shl32_u64(x: u64) requires x < 0x1_0000_0000 ensures #[trigger] (x << 32) == x * 0x1_0000_0000 { assert(x << 32 == x * 0x1_0000_0000) by(bit_vector) requires x < 0x1_0000_0000; }
pub broadcast proof fn shl32_u128(x: u128) requires x < 0x1_0000_0000_0000_0000 ensures #[trigger] (x << 32) == x * 0x1_0000_0000 { assert(x << 32 == x * 0x1_0000_0000) by(bit_vector) requires x < 0x1_0000_0000_0000_0000; }
pub broadcast proof fn shl64_u128(x: u128) requires x < 0x1_0000_0000_0000_0000 ensures #[trigger] (x << 64) == x * 0x1_0000_0000_0000_0000 { assert(x << 64 == x * 0x1_0000_0000_0000_0000) by(bit_vector) requires x < 0x1_0000_0000_0000_0000; }
pub broadcast proof fn shl96_u128(x: u128) requires x < 0x1_0000_0000 ensures #[trigger] (x << 96) == x * 0x1_0000_0000_0000_0000_0000_0000 { assert(x << 96 == x * 0x1_0000_0000_0000_0000_0000_0000) by(bit_vector) requires x < 0x1_0000_0000; }
pub broadcast proof fn shr24_u64(x: u64) ensures #[trigger] (x >> 24) == x / 0x100_0000 { assert(x >> 24 == x / 0x100_0000) by(bit_vector); }
pub broadcast group g_shift { shr24_u64, shr32_u64, shr32_u128, shr64_u128, shr96_u128, shl32_u64, shl32_u128, shl64_u128, shl96_u128 }
/// adding x to limb 0 only
pub proof fn vp64_low(s: Seq<u64>, t: Seq<u64>, n: nat, x: nat)
    requires 1 <= n <= s.len(), s.len() == t.len(), t[0] as nat == s[0] as nat + x, forall|i: int| 1 <= i < n ==> s[i] == t[i]
    ensures vp64(t, n) == vp64(s, n) + x decreases n
{
    if n == 1 { vp64_1(s); vp64_1(t); }
    else { vp64_low(s, t, (n - 1) as nat, x); }
}
pub open spec fn ord_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }

pub proof fn vp_1(s: Seq<u32>) requires s.len() >= 1 ensures vp(s, 1) == s[0] as nat {
    assert(vp(s, 1) == vp(s, 0) + (s[0] as nat) * pw(0)); assert((s[0] as nat) * pw(0) == s[0] as nat) by(nonlinear_arith) requires pw(0) == 1;
}
pub proof fn vp64_1(s: Seq<u64>) requires s.len() >= 1 ensures vp64(s, 1) == s[0] as nat {
    assert(vp64(s, 1) == vp64(s, 0) + (s[0] as nat) * pw(0)); assert((s[0] as nat) * pw(0) == s[0] as nat) by(nonlinear_arith) requires pw(0) == 1;
}
/// values of short vectors
pub proof fn vp_small(s: Seq<u32>)
    ensures
        s.len() >= 1 ==> vp(s, 1) == s[0] as nat,
        s.len() >= 2 ==> vp(s, 2) == s[0] as nat + s[1] as nat * 0x1_0000_0000,
        s.len() >= 3 ==> vp(s, 3) == s[0] as nat + s[1] as nat * 0x1_0000_0000 + s[2] as nat * 0x1_0000_0000_0000_0000,
        s.len() >= 4 ==> vp(s, 4) == s[0] as nat + s[1] as nat * 0x1_0000_0000 + s[2] as nat * 0x1_0000_0000_0000_0000 + s[3] as nat * 0x1_0000_0000_0000_0000_0000_0000,
        pw(1) == 0x1_0000_0000, pw(2) == 0x1_0000_0000_0000_0000, pw(3) == 0x1_0000_0000_0000_0000_0000_0000, pw(4) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
{
    pw_1();
    if s.len() >= 1 { vp_1(s); }
    if s.len() >= 2 { vp_step(s, 1); }
    if s.len() >= 3 { vp_step(s, 2); }
    if s.len() >= 4 { vp_step(s, 3); }
}
pub proof fn u128_limbs(n: u128) ensures
    n as nat == (n % 0x1_0000_0000) as nat + ((n / 0x1_0000_0000) % 0x1_0000_0000) as nat * 0x1_0000_0000 + ((n / 0x1_0000_0000_0000_0000) % 0x1_0000_0000) as nat * 0x1_0000_0000_0000_0000 + (n / 0x1_0000_0000_0000_0000_0000_0000) as nat * 0x1_0000_0000_0000_0000_0000_0000,
    n / 0x1_0000_0000_0000_0000_0000_0000 < 0x1_0000_0000,
{
    let b: u128 = 0x1_0000_0000;
    let q1 = n / b; let q2 = q1 / b; let q3 = q2 / b;
    assert(q2 == n / 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires q1 == n / 0x1_0000_0000, q2 == q1 / 0x1_0000_0000;
    assert(q3 == n / 0x1_0000_0000_0000_0000_0000_0000) by(nonlinear_arith) requires q2 == n / 0x1_0000_0000_0000_0000, q3 == q2 / 0x1_0000_0000;
}
