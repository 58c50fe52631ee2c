pub proof fn top2(s: Seq<u32>) requires canon(s), s.len() >= 2
    ensures ({ let t = s[s.len() - 1] as nat * B + s[s.len() - 2] as nat; let p = pw((s.len() - 2) as nat); &&& t * p <= val(s) && val(s) < (t + 1) * p && t >= B && t < B * B && p >= 1 })
{
    let m = (s.len() - 2) as nat; let p = pw(m);
    let t = s[s.len() - 1] as nat * B + s[s.len() - 2] as nat;
    vp_split(s, m, s.len()); vp_bound(s, m); pw_pos(m);
    let u = s.skip(m as int); vp_small(u);
    assert(u[0] == s[s.len() - 2] && u[1] == s[s.len() - 1]);
    assert(vp(u, 2) == t);
    assert(p * t == t * p) by(nonlinear_arith);
    assert((t + 1) * p == t * p + p) by(nonlinear_arith);
}
pub proof fn top5(s: Seq<u32>) requires canon(s), s.len() >= 5
    ensures ({ let t = val(s.skip(s.len() - 5)); let p = pw((s.len() - 5) as nat); &&& t * p <= val(s) && val(s) < (t + 1) * p && p >= 1 && t >= 1 && canon(s.skip(s.len() - 5)) })
{
    let m = (s.len() - 5) as nat; let p = pw(m);
    let u = s.skip(m as int); let t = val(u);
    vp_split(s, m, s.len()); vp_bound(s, m); pw_pos(m);
    assert(u[4] == s[s.len() - 1]);
    canon_bounds(u);
    assert(p * t == t * p) by(nonlinear_arith);
    assert((t + 1) * p == t * p + p) by(nonlinear_arith);
}
/// quotient decomposition used by every branch of the division
pub proof fn div_step(s: int, o: int, a: int) requires o > 0, a >= 0, o * a <= s ensures (s - o * a) / o + a == s / o, a > 0 ==> s - o * a < s, s - o * a >= 0 {
    let q = (s - o * a) / o; let r = (s - o * a) % o;
    fdm(s - o * a, o);
    assert((q + a) * o == q * o + o * a) by(nonlinear_arith);
    fdm_conv(s, o, q + a, r);
    if a > 0 { assert(o * a > 0) by(nonlinear_arith) requires o > 0, a > 0; }
}
/// O*a1 <= sa * p2 where a1 = sa / (oa+1) and O < (oa+1)*p2
pub proof fn a1_bound(o: int, oa: int, p2: int, sa: int, a1: int)
    requires o >= 0, oa >= 0, p2 > 0, sa >= 0, a1 == sa / (oa + 1), o < (oa + 1) * p2
    ensures o * a1 <= sa * p2, a1 >= 0
{
    fdm(sa, oa + 1);
    assert(a1 >= 0) by(nonlinear_arith) requires sa == a1 * (oa + 1) + sa % (oa + 1), sa >= 0, oa >= 0, sa % (oa + 1) < oa + 1;
    assert(o * a1 <= ((oa + 1) * p2) * a1) by(nonlinear_arith) requires o < (oa + 1) * p2, a1 >= 0;
    assert(((oa + 1) * p2) * a1 == (a1 * (oa + 1)) * p2) by(nonlinear_arith);
    assert((a1 * (oa + 1)) * p2 <= sa * p2) by(nonlinear_arith) requires a1 * (oa + 1) <= sa, p2 > 0;
}
/// branch: shift right by k limbs, n + k == m + 3
pub proof fn div_d1(s: int, o: int, oa: int, sa: int, a1: int, a: int, n: nat, m: nat, k: nat)
    requires n >= 5, m >= 2, n + k == m + 3, k <= 2, o > 0, oa >= 0, sa >= 0, a1 == sa / (oa + 1), o < (oa + 1) * pw((m - 2) as nat), sa * pw((n - 5) as nat) <= s,
        a == a1 / (pw(k) as int), a1 >= pw(2)
    ensures o * a <= s, a >= 1
{
    let p2 = pw((m - 2) as nat) as int; let p5 = pw((n - 5) as nat) as int; let pk = pw(k) as int;
    pw_pos((m - 2) as nat); pw_pos((n - 5) as nat); pw_pos(k); pw_mono(k, 2);
    a1_bound(o, oa, p2, sa, a1);
    pw_add(k, (n - 5) as nat);
    assert(pk * p5 == p2);
    fdm(a1, pk);
    assert(a >= 1) by(nonlinear_arith) requires a1 == a * pk + a1 % pk, a1 >= pk, a1 % pk < pk, pk > 0;
    assert(o * (a * pk) <= o * a1) by(nonlinear_arith) requires a * pk <= a1, o > 0;
    assert(o * (a * pk) <= sa * p2);
    assert(sa * p2 == (sa * p5) * pk) by(nonlinear_arith) requires p2 == pk * p5;
    assert((sa * p5) * pk <= s * pk) by(nonlinear_arith) requires sa * p5 <= s, pk > 0;
    assert(o * a <= s) by(nonlinear_arith) requires o * (a * pk) <= s * pk, pk > 0;
}
/// branch: shift left by k limbs, n == m + 3 + k
pub proof fn div_d2(s: int, o: int, oa: int, sa: int, a1: int, n: nat, m: nat, k: nat)
    requires m >= 2, n == m + 3 + k, o > 0, oa >= 0, sa >= 0, a1 == sa / (oa + 1), o < (oa + 1) * pw((m - 2) as nat), sa * pw((n - 5) as nat) <= s,
        a1 >= pw(2)
    ensures o * (a1 * pw(k)) <= s, (o * a1) * pw(k) == o * (a1 * pw(k)), a1 * pw(k) >= 1
{
    let p2 = pw((m - 2) as nat) as int; let p5 = pw((n - 5) as nat) as int; let pk = pw(k) as int;
    pw_pos((m - 2) as nat); pw_pos((n - 5) as nat); pw_pos(k); pw_pos(2);
    a1_bound(o, oa, p2, sa, a1);
    pw_add((m - 2) as nat, k);
    assert(p5 == p2 * pk);
    assert((o * a1) * pk == o * (a1 * pk)) by(nonlinear_arith);
    assert((o * a1) * pk <= (sa * p2) * pk) by(nonlinear_arith) requires o * a1 <= sa * p2, pk > 0;
    assert((sa * p2) * pk == sa * (p2 * pk)) by(nonlinear_arith);
    assert(a1 * pk >= 1) by(nonlinear_arith) requires a1 >= 1, pk >= 1;
}
/// interpolated quotient: tmp = O * a3 * B^k < 2 S
pub proof fn div_d4(s: int, o: int, oa: int, sa: int, a1: int, a2: int, a3: int, ratio: int, n: nat, m: nat, k: nat)
    requires m >= 2, n == m + 3 + k, o > 0, oa >= 1, sa >= 1, a1 == sa / (oa + 1), a2 == sa / oa, o < (oa + 1) * pw((m - 2) as nat), sa * pw((n - 5) as nat) <= s,
        a1 >= pw(2), 1 <= ratio <= 256, a3 == (a1 * ratio + a2 * (256 - ratio)) / 256
    ensures (o * a3) * pw(k) == o * (a3 * pw(k)), a3 * pw(k) >= 1, (o * a3) * pw(k) < 2 * s, s > 0
{
    let p2 = pw((m - 2) as nat) as int; let p5 = pw((n - 5) as nat) as int; let pk = pw(k) as int;
    pw_pos((m - 2) as nat); pw_pos((n - 5) as nat); pw_pos(k); pw_pos(2);
    fdm(sa, oa); fdm(sa, oa + 1);
    // a1 <= a2
    assert(a1 * oa <= a1 * (oa + 1)) by(nonlinear_arith) requires a1 >= 0;
    assert(a1 <= a2) by(nonlinear_arith) requires a1 * oa <= sa, sa == a2 * oa + sa % oa, sa % oa < oa, oa >= 1;
    assert(a1 * ratio + a2 * (256 - ratio) <= a2 * 256) by(nonlinear_arith) requires a1 <= a2, ratio >= 0;
    assert(a1 * ratio + a2 * (256 - ratio) >= a1 * 256) by(nonlinear_arith) requires a1 <= a2, ratio <= 256;
    assert(a1 <= a3 <= a2);
    pw_add((m - 2) as nat, k);
    assert(p5 == p2 * pk);
    assert((o * a3) * pk == o * (a3 * pk)) by(nonlinear_arith);
    assert(a3 * pk >= 1) by(nonlinear_arith) requires a3 >= 1, pk >= 1;
    let tmp = (o * a3) * pk;
    assert(s > 0) by(nonlinear_arith) requires sa * p5 <= s, sa >= 1, p5 >= 1;
    assert(tmp * oa == (a3 * oa) * (o * pk)) by(nonlinear_arith) requires tmp == (o * a3) * pk;
    assert(a3 * oa <= a2 * oa) by(nonlinear_arith) requires a3 <= a2, oa >= 0;
    assert((a3 * oa) * (o * pk) <= sa * (o * pk)) by(nonlinear_arith) requires a3 * oa <= sa, o > 0, pk > 0;
    assert(o * pk < ((oa + 1) * p2) * pk) by(nonlinear_arith) requires o < (oa + 1) * p2, pk > 0;
    assert(sa * (o * pk) < sa * (((oa + 1) * p2) * pk)) by(nonlinear_arith) requires o * pk < ((oa + 1) * p2) * pk, sa >= 1;
    assert(sa * (((oa + 1) * p2) * pk) == (oa + 1) * (sa * (p2 * pk))) by(nonlinear_arith);
    assert((oa + 1) * (sa * p5) <= (oa + 1) * s) by(nonlinear_arith) requires sa * p5 <= s, oa >= 0;
    assert(tmp * oa < (oa + 1) * s);
    assert(tmp < 2 * s) by(nonlinear_arith) requires tmp * oa < (oa + 1) * s, oa >= 1, s > 0;
}
pub proof fn div_over(s: int, o: int, a: int, t2: int) requires o > 0, s >= 0, a >= 0, o * a > s, t2 == (o * a - s) / o
    ensures 0 <= t2 <= a, ({ let a4 = a - t2; ((a4 * o <= s) ==> a4 == s / o) && ((a4 * o > s) ==> a4 >= 1 && a4 - 1 == s / o) })
{
    let r = (o * a - s) % o; let a4 = a - t2;
    fdm(o * a - s, o);
    assert(t2 >= 0) by(nonlinear_arith) requires o * a - s == t2 * o + r, r < o, o * a - s > 0, o > 0;
    assert(t2 <= a) by(nonlinear_arith) requires o * a - s == t2 * o + r, r >= 0, s >= 0, o > 0;
    assert(a4 * o == o * a - t2 * o) by(nonlinear_arith) requires a4 == a - t2;
    if a4 * o <= s { assert(a4 * o == s); fdm_conv(s, o, a4, 0); }
    else {
        assert(a4 >= 1) by(nonlinear_arith) requires a4 * o > 0, o > 0;
        assert((a4 - 1) * o == a4 * o - o) by(nonlinear_arith);
        fdm_conv(s, o, a4 - 1, o - r);
    }
}
pub proof fn eq_len(s: int, o: int, sa: int, oa: int, p: int)
    requires p >= 1, sa * p <= s < (sa + 1) * p, oa * p <= o < (oa + 1) * p, oa >= 1, sa >= 0, o > 0
    ensures sa < oa ==> s < o, sa > oa ==> o * (sa / (oa + 1)) <= s && sa / (oa + 1) >= 1, sa == oa ==> s < 2 * o
{
    if sa < oa { assert((sa + 1) * p <= oa * p) by(nonlinear_arith) requires sa + 1 <= oa, p >= 1; }
    else if sa > oa {
        let a = sa / (oa + 1);
        a1_bound(o, oa, p, sa, a);
        fdm(sa, oa + 1);
        assert(a >= 1) by(nonlinear_arith) requires sa == a * (oa + 1) + sa % (oa + 1), sa % (oa + 1) < oa + 1, sa >= oa + 1;
    } else {
        assert((oa + 1) * p <= 2 * (oa * p)) by(nonlinear_arith) requires oa >= 1, p >= 1;
    }
}
