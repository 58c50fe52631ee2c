use super::*;
use super::rats::{bits32, bits64, q_of};
use hmath::F192;

pub fn cases(p: &str) -> Vec<Case> {
    match p {
        "C18" => vec![("f_exact", f_exact), ("f_order", f_order), ("f_ints", f_ints), ("f_floats", f_floats), ("f_ratio", f_ratio), ("f_pow2", f_pow2)],
        "C19" => vec![("f_add", f_add), ("f_mul", f_mul), ("f_i32", f_i32), ("f_div", f_div), ("f_floor", f_floor)],
        _ => vec![],
    }
}
/// an F192 and the number (-1)^s * m * 2^e it stands for
#[derive(Clone)]
struct F { x: F192, q: Q }
fn build(neg: bool, m: u128, e: i64) -> F {
    let mut x = F192::from(m);
    x = if e < 0 { x.shr((-e) as u64) } else { x.shl(e as u64) };
    if neg { x = x.neg(); }
    F { x, q: Q::int(Z::new(neg, N::from(m))).mul(&Q::pow2(e)) }
}
fn e0(g: &mut G) -> i64 { match g.below(4) { 0 => -(g.small(130) as i64), 1 => g.small(300) as i64, _ => -(g.small(300) as i64) } }
fn f(g: &mut G) -> F { let (m, s, e) = (g.u(128), g.bool(), e0(g)); g.push(Arg::I(s as i128)); build(s, m, e) }
fn f2(g: &mut G) -> (F, F) {
    let (m, s, e) = (g.u(128), g.bool(), e0(g));
    let a = build(s, m, e);
    let (m2, s2, e2) = match g.below(6) {
        0 => (m, !s, e), 1 => (m.wrapping_add(g.below(3) as u128).wrapping_sub(1), s, e), 2 => (m, s, e + g.below(3) as i64 - 1),
        3 => (g.u(128), s, e + g.below(260) as i64 - 130), 4 => (g.u(128), !s, e + g.below(260) as i64 - 130), _ => (g.u(128), g.bool(), e0(g)) };
    g.push(Arg::I(s as i128)); g.push(Arg::I(m2 as i128)); g.push(Arg::I(e2 as i128)); g.push(Arg::I(s2 as i128));
    let b = build(s2, m2, e2);
    if g.bool() { (a, b) } else { (b, a) }
}
fn val(x: &F192) -> Result<Q, String> { rq(Ratio::from(x)) }
fn eqf(w: &str, got: F192, want: &Q) -> R { let v = val(&got)?; if &v == want { Ok(()) } else { Err(format!("{}: got {:?}/{:?} ({:?}), expected {:?}/{:?}", w, v.n, v.d, got, want.n, want.d)) } }
fn is_int(q: &Q) -> bool { q.d.is_one() }
fn f_exact(g: &mut G) -> R {
    let a = f(g);
    eqf("value", a.x, &a.q)?;
    eqq("Ratio::from F192", Ratio::from(a.x), &a.q)?;
    eqf("neg", a.x.neg(), &a.q.neg())?; eqf("abs", a.x.abs(), &a.q.abs())?;
    eq("is_zero", a.x == F192::default(), a.q.is_zero())?;
    eq("is_integer", a.x.is_integer(), is_int(&a.q))?;
    eqf("truncate", a.x.truncate(), &Q::int(a.q.trunc()))?;
    let k = g.small(200) as u64;
    eqf("shl", a.x.shl(k), &a.q.mul(&Q::pow2(k as i64)))?; eqf("shr", a.x.shr(k), &a.q.mul(&Q::pow2(-(k as i64))))?;
    if a.q.is_zero() { return Ok(()); }
    // the next number away from 0
    eqf("step_epsilon", a.x.step_epsilon(), &{ let u = Q::pow2(lg(&a.q) - 127); if a.q.n.neg { a.q.sub(&u) } else { a.q.add(&u) } })
}
/// floor(log2 |q|)
fn lg(q: &Q) -> i64 { let k = q.n.m.bits() as i64 - q.d.bits() as i64; let a = q.abs(); if a.cmp(&Q::pow2(k)) == Ordering::Less { k - 1 } else { k } }
fn f_order(g: &mut G) -> R {
    let (a, b) = f2(g);
    let w = a.q.cmp(&b.q);
    eq("cmp", a.x.cmp(&b.x), w)?; eq("partial_cmp", a.x.partial_cmp(&b.x), Some(w))?;
    eq("==", a.x == b.x, w == Ordering::Equal)?; eq("<", a.x < b.x, w == Ordering::Less)?; eq(">=", a.x >= b.x, w != Ordering::Less)?;
    // far apart: the value does not fit a rational
    let (k, s) = (200 + g.small(1 << 40) as u64, g.bool());
    if !a.q.is_zero() && !b.q.is_zero() && !a.q.n.neg && !b.q.n.neg {
        let (big, tiny) = (a.x.shl(1000 + k), b.x.shr(1000 + k));
        eq("cmp far", if s { big.neg().cmp(&tiny.neg()) } else { big.cmp(&tiny) }, if s { Ordering::Less } else { Ordering::Greater })?;
        eq("far back", (big.shr(1000 + k) == a.x, tiny.shl(1000 + k) == b.x), (true, true))?;
    }
    Ok(())
}
macro_rules! back { ($x: expr, $q: expr, $($t: ty),*) => { $( {
    let k = $q.trunc().to_i128();
    let uns = <$t>::MIN == 0;
    let want: Option<$t> = if uns && $q.n.neg { None } else if <$t>::MAX as u128 == u128::MAX { $q.trunc().m.to_u128().map(|n| n as $t) } else { k.and_then(|k| <$t>::try_from(k).ok()) };
    eq(concat!("try_from ", stringify!($t)), <$t>::try_from($x).ok(), want)?;
} )* } }
fn f_ints(g: &mut G) -> R {
    let (u, i) = (g.u(128), g.i(128));
    eqf("from u128", F192::from(u), &Q::int(Z::nat(N::from(u))))?; eqf("from i128", F192::from(i), &Q::int(Z::from(i)))?;
    eq("back u128", u128::try_from(F192::from(u)), Ok(u))?; eq("back i128", i128::try_from(F192::from(i)), Ok(i))?;
    eqf("from u64", F192::from(u as u64), &Q::int(Z::from(u as u64 as i128)))?; eqf("from i64", F192::from(i as i64), &Q::int(Z::from(i as i64 as i128)))?;
    eqf("from u32", F192::from(u as u32), &Q::int(Z::from(u as u32 as i128)))?; eqf("from i32", F192::from(i as i32), &Q::int(Z::from(i as i32 as i128)))?;
    eqf("from u16", F192::from(u as u16), &Q::int(Z::from(u as u16 as i128)))?; eqf("from i16", F192::from(i as i16), &Q::int(Z::from(i as i16 as i128)))?;
    eqf("from u8", F192::from(u as u8), &Q::int(Z::from(u as u8 as i128)))?; eqf("from i8", F192::from(i as i8), &Q::int(Z::from(i as i8 as i128)))?;
    let a = if g.bool() { f(g) } else { let k = g.i(128); let s = g.small(140); build(k < 0, k.unsigned_abs(), -(s as i64)) };
    back!(a.x, a.q, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    Ok(())
}
fn f_floats(g: &mut G) -> R {
    let b = bits64(g);
    match (F192::try_from(f64::from_bits(b)), q_of(b, 52, 11)) { (Ok(x), Some(w)) => eqf("try_from f64", x, &w)?, (Err(_), None) => {} (x, w) => return Err(format!("try_from f64: got {:?}, expected {:?}", x, w)) }
    let b = bits32(g);
    match (F192::try_from(f32::from_bits(b)), q_of(b as u64, 23, 8)) { (Ok(x), Some(w)) => eqf("try_from f32", x, &w), (Err(_), None) => Ok(()), (x, w) => Err(format!("try_from f32: got {:?}, expected {:?}", x, w)) }
}
/// the nearest F192: the error is at most half a unit of the last digit
fn near(w: &str, got: &F192, q: &Q) -> R {
    let v = val(got)?;
    if q.is_zero() { return eq(w, v.is_zero(), true); }
    let err = v.sub(q).abs();
    if err.cmp(&Q::pow2(lg(q) - 128)) == Ordering::Greater { return Err(format!("{}: got {:?}/{:?} for {:?}/{:?}, not the nearest", w, v.n, v.d, q.n, q.d)); }
    Ok(())
}
fn f_ratio(g: &mut G) -> R {
    let a = f(g);
    eq("from(&Ratio) of an F192", F192::from(&ra(&a.q)) == a.x, true)?;
    let q = match g.below(4) {
        0 => { let h = Q::pow2(lg1(&a.q) - 128); let t = h.mul(&Q::pow2(-(g.below(80) as i64))); match g.below(3) { 0 => a.q.add(&h), 1 => a.q.add(&h).add(&t), _ => a.q.add(&h).sub(&t) } }
        1 => { let k = g.small(400) as i64 - 200; Q::pow2(k).sub(&Q::pow2(k - 120 - g.below(16) as i64)) }
        2 => g.qsmall(), _ => g.q() };
    let q = if g.bool() { q.neg() } else { q };
    g.push(Arg::Q(q.clone()));
    near("from(&Ratio)", &F192::from(&ra(&q)), &q)?;
    near("from(Ratio)", &F192::from(ra(&q)), &q)
}
fn lg1(q: &Q) -> i64 { if q.is_zero() { 0 } else { lg(q) } }
fn f_pow2(g: &mut G) -> R {
    let k = g.small(600) as i64 - 300;
    eqf("from_pow2", F192::from_pow2(k), &Q::pow2(k))?;
    let a = f(g);
    if a.q.is_zero() || a.q.n.neg { return Ok(()); }
    eqf("ilog2", a.x.ilog2(), &Q::int(Z::from(lg(&a.q) as i128)))
}
// ---------- C19
fn close(w: &str, got: &F192, q: &Q, bits: i64) -> R {
    let v = val(got)?;
    if v.sub(q).abs().cmp(&q.abs().mul(&Q::pow2(-bits))) == Ordering::Greater { return Err(format!("{}: got {:?}/{:?} for {:?}/{:?}: relative error above 2^-{}", w, v.n, v.d, q.n, q.d, bits)); }
    Ok(())
}
fn f_add(g: &mut G) -> R { let (a, b) = f2(g); close("add", &a.x.add(&b.x), &a.q.add(&b.q), 126)?; close("sub", &a.x.sub(&b.x), &a.q.sub(&b.q), 126) }
fn f_mul(g: &mut G) -> R { let (a, b) = f2(g); close("mul", &a.x.mul(&b.x), &a.q.mul(&b.q), 124) }
fn f_div(g: &mut G) -> R { let (a, b) = f2(g); if b.q.is_zero() { return panics("div by 0", || if a.q.is_zero() { panic!() } else { a.x.div(&b.x) }); } close("div", &a.x.div(&b.x), &a.q.div(&b.q), 120) }
fn f_i32(g: &mut G) -> R {
    let a = f(g); let k = g.i32(); let kq = Q::int(Z::from(k as i128));
    close("mul_i32", &a.x.mul_i32(k), &a.q.mul(&kq), 126)?;
    if k == 0 { return panics("div_i32(0)", || a.x.div_i32(0)); }
    close("div_i32", &a.x.div_i32(k), &a.q.div(&kq), 126)
}
fn f_floor(g: &mut G) -> R {
    let a = f(g);
    eqf("floor", a.x.floor(), &Q::int(a.q.floor()))?;
    eqf("ceil", a.x.ceil(), &Q::int(a.q.neg().floor().neg()))?;
    eqf("round", a.x.round(), &Q::int(a.q.round()))
}
