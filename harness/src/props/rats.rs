use super::*;
use hmath::{common_denom, inspect_ieee754_f32, inspect_ieee754_f64};

pub fn cases(p: &str) -> Vec<Case> {
    match p {
        "C12" => vec![("rnew", rnew), ("rnew_i32", rnew_i32), ("radd", radd), ("rsub", rsub), ("rmul", rmul), ("rdiv", rdiv), ("r_bi", r_bi), ("r_i32", r_i32), ("rpow", rpow), ("rneg", rneg), ("common", common), ("rzero", rzero), ("rhistory", rhistory), ("rconst", rconst)],
        "C13" => vec![("trunc", trunc), ("floor", floor), ("round", round), ("frac", frac)],
        "C14" => vec![("rparse", rparse), ("rreject", rreject), ("ratio_string", ratio_string)],
        "C21" => vec![("approx_string", approx_string), ("rsci", rsci), ("scientific", super::ints::scientific)],
        "C15" => vec![("from_f32", from_f32), ("from_f64", from_f64), ("to_f32", to_f32), ("to_f64", to_f64), ("to_f32_tie", to_f32_tie), ("to_f64_tie", to_f64_tie), ("int_float", int_float)],
        _ => vec![],
    }
}
// ---------- C12
fn rnew(g: &mut G) -> R {
    let (d, n) = g.z2();
    if d.is_zero() { return panics("denominator 0", || Ratio::from_denom_and_numer(bi(&d), bi(&n))); }
    let w = Q::new(n.clone(), d.clone());
    eqq("from_denom_and_numer", Ratio::from_denom_and_numer(bi(&d), bi(&n)), &w)?;
    eqq("try_from (d, n)", Ratio::try_from((bi(&d).to_string(), bi(&n).to_string())).map_err(|e| format!("{:?}", e))?, &w)?;
    let r = ra(&w);
    eqz("get_denom", r.get_denom(), &w.dz())?;
    eqz("get_numer", r.get_numer(), &w.n)?;
    eq("is_*", (r.is_neg(), r.is_zero(), r.is_one(), r.is_integer()), (w.n.neg, w.is_zero(), w == Q::int(Z::from(1)), w.d.is_one()))
}
fn rnew_i32(g: &mut G) -> R {
    let (d, n) = (g.i32(), g.i32());
    if d == 0 { return panics("denominator 0", || Ratio::from_denom_and_numer_i32(d, n)); }
    eqq("from_denom_and_numer_i32", Ratio::from_denom_and_numer_i32(d, n), &Q::new(Z::from(n as i128), Z::from(d as i128)))
}
fn radd(g: &mut G) -> R { let (a, b) = g.q2(); let w = a.add(&b); eqq("add", ra(&a).add(&ra(&b)), &w)?; eqq("add_mut", mutd(&ra(&a), |x| x.add_mut(&ra(&b))), &w) }
fn rsub(g: &mut G) -> R { let (a, b) = g.q2(); let w = a.sub(&b); eqq("sub", ra(&a).sub(&ra(&b)), &w)?; eqq("sub_mut", mutd(&ra(&a), |x| x.sub_mut(&ra(&b))), &w) }
fn rmul(g: &mut G) -> R { let (a, b) = g.q2(); let w = a.mul(&b); eqq("mul", ra(&a).mul(&ra(&b)), &w)?; eqq("mul_mut", mutd(&ra(&a), |x| x.mul_mut(&ra(&b))), &w) }
fn rdiv(g: &mut G) -> R {
    let (a, b) = g.q2();
    if b.is_zero() { return Ok(()); }
    let w = a.div(&b); eqq("div", ra(&a).div(&ra(&b)), &w)?; eqq("div_mut", mutd(&ra(&a), |x| x.div_mut(&ra(&b))), &w)
}
fn r_bi(g: &mut G) -> R {
    let a = g.q();
    let k = match g.below(6) { 0 => a.n.clone(), 1 => a.dz(), 2 => a.n.neg(), 3 => { let x = g.z(); a.dz().mul(&x) } _ => g.z() };
    g.push(Arg::Z(k.clone()));
    let (x, y, kq) = (ra(&a), bi(&k), Q::int(k.clone()));
    eqq("add_bi", x.add_bi(&y), &a.add(&kq))?; eqq("add_bi_mut", mutd(&x, |x| x.add_bi_mut(&y)), &a.add(&kq))?;
    eqq("sub_bi", x.sub_bi(&y), &a.sub(&kq))?; eqq("sub_bi_mut", mutd(&x, |x| x.sub_bi_mut(&y)), &a.sub(&kq))?;
    eqq("mul_bi", x.mul_bi(&y), &a.mul(&kq))?; eqq("mul_bi_mut", mutd(&x, |x| x.mul_bi_mut(&y)), &a.mul(&kq))?;
    if k.is_zero() { return Ok(()); }
    eqq("div_bi", x.div_bi(&y), &a.div(&kq))?; eqq("div_bi_mut", mutd(&x, |x| x.div_bi_mut(&y)), &a.div(&kq))
}
fn r_i32(g: &mut G) -> R {
    let a = g.q();
    let k = g.i32();
    let (x, kq) = (ra(&a), Q::int(Z::from(k as i128)));
    eqq("add_i32", x.add_i32(k), &a.add(&kq))?; eqq("add_i32_mut", mutd(&x, |x| x.add_i32_mut(k)), &a.add(&kq))?;
    eqq("sub_i32", x.sub_i32(k), &a.sub(&kq))?; eqq("sub_i32_mut", mutd(&x, |x| x.sub_i32_mut(k)), &a.sub(&kq))?;
    eqq("mul_i32", x.mul_i32(k), &a.mul(&kq))?; eqq("mul_i32_mut", mutd(&x, |x| x.mul_i32_mut(k)), &a.mul(&kq))?;
    if k == 0 { return Ok(()); }
    eqq("div_i32", x.div_i32(k), &a.div(&kq))?; eqq("div_i32_mut", mutd(&x, |x| x.div_i32_mut(k)), &a.div(&kq))
}
fn rpow(g: &mut G) -> R {
    let a = g.qsmall();
    let lim = (1500 / (a.n.m.bits() + a.d.bits() + 1)).max(2);
    let e = g.small(2 * lim) as i32 - lim as i32;
    if a.is_zero() && e < 0 { return Ok(()); }
    let w = a.powi(e);
    eqq("pow_i32", ra(&a).pow_i32(e), &w)?;
    eqq("pow_i32_mut", mutd(&ra(&a), |x| x.pow_i32_mut(e)), &w)?;
    let e = g.i32();
    eqq("1.pow_i32", Ratio::one().pow_i32(e), &Q::int(Z::from(1)))
}
fn rneg(g: &mut G) -> R {
    let a = g.q(); let x = ra(&a);
    eqq("neg", x.neg(), &a.neg())?; eqq("neg_mut", mutd(&x, |x| x.neg_mut()), &a.neg())?;
    eqq("abs", x.abs(), &a.abs())?; eqq("abs_mut", mutd(&x, |x| x.abs_mut()), &a.abs())?;
    if a.is_zero() { return panics("reci of 0", || x.reci()); }
    eqq("reci", x.reci(), &a.inv())?; eqq("reci_mut", mutd(&x, |x| x.reci_mut()), &a.inv())
}
fn common(g: &mut G) -> R {
    let (a, b) = g.q2();
    let (v1, v2, v3) = common_denom(&ra(&a), &ra(&b));
    let (v1, v2, v3) = (bz(v1)?, bz(v2)?, bz(v3)?);
    if v3.neg || v3.is_zero() || Q::new(v1.clone(), v3.clone()) != a || Q::new(v2.clone(), v3.clone()) != b { return Err(format!("common_denom: {:?} {:?} {:?}", v1, v2, v3)); }
    // least common denominator
    let l = a.d.mul(&b.d).divrem(&a.d.gcd(&b.d)).0;
    eq("least common denominator", v3.m, l)
}
fn rzero(g: &mut G) -> R {
    let a = g.q(); let x = ra(&a);
    panics("div by 0", || x.div(&Ratio::zero()))?;
    panics("div_mut by 0", || mutd(&x, |x| x.div_mut(&Ratio::zero())))?;
    panics("div_i32 by 0", || x.div_i32(0))?;
    panics("div_bi by 0", || x.div_bi(&BigInt::zero()))?;
    panics("0^-1", || Ratio::zero().pow_i32(-1))
}
fn rconst(_g: &mut G) -> R {
    eqq("zero", Ratio::zero(), &Q::int(Z::from(0)))?; eqq("one", Ratio::one(), &Q::int(Z::from(1)))?; eqq("default", Ratio::default(), &Q::int(Z::from(0)))
}
fn rhistory(g: &mut G) -> R {
    g.big = 4;
    let (mut va, mut vb) = g.q2();
    let (mut a, mut b) = (ra(&va), ra(&vb));
    for _ in 0..2 + g.below(6) {
        let k = g.below(9);
        g.push(Arg::I(k as i128));
        let (r, w) = match k {
            0 => (a.add(&b), va.add(&vb)), 1 => (a.sub(&b), va.sub(&vb)), 2 => (a.mul(&b), va.mul(&vb)),
            3 => if vb.is_zero() { (a.neg(), va.neg()) } else { (a.div(&b), va.div(&vb)) },
            4 => (a.frac(), va.sub(&Q::int(va.trunc()))),
            5 => if va.is_zero() { (a.abs(), va.abs()) } else { (a.reci(), va.inv()) },
            6 => (mutd(&a, |x| x.sub_mut(&b)), va.sub(&vb)),
            7 => { let k = g.i32(); (a.mul_i32(k), va.mul(&Q::int(Z::from(k as i128)))) }
            _ => (mutd(&a, |x| x.add_mut(&b)), va.add(&vb)),
        };
        eqq(&format!("history step {}", k), r.clone(), &w)?;
        let o = ra(&w);
        if r != o || hash(&r) != hash(&o) || !r.eq(&o) { return Err(format!("history step {}: equality or hash disagrees with the value {:?}", k, w)); }
        if w.n.m.0.len() + w.d.0.len() > 60 { return Ok(()); }
        if g.bool() { a = r; va = w; } else { b = r; vb = w; }
    }
    Ok(())
}
// ---------- C13
fn half(g: &mut G) -> Q {
    if g.bool() { return g.q(); }
    // around integers and half integers
    let z = if g.bool() { g.z() } else { Z::from(g.below(9) as i128 - 4) };
    let e = match g.below(4) { 0 => Q::int(Z::from(0)), 1 => Q::new(Z::from(1), Z::nat(g.nat().add(&N::from(1)))), 2 => Q::new(Z::from(-1), Z::nat(g.nat().add(&N::from(1)))), _ => Q::int(Z::from(0)) };
    let h = match g.below(3) { 0 => Q::new(Z::from(1), Z::from(2)), 1 => Q::new(Z::from(-1), Z::from(2)), _ => Q::int(Z::from(0)) };
    let q = Q::int(z).add(&h).add(&e);
    g.push(Arg::Q(q.clone())); q
}
fn trunc(g: &mut G) -> R {
    let a = half(g); let x = ra(&a); let t = a.trunc();
    eqz("truncate_bi", x.truncate_bi(), &t)?; eqq("truncate", x.truncate(), &Q::int(t.clone()))?; eqq("truncate_mut", mutd(&x, |x| x.truncate_mut()), &Q::int(t))
}
fn floor(g: &mut G) -> R { let a = half(g); eqz("floor_bi", ra(&a).floor_bi(), &a.floor())?; eqq("floor", ra(&a).floor(), &Q::int(a.floor())) }
fn round(g: &mut G) -> R { let a = half(g); eqz("round_bi", ra(&a).round_bi(), &a.round())?; eqq("round", ra(&a).round(), &Q::int(a.round())) }
fn frac(g: &mut G) -> R {
    let a = half(g); let x = ra(&a); let w = a.sub(&Q::int(a.trunc()));
    eqq("frac", x.frac(), &w)?; eqq("frac_mut", mutd(&x, |x| x.frac_mut()), &w)?;
    let (t, f) = x.truncate_and_frac();
    eqz("truncate_and_frac.0", t, &a.trunc())?; eqq("truncate_and_frac.1", f, &w)
}
// ---------- C14
fn digits(g: &mut G, n: usize, first_nz: bool) -> String {
    let mut s = String::new();
    for i in 0..n { let d = if first_nz && i == 0 { 1 + g.below(9) } else if g.coin(3) { 0 } else { g.below(10) }; s.push((b'0' + d as u8) as char); if g.coin(12) { s.push('_'); } }
    s
}
fn rparse(g: &mut G) -> R {
    let neg = g.bool();
    let il = if g.coin(4) { 40 } else { 6 }; let il = 1 + g.below(il);
    let ip = if g.coin(3) { "0".to_string() } else { digits(g, il, true) };
    let mut s = format!("{}{}", if neg { "-" } else { "" }, ip);
    let mut m = N::parse(&ip.replace('_', ""), 10);
    let mut e = 0i64;
    if g.coin(4) {
        // integer literals of every base
        let n = g.nat();
        let b = [16, 8, 2][g.below(3)];
        let s = g.str(format!("{}{}{}", if neg { "-" } else { "" }, match b { 16 => "0x", 8 => "0o", _ => "0b" }, n.radix(b)));
        return eqq("from_string", Ratio::from_string(&s).map_err(|x| format!("from_string({}): {:?}", s, x))?, &Q::int(Z::new(neg, n)));
    }
    if g.bool() {
        let fl = if g.coin(4) { 40 } else { 8 }; let fl = g.below(fl);
        let f = digits(g, fl, false);
        s.push('.'); s.push_str(&f);
        for c in f.chars().filter(|c| *c != '_') { m = m.mul(&N::from(10)).add(&N::from(c.to_digit(10).unwrap() as u128)); e -= 1; }
    }
    if g.bool() {
        let x = if g.coin(6) { 400 } else { 25 }; let x = g.small(x) as i64;
        let n = g.bool();
        s.push(if g.bool() { 'e' } else { 'E' });
        s.push_str(&format!("{}{}", if n { "-" } else { "" }, x));
        e += if n { -x } else { x };
    }
    let s = g.str(s);
    let z = Z::new(neg, m);
    let w = if e >= 0 { Q::int(z.mul(&Z::nat(N::from(10).pow(e as u32)))) } else { Q::new(z, Z::nat(N::from(10).pow((-e) as u32))) };
    eqq("from_string", Ratio::from_string(&s).map_err(|x| format!("from_string({}): {:?}", s, x))?, &w)?;
    eqq("parse", s.parse::<Ratio>().map_err(|x| format!("parse({}): {:?}", s, x))?, &w)?;
    eqq("try_from &str", Ratio::try_from(s.as_str()).map_err(|x| format!("{:?}", x))?, &w)
}
fn rreject(g: &mut G) -> R {
    let a = digits(g, 3, true).replace('_', "");
    let s = match g.below(16) {
        0 => String::new(), 1 => format!("{}.{}.{}", a, a, a), 2 => format!("{}e", a), 3 => format!("e{}", a), 4 => format!("{}e{}.5", a, a), 5 => format!("{}.5e", a),
        6 => format!(".{}", a), 7 => format!("-.{}", a), 8 => "-".into(), 9 => format!("{}x", a), 10 => format!("{}.5z", a), 11 => format!("0x{}.5", a), 12 => format!("0b1e5"), 13 => format!("{}e5e5", a), 14 => format!(" {}", a), _ => format!("--{}", a),
    };
    let s = g.str(s);
    match Ratio::from_string(&s) { Err(_) => Ok(()), Ok(v) => Err(format!("from_string({:?}) accepted as {}", s, v.to_ratio_string())) }
}
fn ratio_string(g: &mut G) -> R {
    let a = g.q();
    let w = if a.d.is_one() { a.n.dec() } else { format!("{}/{}", a.n.dec(), a.d.radix(10)) };
    eq("to_ratio_string", ra(&a).to_ratio_string(), w)
}
/// value of a decimal literal and its number of significant digits
fn dec(s: &str) -> Option<(Q, usize)> {
    let (s, neg) = match s.strip_prefix('-') { Some(t) => (t, true), None => (s, false) };
    let (m, e) = match s.split_once('e') { Some((m, e)) => (m, e.parse::<i64>().ok()?), None => (s, 0) };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if i.is_empty() || !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) || (m.contains('.') && f.is_empty()) { return None; }
    let n = N::parse(&format!("{}{}", i, f), 10);
    let e = e - f.len() as i64;
    let q = if e >= 0 { Q::int(Z::nat(n.mul(&N::from(10).pow(e as u32)))) } else { Q::new(Z::nat(n), Z::nat(N::from(10).pow((-e) as u32))) };
    Some((if neg { q.neg() } else { q }, 0))
}
fn p10(e: i64) -> Q { if e >= 0 { Q::int(Z::nat(N::from(10).pow(e as u32))) } else { Q { n: Z::from(1), d: N::from(10).pow((-e) as u32) } } }
fn approx_string(g: &mut G) -> R {
    let mut a = g.q();
    if g.coin(3) { let k = g.small(120) as i64 - 60; a = a.mul(&p10(k)); g.push(Arg::Q(a.clone())); }
    let max = g.small(30);
    let s = ra(&a).to_approx_string(max);
    let (v, _) = dec(&s).ok_or(format!("to_approx_string({}) = {:?} is not a decimal literal", max, s))?;
    let ml = max.max(6);
    let elen = s.find('e').map_or(0, |i| s.len() - i);
    let ml = if elen > 0 { ml.max(elen + 3) } else { ml };
    let sl = a.n.neg as usize;
    if s.len() > ml.max(sl + a.trunc().m.radix(10).len()) { return Err(format!("to_approx_string({}) = {:?}: too long", max, s)); }
    // truncation toward zero of the exact value at the last place that fits
    let tol = if elen > 0 {
        // around 1e-7 the code keeps three digits only
        let near = a.abs().cmp(&p10(-5)) == Ordering::Less && a.abs().cmp(&p10(-9)) == Ordering::Greater;
        let d = (ml - elen - sl - 1).clamp(1, if near { 3 } else { 8 }) as i64;
        a.abs().mul(&p10(1 - d))
    } else {
        let fd = (ml as i64 - a.trunc().m.radix(10).len() as i64 - 1 - sl as i64).max(0);
        p10(-fd)
    };
    let diff = a.abs().sub(&v.abs());
    if diff.n.neg || diff.cmp(&tol) == Ordering::Greater || (!v.is_zero() && v.n.neg != a.n.neg) { return Err(format!("to_approx_string({}) = {:?}: error {:?} over {:?}", max, s, diff, tol)); }
    eq("Display", format!("{}", ra(&a)), ra(&a).to_approx_string(12))
}
fn rsci(g: &mut G) -> R {
    let mut a = g.q();
    if g.coin(3) { let k = g.small(120) as i64 - 60; a = a.mul(&p10(k)); g.push(Arg::Q(a.clone())); }
    let k = 1 + g.small(9);
    let s = ra(&a).to_scientific_notation(k);
    let (v, _) = dec(&s).ok_or(format!("to_scientific_notation({}) = {:?} is not a decimal literal", k, s))?;
    let tol = a.abs().mul(&p10(1 - k as i64)).add(&a.abs().mul(&p10(-12)));
    let diff = a.sub(&v).abs();
    if diff.cmp(&tol) == Ordering::Greater { return Err(format!("to_scientific_notation({}) = {:?}: error {:?}", k, s, diff)); }
    Ok(())
}
// ---------- C15
pub fn q_of(bits: u64, mant: u32, ebits: u32) -> Option<Q> {
    let neg = (bits >> (mant + ebits)) & 1 == 1;
    let e = (bits >> mant) & ((1 << ebits) - 1);
    let f = bits & ((1 << mant) - 1);
    let bias = (1i64 << (ebits - 1)) - 1;
    if e == (1 << ebits) - 1 { return None; }
    let (m, x) = if e == 0 { (f, 1 - bias - mant as i64) } else { (f | 1 << mant, e as i64 - bias - mant as i64) };
    Some(Q::int(Z::new(neg, N::from(m as u128))).mul(&Q::pow2(x)))
}
pub fn bits32(g: &mut G) -> u32 {
    let e = match g.below(6) { 0 => 0, 1 => 255, 2 => 254, 3 => g.below(30) as u32, _ => g.below(256) as u32 };
    let m = match g.below(5) { 0 => 0, 1 => (1 << 23) - 1, 2 => 1 << g.below(23), 3 => g.below(8) as u32, _ => g.u64() as u32 & 0x7f_ffff };
    let b = (g.below(2) as u32) << 31 | e << 23 | m;
    g.push(Arg::I(b as i128)); b
}
pub fn bits64(g: &mut G) -> u64 {
    let e = match g.below(6) { 0 => 0, 1 => 2047, 2 => 2046, 3 => g.below(60) as u64, 4 => 1023 + g.below(130) as u64 - 65, _ => g.below(2048) as u64 };
    let m = match g.below(5) { 0 => 0, 1 => (1 << 52) - 1, 2 => 1 << g.below(52), 3 => g.below(8) as u64, _ => g.u64() & ((1 << 52) - 1) };
    let b = (g.below(2) as u64) << 63 | e << 52 | m;
    g.push(Arg::I(b as i128)); b
}
fn from_f32(g: &mut G) -> R {
    let b = bits32(g); let x = f32::from_bits(b);
    match (Ratio::from_ieee754_f32(x), q_of(b as u64, 23, 8)) {
        (Ok(r), Some(w)) => { eqq("from_ieee754_f32", r.clone(), &w)?; eqq("try_from f32", Ratio::try_from(x).map_err(|e| format!("{:?}", e))?, &w)?;
            if w.is_zero() { return eq("inspect 0", inspect_ieee754_f32(x).ok(), Some((false, i32::MIN, 0))); }
            let (n, e, f) = inspect_ieee754_f32(x).map_err(|e| format!("inspect: {:?}", e))?;
            eq("inspect_ieee754_f32", f < 1 << 23 && Q::int(Z::new(n, N::from((f as u128) + (1 << 23)))).mul(&Q::pow2(e as i64 - 23)) == w, true)?;
            // exact round trip
            let back = r.to_ieee754_f32().map_err(|e| format!("round trip: {:?}", e))?;
            eq("round trip", back.to_bits(), b)?;
            eqz("BigInt::try_from f32", BigInt::try_from(x).map_err(|e| format!("{:?}", e))?, &w.trunc()) }
        (Err(e), None) => { let w = if x.is_nan() { "NotANumber" } else if x > 0.0 { "Infinity" } else { "NegInfinity" }; eq("error", format!("{:?}", e), w.to_string())?; eq("inspect error", inspect_ieee754_f32(x).is_err() && BigInt::try_from(x).is_err(), true) }
        (r, w) => Err(format!("from_ieee754_f32: got {:?}, expected {:?}", r, w)),
    }
}
fn from_f64(g: &mut G) -> R {
    let b = bits64(g); let x = f64::from_bits(b);
    match (Ratio::from_ieee754_f64(x), q_of(b, 52, 11)) {
        (Ok(r), Some(w)) => { eqq("from_ieee754_f64", r.clone(), &w)?; eqq("try_from f64", Ratio::try_from(x).map_err(|e| format!("{:?}", e))?, &w)?;
            if w.is_zero() { return eq("inspect 0", inspect_ieee754_f64(x).ok(), Some((false, i32::MIN, 0))); }
            let (n, e, f) = inspect_ieee754_f64(x).map_err(|e| format!("inspect: {:?}", e))?;
            eq("inspect_ieee754_f64", f < 1 << 52 && Q::int(Z::new(n, N::from((f as u128) + (1 << 52)))).mul(&Q::pow2(e as i64 - 52)) == w, true)?;
            let back = r.to_ieee754_f64().map_err(|e| format!("round trip: {:?}", e))?;
            eq("round trip", back.to_bits(), b)?;
            eqz("BigInt::try_from f64", BigInt::try_from(x).map_err(|e| format!("{:?}", e))?, &w.trunc()) }
        (Err(e), None) => { let w = if x.is_nan() { "NotANumber" } else if x > 0.0 { "Infinity" } else { "NegInfinity" }; eq("error", format!("{:?}", e), w.to_string())?; eq("inspect error", inspect_ieee754_f64(x).is_err() && BigInt::try_from(x).is_err(), true) }
        (r, w) => Err(format!("from_ieee754_f64: got {:?}, expected {:?}", r, w)),
    }
}
/// nearest, a tie may go either way; overflow is an error
pub fn nearest(w: &str, x: &Q, got: Option<u64>, mant: u32, ebits: u32) -> R {
    let inf = ((1u64 << ebits) - 1) << mant;
    let max = q_of(inf - 1, mant, ebits).unwrap();
    let gap = max.sub(&q_of(inf - 2, mant, ebits).unwrap());
    let half = Q::new(Z::from(1), Z::from(2));
    let over = max.add(&gap.mul(&half));
    match got {
        None => if x.abs().cmp(&over) == Ordering::Less { Err(format!("{}: reported an error for a value in range", w)) } else { Ok(()) },
        Some(b) => {
            let m = b & ((1 << (mant + ebits)) - 1);
            let neg = b >> (mant + ebits) & 1 == 1;
            if m >= inf { return Err(format!("{}: not finite ({:#x})", w, b)); }
            if m != 0 && neg != x.n.neg { return Err(format!("{}: wrong sign ({:#x})", w, b)); }
            let v = q_of(m, mant, ebits).unwrap();
            let a = x.abs();
            let d = a.sub(&v).abs();
            if m > 0 && d.cmp(&a.sub(&q_of(m - 1, mant, ebits).unwrap()).abs()) == Ordering::Greater { return Err(format!("{}: {:#x} is not the nearest float (the one below is closer)", w, b)); }
            let up = if m + 1 == inf { max.add(&gap) } else { q_of(m + 1, mant, ebits).unwrap() };
            if d.cmp(&a.sub(&up).abs()) == Ordering::Greater { return Err(format!("{}: {:#x} is not the nearest float (the one above is closer)", w, b)); }
            Ok(())
        }
    }
}
fn t32(q: &Q) -> R { let r = ra(q); nearest("to_ieee754_f32", q, r.to_ieee754_f32().ok().map(|x| x.to_bits() as u64), 23, 8)?; nearest("f32::try_from", q, f32::try_from(&r).ok().map(|x| x.to_bits() as u64), 23, 8) }
fn t64(q: &Q) -> R { let r = ra(q); nearest("to_ieee754_f64", q, r.to_ieee754_f64().ok().map(|x| x.to_bits()), 52, 11)?; nearest("f64::try_from", q, f64::try_from(&r).ok().map(|x| x.to_bits()), 52, 11) }
fn to_f32(g: &mut G) -> R { let mut q = g.q(); if g.bool() { let k = g.small(340) as i64 - 170; q = q.mul(&Q::pow2(k)); g.push(Arg::Q(q.clone())); } t32(&q) }
fn to_f64(g: &mut G) -> R { let mut q = g.q(); if g.bool() { let k = g.small(2200) as i64 - 1100; q = q.mul(&Q::pow2(k)); g.push(Arg::Q(q.clone())); } t64(&q) }
fn tie(g: &mut G, b: u64, mant: u32, ebits: u32) -> Option<Q> {
    let a = q_of(b, mant, ebits)?; let c = q_of(b ^ 1, mant, ebits)?;
    let mid = a.add(&c).mul(&Q::new(Z::from(1), Z::from(2)));
    let ulp = a.sub(&c).abs();
    let q = match g.below(4) { 0 => mid, 1 => mid.add(&ulp.mul(&Q::pow2(-60))), 2 => mid.sub(&ulp.mul(&Q::pow2(-60))), _ => { let n = g.nat().add(&N::from(3)); a.add(&ulp.mul(&Q::new(Z::from(1), Z::nat(n)))) } };
    g.push(Arg::Q(q.clone())); Some(q)
}
fn to_f32_tie(g: &mut G) -> R { let b = bits32(g); match tie(g, b as u64, 23, 8) { Some(q) => t32(&q), None => Ok(()) } }
fn to_f64_tie(g: &mut G) -> R { let b = bits64(g); match tie(g, b, 52, 11) { Some(q) => t64(&q), None => Ok(()) } }
fn int_float(g: &mut G) -> R {
    let z = g.z();
    let q = Q::int(z.clone());
    nearest("f64::try_from &BigInt", &q, f64::try_from(&bi(&z)).ok().map(|x| x.to_bits()), 52, 11)?;
    nearest("f32::try_from &BigInt", &q, f32::try_from(&bi(&z)).ok().map(|x| x.to_bits() as u64), 23, 8)?;
    if !z.neg {
        nearest("f64::try_from &UBigInt", &q, f64::try_from(&ub(&z.m)).ok().map(|x| x.to_bits()), 52, 11)?;
        nearest("f32::try_from &UBigInt", &q, f32::try_from(&ub(&z.m)).ok().map(|x| x.to_bits() as u64), 23, 8)?;
    }
    Ok(())
}
