use super::*;
use hmath::{gcd_bi, gcd_ubi};

pub fn cases(p: &str) -> Vec<Case> {
    match p {
        "C01" => vec![("add", add), ("add_u32", add_u32), ("sub", sub), ("sub_u32", sub_u32), ("abs_diff", abs_diff), ("sum", sum)],
        "C02" => vec![("mul", mul), ("mul_u32", mul_u32), ("pow", pow), ("pow2", pow2), ("shift", shift), ("product", product)],
        "C03" => vec![("div_rem", div_rem), ("div_rem_u32", div_rem_u32), ("rem_pow2", rem_pow2), ("div_zero", div_zero), ("div_big", div_big)],
        "C04" => vec![("history", history), ("bhistory", bhistory), ("eq_hash", eq_hash), ("constructors", constructors)],
        "C05" => vec![("cmp_ubig", cmp_ubig), ("cmp_u32", cmp_u32), ("cmp_big", cmp_big), ("cmp_i32", cmp_i32), ("cmp_ratio", cmp_ratio), ("cmp_ratio_i32", cmp_ratio_i32)],
        "C06" => vec![("from_prim", from_prim), ("to_prim_u", to_prim_u), ("to_prim_i", to_prim_i), ("neg_to_u", neg_to_u), ("ratio_int", ratio_int), ("big_ubig", big_ubig)],
        "C07" => vec![("to_string", to_string), ("btos", btos), ("parse", parse), ("parse_big", parse_big), ("reject", reject)],
        "C08" => vec![("sqrt", sqrt), ("sqrt64", sqrt64), ("bsqrt", bsqrt)],
        "C09" => vec![("gcd", gcd), ("bgcd", bgcd), ("gcd_i32", gcd_i32), ("is_prime", is_prime), ("factorise", factorise)],
        "C10" => vec![("factorial", factorial), ("fibonacci", fibonacci), ("log2", log2), ("exp2", exp2), ("log2_accurate", log2_accurate)],
        "C11" => vec![("badd", badd), ("bsub", bsub), ("bmul", bmul), ("bdivrem", bdivrem), ("badd_i32", badd_i32), ("bsub_i32", bsub_i32), ("bmul_i32", bmul_i32), ("bdivrem_i32", bdivrem_i32), ("bpow", bpow), ("bneg_abs", bneg_abs), ("bshift", bshift), ("brem_pow2", brem_pow2), ("bdiv_zero", bdiv_zero)],
        _ => vec![],
    }
}

// ---------- C01
fn add(g: &mut G) -> R {
    if g.coin(6) { g.big = 60; }
    let (a, b) = g.nat2();
    let w = a.add(&b);
    eqn("add", ub(&a).add(&ub(&b)), &w)?;
    eqn("add_mut", mutd(&ub(&a), |x| x.add_mut(&ub(&b))), &w)
}
fn add_u32(g: &mut G) -> R {
    if g.coin(6) { g.big = 60; }
    let a = g.nat(); let k = g.u32();
    let w = a.add(&N::from(k as u128));
    eqn("add_u32", ub(&a).add_u32(k), &w)?;
    eqn("add_u32_mut", mutd(&ub(&a), |x| x.add_u32_mut(k)), &w)
}
fn sub(g: &mut G) -> R {
    if g.coin(6) { g.big = 60; }
    let (a, b) = g.nat2();
    if a.lt(&b) {
        panics("sub with overflow", || ub(&a).sub(&ub(&b)))?;
        panics("sub_mut with overflow", || mutd(&ub(&a), |x| x.sub_mut(&ub(&b))))?;
    }
    let (a, b) = if a.lt(&b) { (b, a) } else { (a, b) };
    let w = a.sub(&b);
    eqn("sub", ub(&a).sub(&ub(&b)), &w)?;
    eqn("sub_mut", mutd(&ub(&a), |x| x.sub_mut(&ub(&b))), &w)
}
fn sub_u32(g: &mut G) -> R {
    if g.coin(6) { g.big = 60; }
    let a = g.nat(); let k = g.u32();
    let kn = N::from(k as u128);
    if a.lt(&kn) {
        panics("sub_u32 with overflow", || ub(&a).sub_u32(k))?;
        panics("sub_u32_mut with overflow", || mutd(&ub(&a), |x| x.sub_u32_mut(k)))
    } else {
        let w = a.sub(&kn);
        eqn("sub_u32", ub(&a).sub_u32(k), &w)?;
        eqn("sub_u32_mut", mutd(&ub(&a), |x| x.sub_u32_mut(k)), &w)
    }
}
fn abs_diff(g: &mut G) -> R {
    let (a, b) = g.nat2();
    let w = if a.lt(&b) { b.sub(&a) } else { a.sub(&b) };
    eqn("abs_diff", ub(&a).abs_diff(&ub(&b)), &w)?;
    let k = g.u32(); let kn = N::from(k as u128);
    let w = if a.lt(&kn) { kn.sub(&a) } else { a.sub(&kn) };
    eqn("abs_diff_u32", ub(&a).abs_diff_u32(k), &w)
}
fn sum(g: &mut G) -> R {
    let n = g.below(6);
    let v: Vec<N> = (0..n).map(|_| g.nat()).collect();
    let w = v.iter().fold(N::zero(), |s, x| s.add(x));
    eqn("Sum", v.iter().map(ub).sum(), &w)
}
// ---------- C02
fn mul(g: &mut G) -> R {
    g.big = if g.coin(20) { 100 } else { 20 };
    let (a, b) = g.nat2();
    let w = a.mul(&b);
    eqn("mul", ub(&a).mul(&ub(&b)), &w)?;
    eqn("mul_mut", mutd(&ub(&a), |x| x.mul_mut(&ub(&b))), &w)
}
fn mul_u32(g: &mut G) -> R {
    let a = g.nat(); let k = g.u32();
    let w = a.mul(&N::from(k as u128));
    eqn("mul_u32", ub(&a).mul_u32(k), &w)?;
    eqn("mul_u32_mut", mutd(&ub(&a), |x| x.mul_u32_mut(k)), &w)
}
fn pow(g: &mut G) -> R {
    g.big = 4;
    let a = g.nat();
    let lim = (6000 / (a.bits() + 1)).max(2);
    let e = g.small(lim) as u32;
    let w = a.pow(e);
    eqn("pow_u32", ub(&a).pow_u32(e), &w)?;
    eqn("pow_u32_mut", mutd(&ub(&a), |x| x.pow_u32_mut(e)), &w)?;
    let e = g.u32();
    // 0 and 1 have every power
    eqn("0.pow_u32", UBigInt::zero().pow_u32(e), &if e == 0 { N::from(1) } else { N::zero() })?;
    eqn("1.pow_u32", UBigInt::one().pow_u32(e), &N::from(1))
}
fn pow2(g: &mut G) -> R {
    let e = g.small(4000) as u32;
    eqn("pow2", UBigInt::pow2(e), &N::from(1).shl(e as usize))?;
    let a = g.nat();
    let w = a.shl(e as usize);
    eqn("mul_pow2", ub(&a).mul_pow2(e), &w)?;
    eqn("mul_pow2_mut", mutd(&ub(&a), |x| x.mul_pow2_mut(e)), &w)
}
fn shift(g: &mut G) -> R {
    let a = g.nat();
    let len = a.raw().len();
    let n = g.small(len + 4);
    eqn("shift_right", ub(&a).shift_right(n), &a.shr(32 * n))?;
    eqn("shift_right_mut", mutd(&ub(&a), |x| x.shift_right_mut(n)), &a.shr(32 * n))?;
    eqn("shift_left", ub(&a).shift_left(n), &a.shl(32 * n))?;
    eqn("shift_left_mut", mutd(&ub(&a), |x| x.shift_left_mut(n)), &a.shl(32 * n))?;
    if n <= len {
        eqn("slice_right", ub(&a).slice_right(n), &a.low_bits(32 * n))?;
        eqn("slice_right_mut", mutd(&ub(&a), |x| x.slice_right_mut(n)), &a.low_bits(32 * n))?;
    }
    Ok(())
}
fn product(g: &mut G) -> R {
    let n = g.below(5);
    let v: Vec<N> = (0..n).map(|_| g.nat()).collect();
    let w = v.iter().fold(N::from(1), |s, x| s.mul(x));
    eqn("Product", v.iter().map(ub).product(), &w)
}
// ---------- C03
fn dr(a: &N, b: &N) -> R {
    let (q, r) = (un(ub(a).div(&ub(b)))?, un(ub(a).rem(&ub(b)))?);
    if &q.mul(b).add(&r) != a || !r.lt(b) { return Err(format!("div/rem: quotient {:?} remainder {:?}", q, r)); }
    eqn("div_mut", mutd(&ub(a), |x| x.div_mut(&ub(b))), &q)?;
    eqn("rem_mut", mutd(&ub(a), |x| x.rem_mut(&ub(b))), &r)
}
fn div_rem(g: &mut G) -> R {
    g.big = 16;
    let (a, b) = g.nat2();
    if b.is_zero() { return Ok(()); }
    dr(&a, &b)
}
// quotients near powers of the base: the hard cases of long division
fn div_big(g: &mut G) -> R {
    g.big = 20;
    let b = g.pos();
    let q = g.nat();
    let r = match g.below(4) { 0 => N::zero(), 1 => b.sub(&N::from(1)), 2 => N::from(1), _ => { let x = g.nat(); x.divrem(&b).1 } };
    if !r.lt(&b) { return Ok(()); }
    let a = q.mul(&b).add(&r);
    g.push(Arg::N(a.clone()));
    eqn("div", ub(&a).div(&ub(&b)), &q)?;
    eqn("rem", ub(&a).rem(&ub(&b)), &r)
}
fn div_rem_u32(g: &mut G) -> R {
    let a = g.nat(); let k = g.u32();
    if k == 0 { return Ok(()); }
    let (q, r) = a.divrem_small(k);
    let r = N::from(r as u128);
    eqn("div_u32", ub(&a).div_u32(k), &q)?;
    eqn("div_u32_mut", mutd(&ub(&a), |x| x.div_u32_mut(k)), &q)?;
    eqn("rem_u32", ub(&a).rem_u32(k), &r)?;
    eqn("rem_u32_mut", mutd(&ub(&a), |x| x.rem_u32_mut(k)), &r)
}
fn rem_pow2(g: &mut G) -> R {
    let a = g.nat(); let k = g.small(32);
    eqn("rem_pow2", ub(&a).rem_pow2(1 << k), &a.low_bits(k))
}
fn div_zero(g: &mut G) -> R {
    let a = g.nat();
    panics("div by zero", || ub(&a).div(&UBigInt::zero()))?;
    panics("div_u32 by zero", || ub(&a).div_u32(0))?;
    panics("div_mut by zero", || mutd(&ub(&a), |x| x.div_mut(&UBigInt::zero())))?;
    panics("rem by zero", || ub(&a).rem(&UBigInt::zero()))
}
// ---------- C04
fn step(g: &mut G, k: usize, a: &UBigInt, va: &N, b: &UBigInt, vb: &N) -> (UBigInt, N, &'static str) {
    match k {
        0 => (a.add(b), va.add(vb), "add"),
        1 => (a.abs_diff(b), if va.lt(vb) { vb.sub(va) } else { va.sub(vb) }, "abs_diff"),
        2 => if va.0.len() + vb.0.len() < 60 { (a.mul(b), va.mul(vb), "mul") } else { (a.shift_right(20), va.shr(640), "shift_right") },
        3 => if vb.is_zero() { (a.clone(), va.clone(), "clone") } else { (a.div(b), va.divrem(vb).0, "div") },
        4 => if vb.is_zero() { (a.clone(), va.clone(), "clone") } else { (a.rem(b), va.divrem(vb).1, "rem") },
        5 => { let n = g.below(4); (a.shift_left(n), va.shl(32 * n), "shift_left") }
        6 => { let n = g.below(4); (a.shift_right(n), va.shr(32 * n), "shift_right") }
        7 => { let n = g.below(va.raw().len() + 1); (a.slice_right(n), va.low_bits(32 * n), "slice_right") }
        8 => { let x = g.u32(); (a.add_u32(x), va.add(&N::from(x as u128)), "add_u32") }
        9 => { let x = g.u32(); (a.mul_u32(x), va.mul(&N::from(x as u128)), "mul_u32") }
        10 => { let x = g.u32().max(1); (a.div_u32(x), va.divrem_small(x).0, "div_u32") }
        11 => { let x = g.u32().max(1); (a.rem_u32(x), N::from(va.divrem_small(x).1 as u128), "rem_u32") }
        12 => (gcd_ubi(a, b), va.gcd(vb), "gcd_ubi"),
        13 => (a.sqrt(), va.isqrt(), "sqrt"),
        14 => (mutd(a, |x| x.add_mut(b)), va.add(vb), "add_mut"),
        15 => if vb.le(va) { (mutd(a, |x| x.sub_mut(b)), va.sub(vb), "sub_mut") } else { (b.sub(a), vb.sub(va), "sub") },
        18 => { let n = g.small(va.raw().len() + 2); (mutd(a, |x| x.shift_right_mut(n)), va.shr(32 * n), "shift_right_mut") }
        19 => { let n = g.small(va.raw().len() + 2); (a.shift_right(n), va.shr(32 * n), "shift_right") }
        20 => { let n = g.small(va.raw().len() + 1); (mutd(a, |x| x.slice_right_mut(n)), va.low_bits(32 * n), "slice_right_mut") }
        21 => { let n = g.below(4); (mutd(a, |x| x.shift_left_mut(n)), va.shl(32 * n), "shift_left_mut") }
        22 => if vb.is_zero() { (a.clone(), va.clone(), "clone") } else { (mutd(a, |x| x.div_mut(b)), va.divrem(vb).0, "div_mut") },
        23 => if vb.is_zero() { (a.clone(), va.clone(), "clone") } else { (mutd(a, |x| x.rem_mut(b)), va.divrem(vb).1, "rem_mut") },
        24 => { let x = g.u32(); let x = if N::from(x as u128).le(va) { x } else { va.to_u128().unwrap_or(0) as u32 }; (mutd(a, |y| y.sub_u32_mut(x)), va.sub(&N::from(x as u128)), "sub_u32_mut") }
        25 => if va.0.len() + vb.0.len() < 60 { (mutd(a, |x| x.mul_mut(b)), va.mul(vb), "mul_mut") } else { (a.shift_right(20), va.shr(640), "shift_right") },
        16 => (UBigInt::from_string(&a.to_string_dec()).unwrap(), va.clone(), "from_string(to_string_dec)"),
        _ => { let x = g.u32(); (mutd(a, |y| y.mul_u32_mut(x)), va.mul(&N::from(x as u128)), "mul_u32_mut") }
    }
}
fn history(g: &mut G) -> R {
    g.big = 8;
    let (mut va, mut vb) = g.nat2();
    let (mut a, mut b) = (ub(&va), ub(&vb));
    let n = 2 + g.below(8);
    for _ in 0..n {
        let k = g.below(26);
        g.push(Arg::I(k as i128));
        let (r, w, name) = step(g, k, &a, &va, &b, &vb);
        eqn(&format!("history step {}", name), r.clone(), &w)?;
        let o = ub(&w);
        if r != o || !r.eq(&o) || r.neq(&o) || hash(&r) != hash(&o) || r.len() != w.raw().len() || r.is_zero() != w.is_zero() || r.is_one() != w.is_one() { return Err(format!("history step {}: equality, hash, len or is_zero disagree with the value {:?}", name, w)); }
        if g.bool() { a = r; va = w; } else { b = r; vb = w; }
    }
    Ok(())
}
fn bhistory(g: &mut G) -> R {
    g.big = 6;
    let (mut va, mut vb) = g.z2();
    let (mut a, mut b) = (bi(&va), bi(&vb));
    let n = 2 + g.below(8);
    for _ in 0..n {
        let k = g.below(24);
        g.push(Arg::I(k as i128));
        let (r, w) = match k {
            14 => { let k = g.small(va.m.raw().len() + 2); (mutd(&a, |x| x.shift_right_mut(k)), Z::new(va.neg, va.m.shr(32 * k))) }
            15 => { let k = g.small(va.m.raw().len() + 2); (a.shift_right(k), Z::new(va.neg, va.m.shr(32 * k))) }
            16 => { let k = g.small(va.m.raw().len() + 1); (mutd(&a, |x| x.slice_right_mut(k)), Z::new(va.neg, va.m.low_bits(32 * k))) }
            17 => { let k = g.small(va.m.raw().len() + 1); (a.slice_right(k), Z::new(va.neg, va.m.low_bits(32 * k))) }
            18 => { let k = g.below(4); (mutd(&a, |x| x.shift_left_mut(k)), Z::new(va.neg, va.m.shl(32 * k))) }
            19 => { let x = if g.coin(3) { va.neg().to_i128().map_or(1, |v| v as i32) } else { g.i32() }; g.push(Arg::I(x as i128)); (mutd(&a, |y| y.add_i32_mut(x)), va.add(&Z::from(x as i128))) }
            20 => { let x = if g.coin(3) { va.to_i128().map_or(1, |v| v as i32) } else { g.i32() }; g.push(Arg::I(x as i128)); (mutd(&a, |y| y.sub_i32_mut(x)), va.sub(&Z::from(x as i128))) }
            21 => { let x = if g.coin(3) { 0 } else { g.i32() }; (mutd(&a, |y| y.mul_i32_mut(x)), va.mul(&Z::from(x as i128))) }
            22 => if vb.is_zero() || va.m.0.len() + vb.m.0.len() > 40 { (a.neg(), va.neg()) } else { let mut t = a.clone(); t.div_mut(&b); (t, va.divrem(&vb).0) },
            23 => if vb.is_zero() || va.m.0.len() + vb.m.0.len() > 40 { (a.neg(), va.neg()) } else { let mut t = a.clone(); t.rem_mut(&b); (t, va.divrem(&vb).1) },
            0 => (a.add(&b), va.add(&vb)),
            1 => (a.sub(&b), va.sub(&vb)),
            2 => if va.m.0.len() + vb.m.0.len() < 40 { (a.mul(&b), va.mul(&vb)) } else { (a.shift_right(12), Z::new(va.neg, va.m.shr(384))) },
            3 => if vb.is_zero() { (a.neg(), va.neg()) } else { (a.div(&b), va.divrem(&vb).0) },
            4 => if vb.is_zero() { (a.abs(), va.abs()) } else { (a.rem(&b), va.divrem(&vb).1) },
            5 => (mutd(&a, |x| x.neg_mut()), va.neg()),
            6 => (mutd(&a, |x| x.abs_mut()), va.abs()),
            7 => (mutd(&a, |x| x.add_mut(&b)), va.add(&vb)),
            8 => (mutd(&a, |x| x.sub_mut(&b)), va.sub(&vb)),
            9 => { let x = g.i32(); (a.add_i32(x), va.add(&Z::from(x as i128))) }
            10 => { let x = g.i32(); (a.mul_i32(x), va.mul(&Z::from(x as i128))) }
            11 => { let x = g.i32(); let x = if x == 0 { -1 } else { x }; (a.div_i32(x), va.divrem(&Z::from(x as i128)).0) }
            12 => { let x = g.i32(); let x = if x == 0 { -1 } else { x }; (a.rem_i32(x), va.divrem(&Z::from(x as i128)).1) }
            _ => { let k = g.below(3); (a.shift_right(k), Z::new(va.neg, va.m.shr(32 * k))) }
        };
        eqz(&format!("history step {}", k), r.clone(), &w)?;
        let o = bi(&w);
        if r != o || hash(&r) != hash(&o) || r.is_zero() != w.is_zero() || r.is_neg() != w.neg { return Err(format!("history step {}: equality, hash or sign disagree with the value {:?}", k, w)); }
        if g.bool() { a = r; va = w; } else { b = r; vb = w; }
    }
    Ok(())
}
fn eq_hash(g: &mut G) -> R {
    let (a, b) = g.nat2();
    let (x, y) = (ub(&a), ub(&b));
    eq("==", x == y, a == b)?;
    if a == b { eq("hash", hash(&x), hash(&y))?; }
    let (s, t) = (g.bool(), g.bool());
    let (a, b) = (Z::new(s, a), Z::new(t, b));
    let (x, y) = (bi(&a), bi(&b));
    eq("BigInt ==", x == y, a == b)?;
    // two routes to one value
    let r1 = x.add(&y); let r2 = y.add(&x);
    eq("a+b == b+a", r1 == r2 && hash(&r1) == hash(&r2), true)?;
    eq("(a+b)-b == a", r1.sub(&y) == x && hash(&r1.sub(&y)) == hash(&x), true)
}
fn constructors(_g: &mut G) -> R {
    eqn("zero", UBigInt::zero(), &N::zero())?;
    eqn("one", UBigInt::one(), &N::from(1))?;
    eqn("default", UBigInt::default(), &N::zero())?;
    eqz("zero", BigInt::zero(), &Z::from(0))?;
    eqz("one", BigInt::one(), &Z::from(1))?;
    eqz("default", BigInt::default(), &Z::from(0))?;
    eq("is_zero", (UBigInt::zero().is_zero(), UBigInt::one().is_zero(), UBigInt::one().is_one(), UBigInt::zero().is_one()), (true, false, true, false))?;
    eq("b.is_zero", (BigInt::zero().is_zero(), BigInt::one().is_zero(), BigInt::one().is_one(), BigInt::zero().is_one(), BigInt::one().neg().is_one()), (true, false, true, false, false))
}
// ---------- C05
fn cmp_ubig(g: &mut G) -> R {
    if g.coin(6) { g.big = 40; }
    let (a, b) = g.nat2();
    let o = a.cmp(&b);
    let (x, y) = (ub(&a), ub(&b));
    eq("lt gt eq neq leq geq", (UBigInt::lt(&x, &y), UBigInt::gt(&x, &y), UBigInt::eq(&x, &y), x.neq(&y), x.leq(&y), x.geq(&y)), (o.is_lt(), o.is_gt(), o.is_eq(), o.is_ne(), o.is_le(), o.is_ge()))?;
    eq("comp", x.comp(&y), o)?;
    eq("Ord::cmp", Ord::cmp(&x, &y), o)?;
    eq("PartialOrd", PartialOrd::partial_cmp(&x, &y), Some(o))?;
    eq("operators", (x < y, x > y, x <= y, x >= y, x == y, x != y), (o.is_lt(), o.is_gt(), o.is_le(), o.is_ge(), o.is_eq(), o.is_ne()))
}
fn cmp_u32(g: &mut G) -> R {
    let a = g.nat(); let k = g.u32();
    let o = a.cmp(&N::from(k as u128));
    let x = ub(&a);
    eq("_u32", (x.lt_u32(k), x.gt_u32(k), x.eq_u32(k), x.neq_u32(k), x.leq_u32(k), x.geq_u32(k)), (o.is_lt(), o.is_gt(), o.is_eq(), o.is_ne(), o.is_le(), o.is_ge()))?;
    eq("comp_u32", x.comp_u32(k), o)
}
fn cmp_big(g: &mut G) -> R {
    let (a, b) = g.z2();
    let o = a.cmp(&b);
    let (x, y) = (bi(&a), bi(&b));
    eq("lt gt eq neq leq geq", (BigInt::lt(&x, &y), BigInt::gt(&x, &y), BigInt::eq(&x, &y), x.neq(&y), x.leq(&y), x.geq(&y)), (o.is_lt(), o.is_gt(), o.is_eq(), o.is_ne(), o.is_le(), o.is_ge()))?;
    eq("comp", x.comp(&y), o)?;
    eq("Ord::cmp", Ord::cmp(&x, &y), o)?;
    eq("PartialOrd", PartialOrd::partial_cmp(&x, &y), Some(o))?;
    eq("operators", (x < y, x > y, x <= y, x >= y), (o.is_lt(), o.is_gt(), o.is_le(), o.is_ge()))
}
fn cmp_i32(g: &mut G) -> R {
    let k = g.i32();
    let a = if g.coin(3) { let d = g.below(3) as i128 - 1; let z = Z::from(k as i128 + d); g.push(Arg::Z(z.clone())); z } else { g.z() };
    let o = a.cmp(&Z::from(k as i128));
    let x = bi(&a);
    eq("_i32", (x.lt_i32(k), x.gt_i32(k), x.eq_i32(k), x.neq_i32(k), x.leq_i32(k), x.geq_i32(k)), (o.is_lt(), o.is_gt(), o.is_eq(), o.is_ne(), o.is_le(), o.is_ge()))?;
    eq("comp_i32", x.comp_i32(k), o)
}
fn cmp_ratio(g: &mut G) -> R {
    let (a, b) = g.q2();
    let o = a.cmp(&b);
    let (x, y) = (ra(&a), ra(&b));
    eq("lt gt eq neq leq geq", (Ratio::lt(&x, &y), Ratio::gt(&x, &y), Ratio::eq(&x, &y), x.neq(&y), x.leq(&y), x.geq(&y)), (o.is_lt(), o.is_gt(), o.is_eq(), o.is_ne(), o.is_le(), o.is_ge()))?;
    eq("comp", x.comp(&y), o)?;
    eq("Ord::cmp", Ord::cmp(&x, &y), o)?;
    eq("PartialOrd", PartialOrd::partial_cmp(&x, &y), Some(o))?;
    eq("operators", (x < y, x > y, x <= y, x >= y), (o.is_lt(), o.is_gt(), o.is_le(), o.is_ge()))
}
fn cmp_ratio_i32(g: &mut G) -> R {
    let k = g.i32();
    let a = if g.coin(3) { let t = g.qsmall(); let q = Q::int(Z::from(k as i128)).add(&Q::new(t.n.clone(), Z::from(1000))); g.push(Arg::Q(q.clone())); q } else { g.q() };
    let x = ra(&a);
    let o = a.cmp(&Q::int(Z::from(k as i128)));
    eq("_i32", (x.lt_i32(k), x.gt_i32(k), x.eq_i32(k), x.neq_i32(k), x.leq_i32(k), x.geq_i32(k)), (o.is_lt(), o.is_gt(), o.is_eq(), o.is_ne(), o.is_le(), o.is_ge()))?;
    eq("comp_i32", x.comp_i32(k), o)?;
    let o1 = a.cmp(&Q::int(Z::from(1)));
    eq("lt_one gt_one", (x.lt_one(), x.gt_one()), (o1.is_lt(), o1.is_gt()))
}
// ---------- C06
macro_rules! from_u { ($g: expr, $($t: ty, $b: expr);*) => { $( {
    let x = $g.u($b) as $t;
    eqn(concat!("UBigInt::from ", stringify!($t)), UBigInt::from(x), &N::from(x as u128))?;
    eqn(concat!("UBigInt::from &", stringify!($t)), UBigInt::from(&x), &N::from(x as u128))?;
    eqz(concat!("BigInt::from ", stringify!($t)), BigInt::from(x), &Z::nat(N::from(x as u128)))?;
    eqz(concat!("BigInt::from &", stringify!($t)), BigInt::from(&x), &Z::nat(N::from(x as u128)))?;
    eqq(concat!("Ratio::from ", stringify!($t)), Ratio::from(x), &Q::int(Z::nat(N::from(x as u128))))?;
    eqq(concat!("Ratio::from &", stringify!($t)), Ratio::from(&x), &Q::int(Z::nat(N::from(x as u128))))?;
} )* } }
macro_rules! from_i { ($g: expr, $($t: ty, $b: expr);*) => { $( {
    let x = $g.i($b) as $t;
    eqz(concat!("BigInt::from ", stringify!($t)), BigInt::from(x), &Z::from(x as i128))?;
    eqz(concat!("BigInt::from &", stringify!($t)), BigInt::from(&x), &Z::from(x as i128))?;
    eqq(concat!("Ratio::from ", stringify!($t)), Ratio::from(x), &Q::int(Z::from(x as i128)))?;
    eqq(concat!("Ratio::from &", stringify!($t)), Ratio::from(&x), &Q::int(Z::from(x as i128)))?;
    let w = concat!("UBigInt::try_from ", stringify!($t));
    for r in [UBigInt::try_from(x), UBigInt::try_from(&x)] {
    match r {
        Ok(u) => { if x < 0 { return Err(format!("{} accepted a negative number", w)); } eqn(w, u, &N::from(x as u128))? }
        Err(e) => if x >= 0 { return Err(format!("{} rejected: {:?}", w, e)); }
    } }
} )* } }
fn from_prim(g: &mut G) -> R {
    from_u!(g, u8, 8; u16, 16; u32, 32; u64, 64; u128, 128; usize, 64);
    from_i!(g, i8, 8; i16, 16; i32, 32; i64, 64; i128, 128; isize, 64);
    let (a, b, c, d) = (g.u(32) as u32, g.u(64) as u64, g.u(128), g.i(128));
    eqn("from_u32", UBigInt::from_u32(a), &N::from(a as u128))?;
    eqn("from_u64", UBigInt::from_u64(b), &N::from(b as u128))?;
    eqn("from_u128", UBigInt::from_u128(c), &N::from(c))?;
    eqz("from_i32", BigInt::from_i32(d as i32), &Z::from(d as i32 as i128))?;
    eqz("from_i64", BigInt::from_i64(d as i64), &Z::from(d as i64 as i128))?;
    eqz("from_i128", BigInt::from_i128(d), &Z::from(d))?;
    eqq("Ratio::from_i32", Ratio::from_i32(d as i32), &Q::int(Z::from(d as i32 as i128)))?;
    eqq("Ratio::from_i64", Ratio::from_i64(d as i64), &Q::int(Z::from(d as i64 as i128)))?;
    eqq("Ratio::from_i128", Ratio::from_i128(d), &Q::int(Z::from(d)))?;
    let t = g.bool();
    eqn("from bool", UBigInt::from(t), &N::from(t as u128))?;
    eqz("from bool", BigInt::from(t), &Z::from(t as i128))?;
    eqq("from bool", Ratio::from(t), &Q::int(Z::from(t as i128)))
}
fn near(g: &mut G) -> N {
    // values around the limits of the primitive types
    let k = [7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128][g.below(10)];
    let b = N::from(1).shl(k);
    let n = match g.below(5) { 0 => b, 1 => b.sub(&N::from(1)), 2 => b.add(&N::from(1)), 3 => b.sub(&N::from(2)), _ => { let x = g.nat(); return x; } };
    g.push(Arg::N(n.clone())); n
}
fn want<T: TryFrom<u128> + TryFrom<i128>>(v: &Z) -> Option<T> {
    if v.neg { v.to_i128().and_then(|x| T::try_from(x).ok()) } else { v.m.to_u128().and_then(|x| T::try_from(x).ok()) }
}
fn cvt<T: PartialEq + std::fmt::Debug, E: std::fmt::Debug>(w: &str, r: Result<T, E>, e: Option<T>) -> R {
    match (r, e) {
        (Ok(a), Some(b)) if a == b => Ok(()),
        (Err(_), None) => Ok(()),
        (r, e) => Err(format!("{}: got {:?}, expected {:?}", w, r, e)),
    }
}
macro_rules! tou { ($v: expr, $u: expr, $($t: ty),*) => { $( cvt(concat!("try_from &UBigInt to ", stringify!($t)), <$t>::try_from(&$u), want::<$t>($v))?; cvt(concat!("try_from UBigInt to ", stringify!($t)), <$t>::try_from($u.clone()), want::<$t>($v))?; )* } }
fn to_prim_u(g: &mut G) -> R {
    let n = near(g);
    let (u, v) = (ub(&n), Z::nat(n.clone()));
    tou!(&v, u, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    cvt("to_u32", u.to_u32(), want(&v))?;
    cvt("to_u64", u.to_u64(), want(&v))?;
    cvt("to_u128", u.to_u128(), want(&v))?;
    eq("bool", bool::from(&u), !n.is_zero())
}
fn to_prim_i(g: &mut G) -> R {
    let n = near(g);
    let v = Z::new(g.bool(), n);
    g.push(Arg::Z(v.clone()));
    let u = bi(&v);
    tou!(&v, u, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    cvt("to_i32", u.to_i32(), want(&v))?;
    cvt("to_i64", u.to_i64(), want(&v))?;
    cvt("to_i128", u.to_i128(), want(&v))?;
    eq("bool", bool::from(&u), !v.is_zero())
}
fn neg_to_u(g: &mut G) -> R {
    let n = g.pos();
    let u = bi(&Z::new(true, n.clone()));
    eq("UBigInt::try_from negative", UBigInt::try_from(&u).is_err() && UBigInt::try_from(u.clone()).is_err() && u.to_ubi().is_err(), true)?;
    let q = Ratio::from_bi(u);
    eq("UBigInt::try_from negative Ratio", UBigInt::try_from(&q).is_err(), true)
}
macro_rules! rat_int { ($v: expr, $u: expr, $($t: ty),*) => { $( cvt(concat!("try_from &Ratio to ", stringify!($t)), <$t>::try_from(&$u), want::<$t>($v))?; cvt(concat!("try_from Ratio to ", stringify!($t)), <$t>::try_from($u.clone()), want::<$t>($v))?; )* } }
fn ratio_int(g: &mut G) -> R {
    let q = if g.bool() { g.q() } else { let n = near(g); let s = g.bool(); let f = g.qsmall(); let q = Q::int(Z::new(s, n)).add(&Q::new(f.n, Z::nat(f.d.shl(20)))); g.push(Arg::Q(q.clone())); q };
    let r = ra(&q);
    let t = q.trunc();
    rat_int!(&t, r, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    eqz("BigInt::from &Ratio", BigInt::from(&r), &t)?;
    eqz("BigInt::from Ratio", BigInt::from(r.clone()), &t)?;
    if !q.n.neg { eqn("UBigInt::try_from &Ratio", UBigInt::try_from(&r).map_err(|e| format!("UBigInt::try_from(&Ratio): {:?}", e))?, &t.m)?; }
    Ok(())
}
fn big_ubig(g: &mut G) -> R {
    let n = g.nat();
    eqz("BigInt::from &UBigInt", BigInt::from(&ub(&n)), &Z::nat(n.clone()))?;
    eqz("BigInt::from UBigInt", BigInt::from(ub(&n)), &Z::nat(n.clone()))?;
    let s = g.bool() && !n.is_zero();
    eqz("from_ubi", BigInt::from_ubi(ub(&n), s), &Z::new(s, n.clone()))?;
    eqn("to_ubi", bi(&Z::nat(n.clone())).to_ubi().map_err(|e| format!("to_ubi: {:?}", e))?, &n)?;
    eqn("try_from &BigInt", UBigInt::try_from(&bi(&Z::nat(n.clone()))).map_err(|e| format!("{:?}", e))?, &n)?;
    eqq("Ratio::from &UBigInt", Ratio::from(&ub(&n)), &Q::int(Z::nat(n.clone())))?;
    eqq("Ratio::from_ubi", Ratio::from_ubi(ub(&n)), &Q::int(Z::nat(n.clone())))?;
    let z = Z::new(s, n);
    eqq("Ratio::from &BigInt", Ratio::from(&bi(&z)), &Q::int(z.clone()))?;
    eqq("Ratio::from_bi", Ratio::from_bi(bi(&z)), &Q::int(z))
}
// ---------- C07
fn to_string(g: &mut G) -> R {
    if g.coin(8) { g.big = 60; }
    let n = g.nat();
    let u = ub(&n);
    let (d, h, o, b) = (n.radix(10), n.radix(16), n.radix(8), n.radix(2));
    eq("to_string_dec", u.to_string_dec(), d.clone())?;
    eq("Display", format!("{}", u), d.clone())?;
    eq("hex", (u.to_string_hex(false), u.to_string_hex(true)), (h.clone(), format!("0x{}", h)))?;
    eq("oct", (u.to_string_oct(false), u.to_string_oct(true)), (o.clone(), format!("0o{}", o)))?;
    eq("bin", (u.to_string_bin(false), u.to_string_bin(true)), (b.clone(), format!("0b{}", b)))?;
    eq("{:x} {:#x}", (format!("{:x}", u), format!("{:#x}", u)), (h.clone(), format!("0x{}", h)))?;
    eq("{:o} {:#o}", (format!("{:o}", u), format!("{:#o}", u)), (o.clone(), format!("0o{}", o)))?;
    eq("{:b} {:#b}", (format!("{:b}", u), format!("{:#b}", u)), (b.clone(), format!("0b{}", b)))?;
    for s in [d, format!("0x{}", h), format!("0o{}", o), format!("0b{}", b)] {
        eqn(&format!("from_string({})", s), UBigInt::from_string(&s).map_err(|e| format!("from_string({}): {:?}", s, e))?, &n)?;
    }
    Ok(())
}
fn btos(g: &mut G) -> R {
    let z = g.z();
    let u = bi(&z);
    let s = if z.neg { "-" } else { "" };
    let n = &z.m;
    let (d, h, o, b) = (n.radix(10), n.radix(16), n.radix(8), n.radix(2));
    eq("to_string_dec", u.to_string_dec(), format!("{}{}", s, d))?;
    eq("Display", format!("{}", u), format!("{}{}", s, d))?;
    eq("hex", (u.to_string_hex(false), u.to_string_hex(true)), (format!("{}{}", s, h), format!("{}0x{}", s, h)))?;
    eq("oct", (u.to_string_oct(false), u.to_string_oct(true)), (format!("{}{}", s, o), format!("{}0o{}", s, o)))?;
    eq("bin", (u.to_string_bin(false), u.to_string_bin(true)), (format!("{}{}", s, b), format!("{}0b{}", s, b)))?;
    eq("{:x} {:#x}", (format!("{:x}", u), format!("{:#x}", u)), (format!("{}{}", s, h), format!("{}0x{}", s, h)))?;
    eq("{:o} {:#o}", (format!("{:o}", u), format!("{:#o}", u)), (format!("{}{}", s, o), format!("{}0o{}", s, o)))?;
    eq("{:b} {:#b}", (format!("{:b}", u), format!("{:#b}", u)), (format!("{}{}", s, b), format!("{}0b{}", s, b)))?;
    for t in [u.to_string_dec(), u.to_string_hex(true), u.to_string_oct(true), u.to_string_bin(true)] {
        eqz(&format!("from_string({})", t), BigInt::from_string(&t).map_err(|e| format!("from_string({}): {:?}", t, e))?, &z)?;
    }
    Ok(())
}
fn literal(g: &mut G) -> (String, N) {
    let n = g.nat();
    let base = [10, 16, 8, 2][g.below(4)];
    let mut d = n.radix(base);
    if base != 10 && g.coin(3) { d = format!("{}{}", "0".repeat(g.below(40)), d); }
    let mut s = match base { 10 => String::new(), 16 => if g.bool() { "0x".into() } else { "0X".into() }, 8 => if g.bool() { "0o".into() } else { "0O".into() }, _ => if g.bool() { "0b".into() } else { "0B".to_string() } };
    let us = g.coin(3);
    for (i, c) in d.chars().enumerate() {
        if us && (base != 10 || i > 0) && g.coin(4) { s.push('_'); }
        s.push(if g.coin(3) { c.to_ascii_uppercase() } else { c });
    }
    if us && g.coin(3) { s.push('_'); }
    (g.str(s), n)
}
fn parse(g: &mut G) -> R {
    let (s, n) = literal(g);
    eqn("from_string", UBigInt::from_string(&s).map_err(|e| format!("from_string({}): {:?}", s, e))?, &n)?;
    eqn("parse", s.parse::<UBigInt>().map_err(|e| format!("parse({}): {:?}", s, e))?, &n)?;
    eqn("try_from &str", UBigInt::try_from(s.as_str()).map_err(|e| format!("{:?}", e))?, &n)?;
    eqn("try_from String", UBigInt::try_from(s.clone()).map_err(|e| format!("{:?}", e))?, &n)
}
fn parse_big(g: &mut G) -> R {
    let (s, n) = literal(g);
    let neg = g.bool();
    let s = g.str(if neg { format!("-{}", s) } else { s });
    let z = Z::new(neg, n);
    eqz("BigInt::from_string", BigInt::from_string(&s).map_err(|e| format!("from_string({}): {:?}", s, e))?, &z)?;
    eqz("parse", s.parse::<BigInt>().map_err(|e| format!("parse({}): {:?}", s, e))?, &z)?;
    eqz("try_from &str", BigInt::try_from(s.as_str()).map_err(|e| format!("{:?}", e))?, &z)
}
fn reject(g: &mut G) -> R {
    let (s, _) = literal(g);
    let body = s.trim_start_matches(|c: char| c == '0' || c.is_ascii_alphabetic());
    let bad = match g.below(8) {
        0 => String::new(),
        1 => ["0x", "0b", "0o", "0X_", "-", "_", "0x__"][g.below(7)].to_string(),
        2 => { // a leading zero of a decimal literal
            if s.starts_with('0') { return Ok(()); } format!("0{}", s) }
        3 => { let c = [' ', '+', '.', 'g', 'z', '-', '/', ':', '@', '`', '\u{0661}', ','][g.below(12)]; let i = g.below(s.len() + 1); if i == 0 && c == '-' { return Ok(()); } let mut t = s.clone(); t.insert(i, c); t }
        4 => format!("_{}", s),
        5 => format!("0b{}2", body.chars().map(|_| '1').collect::<String>()),
        6 => format!("0o{}8", body.chars().map(|_| '7').collect::<String>()),
        _ => format!("{}a", body.chars().filter(|c| c.is_ascii_digit()).collect::<String>().trim_start_matches('0')),
    };
    let bad = g.str(bad);
    if let Ok(v) = UBigInt::from_string(&bad) { return Err(format!("UBigInt::from_string({:?}) accepted as {}", bad, v)); }
    if let Ok(v) = BigInt::from_string(&bad) { return Err(format!("BigInt::from_string({:?}) accepted as {}", bad, v)); }
    Ok(())
}
fn sci(n: &N, max: usize) -> (Vec<u8>, usize) {
    let d: Vec<u8> = n.radix(10).bytes().map(|b| b - b'0').collect();
    let e = d.len() - 1;
    let mut d = d; d.truncate(max); while d.len() > 1 && d[d.len() - 1] == 0 { d.pop(); }
    (d, e)
}
pub fn scientific(g: &mut G) -> R {
    if g.coin(8) { g.big = 40; }
    let n = g.nat();
    let k = 1 + g.small(11);
    let (d, e) = sci(&n, k);
    let w = if d.len() == 1 { format!("{}e{}", d[0], e) } else { format!("{}.{}e{}", d[0], d[1..].iter().map(|x| x.to_string()).collect::<String>(), e) };
    eq("to_scientific_notation", ub(&n).to_scientific_notation(k), w.clone())?;
    let s = g.bool() && !n.is_zero();
    eq("BigInt::to_scientific_notation", bi(&Z::new(s, n.clone())).to_scientific_notation(k), format!("{}{}", if s { "-" } else { "" }, w))
}
// ---------- C08
fn sq(n: &N, w: &str) -> R {
    let r = un(ub(n).sqrt())?;
    let r1 = r.add(&N::from(1));
    if !r.mul(&r).le(n) || !n.lt(&r1.mul(&r1)) { return Err(format!("{}: sqrt gave {:?}", w, r)); }
    Ok(())
}
fn sqrt(g: &mut G) -> R { g.big = 16; let n = g.nat(); sq(&n, "sqrt") }
fn sqrt64(g: &mut G) -> R {
    let n = match g.below(3) { 0 => g.u(64), 1 => { let r = g.u(32); let d = g.below(3) as u128; (r * r + d).saturating_sub(1) } _ => g.u(128) >> 1 };
    g.push(Arg::I(n as i128));
    sq(&N::from(n), "sqrt64")
}
fn bsqrt(g: &mut G) -> R {
    let z = g.z();
    let r = bz(bi(&z).sqrt())?;
    let m = z.m.isqrt();
    if r != Z::new(z.neg, m.clone()) { return Err(format!("BigInt::sqrt: {:?}, expected {:?}", r, Z::new(z.neg, m))); }
    Ok(())
}
// ---------- C09
fn gcd(g: &mut G) -> R {
    let (mut a, mut b) = g.nat2();
    if g.coin(3) { let c = g.nat(); a = a.mul(&c); b = b.mul(&c); }
    eqn("gcd_ubi", gcd_ubi(&ub(&a), &ub(&b)), &a.gcd(&b))
}
fn bgcd(g: &mut G) -> R {
    let (a, b) = g.z2();
    eqz("gcd_bi", gcd_bi(&bi(&a), &bi(&b)), &Z::nat(a.m.gcd(&b.m)))
}
fn gcd_i32(g: &mut G) -> R {
    let (a, b) = (g.i32(), g.i32());
    let w = N::from(a.unsigned_abs() as u128).gcd(&N::from(b.unsigned_abs() as u128)).to_u128().unwrap();
    if w > i32::MAX as u128 { return Ok(()); }
    eq("gcd_i32", hmath::utils::gcd_i32(a, b) as i128, w as i128)
}
fn mulmod(a: u64, b: u64, m: u64) -> u64 { (a as u128 * b as u128 % m as u128) as u64 }
fn powmod(mut b: u64, mut e: u64, m: u64) -> u64 { let mut r = 1 % m; b %= m; while e > 0 { if e & 1 == 1 { r = mulmod(r, b, m); } b = mulmod(b, b, m); e >>= 1; } r }
/// deterministic Miller-Rabin for u64
pub fn mr(n: u64) -> bool {
    if n < 2 { return false; }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] { if n % p == 0 { return n == p; } }
    let s = (n - 1).trailing_zeros(); let d = (n - 1) >> s;
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 { continue; }
        for _ in 1..s { x = mulmod(x, x, n); if x == n - 1 { continue 'w; } }
        return false;
    }
    true
}
fn pnum(g: &mut G) -> u64 {
    let n = match g.below(10) {
        0 => g.below(200) as u64,
        1 | 2 => g.u(20) as u64,
        3 => { let mut p = 3 + g.u(16) as u64; while !mr(p) { p += 1; } p * p }
        4 => { let mut p = 3 + g.u(18) as u64; while !mr(p) { p += 1; } let mut q = p + 1; while !mr(q) { q += 1; } p * q }
        5 => { let mut p = 3 + g.u(10) as u64; while !mr(p) { p += 1; } p * p * p }
        6 => g.u(40) as u64,
        7 => { let mut p = g.u(36) as u64 | 1; while !mr(p) { p += 2; } p }
        8 => (g.lit() as u64) % (1 << 42),
        _ => g.u(32) as u64,
    };
    g.push(Arg::I(n as i128)); n
}
fn is_prime(g: &mut G) -> R {
    let n = if g.coin(400) {
        // a two-limb number with a small factor, beyond u64 with a small factor
        if g.bool() { let f = 3 + 2 * g.below(50) as u128; let x = (g.u(100) | 3) * f; g.push(Arg::I(x as i128)); eq("is_prime of a composite", UBigInt::from_u128(x).is_prime(), false)?; return Ok(()); }
        else { let mut p = 0x7fff_ffff_0000u64 >> g.below(6) | 1; while !mr(p) { p += 2; } g.push(Arg::I(p as i128)); p }
    } else { pnum(g) };
    eq("is_prime", UBigInt::from_u64(n).is_prime(), mr(n))?;
    let s = g.bool() && n > 0;
    eq("BigInt::is_prime", BigInt::from_ubi(UBigInt::from_u64(n), s).is_prime(), mr(n))
}
fn factorise(g: &mut G) -> R {
    let n = if g.coin(200) { let mut p = (g.u(31) | 1) as u64; while !mr(p) { p += 2; } let mut q = 1 + 2 * g.below(3000) as u64; while !mr(q) { q += 2; } let n = p as u128 * q as u128 * 2; g.push(Arg::I(n as i128)); n } else { pnum(g) as u128 };
    let f = UBigInt::from_u128(n).prime_factorial();
    let v: Vec<N> = f.into_iter().map(un).collect::<Result<_, _>>()?;
    let vals: Vec<u64> = v.iter().map(|x| x.to_u128().unwrap_or(0) as u64).collect();
    if n < 2 { return eq("prime_factorial of 0 or 1", vals, vec![n as u64]); }
    let p = v.iter().fold(N::from(1), |a, x| a.mul(x));
    if p != N::from(n) { return Err(format!("prime_factorial({}) = {:?}: the product is not the number", n, vals)); }
    if !vals.iter().all(|x| mr(*x)) { return Err(format!("prime_factorial({}) = {:?}: a factor is not prime", n, vals)); }
    if vals.windows(2).any(|w| w[0] > w[1]) { return Err(format!("prime_factorial({}) = {:?}: not ascending", n, vals)); }
    let bf: Vec<Z> = BigInt::from_ubi(UBigInt::from_u128(n), g.bool()).prime_factorial().into_iter().map(bz).collect::<Result<_, _>>()?;
    eq("BigInt::prime_factorial", bf, v.into_iter().map(Z::nat).collect())
}
// ---------- C10
thread_local! { static FACT: std::cell::RefCell<Vec<N>> = std::cell::RefCell::new(vec![N::from(1)]); static FIB: std::cell::RefCell<Vec<N>> = std::cell::RefCell::new(vec![N::zero(), N::from(1)]); }
fn factorial(g: &mut G) -> R {
    let n = if g.coin(40) { g.small(4000) } else { g.small(900) };
    let w = FACT.with(|f| { let mut f = f.borrow_mut(); while f.len() <= n { let k = f.len(); let x = f[k - 1].mul(&N::from(k as u128)); f.push(x); } f[n].clone() });
    eqn("factorial", UBigInt::factorial(n as u32), &w)?;
    eqz("BigInt::factorial", BigInt::factorial(n as u32), &Z::nat(w))
}
fn fibonacci(g: &mut G) -> R {
    let n = if g.coin(40) { g.small(8000) } else { g.small(1500) };
    let w = FIB.with(|f| { let mut f = f.borrow_mut(); while f.len() <= n { let k = f.len(); let x = f[k - 1].add(&f[k - 2]); f.push(x); } f[n].clone() });
    eqn("fibonacci", UBigInt::fibonacci(n as u32), &w)?;
    eqz("BigInt::fibonacci", BigInt::fibonacci(n as u32), &Z::nat(w))
}
fn log2(g: &mut G) -> R {
    if g.coin(6) { g.big = 60; }
    let n = g.nat();
    let w = N::from(n.bits().saturating_sub(1) as u128);
    eqn("log2", ub(&n).log2(), &w)?;
    let s = g.bool();
    eqz("BigInt::log2", bi(&Z::new(s, n)).log2(), &Z::nat(w))
}
fn exp2(g: &mut G) -> R {
    let n = if g.coin(60) { let k = 13 + g.below(12); g.small(1 << k) } else { g.small(5000) };
    eqn("exp2", UBigInt::exp2(n as u64), &N::from(1).shl(n))?;
    eqz("BigInt::exp2", BigInt::exp2(n as u64), &Z::nat(N::from(1).shl(n)))
}
/// floor(2^32 log2 n) within the documented truncation: the implementation may lose a little; checked to 2^8 units
fn log2_accurate(g: &mut G) -> R {
    let n = g.nat();
    let r = un(ub(&n).log2_accurate())?;
    if n.is_zero() { return eq("log2_accurate(0)", r.is_zero(), true); }
    // f64 estimate on the top 64 bits
    let b = n.bits();
    let top = if b > 64 { n.shr(b - 64) } else { n.clone() }.to_u128().unwrap() as f64;
    let l = top.log2() + if b > 64 { (b - 64) as f64 } else { 0.0 };
    let w = l * 4294967296.0;
    let rv = r.to_u128().unwrap_or(u128::MAX) as f64;
    if (rv - w).abs() > 4096.0 + w * 1e-12 { return Err(format!("log2_accurate: got {}, expected about {}", rv, w)); }
    Ok(())
}
// ---------- C11
fn badd(g: &mut G) -> R { let (a, b) = g.z2(); let w = a.add(&b); eqz("add", bi(&a).add(&bi(&b)), &w)?; eqz("add_mut", mutd(&bi(&a), |x| x.add_mut(&bi(&b))), &w) }
fn bsub(g: &mut G) -> R { let (a, b) = g.z2(); let w = a.sub(&b); eqz("sub", bi(&a).sub(&bi(&b)), &w)?; eqz("sub_mut", mutd(&bi(&a), |x| x.sub_mut(&bi(&b))), &w) }
fn bmul(g: &mut G) -> R { let (a, b) = g.z2(); let w = a.mul(&b); eqz("mul", bi(&a).mul(&bi(&b)), &w)?; eqz("mul_mut", mutd(&bi(&a), |x| x.mul_mut(&bi(&b))), &w) }
fn bdivrem(g: &mut G) -> R {
    let (a, b) = g.z2();
    if b.is_zero() { return Ok(()); }
    let (q, r) = a.divrem(&b);
    eqz("div", bi(&a).div(&bi(&b)), &q)?; eqz("div_mut", mutd(&bi(&a), |x| x.div_mut(&bi(&b))), &q)?;
    eqz("rem", bi(&a).rem(&bi(&b)), &r)?; eqz("rem_mut", mutd(&bi(&a), |x| x.rem_mut(&bi(&b))), &r)
}
fn zk(g: &mut G) -> (Z, i32, Z) {
    let k = g.i32();
    let a = match g.below(6) { 0 => { let d = g.below(3) as i128 - 1; Z::from(k as i128 + d) } 1 => { let d = g.below(3) as i128 - 1; Z::from(-(k as i128) + d) } _ => g.z() };
    g.push(Arg::Z(a.clone()));
    (a, k, Z::from(k as i128))
}
fn badd_i32(g: &mut G) -> R { let (a, k, z) = zk(g); let w = a.add(&z); eqz("add_i32", bi(&a).add_i32(k), &w)?; eqz("add_i32_mut", mutd(&bi(&a), |x| x.add_i32_mut(k)), &w) }
fn bsub_i32(g: &mut G) -> R { let (a, k, z) = zk(g); let w = a.sub(&z); eqz("sub_i32", bi(&a).sub_i32(k), &w)?; eqz("sub_i32_mut", mutd(&bi(&a), |x| x.sub_i32_mut(k)), &w) }
fn bmul_i32(g: &mut G) -> R { let (a, k, z) = zk(g); let w = a.mul(&z); eqz("mul_i32", bi(&a).mul_i32(k), &w)?; eqz("mul_i32_mut", mutd(&bi(&a), |x| x.mul_i32_mut(k)), &w) }
fn bdivrem_i32(g: &mut G) -> R {
    let (a, k, z) = zk(g);
    if k == 0 { return Ok(()); }
    let (q, r) = a.divrem(&z);
    eqz("div_i32", bi(&a).div_i32(k), &q)?; eqz("div_i32_mut", mutd(&bi(&a), |x| x.div_i32_mut(k)), &q)?;
    eqz("rem_i32", bi(&a).rem_i32(k), &r)?; eqz("rem_i32_mut", mutd(&bi(&a), |x| x.rem_i32_mut(k)), &r)
}
fn bpow(g: &mut G) -> R {
    g.big = 4;
    let a = g.z();
    let lim = (4000 / (a.m.bits() + 1)).max(2);
    let e = g.small(lim) as u32;
    let w = a.pow(e);
    eqz("pow_u32", bi(&a).pow_u32(e), &w)?;
    eqz("pow_u32_mut", mutd(&bi(&a), |x| x.pow_u32_mut(e)), &w)?;
    eqz("pow2", BigInt::pow2(e), &Z::nat(N::from(1).shl(e as usize)))?;
    let w = Z::new(a.neg, a.m.shl(e as usize));
    eqz("mul_pow2", bi(&a).mul_pow2(e), &w)?;
    eqz("mul_pow2_mut", mutd(&bi(&a), |x| x.mul_pow2_mut(e)), &w)
}
fn bneg_abs(g: &mut G) -> R {
    let a = g.z();
    eqz("neg", bi(&a).neg(), &a.neg())?; eqz("neg_mut", mutd(&bi(&a), |x| x.neg_mut()), &a.neg())?;
    eqz("abs", bi(&a).abs(), &a.abs())?; eqz("abs_mut", mutd(&bi(&a), |x| x.abs_mut()), &a.abs())?;
    eq("is_neg is_zero is_one", (bi(&a).is_neg(), bi(&a).is_zero(), bi(&a).is_one()), (a.neg, a.is_zero(), a == Z::from(1)))
}
fn bshift(g: &mut G) -> R {
    let a = g.z();
    let n = g.small(a.m.raw().len() + 3);
    let f = |m: N| Z::new(a.neg, m);
    eqz("shift_right", bi(&a).shift_right(n), &f(a.m.shr(32 * n)))?;
    eqz("shift_right_mut", mutd(&bi(&a), |x| x.shift_right_mut(n)), &f(a.m.shr(32 * n)))?;
    eqz("shift_left", bi(&a).shift_left(n), &f(a.m.shl(32 * n)))?;
    eqz("shift_left_mut", mutd(&bi(&a), |x| x.shift_left_mut(n)), &f(a.m.shl(32 * n)))?;
    if n <= a.m.raw().len() {
        eqz("slice_right", bi(&a).slice_right(n), &f(a.m.low_bits(32 * n)))?;
        eqz("slice_right_mut", mutd(&bi(&a), |x| x.slice_right_mut(n)), &f(a.m.low_bits(32 * n)))?;
    }
    Ok(())
}
fn brem_pow2(g: &mut G) -> R {
    let a = g.z(); let k = g.small(32);
    let m = if k == 31 { i32::MIN } else { 1 << k };
    eqz("rem_pow2", bi(&a).rem_pow2(m), &Z::new(a.neg, a.m.low_bits(k)))
}
fn bdiv_zero(g: &mut G) -> R {
    let a = g.z();
    panics("div by zero", || bi(&a).div(&BigInt::zero()))?;
    panics("div_i32 by zero", || bi(&a).div_i32(0))?;
    panics("rem by zero", || bi(&a).rem(&BigInt::zero()))
}
