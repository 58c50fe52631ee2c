use crate::gen::{Arg, G};
use crate::nat::{N, Q, Z};
use crate::{caught, Case, R};
use hmath::{BigInt, Ratio, UBigInt};
use std::cmp::Ordering;
mod ints;
mod rats;
mod alg;
mod fp;

pub fn ub(n: &N) -> UBigInt { UBigInt::from_raw(n.raw()) }
pub fn bi(z: &Z) -> BigInt { BigInt::from_raw(z.m.raw(), z.neg) }
pub fn ra(q: &Q) -> Ratio { Ratio::from_raw(q.d.raw(), false, q.n.m.raw(), q.n.neg) }
fn limbs(v: &[u32]) -> Result<N, String> {
    if v.is_empty() { return Err("empty limb vector".into()); }
    if v.len() > 1 && v[v.len() - 1] == 0 { return Err(format!("not canonical: leading zero limb in {:x?}", v)); }
    Ok(N::new(v.to_vec()))
}
pub fn un(u: UBigInt) -> Result<N, String> { limbs(&u.into_raw()) }
pub fn bz(b: BigInt) -> Result<Z, String> {
    let (v, s) = b.into_raw();
    let n = limbs(&v)?;
    if n.is_zero() && s { return Err("not canonical: negative zero".into()); }
    Ok(Z::new(s, n))
}
pub fn rq(r: Ratio) -> Result<Q, String> {
    let (d, dn, n, nn) = r.into_raw();
    let (d, n) = (limbs(&d)?, limbs(&n)?);
    if d.is_zero() { return Err("denominator 0".into()); }
    if dn { return Err("negative denominator".into()); }
    if n.is_zero() && nn { return Err("negative zero numerator".into()); }
    if !n.gcd(&d).is_one() { return Err(format!("not in lowest terms: {:?} / {:?}", n, d)); }
    Ok(Q { n: Z::new(nn, n), d })
}
pub fn eqn(w: &str, got: UBigInt, want: &N) -> R {
    let g = un(got).map_err(|e| format!("{}: {}", w, e))?;
    if &g == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", w, g, want)) }
}
pub fn eqz(w: &str, got: BigInt, want: &Z) -> R {
    let g = bz(got).map_err(|e| format!("{}: {}", w, e))?;
    if &g == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", w, g, want)) }
}
pub fn eqq(w: &str, got: Ratio, want: &Q) -> R {
    let g = rq(got).map_err(|e| format!("{}: {}", w, e))?;
    if &g == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", w, g, want)) }
}
pub fn eq<T: PartialEq + std::fmt::Debug>(w: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", w, got, want)) }
}
/// must panic
pub fn panics<T: std::fmt::Debug>(w: &str, f: impl FnOnce() -> T) -> R {
    match caught(f) { Err(_) => Ok(()), Ok(v) => Err(format!("{}: expected a panic, got {:?}", w, v)) }
}
pub fn mutd<T: Clone>(x: &T, f: impl FnOnce(&mut T)) -> T { let mut y = x.clone(); f(&mut y); y }
pub fn hash<T: std::hash::Hash>(x: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }

pub fn cases(p: &str) -> Vec<Case> {
    match p {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => ints::cases(p),
        "C12" | "C13" | "C14" | "C15" | "C21" => rats::cases(p),
        "C16" | "C17" => alg::cases(p),
        "C18" | "C19" | "C20" => fp::cases(p),
        _ => vec![],
    }
}
