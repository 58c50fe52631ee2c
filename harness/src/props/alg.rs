use super::*;
use hmath::{cubic_2_points, from_points, linear_2_points, quadratic_3_points, Matrix, MatrixError, Polynomial};

pub fn cases(p: &str) -> Vec<Case> {
    match p {
        "C16" => vec![("madd", madd), ("mmul", mmul), ("mk", mk), ("transpose", transpose), ("det", det), ("inverse", inverse), ("shapes", shapes)],
        "C17" => vec![("eval", eval), ("poly_norm", poly_norm), ("pmul_k", pmul_k), ("derivative", derivative), ("newton", newton), ("points", points), ("lin", lin), ("quad", quad), ("cubic", cubic), ("pstring", pstring)],
        _ => vec![],
    }
}
type M = Vec<Vec<Q>>;
fn mgen(g: &mut G, r: usize, c: usize) -> M { (0..r).map(|_| (0..c).map(|_| if g.coin(5) { Q::int(Z::from(0)) } else { g.qsmall() }).collect()).collect() }
fn mm(m: &M) -> Matrix { if m.is_empty() { Matrix::empty() } else { Matrix::from_vec(m.iter().map(|r| r.iter().map(ra).collect()).collect()).unwrap() } }
fn eqm(w: &str, got: &Matrix, want: &M) -> R {
    let (r, c) = (want.len(), want[0].len());
    if got.clone() != mm(want) {
        // shape and entries
        for i in 0..r { for j in 0..c { eqq(&format!("{}[{}][{}]", w, i, j), got.get(i, j).clone(), &want[i][j])?; } }
        return Err(format!("{}: wrong shape: {}", w, got.to_ratio_string()));
    }
    for i in 0..r { for j in 0..c { eqq(&format!("{}[{}][{}]", w, i, j), got.get(i, j).clone(), &want[i][j])?; } }
    Ok(())
}
fn dim(g: &mut G) -> usize { 1 + g.below(4) }
fn madd(g: &mut G) -> R {
    let (r, c) = (dim(g), dim(g));
    let (a, b) = (mgen(g, r, c), mgen(g, r, c));
    let w: M = (0..r).map(|i| (0..c).map(|j| a[i][j].add(&b[i][j])).collect()).collect();
    eqm("add", &mm(&a).add(&mm(&b)).map_err(|e| format!("add: {:?}", e))?, &w)?;
    let mut x = mm(&a); x.add_mut(&mm(&b)).map_err(|e| format!("add_mut: {:?}", e))?;
    eqm("add_mut", &x, &w)
}
fn mprod(a: &M, b: &M) -> M { (0..a.len()).map(|i| (0..b[0].len()).map(|j| (0..b.len()).fold(Q::int(Z::from(0)), |s, k| s.add(&a[i][k].mul(&b[k][j])))).collect()).collect() }
fn mmul(g: &mut G) -> R {
    let (r, k, c) = (dim(g), dim(g), dim(g));
    let (a, b) = (mgen(g, r, k), mgen(g, k, c));
    eqm("mul", &mm(&a).mul(&mm(&b)).map_err(|e| format!("mul: {:?}", e))?, &mprod(&a, &b))
}
fn mk(g: &mut G) -> R {
    let (r, c) = (dim(g), dim(g));
    let a = mgen(g, r, c); let k = g.qsmall();
    let w: M = a.iter().map(|r| r.iter().map(|x| x.mul(&k)).collect()).collect();
    eqm("mul_k", &mm(&a).mul_k(ra(&k)), &w)?;
    let mut x = mm(&a); x.mul_k_mut(ra(&k));
    eqm("mul_k_mut", &x, &w)
}
fn transpose(g: &mut G) -> R {
    let (r, c) = (dim(g), dim(g));
    let a = mgen(g, r, c);
    let w: M = (0..c).map(|j| (0..r).map(|i| a[i][j].clone()).collect()).collect();
    eqm("transpose", &mm(&a).transpose(), &w)?;
    let mut x = mm(&a); x.transpose_mut();
    eqm("transpose_mut", &x, &w)
}
/// Gaussian elimination
fn gdet(a: &M) -> Q {
    let n = a.len(); let mut a = a.clone(); let mut d = Q::int(Z::from(1));
    for c in 0..n {
        let Some(p) = (c..n).find(|r| !a[*r][c].is_zero()) else { return Q::int(Z::from(0)) };
        if p != c { a.swap(p, c); d = d.neg(); }
        d = d.mul(&a[c][c]);
        for r in c + 1..n { let f = a[r][c].div(&a[c][c]); if f.is_zero() { continue; } for k in c..n { let t = f.mul(&a[c][k]); a[r][k] = a[r][k].sub(&t); } }
    }
    d
}
fn sq(g: &mut G) -> M {
    let n = match g.below(12) { 0 => 5, 1 => if g.coin(4) { 6 } else { 5 }, 2 | 3 => 1, 4 | 5 => 2, 6 | 7 => 3, _ => 4 };
    let mut a = mgen(g, n, n);
    if n >= 5 { for r in a.iter_mut() { for x in r.iter_mut() { *x = Q::int(Z::from(g.below(9) as i128 - 4)); } } for r in &a { for x in r { g.push(Arg::Q(x.clone())); } } }
    if n > 1 && g.coin(6) { let (i, j) = (g.below(n), g.below(n)); a[i] = a[j].clone(); }
    if n > 1 && g.coin(6) { // permutation-like
        let k = g.below(n); for i in 0..n { for j in 0..n { if (i + k) % n != j && (j + n - i) % n > 1 { a[i][j] = Q::int(Z::from(0)); } } } }
    for r in &a { for x in r { g.push(Arg::Q(x.clone())); } }
    a
}
fn det(g: &mut G) -> R { let a = sq(g); eqq("determinant", mm(&a).determinant().map_err(|e| format!("determinant: {:?}", e))?, &gdet(&a)) }
fn inverse(g: &mut G) -> R {
    let a = sq(g); let n = a.len();
    let d = gdet(&a);
    match mm(&a).inverse() {
        Ok(m) => {
            if d.is_zero() { return Err("inverse of a singular matrix".into()); }
            let id: M = (0..n).map(|i| (0..n).map(|j| Q::int(Z::from((i == j) as i128))).collect()).collect();
            let inv: M = (0..n).map(|i| (0..n).map(|j| rq(m.get(i, j).clone())).collect::<Result<Vec<_>, _>>()).collect::<Result<Vec<_>, _>>()?;
            eqm("inverse", &m, &inv)?;
            eqm("a * a^-1", &mm(&mprod(&a, &inv)), &id)
        }
        Err(MatrixError::ZeroDeterminant) if d.is_zero() => Ok(()),
        Err(e) => Err(format!("inverse: {:?}", e)),
    }
}
fn shapes(g: &mut G) -> R {
    let (r, c, r2, c2) = (dim(g), dim(g), dim(g), dim(g));
    let (a, b) = (mgen(g, r, c), mgen(g, r2, c2));
    let (x, y) = (mm(&a), mm(&b));
    eq("add shape", x.add(&y).is_ok(), (r, c) == (r2, c2))?;
    eq("add_mut shape", mutd(&x, |m| { if m.add_mut(&y).is_ok() != ((r, c) == (r2, c2)) { *m = Matrix::empty(); } }) != Matrix::empty(), true)?;
    eq("mul shape", x.mul(&y).is_ok(), c == r2)?;
    eq("determinant shape", x.determinant().is_ok(), r == c)?;
    eq("is_square", x.is_square(), r == c)?;
    if r != c { eq("inverse shape", x.inverse().is_err(), true)?; }
    let mut v: Vec<Vec<Ratio>> = a.iter().map(|r| r.iter().map(ra).collect()).collect();
    if r > 1 { let k = g.below(r); v[k].push(Ratio::one()); eq("ragged", Matrix::from_vec(v).is_err(), true)?; }
    let n = dim(g);
    let id: M = (0..n).map(|i| (0..n).map(|j| Q::int(Z::from((i == j) as i128))).collect()).collect();
    eqm("identity", &Matrix::identity(n), &id)?;
    eqm("zeros", &Matrix::zeros(c, r), &(0..r).map(|_| vec![Q::int(Z::from(0)); c]).collect())?;
    eqm("generate", &Matrix::generate(c, r, |i, j| ra(&a[i][j])), &a)?;
    eq("empty determinant", Matrix::empty().determinant().is_err() && Matrix::empty().inverse().is_err(), true)
}
// ---------- C17
fn coeffs(g: &mut G) -> Vec<Q> { let n = if g.coin(6) { g.below(14) } else { g.below(6) }; (0..n).map(|_| if g.coin(4) { Q::int(Z::from(0)) } else { g.qsmall() }).collect() }
fn poly(c: &[Q]) -> Polynomial { Polynomial::from_vec(c.iter().map(ra).collect()) }
fn norm(c: &[Q]) -> Vec<Q> { let i = c.iter().position(|x| !x.is_zero()).unwrap_or(c.len()); if i == c.len() { vec![Q::int(Z::from(0))] } else { c[i..].to_vec() } }
fn value(c: &[Q], x: &Q) -> Q { c.iter().fold(Q::int(Z::from(0)), |s, k| s.mul(x).add(k)) }
fn deriv(c: &[Q]) -> Vec<Q> { let n = c.len(); (0..n.saturating_sub(1)).map(|i| c[i].mul(&Q::int(Z::from((n - 1 - i) as i128)))).collect() }
fn eqp(w: &str, p: &Polynomial, c: &[Q]) -> R {
    let v: Vec<Q> = p.to_vec().iter().map(|r| rq(r.clone())).collect::<Result<_, _>>().map_err(|e| format!("{}: {}", w, e))?;
    eq(w, v, norm(c))
}
fn eval(g: &mut G) -> R { let c = coeffs(g); let x = g.qsmall(); eqq("calc", poly(&c).calc(&ra(&x)), &value(&c, &x)) }
fn poly_norm(g: &mut G) -> R {
    let c = coeffs(g);
    eqp("from_vec", &poly(&c), &c)?;
    eqp("from_vec_generic", &Polynomial::from_vec_generic(c.iter().map(ra).collect::<Vec<Ratio>>()), &c)?;
    let k: Vec<i32> = (0..g.below(5)).map(|_| g.below(3) as i32).collect();
    for x in &k { g.push(Arg::I(*x as i128)); }
    eqp("from_vec_generic i32", &Polynomial::from_vec_generic(k.clone()), &k.iter().map(|x| Q::int(Z::from(*x as i128))).collect::<Vec<_>>())
}
fn pmul_k(g: &mut G) -> R {
    let c = coeffs(g); let k = if g.coin(5) { let q = Q::int(Z::from(g.below(3) as i128 - 1)); g.push(Arg::Q(q.clone())); q } else { g.qsmall() };
    let w: Vec<Q> = c.iter().map(|x| x.mul(&k)).collect();
    eqp("mul_k", &poly(&c).mul_k(ra(&k)), &w)?;
    eqp("mul_k_mut", &mutd(&poly(&c), |p| p.mul_k_mut(ra(&k))), &w)
}
fn derivative(g: &mut G) -> R {
    let c = coeffs(g);
    let w = deriv(&norm(&c));
    eqp("differentiate", &poly(&c).differentiate(), &w)?;
    eqp("differentiate_mut", &mutd(&poly(&c), |p| p.differentiate_mut()), &w)
}
fn newton(g: &mut G) -> R {
    let c = coeffs(g); let x = g.qsmall();
    let d = value(&deriv(&norm(&c)), &x);
    let p = poly(&c);
    if d.is_zero() { return panics("newton_method with f'(x) = 0", || p.newton_method(&ra(&x), &None)); }
    let w = x.sub(&value(&c, &x).div(&d));
    eqq("newton_method", p.newton_method(&ra(&x), &None), &w)?;
    eqq("newton_method with f'", p.newton_method(&ra(&x), &Some(p.differentiate())), &w)
}
fn points(g: &mut G) -> R {
    let n = match g.below(10) { 0 => 5, 1 => 1, 2 => 4, 3..=5 => 3, _ => 2 };
    let mut xs: Vec<Q> = (0..n).map(|_| if n > 3 { let q = Q::int(Z::from(g.below(15) as i128 - 7)); g.push(Arg::Q(q.clone())); q } else { g.qsmall() }).collect();
    if n > 1 && g.coin(8) { xs[0] = xs[1].clone(); }
    let ys: Vec<Q> = (0..n).map(|_| g.qsmall()).collect();
    let dup = (0..n).any(|i| (0..i).any(|j| xs[i] == xs[j]));
    match from_points(xs.iter().zip(&ys).map(|(x, y)| (ra(x), ra(y))).collect()) {
        Ok(p) => {
            if dup { return Err("from_points accepted repeated abscissae".into()); }
            if p.to_vec().len() > n { return Err(format!("from_points: degree too large: {}", p.to_ratio_string())); }
            for (x, y) in xs.iter().zip(&ys) { eqq("interpolant", p.calc(&ra(x)), y)?; }
            let c: Vec<Q> = p.to_vec().iter().map(|r| rq(r.clone())).collect::<Result<_, _>>()?;
            eq("normalised", norm(&c), c)
        }
        Err(e) => if dup { Ok(()) } else { Err(format!("from_points: {:?}", e)) },
    }
}
fn lin(g: &mut G) -> R {
    let (a, b, v1, v2) = (g.qsmall(), g.qsmall(), g.qsmall(), g.qsmall());
    let p = linear_2_points(&ra(&a), &ra(&b), &ra(&v1), &ra(&v2));
    if p.to_vec().len() > 2 { return Err("degree".into()); }
    eqq("f(a)", p.calc(&ra(&a)), &v1)?;
    if a != b { eqq("f(b)", p.calc(&ra(&b)), &v2)?; } else { eq("constant", p.to_vec().len(), 1)?; }
    Ok(())
}
fn quad(g: &mut G) -> R {
    let (a, b, c, v1, v2, v3) = (g.qsmall(), g.qsmall(), g.qsmall(), g.qsmall(), g.qsmall(), g.qsmall());
    let p = quadratic_3_points(&ra(&a), &ra(&b), &ra(&c), &ra(&v1), &ra(&v2), &ra(&v3));
    if p.to_vec().len() > 3 { return Err("degree".into()); }
    if a != b && b != c && a != c { eqq("f(a)", p.calc(&ra(&a)), &v1)?; eqq("f(b)", p.calc(&ra(&b)), &v2)?; eqq("f(c)", p.calc(&ra(&c)), &v3)?; }
    else { // one of the inconsistent values is dropped: the others hold
        let ok = |x: &Q, v: &Q| rq(p.calc(&ra(x))).map(|y| &y == v).unwrap_or(false);
        let n = [ok(&a, &v1), ok(&b, &v2), ok(&c, &v3)].iter().filter(|x| **x).count();
        if n < 1 { return Err(format!("quadratic_3_points with repeated points satisfies none of them: {}", p.to_ratio_string())); }
        for (x, y, v, z, u) in [(&a, &b, &v1, &c, &v3), (&a, &c, &v1, &b, &v2), (&b, &c, &v2, &a, &v1)] { if x == y && x != z && !(ok(z, u) && (ok(x, v) || n >= 2)) { return Err(format!("quadratic_3_points with one repeated point: {}", p.to_ratio_string())); } }
    }
    Ok(())
}
fn cubic(g: &mut G) -> R {
    let (a, b, v1, v2, v3, v4) = (g.qsmall(), if g.coin(8) { Q::int(Z::from(1)) } else { g.qsmall() }, g.qsmall(), g.qsmall(), g.qsmall(), g.qsmall());
    let b = if g.coin(10) { a.clone() } else { b };
    g.push(Arg::Q(b.clone()));
    let p = cubic_2_points(&ra(&a), &ra(&b), &ra(&v1), &ra(&v2), &ra(&v3), &ra(&v4));
    if p.to_vec().len() > 4 { return Err("degree".into()); }
    let d = p.differentiate();
    eqq("f(a)", p.calc(&ra(&a)), &v1)?; eqq("f'(a)", d.calc(&ra(&a)), &v3)?;
    if a != b { eqq("f(b)", p.calc(&ra(&b)), &v2)?; eqq("f'(b)", d.calc(&ra(&b)), &v4)?; }
    Ok(())
}
fn pstring(g: &mut G) -> R {
    // the printed polynomial has one term per non-zero coefficient
    let c = coeffs(g);
    let s = poly(&c).to_ratio_string();
    let n = norm(&c).iter().filter(|x| !x.is_zero()).count().max(1);
    let terms = 1 + s.matches(" + ").count() + s.matches(" - ").count();
    if s.is_empty() || terms != n { return Err(format!("to_ratio_string = {:?} for {:?}", s, norm(&c))); }
    Ok(())
}
