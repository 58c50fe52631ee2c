@fn Polynomial::from_vec
@prop C17
@spec
    requires wfrow(coeffs@),
    ensures r.wf(), r.c() == strip(rvs(coeffs@)), forall|x: real| #[trigger] peval(r.c(), x) == peval(rvs(coeffs@), x),
@begin
    let ghost c0 = coeffs@;
    proof { axiom_len_any(&coeffs); }
@loop 0
    invariant i <= coeffs@.len(), coeffs@ == c0, wfrow(c0), c0.len() < usize::MAX, forall|k: int| 0 <= k < i ==> (#[trigger] c0[k]).rv() == 0real,
    ensures i < c0.len() ==> c0[i as int].rv() != 0real,
    decreases coeffs@.len() - i,
@loop 0 after
    proof {
        strip_skip(rvs(c0), i as int);
        assert(rvs(c0.skip(i as int)) =~= rvs(c0).skip(i as int));
        assert(rvs(c0).skip(0) =~= rvs(c0));
        assert forall|x: real| #[trigger] peval(strip(rvs(c0)), x) == peval(rvs(c0), x) by { peval_strip(rvs(c0), x); }
    }
@end
    proof { assert(vx_r.c() =~= strip(rvs(c0))); }
@fn Polynomial::from_vec_generic
@prop C17
@spec
    requires wfrow(coeffs@),
    ensures r.wf(), r.c() == strip(rvs(coeffs@)), forall|x: real| #[trigger] peval(r.c(), x) == peval(rvs(coeffs@), x),
@loop 0
    invariant $c <= $e, $e == coeffs@.len(), $v@.len() == $c, forall|i: int| 0 <= i < $c ==> #[trigger] $v@[i] == coeffs@[i],
    decreases $e - $c,
@loop 0 after
    proof { assert($v@ =~= coeffs@); }
@fn Polynomial::to_vec
@prop C17
@spec
    ensures r@ == self.coeffs@,
@fn Polynomial::calc
@prop C17
@spec
    requires self.wf(), x.wf(),
    ensures r.wf(), r.rv() == peval(self.c(), x.rv()),
@loop 0
    invariant $c <= $e, $e == self.coeffs@.len(), self.wf(), x.wf(), result.wf(), result.rv() == peval(self.c().take($c as int), x.rv()),
    decreases $e - $c,
@loop 0 end
    proof { assert(self.c().take($c as int).drop_last() =~= self.c().take($c - 1)); }
@loop 0 after
    proof { assert(self.c().take(self.coeffs@.len() as int) =~= self.c()); }
@fn Polynomial::mul_k
@prop C17
@spec
    requires self.wf(), k.wf(),
    ensures r.wf(), forall|x: real| #[trigger] peval(r.c(), x) == peval(self.c(), x) * k.rv(),
@loop 0
    invariant $c <= $e, $e == self.coeffs@.len(), self.wf(), k.wf(), $v@.len() == $c, wfrow($v@), forall|i: int| 0 <= i < $c ==> (#[trigger] $v@[i]).rv() == self.c()[i] * k.rv(),
    decreases $e - $c,
@loop 0 after
    proof {
        assert(rvs($v@) =~= scale(self.c(), k.rv()));
        assert forall|x: real| #[trigger] peval(rvs($v@), x) == peval(self.c(), x) * k.rv() by { peval_scale(self.c(), k.rv(), x); }
    }
@fn Polynomial::mul_k_mut
@prop C17
@spec
    requires old(self).wf(), k.wf(),
    ensures final(self).wf(), forall|x: real| #[trigger] peval(final(self).c(), x) == peval(old(self).c(), x) * k.rv(),
@loop 0
    invariant $c <= $e, $e == self.coeffs@.len(), self.coeffs@.len() == old(self).coeffs@.len(), old(self).wf(), k.wf(), k.rv() != 0real, wfrow(self.coeffs@),
        forall|i: int| 0 <= i < $e ==> (#[trigger] self.coeffs@[i]).rv() == if i < $c { old(self).c()[i] * k.rv() } else { old(self).c()[i] },
    decreases $e - $c,
@loop 0 after
    proof {
        assert(self.c() =~= scale(old(self).c(), k.rv()));
        assert forall|x: real| #[trigger] peval(self.c(), x) == peval(old(self).c(), x) * k.rv() by { peval_scale(old(self).c(), k.rv(), x); }
        real_prod_nz0(old(self).c()[0], k.rv());
    }
@return 0
    proof {
        assert(rvs(self.coeffs@) == strip(Seq::empty()) || true);
        assert forall|x: real| #[trigger] peval(self.c(), x) == peval(old(self).c(), x) * k.rv() by { peval_empty(x); let p = peval(old(self).c(), x); assert(p * 0real == 0real) by(nonlinear_arith); }
    }
@fn Polynomial::differentiate
@prop C17
@spec
    requires self.wf(), self.coeffs@.len() <= 0x7fff_ffff,
    ensures r.wf(), r.c() == strip(deriv(self.c())),
@loop 0
    invariant $c <= $e, $e == self.coeffs@.len(), self.wf(), self.coeffs@.len() <= 0x7fff_ffff, wfrow(result@), result@.len() == $c, forall|i: int| 0 <= i < $c ==> (#[trigger] result@[i]).rv() == self.c()[i] * (($e - 1 - i) as real),
    decreases $e - $c,
@before let result#1
    proof { deriv_fix(self.c()); assert(rvs(result@) =~= if self.c().len() == 1 { seq![0real] } else { deriv(self.c()) }); }
@fn Polynomial::differentiate_mut
@prop C17
@spec
    requires old(self).wf(), old(self).coeffs@.len() <= 0x7fff_ffff,
    ensures final(self).wf(), final(self).c() == strip(deriv(old(self).c())),
@loop 0
    invariant $c <= $e, $e == self.coeffs@.len(), self.coeffs@.len() == old(self).coeffs@.len(), old(self).wf(), self.coeffs@.len() <= 0x7fff_ffff, wfrow(self.coeffs@),
        forall|i: int| 0 <= i < $e ==> (#[trigger] self.coeffs@[i]).rv() == if i >= $e - $c { old(self).c()[i] * (($e - 1 - i) as real) } else { old(self).c()[i] },
    decreases $e - $c,
@end
    proof { deriv_fix(old(self).c()); assert(self.c() =~= if old(self).c().len() == 1 { seq![0real] } else { deriv(old(self).c()) }); }
@fn Polynomial::newton_method
@prop C17
@spec
    requires self.wf(), x.wf(), self.coeffs@.len() <= 0x7fff_ffff,
        match *prime { Some(p) => p.wf() && peval(p.c(), x.rv()) != 0real, None => peval(deriv(self.c()), x.rv()) != 0real },
    ensures r.wf(), r.rv() == x.rv() - peval(self.c(), x.rv()) / (match *prime { Some(p) => peval(p.c(), x.rv()), None => peval(deriv(self.c()), x.rv()) }),
@begin
    proof { peval_strip(deriv(self.c()), x.rv()); }
@fn from_points
@prop C17
@spec
    requires forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]).0.wf() && p@[i].1.wf(),
    ensures match r {
        Ok(f) => f.wf() && p@.len() > 0 && f.c().len() <= p@.len() && distinct(px(p@), p@.len()) && (forall|i: int| 0 <= i < p@.len() ==> peval(f.c(), (#[trigger] p@[i]).0.rv()) == p@[i].1.rv()),
        Err(e) => e is ZeroDeterminant && (p@.len() == 0 || !distinct(px(p@), p@.len())),
    },
@begin
    let ghost n = p@.len();
    let ghost x = px(p@);
    proof { axiom_len_any(&p); }
@loop 0
    invariant $c <= $e, $e == n, n == p@.len(), n < 0x80_0000_0000_0000, x == px(p@), mat1.wf(), mat2.wf(), mat1.rows == n, mat1.cols == n, mat2.rows == n, mat2.cols == 1,
        forall|i: int| 0 <= i < n ==> (#[trigger] p@[i]).0.wf() && p@[i].1.wf(),
        forall|a: int, b: int| 0 <= a < $c && 0 <= b < n ==> (#[trigger] mat1.data@[a]@[b]).rv() == rpow(x(a), (n - 1 - b) as nat),
        forall|a: int| 0 <= a < $c ==> (#[trigger] mat2.data@[a])@[0].rv() == p@[a].1.rv(),
    decreases $e - $c,
@loop 1
    invariant 1 <= $c <= $e, $e == n + 1, $c0 == i + 1, i < n, n == p@.len(), n < 0x80_0000_0000_0000, x == px(p@), mat1.wf(), mat1.rows == n, mat1.cols == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] p@[i]).0.wf() && p@[i].1.wf(),
        curr.wf(), curr.rv() == rpow(x(i as int), ($c - 1) as nat),
        forall|a: int, b: int| 0 <= a < i && 0 <= b < n ==> (#[trigger] mat1.data@[a]@[b]).rv() == rpow(x(a), (n - 1 - b) as nat),
        forall|b: int| n - $c < b < n ==> (#[trigger] mat1.data@[i as int]@[b]).rv() == rpow(x(i as int), (n - 1 - b) as nat),
    decreases $e - $c,
@loop 1 end
    proof { rcom(x(i as int), rpow(x(i as int), ($c - 2) as nat)); }
@loop 0 after
    proof {
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] mat1.f()(a, b) == #[trigger] vand(x, n)(a, b) by { assert(mat1.data@[a]@[b].rv() == rpow(x(a), (n - 1 - b) as nat)); }
        if n > 0 { vand_det(x, mat1.f(), n); }
    }
@loop 2
    invariant $c <= $e, $e == n, n == p@.len(), result.wf(), result.rows == n, result.cols == 1, $v@.len() == $c, wfrow($v@),
        forall|k: int| 0 <= k < $c ==> (#[trigger] $v@[k]).rv() == result.f()(k, 0),
    decreases $e - $c,
@loop 2 after
    proof {
        let c = rvs($v@);
        assert forall|k: int| 0 <= k < n implies #[trigger] c[k] == mmul(mat1_inv.f(), mat2.f(), n)(k, 0) by { assert($v@[k].rv() == result.data@[k]@[0].rv()); }
        assert forall|i: int| 0 <= i < n implies peval(c, (#[trigger] p@[i]).0.rv()) == p@[i].1.rv() by {
            interp(x, mat1.f(), mat1_inv.f(), mat2.f(), c, n, i);
            assert(mat2.data@[i]@[0].rv() == p@[i].1.rv());
        }
        strip_len(c);
    }
@fn linear_2_points
@prop C17
@spec
    requires a.wf(), b.wf(), v1.wf(), v2.wf(),
    ensures r.wf(), r.c().len() <= 2, peval(r.c(), a.rv()) == v1.rv(), a.rv() != b.rv() ==> peval(r.c(), b.rv()) == v2.rv(),
        a.rv() == b.rv() ==> r.c() == seq![v1.rv()],
@begin
    proof { ratio_unique(*a, *b); }
@after let c
    proof {
        let (t, k, x, y) = (tan.rv(), c.rv(), a.rv(), b.rv());
        lin_eval(t, k, x, y, v1.rv(), v2.rv());
        assert forall|q: Seq<Ratio>| q.len() == 2 && q[0] == tan && q[1] == c implies #[trigger] rvs(q) == seq![t, k] by { assert(rvs(q) =~= seq![t, k]); }
        strip_len(seq![t, k]);
    }
@fn quadratic_3_points
@prop C17
@spec
    requires a.wf(), b.wf(), c.wf(), v1.wf(), v2.wf(), v3.wf(),
    ensures r.wf(), r.c().len() <= 3,
        // each point is met, except that of points with the same abscissa only one is
        one_of(peval(r.c(), a.rv()), true, v1.rv(), a.rv() == b.rv(), v2.rv(), a.rv() == c.rv(), v3.rv()),
        one_of(peval(r.c(), b.rv()), b.rv() == a.rv(), v1.rv(), true, v2.rv(), b.rv() == c.rv(), v3.rv()),
        one_of(peval(r.c(), c.rv()), c.rv() == a.rv(), v1.rv(), c.rv() == b.rv(), v2.rv(), true, v3.rv()),
@begin
    proof { ratio_unique(*a, *b); }
    let ghost x = at3(a.rv(), b.rv(), c.rv());
    let ghost mut g: M = arbitrary();
@recv inverse
    proof {
        g = vx_o.f();
        quad_mat(x, g);
        vand_det(x, g, 3);
        assert(!distinct(x, 3) ==> x(0) == x(1) || x(0) == x(2) || x(1) == x(2));
        assert(distinct(x, 3) ==> x(0) != x(1) && x(0) != x(2) && x(1) != x(2));
    }
@after let result
    proof {
        let (c0, c1, c2) = (result.f()(0, 0), result.f()(1, 0), result.f()(2, 0));
        let cs = seq![c0, c1, c2];
        assert forall|k: int| 0 <= k < 3 implies #[trigger] cs[k] == mmul(mat2.f(), mat1.f(), 3)(k, 0) by { assert(cs[k] == result.data@[k]@[0].rv()); }
        interp(x, g, mat2.f(), mat1.f(), cs, 3, 0); interp(x, g, mat2.f(), mat1.f(), cs, 3, 1); interp(x, g, mat2.f(), mat1.f(), cs, 3, 2);
        assert(x(0) == a.rv() && x(1) == b.rv() && x(2) == c.rv());
        strip_len(cs);
        rvs3(c0, c1, c2);
    }
@fn from_points_generic
@prop C17
@spec
    requires forall|i: int| 0 <= i < points@.len() ==> (#[trigger] points@[i]).0.wf() && points@[i].1.wf(),
    ensures match r {
        Ok(f) => f.wf() && points@.len() > 0 && f.c().len() <= points@.len() && distinct(px(points@), points@.len()) && (forall|i: int| 0 <= i < points@.len() ==> peval(f.c(), (#[trigger] points@[i]).0.rv()) == points@[i].1.rv()),
        Err(e) => e is ZeroDeterminant && (points@.len() == 0 || !distinct(px(points@), points@.len())),
    },
@loop 0
    invariant $c <= $e, $e == points@.len(), $v@.len() == $c, forall|i: int| 0 <= i < $c ==> #[trigger] $v@[i] == points@[i],
    decreases $e - $c,
@loop 0 after
    proof { assert($v@ =~= points@); }
@fn cubic_2_points
@prop C17
@spec
    requires a.wf(), b.wf(), v1.wf(), v2.wf(), v3.wf(), v4.wf(),
    ensures r.wf(), r.c().len() <= 4, peval(r.c(), a.rv()) == v1.rv(), peval(deriv(r.c()), a.rv()) == v3.rv(),
        a.rv() != b.rv() ==> peval(r.c(), b.rv()) == v2.rv() && peval(deriv(r.c()), b.rv()) == v4.rv(),
@begin
    proof { ratio_unique(*a, *b); }
    let ghost mut g: M = arbitrary();
@recv inverse
    proof {
        g = vx_o.f();
        assert(herm(a.rv(), b.rv(), g));
        herm_det(a.rv(), b.rv(), g);
        let d = a.rv() - b.rv();
        if d != 0real { real_prod_nz(d, d); real_prod_nz(d, d * d); real_prod_nz(d, d * (d * d)); }
        else { assert(0real * (0real * (0real * 0real)) == 0real) by(nonlinear_arith); }
    }
@after let result
    proof {
        let (c0, c1, c2, c3) = (result.f()(0, 0), result.f()(1, 0), result.f()(2, 0), result.f()(3, 0));
        let cs = seq![c0, c1, c2, c3];
        assert forall|k: int| 0 <= k < 4 implies #[trigger] cs[k] == mmul(mat2.f(), mat1.f(), 4)(k, 0) by { assert(cs[k] == result.data@[k]@[0].rv()); }
        herm_solve(a.rv(), b.rv(), g, mat2.f(), mat1.f(), cs);
        strip_len(cs);
        rvs4(c0, c1, c2, c3);
        deriv_strip(cs, a.rv()); deriv_strip(cs, b.rv());
    }
@return 0
    proof {
        let (t, k) = (v3.rv(), v1.rv() - a.rv() * v3.rv());
        let cs = seq![t, k];
        rvs2(t, k);
        peval2(t, k, a.rv()); rcom(t, a.rv());
        deriv_strip(cs, a.rv());
        assert(deriv(cs) =~= seq![t * 1real]);
        peval1(t * 1real, a.rv());
        strip_len(cs);
        assert(vx_r.c() == strip(cs));
    }
