@fn UBigInt::factorial
@prop C10
@attr #[verifier::rlimit(60)]
@spec
    ensures r.wf(), r.v() == fact(n as nat),
@begin
    proof { fact_20(); pw_1(); }
@loop 0
    invariant 2 <= $c <= 21, $e == n + 1, n < 21, $c == 2 || $c <= $e, result == fact(($c - 1) as nat), 
    decreases $e - $c,
@loop 0 top
    proof { fact_step($c as nat); fact_mono($c as nat, 20); fact_20(); assert(result * $c == fact($c as nat)); }
@loop 0 after
    proof { if n < 2 { assert(fact(n as nat) == 1); } }
@before let int_buffer
    proof { assert(result.0@ =~= seq![2192834560u32, 566454140u32]); tab_fact20(); }
@loop 1
    invariant 21 <= $c <= $e, $e == n + 1, n < 129, 1 <= int_buffer <= 0x100_0000, result.wf(), result.v() * int_buffer == fact(($c - 1) as nat),
    decreases $e - $c,
@loop 1 top
    let ghost (r0, b0) = (result.v() as int, int_buffer as int);
    proof { fact_step($c as nat); assert(b0 * $c <= 0x100_0000 * 128) by(nonlinear_arith) requires 0 <= b0 <= 0x100_0000, 0 <= $c <= 128; assert(b0 * $c >= 1) by(nonlinear_arith) requires b0 >= 1, $c >= 1;
        assert(r0 * (b0 * $c) == (r0 * b0) * $c) by(nonlinear_arith); }
@loop 1 end
    proof { assert(result.v() * 1 == result.v()); }
@loop 1 after
    proof { if int_buffer == 1 { assert(result.v() * int_buffer == result.v()) by(nonlinear_arith) requires int_buffer == 1; } }
@before let buffer
    proof { assert(result.0@ =~= tab128()); tab_fact128(); assert(result.v() * 1 == result.v()); }
@loop 2
    invariant 129 <= $c <= $e, $e == n + 1, result.wf(), buffer.wf(), result.v() * buffer.v() == fact(($c - 1) as nat),
    decreases $e - $c,
@loop 2 top
    let ghost (r1, b1, c1) = (result.v() as int, buffer.v() as int, $c as int);
    proof { fact_step($c as nat); assert(r1 * (b1 * c1) == (r1 * b1) * c1) by(nonlinear_arith); }
@loop 2 end
    proof { assert(result.v() * 1 == result.v()); }
@fn UBigInt::fibonacci
@prop C10
@spec
    ensures r.wf(), r.v() == fib(n as nat),
@begin
    proof { fib_tab(); pw_1(); }
@loop 0
    invariant 14 <= n < 187, $c <= $e, $e == n - 13, last == fib($c as nat + 13), llast == fib($c as nat + 12), $c > 0 ==> result == last,
    decreases $e - $c,
@loop 0 top
    proof { fib_step($c as nat + 12); fib_mono($c as nat + 14, 186); fib_tab(); }
@before let result#1
    proof { assert(last.0@ =~= seq![858943736u32, 3366396219u32, 4196493967u32, 4200843481u32]); assert(llast.0@ =~= seq![3883453837u32, 806826839u32, 1203823756u32, 2596264053u32]); tab_fib(); }
@loop 1
    invariant n >= 187, $c <= $e, $e == n - 186, last.wf(), llast.wf(), result.wf(), last.v() == fib($c as nat + 186), llast.v() == fib($c as nat + 185), $c > 0 ==> result.v() == last.v(),
    decreases $e - $c,
@loop 1 top
    proof { fib_step($c as nat + 185); }
@fn UBigInt::is_prime
@prop C09
@attr #[verifier::rlimit(60)]
@spec
    requires self.wf(), self.0@.len() < 0x1_0000_0000,
    ensures r == prime(self.v() as int),
@begin
    let ghost n0 = self.v() as int;
    proof { canon_bounds(self.0@); low_parity(self.0@); if n0 % 2 == 0 && n0 > 2 { composite_not_prime(n0, 2); } if n0 == 2 { prime_by_sqrt(2, 2); } }
@after let iter_until
    let ghost s = iter_until.v() as int - 1;
    proof { assert(s >= 1) by(nonlinear_arith) requires n0 >= 2, n0 < (s + 1) * (s + 1), s >= 0;
        assert(n0 == self.v()); let lim = s + 1;
        assert(s <= 0xffff_fffe ==> n0 <= 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires n0 < (s + 1) * (s + 1), s >= 0;
    }
@loop 0
    invariant self.v() == n0, self_ == n0, n0 % 2 != 0, 3 <= div, div % 2 == 1, nofac(n0, div as int), n0 >= 2, n == s + 1, n0 < (s + 1) * (s + 1), s >= 1,
        s * s <= n0,
    decreases (if div < n { n - div + 2 } else { 0 }),
@loop 0 top
    proof { let d9 = div as int; assert(d9 < n0) by(nonlinear_arith) requires s * s <= n0, 2 <= d9 <= s; if n0 % (div as int) == 0 { composite_not_prime(n0, div as int); } else { nofac_next(n0, div as int); } }
@loop 0 after
    proof { let dd = div as int; assert(n0 < dd * dd) by(nonlinear_arith) requires n0 < (s + 1) * (s + 1), s >= 1, dd >= s + 1; prime_by_sqrt(n0, dd); }
@loop 1
    invariant self.wf(), self.v() == n0, self.0@.len() < 0x1_0000_0000, n0 % 2 != 0, $c <= $e, $e == 0x7fff_fffe, div == 3 + 2 * $c, nofac(n0, div as int), n0 >= 2, s >= 0xffff_ffff,
        s * s <= n0,
    decreases $e - $c,
@loop 1 top
    proof { let d9 = div as int; assert(d9 < n0) by(nonlinear_arith) requires s * s <= n0, 2 <= d9 <= s; if n0 % (div as int) == 0 { composite_not_prime(n0, div as int); } else { nofac_next(n0, div as int); } }
@before let div#2
    proof { assert(div == 0x1_0000_0001);
        assert(n0 % 0xffff_ffff != 0) by { if n0 % 0xffff_ffff == 0 { assert(0xffff_ffffint % 3 == 0); mod_mul(n0, 0xffff_ffff, 3); } }
        nofac_next(n0, 0xffff_ffff); }
@loop 2
    invariant self.wf(), self.v() == n0, n0 % 2 != 0, n0 >= 2, div.wf(), div.v() >= 3, div.v() % 2 == 1, nofac(n0, div.v() as int),
    decreases (if div.v() <= n0 { n0 - div.v() + 1 } else { 0 }),
@loop 2 top
    proof { let dd = div.v() as int; assert(dd < n0) by(nonlinear_arith) requires dd * dd <= n0, dd >= 3; if n0 % dd == 0 { composite_not_prime(n0, dd); } else { nofac_next(n0, dd); } }
@loop 2 after
    proof { prime_by_sqrt(n0, div.v() as int); }
@fn UBigInt::prime_factorial
@prop C09
@attr #[verifier::rlimit(60)]
@spec
    requires self.wf(), self.0@.len() < 0x1_0000_0000,
    ensures self.v() < 2 ==> r@.len() == 1 && r@[0].wf() && r@[0].v() == self.v(),
        self.v() >= 2 ==> prod(r@) == self.v() && factors(r@, self.v() as int),
@begin
    let ghost n0 = self.v() as int;
    let ghost mut lo: int = 2;
    let ghost mut g: int = 3;
    proof { axiom_p2_1(); }
@after let result
    proof { assert(prod(result@) == 1); }
@loop 0
    invariant lo == 2, g == 3, self_clone.wf(), ispow2(2), factors(result@, 2), prod(result@) * self_clone.v() == n0, self_clone.0@.len() < 0x1_0000_0000, n0 > 0 ==> self_clone.v() > 0, n0 == 0 ==> self_clone.v() == 0 && result@.len() == 0, n0 == 1 ==> result@.len() == 0 && self_clone.v() == 1,
    decreases self_clone.v(),
@loop 0 top
    let ghost (c0, s0, t0) = (self_clone.v() as int, result@, self_clone.0@);
    proof { prime_by_sqrt(2, 2); }
@loop 0 end
    proof { take_factor(s0, result@.last(), c0, 2, n0); assert(result@ =~= s0.push(result@.last())); len_mono(self_clone.0@, t0); }
@loop 0 after
    proof { if n0 >= 2 { assert(nofac(self_clone.v() as int, 3)); } }
@loop 1
    invariant self_clone.wf(), self_clone.0@.len() < 0x1_0000_0000, 3 <= div, div % 2 == 1, g == div, 2 <= lo <= g, factors(result@, lo), n0 >= 2 ==> nofac(self_clone.v() as int, g), 0 <= div as int * div as int <= 0xffff_ffff * 0xffff_ffff, prod(result@) * self_clone.v() == n0, n0 < 2 ==> result@.len() == 0 && self_clone.v() == n0, n0 >= 2 ==> self_clone.v() > 0 && (self_clone.v() == 1 || self_clone.v() % 2 != 0),
    decreases u32::MAX - div,
@loop 1 top
    let ghost gg = div as int;
    proof { assert(gg * gg >= 9) by(nonlinear_arith) requires gg >= 3; assert(0 <= gg * gg <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires 0 <= gg <= 0xffff_ffff; }
@loop 2
    invariant self_clone.wf(), self_clone.0@.len() < 0x1_0000_0000, div == gg, gg >= 3, 2 <= lo <= gg, factors(result@, gg), nofac(self_clone.v() as int, gg), prod(result@) * self_clone.v() == n0, self_clone.v() > 0, self_clone.v() % 2 != 0, n0 >= 2,
    decreases self_clone.v(),
@loop 2 top
    let ghost (c0, s0, t0) = (self_clone.v() as int, result@, self_clone.0@);
    proof { least_is_prime(c0, gg); nofac_div(c0, gg, gg); odd_div(c0, gg); }
@loop 2 end
    proof { take_factor(s0, result@.last(), c0, gg, n0); assert(result@ =~= s0.push(result@.last())); len_mono(self_clone.0@, t0); }
@loop 2 after
    proof { nofac_next(self_clone.v() as int, gg); lo = gg; g = gg + 2; assert(0 <= (gg + 2) * (gg + 2) <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires 0 <= gg <= 0xffff_fffd; }
@after let div
    proof { assert(div * div == 9); }
@after let div#1
    proof { assert(g <= 0xffff_ffff); assert(div.v() == 0xffff_ffff); }
@loop 3
    invariant self_clone.wf(), div.wf(), div.v() >= 3, div.v() % 2 == 1, 2 <= lo <= g <= div.v(), factors(result@, lo), n0 >= 2 ==> nofac(self_clone.v() as int, g), g == div.v() || self_clone.v() < g * g, prod(result@) * self_clone.v() == n0, n0 < 2 ==> result@.len() == 0 && self_clone.v() == n0, n0 >= 2 ==> self_clone.v() > 0 && (self_clone.v() == 1 || self_clone.v() % 2 != 0),
    decreases (if div.v() <= self_clone.v() { self_clone.v() - div.v() + 1 } else { 0 }),
@loop 3 top
    let ghost (gg, c1) = (div.v() as int, self_clone.v() as int);
    proof { assert(gg * gg >= 9 && gg < gg * gg) by(nonlinear_arith) requires gg >= 3; assert(g * g <= gg * gg) by(nonlinear_arith) requires 0 <= g <= gg; assert(g == gg); }
@loop 4
    invariant self_clone.wf(), div.wf(), div.v() == gg, gg >= 3, 2 <= lo <= gg, factors(result@, gg), nofac(self_clone.v() as int, gg), prod(result@) * self_clone.v() == n0, 0 < self_clone.v() <= c1, self_clone.v() % 2 != 0, n0 >= 2,
    decreases self_clone.v(),
@loop 4 top
    let ghost (c0, s0) = (self_clone.v() as int, result@);
    proof { least_is_prime(c0, gg); nofac_div(c0, gg, gg); odd_div(c0, gg); }
@loop 4 end
    proof { take_factor(s0, result@.last(), c0, gg, n0); assert(result@ =~= s0.push(result@.last())); }
@loop 4 after
    proof { nofac_next(self_clone.v() as int, gg); lo = gg; g = gg + 2; }
@loop 3 after
    let ghost s9 = result@; let ghost x9 = self_clone;
    proof {
        let c = self_clone.v() as int;
        if n0 >= 2 {
            if c > 1 { prime_by_sqrt(c, g); nofac_le(c, g); last_factor(s9, x9, lo, n0); }
            else { assert(s9.len() > 0); last_factor1(s9, lo, n0); }
        }
    }
@end
    proof { if n0 < 2 { assert(result@.len() == 1); } }
