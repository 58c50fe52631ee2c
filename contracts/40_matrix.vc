@fn determinant_hack_4
@prop C16
@macro &Ratio -> Ratio
@spec
    requires a.wf(), b.wf(), c.wf(), d.wf(),
    ensures r.wf(), r.rv() == a.rv() * d.rv() - b.rv() * c.rv(),
@fn determinant_hack_m4
@prop C16
@macro &Ratio -> Ratio
@spec
    requires a.wf(), b.wf(), c.wf(), d.wf(),
    ensures r.wf(), r.rv() == b.rv() * c.rv() - a.rv() * d.rv(),
@fn determinant_hack_9
@prop C16
@macro &Ratio -> Ratio
@spec
    requires a.wf(), b.wf(), c.wf(), d.wf(), e.wf(), f.wf(), g.wf(), h.wf(), i.wf(),
    ensures r.wf(), r.rv() == d3(a.rv(), b.rv(), c.rv(), d.rv(), e.rv(), f.rv(), g.rv(), h.rv(), i.rv()),
@begin
    proof { reveal(d3); }
@fn determinant_hack_m9
@prop C16
@macro &Ratio -> Ratio
@spec
    requires a.wf(), b.wf(), c.wf(), d.wf(), e.wf(), f.wf(), g.wf(), h.wf(), i.wf(),
    ensures r.wf(), r.rv() == 0real - d3(a.rv(), b.rv(), c.rv(), d.rv(), e.rv(), f.rv(), g.rv(), h.rv(), i.rv()),
@begin
    proof { reveal(d3); }
@fn Matrix::from_vec
@prop C16
@spec
    requires forall|i: int| 0 <= i < data@.len() ==> wfrow(#[trigger] data@[i]@),
    ensures match r {
        Ok(m) => m.wf() && m.rows == data@.len() && (data@.len() > 0 ==> m.cols == data@[0]@.len()) && (data@.len() == 0 ==> m.cols == 0) && m.data@ == data@,
        Err(e) => e is InconsistetRow && !shape(data@, data@[0]@.len() as int),
    },
@loop 0
    invariant $c <= $e, $e == data@.len(), data@.len() > 0, cols == data@[0]@.len(), rows == data@.len(), forall|i: int| 0 <= i < $c ==> (#[trigger] data@[i])@.len() == cols,
    decreases $e - $c,
@fn Matrix::from_raw
@prop C16
@spec
    requires shape(data@, cols as int), rows == data@.len(),
    ensures r.wf(), r.data@ == data@, r.rows == rows, r.cols == cols,
@fn Matrix::empty
@prop C16
@spec
    ensures r.wf(), r.rows == 0, r.cols == 0,
@fn Matrix::zeros
@prop C16
@spec
    ensures r.wf(), r.rows == rows, r.cols == cols, forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols ==> (#[trigger] r.data@[i]@[j]).rv() == 0real,
@fn Matrix::identity
@prop C16
@spec
    ensures r.wf(), r.rows == n, r.cols == n, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> (#[trigger] r.data@[i]@[j]).rv() == mid(i, j),
@loop 0
    invariant $c <= $e, $e == n, result.wf(), result.rows == n, result.cols == n,
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> (#[trigger] result.data@[i]@[j]).rv() == if i < $c { mid(i, j) } else { 0real },
    decreases $e - $c,
@fn Matrix::is_square
@prop C16
@spec
    ensures r == (self.cols == self.rows),
@fn Matrix::get
@prop C16
@spec
    requires self.wf(), i < self.rows, j < self.cols,
    ensures *r == self.data@[i as int]@[j as int], r.wf(), r.rv() == (self.f())(i as int, j as int),
@fn Matrix::get_mut
@prop C16
@spec
    requires old(self).wf(), i < old(self).rows, j < old(self).cols,
    ensures *r == old(self).data@[i as int]@[j as int], r.wf(),
        final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).data@.len() == old(self).data@.len(),
        final(self).data@[i as int]@ == old(self).data@[i as int]@.update(j as int, *final(r)),
        forall|k: int| 0 <= k < old(self).rows && k != i ==> final(self).data@[k]@ == (#[trigger] old(self).data@[k])@,
        forall|k: int| 0 <= k < old(self).rows && k != i ==> (#[trigger] final(self).data@[k])@ == old(self).data@[k]@,
@fn Matrix::add
@prop C16
@spec
    requires self.wf(), other.wf(),
    ensures match r {
        Ok(m) => m.wf() && self.rows == other.rows && self.cols == other.cols && m.rows == self.rows && m.cols == self.cols
            && (forall|i: int, j: int| 0 <= i < self.rows && 0 <= j < self.cols ==> (#[trigger] m.data@[i]@[j]).rv() == self.f()(i, j) + other.f()(i, j)),
        Err(e) => e is WrongDimension && !(self.rows == other.rows && self.cols == other.cols),
    },
@loop 0
    invariant $c <= $e, $e == self.data@.len(), self.wf(), other.wf(), self.rows == other.rows, self.cols == other.cols, $v@.len() == $c, shape($v@, self.cols as int),
        forall|i: int, j: int| 0 <= i < $c && 0 <= j < self.cols ==> (#[trigger] $v@[i]@[j]).rv() == self.f()(i, j) + other.f()(i, j),
    decreases $e - $c,
@loop 1
    invariant $c <= $e, row_ind == $c0 - 1, row_ind < self.rows, $e == self.cols, row@ == self.data@[row_ind as int]@, self.wf(), other.wf(), self.rows == other.rows, self.cols == other.cols, $v@.len() == $c, wfrow($v@),
        forall|j: int| 0 <= j < $c ==> (#[trigger] $v@[j]).rv() == self.f()(row_ind as int, j) + other.f()(row_ind as int, j),
    decreases $e - $c,
@fn Matrix::add_mut
@prop C16
@spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
        match r {
            Ok(_) => old(self).rows == other.rows && old(self).cols == other.cols
                && (forall|i: int, j: int| 0 <= i < old(self).rows && 0 <= j < old(self).cols ==> (#[trigger] final(self).data@[i]@[j]).rv() == old(self).f()(i, j) + other.f()(i, j)),
            Err(e) => e is WrongDimension && !(old(self).rows == other.rows && old(self).cols == other.cols) && *final(self) == *old(self),
        },
@loop 0
    invariant $c <= $e, $e == self.rows, self.wf(), self.rows == old(self).rows, self.cols == old(self).cols, other.wf(), self.rows == other.rows, self.cols == other.cols,
        forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < self.cols ==> (#[trigger] self.data@[a]@[b]).rv() == if a < $c { old(self).f()(a, b) + other.f()(a, b) } else { old(self).f()(a, b) },
    decreases $e - $c,
@loop 1
    invariant $c <= $e, i == $c0 - 1, i < self.rows, $e == self.cols, self.wf(), self.rows == old(self).rows, self.cols == old(self).cols, other.wf(), self.rows == other.rows, self.cols == other.cols,
        forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < self.cols ==> (#[trigger] self.data@[a]@[b]).rv() == if a < i || (a == i && b < $c) { old(self).f()(a, b) + other.f()(a, b) } else { old(self).f()(a, b) },
    decreases $e - $c,
@fn Matrix::mul_k
@prop C16
@spec
    requires self.wf(), k.wf(),
    ensures r.wf(), r.rows == self.rows, r.cols == self.cols, forall|i: int, j: int| 0 <= i < self.rows && 0 <= j < self.cols ==> (#[trigger] r.data@[i]@[j]).rv() == self.f()(i, j) * k.rv(),
@loop 0
    invariant $c <= $e, $e == self.data@.len(), self.wf(), k.wf(), $v@.len() == $c, shape($v@, self.cols as int),
        forall|i: int, j: int| 0 <= i < $c && 0 <= j < self.cols ==> (#[trigger] $v@[i]@[j]).rv() == self.f()(i, j) * k.rv(),
    decreases $e - $c,
@loop 1
    invariant $c <= $e, 0 < $c0 <= self.rows, $e == self.cols, row@ == self.data@[$c0 - 1]@, self.wf(), k.wf(), $v@.len() == $c, wfrow($v@),
        forall|j: int| 0 <= j < $c ==> (#[trigger] $v@[j]).rv() == self.f()($c0 - 1, j) * k.rv(),
    decreases $e - $c,
@fn Matrix::mul_k_mut
@prop C16
@spec
    requires old(self).wf(), k.wf(),
    ensures final(self).wf(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
        forall|i: int, j: int| 0 <= i < old(self).rows && 0 <= j < old(self).cols ==> (#[trigger] final(self).data@[i]@[j]).rv() == old(self).f()(i, j) * k.rv(),
@loop 0
    invariant $c <= $e, $e == self.rows, self.wf(), self.rows == old(self).rows, self.cols == old(self).cols, k.wf(),
        forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < self.cols ==> (#[trigger] self.data@[a]@[b]).rv() == if a < $c { old(self).f()(a, b) * k.rv() } else { old(self).f()(a, b) },
    decreases $e - $c,
@loop 1
    invariant $c <= $e, i == $c0 - 1, i < self.rows, $e == self.cols, self.wf(), self.rows == old(self).rows, self.cols == old(self).cols, k.wf(),
        forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < self.cols ==> (#[trigger] self.data@[a]@[b]).rv() == if a < i || (a == i && b < $c) { old(self).f()(a, b) * k.rv() } else { old(self).f()(a, b) },
    decreases $e - $c,
@fn Matrix::mul
@prop C16
@spec
    requires self.wf(), other.wf(),
    ensures match r {
        Ok(m) => m.wf() && self.cols == other.rows && m.rows == self.rows && m.cols == other.cols
            && (forall|i: int, j: int| 0 <= i < self.rows && 0 <= j < other.cols ==> (#[trigger] m.data@[i]@[j]).rv() == mmul(self.f(), other.f(), self.cols as nat)(i, j)),
        Err(e) => e is WrongDimension && self.cols != other.rows,
    },
@loop 0
    invariant $c <= $e, $e == self.rows, self.wf(), other.wf(), self.cols == other.rows, result.wf(), result.rows == self.rows, result.cols == other.cols, 
        forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < other.cols ==> (#[trigger] result.data@[a]@[b]).rv() == if a < $c { mmul(self.f(), other.f(), self.cols as nat)(a, b) } else { 0real },
    decreases $e - $c,
@loop 1
    invariant $c <= $e, i == $c0 - 1, i < self.rows, $e == other.cols, self.wf(), other.wf(), self.cols == other.rows, result.wf(), result.rows == self.rows, result.cols == other.cols, 
        forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < other.cols ==> (#[trigger] result.data@[a]@[b]).rv() == if a < i || (a == i && b < $c) { mmul(self.f(), other.f(), self.cols as nat)(a, b) } else { 0real },
    decreases $e - $c,
@loop 2
    invariant $c <= $e, i == $c0 - 1, i < self.rows, j == $c1 - 1, j < other.cols, $e == self.cols, self.wf(), other.wf(), self.cols == other.rows, result.wf(), result.rows == self.rows, result.cols == other.cols, 
        forall|a: int, b: int| 0 <= a < self.rows && 0 <= b < other.cols ==> (#[trigger] result.data@[a]@[b]).rv() == if a < i || (a == i && b < j) { mmul(self.f(), other.f(), self.cols as nat)(a, b) } else if a == i && b == j { sum(|k: int| self.f()(i as int, k) * other.f()(k, j as int), $c as nat) } else { 0real },
    decreases $e - $c,
@fn Matrix::transpose
@prop C16
@spec
    requires self.wf(),
    ensures r.wf(), r.rows == self.cols, r.cols == self.rows, forall|i: int, j: int| 0 <= i < self.cols && 0 <= j < self.rows ==> (#[trigger] r.data@[i]@[j]).rv() == self.f()(j, i),
@loop 0
    invariant $c <= $e, $e == self.cols, self.wf(), $v@.len() == $c, shape($v@, self.rows as int),
        forall|i: int, j: int| 0 <= i < $c && 0 <= j < self.rows ==> (#[trigger] $v@[i]@[j]).rv() == self.f()(j, i),
    decreases $e - $c,
@loop 1
    invariant $c <= $e, i == $c0 - 1, 0 <= i < self.cols, $e == self.rows, self.wf(), $v@.len() == $c, wfrow($v@),
        forall|j: int| 0 <= j < $c ==> (#[trigger] $v@[j]).rv() == self.f()(j, i as int),
    decreases $e - $c,
@fn Matrix::transpose_mut
@prop C16
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rows == old(self).cols, final(self).cols == old(self).rows, forall|i: int, j: int| 0 <= i < old(self).cols && 0 <= j < old(self).rows ==> (#[trigger] final(self).data@[i]@[j]).rv() == old(self).f()(j, i),
@fn Matrix::determinant_2_by_2
@prop C16
@spec
    requires self.wf(), self.rows == 2, self.cols == 2,
    ensures r.wf(), r.rv() == mdet(self.f(), 2),
@begin
    proof { det2(self.f()); }
@fn Matrix::determinant_3_by_3
@prop C16
@spec
    requires self.wf(), self.rows == 3, self.cols == 3,
    ensures r.wf(), r.rv() == mdet(self.f(), 3),
@begin
    proof { det3(self.f()); }
@fn Matrix::determinant_4_by_4
@prop C16
@spec
    requires self.wf(), self.rows == 4, self.cols == 4,
    ensures r.wf(), r.rv() == mdet(self.f(), 4),
@begin
    let ghost m = self.f();
@after let result
    proof { assert(result.rv() == e3(m, 1, 2, 3, 1, 2, 3)); }
    let ghost x0 = result.rv();
@after let d
    proof { assert(d.rv() == 0real - e3(m, 1, 2, 3, 0, 2, 3)); }
    let ghost x1 = d.rv();
@after let d#1
    proof { assert(d.rv() == e3(m, 1, 2, 3, 0, 1, 3)); }
    let ghost x2 = d.rv();
@after let d#2
    proof { assert(d.rv() == 0real - e3(m, 1, 2, 3, 0, 1, 2)); }
    let ghost x3 = d.rv();
@end
    proof { det4_code(m); assert(result.rv() == x0 * m(0, 0) + x1 * m(0, 1) + x2 * m(0, 2) + x3 * m(0, 3)); }
@fn Matrix::determinant
@prop C16
@spec
    requires self.wf(),
    ensures match r {
        Ok(d) => self.rows == self.cols && self.rows > 0 && d.wf() && d.rv() == mdet(self.f(), self.rows as nat),
        Err(e) => if self.rows != self.cols { e is NotSquare } else { self.rows == 0 && e is EmptyMatrix },
    },
    decreases self.cols, 2nat,
@begin
    proof { if self.cols == 1 { det1(self.f()); } if self.cols > 0 { det_row0(self.f(), self.cols as nat); } }
@loop 0
    invariant $c <= $e, $e == self.cols, self.cols == self.rows, self.cols >= 5, self.wf(), result.wf(),
        result.rv() == sum(|j: int| self.f()(0, j) * mcof(self.f(), self.cols as nat, 0, j), $c as nat),
    decreases $e - $c,
@fn Matrix::cofactor
@prop C16
@spec
    requires self.wf(), self.rows == self.cols, self.cols >= 2, i < self.rows, j < self.cols,
    ensures r.wf(), r.rv() == mcof(self.f(), self.cols as nat, i as int, j as int),
    decreases self.cols, 1nat,
@begin
    proof { axiom_len_any(&self.data); let d = mdet(mminor(self.f(), i as int, j as int), (self.cols - 1) as nat); assert(1real * d == d) by(nonlinear_arith); assert((0real - 1real) * d == 0real - d) by(nonlinear_arith); }
@fn Matrix::minor
@prop C16
@spec
    requires self.wf(), self.rows == self.cols, self.cols >= 2, i < self.rows, j < self.cols,
    ensures r.wf(), r.rv() == mdet(mminor(self.f(), i as int, j as int), (self.cols - 1) as nat),
    decreases self.cols, 0nat,
@loop 0
    invariant $c <= $e, $e == self.rows - 1, self.wf(), self.rows == self.cols, self.cols >= 2, i < self.rows, j < self.cols, result.wf(), result.rows == self.rows - 1, result.cols == result.rows,
        forall|a: int, b: int| 0 <= a < result.rows && 0 <= b < result.rows && (a < $c) ==> (#[trigger] result.data@[a]@[b]).rv() == mminor(self.f(), i as int, j as int)(a, b),
    decreases $e - $c,
@loop 1
    invariant $c <= $e, $e == self.rows - 1, i_i == $c0 - 1, i_i < self.rows - 1, i_o == sk(i_i as int, i as int), self.wf(), self.rows == self.cols, self.cols >= 2, i < self.rows, j < self.cols, result.wf(), result.rows == self.rows - 1, result.cols == result.rows,
        forall|a: int, b: int| 0 <= a < result.rows && 0 <= b < result.rows && (a < i_i || (a == i_i && b < $c)) ==> (#[trigger] result.data@[a]@[b]).rv() == mminor(self.f(), i as int, j as int)(a, b),
    decreases $e - $c,
@loop 0 after
    proof { det_ext(result.f(), mminor(self.f(), i as int, j as int), (self.cols - 1) as nat); }
@fn Matrix::inverse
@prop C16
@spec
    requires self.wf(),
    ensures match r {
        Ok(m) => self.rows == self.cols && self.rows > 0 && mdet(self.f(), self.rows as nat) != 0real && m.wf() && m.rows == self.rows && m.cols == self.cols
            && (forall|i: int, j: int| 0 <= i < self.rows && 0 <= j < self.rows ==> #[trigger] mmul(self.f(), m.f(), self.rows as nat)(i, j) == mid(i, j)),
        Err(e) => if self.rows != self.cols { e is NotSquare } else if self.rows == 0 { e is EmptyMatrix } else { e is ZeroDeterminant && mdet(self.f(), self.rows as nat) == 0real },
    },
@before call mul_k_mut
    let ghost a0 = result.f();
@end
    proof { inv_thm(self.f(), vx_r->Ok_0.f(), self.rows as nat); }
@fn Matrix::adjugate
@prop C16
@spec
    requires self.wf(), self.rows == self.cols, self.rows > 0,
    ensures r.wf(), r.rows == self.rows, r.cols == self.cols, forall|i: int, j: int| 0 <= i < self.rows && 0 <= j < self.rows ==> (#[trigger] r.data@[i]@[j]).rv() == madj(self.f(), self.rows as nat)(i, j),
@begin
    let ghost m = self.f();
    proof {
        if self.rows == 1 { cof_sign(m, 1, 0, 0); }
        if self.rows == 2 { cof2(m, 0, 0); cof2(m, 0, 1); cof2(m, 1, 0); cof2(m, 1, 1); }
    }
@closure 0 (usize, usize) -> (z: Ratio)
    requires self.wf(), self.rows == self.cols, self.rows >= 5, i < self.rows, j < self.rows,
    ensures z.wf(), z.rv() == madj(self.f(), self.rows as nat)(i as int, j as int)
@fn Matrix::adjugate_3_by_3
@prop C16
@spec
    requires self.wf(), self.rows == 3, self.cols == 3,
    ensures r.wf(), r.rows == self.rows, r.cols == self.cols, forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> (#[trigger] r.data@[i]@[j]).rv() == madj(self.f(), 3)(i, j),
@begin
    let ghost m = self.f();
    proof { assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] madj(m, 3)(i, j) == mcof(m, 3, j, i) by {} cof3(m, 0, 0); cof3(m, 0, 1); cof3(m, 0, 2); cof3(m, 1, 0); cof3(m, 1, 1); cof3(m, 1, 2); cof3(m, 2, 0); cof3(m, 2, 1); cof3(m, 2, 2); }
@fn Matrix::adjugate_4_by_4
@attr #[verifier::rlimit(60)]
@prop C16
@spec
    requires self.wf(), self.rows == 4, self.cols == 4,
    ensures r.wf(), r.rows == self.rows, r.cols == self.cols, forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> (#[trigger] r.data@[i]@[j]).rv() == madj(self.f(), 4)(i, j),
@begin
    let ghost m = self.f();
    proof {
        cof4(m, 0, 0); cof4(m, 0, 1); cof4(m, 0, 2); cof4(m, 0, 3);
        cof4(m, 1, 0); cof4(m, 1, 1); cof4(m, 1, 2); cof4(m, 1, 3);
        cof4(m, 2, 0); cof4(m, 2, 1); cof4(m, 2, 2); cof4(m, 2, 3);
        cof4(m, 3, 0); cof4(m, 3, 1); cof4(m, 3, 2); cof4(m, 3, 3);
    }
@fn Matrix::generate
@prop C16
@spec
    requires forall|i: usize, j: usize| i < rows && j < cols ==> #[trigger] f.requires((i, j)),
        forall|i: usize, j: usize, z: Ratio| #[trigger] f.ensures((i, j), z) && i < rows && j < cols ==> z.wf(),
    ensures r.wf(), r.rows == rows, r.cols == cols, forall|i: usize, j: usize| i < rows && j < cols ==> f.ensures((i, j), #[trigger] r.data@[i as int]@[j as int]),
@loop 0
    invariant $c <= $e, $e == rows, forall|i: usize, j: usize| i < rows && j < cols ==> #[trigger] f.requires((i, j)),
        forall|i: usize, j: usize, z: Ratio| #[trigger] f.ensures((i, j), z) && i < rows && j < cols ==> z.wf(),
        $v@.len() == $c, shape($v@, cols as int), forall|i: usize, j: usize| i < $c && j < cols ==> f.ensures((i, j), #[trigger] $v@[i as int]@[j as int]),
    decreases $e - $c,
@loop 1
    invariant $c <= $e, $e == cols, i == $c0 - 1, i < rows, forall|i: usize, j: usize| i < rows && j < cols ==> #[trigger] f.requires((i, j)),
        forall|i: usize, j: usize, z: Ratio| #[trigger] f.ensures((i, j), z) && i < rows && j < cols ==> z.wf(),
        $v@.len() == $c, wfrow($v@), forall|j: usize| j < $c ==> f.ensures((i, j), #[trigger] $v@[j as int]),
    decreases $e - $c,
@fn Matrix::from_vec_generic
@prop C16
@spec
    requires forall|i: int| 0 <= i < data@.len() ==> wfrow(#[trigger] data@[i]@),
    ensures match r {
        Ok(m) => m.wf() && m.rows == data@.len() && (data@.len() > 0 ==> m.cols == data@[0]@.len()) && (data@.len() == 0 ==> m.cols == 0) && (forall|i: int| 0 <= i < data@.len() ==> #[trigger] rowat(m.data@, i) == data@[i]@),
        Err(e) => e is InconsistetRow && !shape(data@, data@[0]@.len() as int),
    },
@loop 0
    invariant $c <= $e, $e == data@.len(), $v@.len() == $c, forall|i: int| #![trigger rowat($v@, i)] #![trigger data@[i]] 0 <= i < $c ==> rowat($v@, i) == data@[i]@,
    decreases $e - $c,
@loop 0 after
    proof { assert forall|i: int| 0 <= i < $v@.len() implies #[trigger] $v@[i]@ == data@[i]@ by { assert(rowat($v@, i) == data@[i]@); } }
@loop 1
    invariant $c <= $e, $e == row@.len(), $v@.len() == $c, forall|i: int| 0 <= i < $c ==> #[trigger] $v@[i] == row@[i],
    decreases $e - $c,
@loop 1 after
    proof { assert($v@ =~= row@); }
