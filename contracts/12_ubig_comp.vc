@fn UBigInt::lt
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() < other.v()),
@begin
    proof { axiom_len(&self.0);
        if self.0@.len() < other.0@.len() { canon_len_lt(self.0@, other.0@); } else if self.0@.len() > other.0@.len() { canon_len_lt(other.0@, self.0@); } }
@loop 0
    invariant 1 <= $c <= $e, $e == self_len + 1, self_len == self.0@.len(), self_len == other.0@.len(),
        forall|k: int| #![trigger self.0@[k]] self_len - $c < k < self_len ==> self.0@[k] == other.0@[k],
    decreases $e - $c,
@return 0
    proof { vp_cmp(self.0@, other.0@, (self_len - i) as nat, self_len as nat); }
@return 1
    proof { vp_cmp(other.0@, self.0@, (self_len - i) as nat, self_len as nat); }
@loop 0 after
    proof { assert(self.0@ =~= other.0@); }
@fn UBigInt::gt
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() > other.v()),
@begin
    proof { axiom_len(&self.0);
        if self.0@.len() < other.0@.len() { canon_len_lt(self.0@, other.0@); } else if self.0@.len() > other.0@.len() { canon_len_lt(other.0@, self.0@); } }
@loop 0
    invariant 1 <= $c <= $e, $e == self_len + 1, self_len == self.0@.len(), self_len == other.0@.len(),
        forall|k: int| #![trigger self.0@[k]] self_len - $c < k < self_len ==> self.0@[k] == other.0@[k],
    decreases $e - $c,
@return 0
    proof { vp_cmp(self.0@, other.0@, (self_len - i) as nat, self_len as nat); }
@return 1
    proof { vp_cmp(other.0@, self.0@, (self_len - i) as nat, self_len as nat); }
@loop 0 after
    proof { assert(self.0@ =~= other.0@); }
@fn UBigInt::eq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() == other.v()),
@begin
    proof { if self.v() == other.v() { canon_unique(self.0@, other.0@); } }
@fn UBigInt::neq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() != other.v()),
@begin
    proof { if self.v() == other.v() { canon_unique(self.0@, other.0@); } }
@fn UBigInt::leq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() <= other.v()),
@fn UBigInt::geq
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == (self.v() >= other.v()),
@fn UBigInt::comp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == ord_of(self.v() as int, other.v() as int),
@begin
    proof { axiom_len(&self.0);
        if self.0@.len() < other.0@.len() { canon_len_lt(self.0@, other.0@); } else if self.0@.len() > other.0@.len() { canon_len_lt(other.0@, self.0@); } }
@loop 0
    invariant 1 <= $c <= $e, $e == self_len + 1, self_len == self.0@.len(), self_len == other.0@.len(),
        forall|k: int| #![trigger self.0@[k]] self_len - $c < k < self_len ==> self.0@[k] == other.0@[k],
    decreases $e - $c,
@return 0
    proof { vp_cmp(other.0@, self.0@, (self_len - i) as nat, self_len as nat); }
@return 1
    proof { vp_cmp(self.0@, other.0@, (self_len - i) as nat, self_len as nat); }
@loop 0 after
    proof { assert(self.0@ =~= other.0@); }
@fn UBigInt::lt_u32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() < other),
@begin
    proof { canon_bounds(self.0@); }
@fn UBigInt::gt_u32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() > other),
@begin
    proof { canon_bounds(self.0@); }
@fn UBigInt::eq_u32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() == other),
@begin
    proof { canon_bounds(self.0@); }
@fn UBigInt::neq_u32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() != other),
@fn UBigInt::leq_u32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() <= other),
@fn UBigInt::geq_u32
@prop C05
@spec
    requires self.wf(),
    ensures r == (self.v() >= other),
@fn UBigInt::comp_u32
@prop C05
@spec
    requires self.wf(),
    ensures r == ord_of(self.v() as int, other as int),
@begin
    proof { canon_bounds(self.0@); }
