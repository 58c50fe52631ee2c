@fn UBigInt::fmt::Display::fmt
@prop C07
@spec
    requires self.wf(), self.0@.len() < 0x1_0000_0000,
    ensures r is Ok ==> final(fmt).out() == old(fmt).out() + num(self.v(), 10),
@fn UBigInt::fmt::LowerHex::fmt
@prop C07
@spec
    requires self.wf(),
    ensures r is Ok ==> final(fmt).out() == old(fmt).out() + ((if old(fmt).alt() { seq!['0', 'x'] } else { Seq::<char>::empty() }) + num(self.v(), 16)),
@fn UBigInt::fmt::Octal::fmt
@prop C07
@spec
    requires self.wf(),
    ensures r is Ok ==> final(fmt).out() == old(fmt).out() + ((if old(fmt).alt() { seq!['0', 'o'] } else { Seq::<char>::empty() }) + num(self.v(), 8)),
@fn UBigInt::fmt::Binary::fmt
@prop C07
@spec
    requires self.wf(),
    ensures r is Ok ==> final(fmt).out() == old(fmt).out() + ((if old(fmt).alt() { seq!['0', 'b'] } else { Seq::<char>::empty() }) + num(self.v(), 2)),
@fn UBigInt::fmt::LowerExp::fmt
@prop C21
@spec
    requires self.wf(), self.0@.len() < 0x1_0000_0000,
    ensures r is Ok ==> exists|m: nat, s: Seq<char>| final(fmt).out() == old(fmt).out() + s && #[trigger] sci_ok(s, num(self.v(), 10), 5, m),
@fn BigInt::fmt::Display::fmt
@prop C07
@spec
    requires self.wf(), self.val.0@.len() < 0x1_0000_0000,
    ensures r is Ok ==> final(fmt).out() == old(fmt).out() + num_i(self.v(), 10),
@fn BigInt::fmt::LowerHex::fmt
@prop C07
@spec
    requires self.wf(),
    ensures r is Ok ==> final(fmt).out() == old(fmt).out() + ((if self.v() < 0 { seq!['-'] } else { Seq::<char>::empty() }) + ((if old(fmt).alt() { seq!['0', 'x'] } else { Seq::<char>::empty() }) + num(iabs(self.v()), 16))),
@fn BigInt::fmt::Octal::fmt
@prop C07
@spec
    requires self.wf(),
    ensures r is Ok ==> final(fmt).out() == old(fmt).out() + ((if self.v() < 0 { seq!['-'] } else { Seq::<char>::empty() }) + ((if old(fmt).alt() { seq!['0', 'o'] } else { Seq::<char>::empty() }) + num(iabs(self.v()), 8))),
@fn BigInt::fmt::Binary::fmt
@prop C07
@spec
    requires self.wf(),
    ensures r is Ok ==> final(fmt).out() == old(fmt).out() + ((if self.v() < 0 { seq!['-'] } else { Seq::<char>::empty() }) + ((if old(fmt).alt() { seq!['0', 'b'] } else { Seq::<char>::empty() }) + num(iabs(self.v()), 2))),
@fn BigInt::fmt::LowerExp::fmt
@prop C21
@spec
    requires self.wf(), self.val.0@.len() < 0x1_0000_0000,
    ensures r is Ok ==> exists|m: nat, s: Seq<char>| final(fmt).out() == old(fmt).out() + s && #[trigger] sci_ok_i(s, self.v(), 5, m),
@fn BigInt::prime_factorial
@prop C09
@spec
    requires self.wf(), self.val.0@.len() < 0x1_0000_0000,
    ensures exists|u: Seq<UBigInt>| #[trigger] pos_all(r@, u) && (self.val.v() < 2 ==> u.len() == 1 && u[0].wf() && u[0].v() == self.val.v())
        && (self.val.v() >= 2 ==> prod(u) == self.val.v() && factors(u, self.val.v() as int)),
@loop 0
    invariant $c <= $e, $e == vx_s0@.len(), $v@.len() == $c,
        forall|i: int| 0 <= i < $e ==> (#[trigger] vx_s0@[i]).wf(),
        forall|i: int| 0 <= i < $c ==> #[trigger] pos_of($v@, vx_s0@, i),
    decreases $e - $c,
@loop 0 top
    let ghost v0 = $v@;
@loop 0 end
    proof { assert forall|i: int| 0 <= i < $c implies #[trigger] pos_of($v@, vx_s0@, i) by { if i < $c - 1 { assert(pos_of(v0, vx_s0@, i)); } } }
@loop 0 after
    proof { assert(pos_all($v@, vx_s0@)); }
@fn Ratio::shrink
@prop C12
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        limit < 3 ==> r == Err::<usize, usize>(0) && final(self).rv() == old(self).rv(),
        limit >= 3 && old(self).numer.val.0@.len() <= limit && old(self).denom.val.0@.len() <= limit ==> r == Ok::<usize, usize>(0) && final(self).rv() == old(self).rv(),
@begin
    proof { shrink_facts(&*self); }
