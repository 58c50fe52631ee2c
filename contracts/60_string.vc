@fn UBigInt::from_string
@prop C07
@attr #[verifier::loop_isolation(false)]
@spec
    ensures match r { Ok(n) => n.wf() && parse(s@) == Some(n.v()), Err(_) => parse(s@) is None },
@begin
    let ghost t = s@;
    proof { assert(t.take(0) =~= Seq::empty()); assert(t.take(t.len() as int) =~= t); }
@loop 0
    invariant $c0 <= $e0, $e0 == t.len(), vx_s0@ == t, ubi_buffer.wf(), fsm(curr_state, clean(t.take($c0 as int)), base as nat, ubi_buffer.v() * int_buffer_coeff as nat + int_buffer as nat),
        $c0 > 0 ==> t[0] != '_' && clean(t.take($c0 as int)).len() > 0, base == 2 || base == 8 || base == 10 || base == 16,
        1 <= int_buffer_coeff <= 0x8_000_000, int_buffer < int_buffer_coeff, curr_state != StringToNumFSM::ReadNum ==> ubi_buffer.v() == 0,
        curr_state == StringToNumFSM::ReadNum ==> ubi_buffer.v() * int_buffer_coeff as nat + int_buffer as nat >= 0,
    decreases $e0 - $c0,
@loop 0 begin
    proof {
        let i = $c0 - 1;
        let p = clean(t.take(i)); let w = ubi_buffer.v() * int_buffer_coeff as nat + int_buffer as nat;
        clean_push(t, i);
        if c != '_' { fsm_step(curr_state, p, base as nat, w, c); if dead(p.push(c)) { dead_string(t, $c0 as int); }
            if isd(c, base as nat) { buf_step(ubi_buffer.v(), int_buffer_coeff as int, int_buffer as int, base as int, digv(c)->Some_0 as int); } }
    }
@fn UBigInt::to_string_dec
@prop C07
@attr #[verifier::loop_isolation(false)]
@spec
    requires self.wf(), self.0@.len() < 0x1_0000_0000,
    ensures r@ == num(self.v(), 10),
@begin
    proof { ipow_vals(); canon_bounds(self.0@); }
@after let buffer
    let ghost mut bf: Seq<String> = Seq::empty(); let ghost mut bf1: Seq<String> = Seq::empty();
@loop 0 before
    proof { assert(buffer@.reverse() =~= Seq::empty()); assert(num(n.v(), 10) + flat(buffer@.reverse()) =~= num(n.v(), 10)); }
@loop 0
    invariant n.wf(), n.v() <= self.v(), n.0@.len() <= self.0@.len(), num(self.v(), 10) == num(n.v(), 10) + flat(buffer@.reverse()),
    decreases n.v(),
@loop 0 begin
    let ghost v = n.v(); let ghost bf0 = buffer@;
    proof { canon_bounds(n.0@); assert(v / 1_000_000_000 < v) by(nonlinear_arith) requires v > 0; small_words(); }
@loop 0 end
    proof { group(v, 1_000_000_000, 10, 9, bf0, buffer@.last()); if n.0@.len() > self.0@.len() { canon_len_lt(self.0@, n.0@); } }
@loop 0 after
    proof { bf = buffer@; canon_bounds(n.0@); }
@end
    proof { flat_push_rev(bf, buffer@[0]); assert(bf.push(buffer@[0]).reverse() =~= buffer@); }
@fn UBigInt::to_string_hex
@prop C07
@attr #[verifier::loop_isolation(false)]
@spec
    requires self.wf(),
    ensures r@ == (if prefix { seq!['0', 'x'] } else { Seq::<char>::empty() }) + num(self.v(), 16),
@begin
    proof { ipow_vals(); canon_bounds(self.0@); reveal_strlit("0x"); reveal_strlit("0"); }
@loop 0
    invariant $c0 <= $e0, $e0 == self.0@.len(), $v0@.len() == $c0, groups(self.0@.take($c0 as int), $v0@, 16, 8),
    decreases $e0 - $c0,
@after let buffer
    let ghost v0 = buffer@;
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); words(self.0@, v0, 16, 8, self.0@.len()); trim_num(self.0@.last() as nat, 16, 8); assert(num(0, 16) =~= seq!['0']); }
@end
    proof {
        let p = buffer@[0]; let x = buffer@[1];
        assert(buffer@ =~= v0.push(p).reverse().update(1, x));
        assemble(v0, buffer@, x, p);
        assert(v0.drop_last() =~= v0.take(v0.len() - 1));
        blen_zero(trim0(v0.last()@, '0'));
        if self.v() == 0 { assert(v0.drop_last().reverse() =~= Seq::empty()); assert(x@ =~= seq!['0']); assert(x@ + flat(Seq::<String>::empty()) =~= x@); }
        else { assert(self.0@.last() > 0) by { if self.0@.len() > 1 { } } }
    }
@fn UBigInt::to_string_bin
@prop C07
@attr #[verifier::loop_isolation(false)]
@spec
    requires self.wf(),
    ensures r@ == (if prefix { seq!['0', 'b'] } else { Seq::<char>::empty() }) + num(self.v(), 2),
@begin
    proof { ipow_vals(); canon_bounds(self.0@); reveal_strlit("0b"); reveal_strlit("0"); }
@loop 0
    invariant $c0 <= $e0, $e0 == self.0@.len(), $v0@.len() == $c0, groups(self.0@.take($c0 as int), $v0@, 2, 32),
    decreases $e0 - $c0,
@after let buffer
    let ghost v0 = buffer@;
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); words(self.0@, v0, 2, 32, self.0@.len()); trim_num(self.0@.last() as nat, 2, 32); assert(num(0, 2) =~= seq!['0']); }
@end
    proof {
        let p = buffer@[0]; let x = buffer@[1];
        assert(buffer@ =~= v0.push(p).reverse().update(1, x));
        assemble(v0, buffer@, x, p);
        assert(v0.drop_last() =~= v0.take(v0.len() - 1));
        blen_zero(trim0(v0.last()@, '0'));
        if self.v() == 0 { assert(v0.drop_last().reverse() =~= Seq::empty()); assert(x@ =~= seq!['0']); assert(x@ + flat(Seq::<String>::empty()) =~= x@); }
        else { assert(self.0@.last() > 0) by { if self.0@.len() > 1 { } } }
    }
@fn UBigInt::to_string_oct
@prop C07
@attr #[verifier::loop_isolation(false)]
@spec
    requires self.wf(),
    ensures r@ == (if prefix { seq!['0', 'o'] } else { Seq::<char>::empty() }) + num(self.v(), 8),
@begin
    proof { ipow_vals(); canon_bounds(self.0@); reveal_strlit("0o"); reveal_strlit("0"); assert(ispow2(0x4000_0000)) by { assert(p2(30) == 0x4000_0000); } }
@after let buffer
    let ghost mut bf: Seq<String> = Seq::empty(); let ghost mut bf1: Seq<String> = Seq::empty();
@loop 0 before
    proof { assert(buffer@.reverse() =~= Seq::empty()); assert(num(n.v(), 8) + flat(buffer@.reverse()) =~= num(n.v(), 8)); }
@loop 0
    invariant n.wf(), n.v() <= self.v(), n.v() == 0 ==> self.v() == 0, num(self.v(), 8) == num(n.v(), 8) + flat(buffer@.reverse()),
    decreases n.v(),
@loop 0 begin
    let ghost v = n.v(); let ghost bf0 = buffer@;
    proof { canon_bounds(n.0@); assert(v / 0x4000_0000 < v) by(nonlinear_arith) requires v > 0; small_words(); }
@loop 0 end
    proof { group(v, 0x4000_0000, 8, 10, bf0, buffer@.last()); }
@loop 0 after
    proof { bf = buffer@; canon_bounds(n.0@); trim_num(n.0@[0] as nat, 8, 0); assert(num(0, 8) =~= seq!['0']); }
@after call push#1
    proof { bf1 = buffer@; }
@end
    proof {
        let p = buffer@[0]; let x = buffer@[1]; let y = bf1.last();
        assert(buffer@ =~= bf.push(y).push(p).reverse().update(1, x));
        assemble(bf.push(y), buffer@, x, p);
        assert(bf.push(y).drop_last() =~= bf);
        blen_zero(trim0(y@, '0'));
        assert(x@ == num(n.v(), 8));
    }
@fn BigInt::from_string
@prop C07
@spec
    ensures match r { Ok(n) => n.wf() && parse_i(s@) == Some(n.v()), Err(_) => parse_i(s@) is None },
@begin
    proof { blen_zero(s@); if s@.len() > 0 && s@[0] == '-' { minus_byte(s@); } }
@fn BigInt::to_string_dec
@prop C07
@spec
    requires self.wf(), self.val.0@.len() < 0x1_0000_0000,
    ensures r@ == num_i(self.v(), 10),
@begin
    proof { reveal_strlit("-"); reveal_strlit(""); assert(Seq::<char>::empty() + num(self.val.v(), 10) =~= num(self.val.v(), 10)); }
@fn BigInt::to_string_hex
@prop C07
@spec
    requires self.wf(),
    ensures r@ == (if self.v() < 0 { seq!['-'] } else { Seq::<char>::empty() }) + ((if prefix { seq!['0', 'x'] } else { Seq::<char>::empty() }) + num(iabs(self.v()), 16)),
@begin
    proof { reveal_strlit("-"); reveal_strlit(""); }
@fn BigInt::to_string_oct
@prop C07
@spec
    requires self.wf(),
    ensures r@ == (if self.v() < 0 { seq!['-'] } else { Seq::<char>::empty() }) + ((if prefix { seq!['0', 'o'] } else { Seq::<char>::empty() }) + num(iabs(self.v()), 8)),
@begin
    proof { reveal_strlit("-"); reveal_strlit(""); }
@fn BigInt::to_string_bin
@prop C07
@spec
    requires self.wf(),
    ensures r@ == (if self.v() < 0 { seq!['-'] } else { Seq::<char>::empty() }) + ((if prefix { seq!['0', 'b'] } else { Seq::<char>::empty() }) + num(iabs(self.v()), 2)),
@begin
    proof { reveal_strlit("-"); reveal_strlit(""); }
