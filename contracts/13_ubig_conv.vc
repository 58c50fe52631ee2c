@fn UBigInt::from_u32
@prop C06
@spec
    ensures r.wf(), r.v() == n,
@end
    proof { canon_bounds(vx_r.0@); }
@fn UBigInt::from_u64
@prop C06
@spec
    ensures r.wf(), r.v() == n,
@end
    proof { vp_small(vx_r.0@); }
@fn UBigInt::from_u128
@prop C06
@spec
    ensures r.wf(), r.v() == n,
@end
    proof { vp_small(vx_r.0@); u128_limbs(n); }
@fn UBigInt::to_u32
@prop C06
@spec
    requires self.wf(),
    ensures r is Ok <==> self.v() <= u32::MAX, r matches Ok(x) ==> x == self.v(), r matches Err(e) ==> e is NotInRange,
@begin
    proof { canon_bounds(self.0@); }
@fn UBigInt::to_u64
@prop C06
@spec
    requires self.wf(),
    ensures r is Ok <==> self.v() <= u64::MAX, r matches Ok(x) ==> x == self.v(), r matches Err(e) ==> e is NotInRange,
@begin
    proof { canon_bounds(self.0@); vp_small(self.0@); if self.0@.len() > 2 { pw_mono(2, (self.0@.len() - 1) as nat); } }
@fn UBigInt::to_u128
@prop C06
@spec
    requires self.wf(),
    ensures r is Ok <==> self.v() <= u128::MAX, r matches Ok(x) ==> x == self.v(), r matches Err(e) ==> e is NotInRange,
@begin
    proof { canon_bounds(self.0@); vp_small(self.0@); if self.0@.len() > 4 { pw_mono(4, (self.0@.len() - 1) as nat); } }
