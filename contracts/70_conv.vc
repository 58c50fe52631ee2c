@fn UBigInt::From<bool>::from UBigInt::From<u8>::from UBigInt::From<u16>::from UBigInt::From<u32>::from UBigInt::From<u64>::from UBigInt::From<u128>::from UBigInt::From<usize>::from UBigInt::From<&bool>::from UBigInt::From<&u8>::from UBigInt::From<&u16>::from UBigInt::From<&u32>::from UBigInt::From<&u64>::from UBigInt::From<&u128>::from UBigInt::From<&usize>::from
@prop C06
@spec
    requires n.good() ensures r.good() && r.num() == n.num()
@fn BigInt::From<bool>::from BigInt::From<u8>::from BigInt::From<u16>::from BigInt::From<u32>::from BigInt::From<u64>::from BigInt::From<u128>::from BigInt::From<usize>::from BigInt::From<i8>::from BigInt::From<i16>::from BigInt::From<i32>::from BigInt::From<i64>::from BigInt::From<i128>::from BigInt::From<isize>::from BigInt::From<&bool>::from BigInt::From<&u8>::from BigInt::From<&u16>::from BigInt::From<&u32>::from BigInt::From<&u64>::from BigInt::From<&u128>::from BigInt::From<&usize>::from BigInt::From<&i8>::from BigInt::From<&i16>::from BigInt::From<&i32>::from BigInt::From<&i64>::from BigInt::From<&i128>::from BigInt::From<&isize>::from
@prop C06
@spec
    requires n.good() ensures r.good() && r.num() == n.num()
@fn BigInt::From<UBigInt>::from BigInt::From<&UBigInt>::from
@prop C06
@spec
    requires n.good() ensures r.good() && r.num() == n.num()
@fn UBigInt::TryFrom<i8>::try_from UBigInt::TryFrom<i16>::try_from UBigInt::TryFrom<i32>::try_from UBigInt::TryFrom<i64>::try_from UBigInt::TryFrom<i128>::try_from UBigInt::TryFrom<isize>::try_from UBigInt::TryFrom<BigInt>::try_from UBigInt::TryFrom<&i8>::try_from UBigInt::TryFrom<&i16>::try_from UBigInt::TryFrom<&i32>::try_from UBigInt::TryFrom<&i64>::try_from UBigInt::TryFrom<&i128>::try_from UBigInt::TryFrom<&isize>::try_from UBigInt::TryFrom<&BigInt>::try_from
@prop C06
@needs BigInt::to_ubi
@spec
    requires n.good() ensures conv_ok(n.num(), r)
@fn u8::TryFrom<UBigInt>::try_from u8::TryFrom<BigInt>::try_from u8::TryFrom<&UBigInt>::try_from u8::TryFrom<&BigInt>::try_from u16::TryFrom<UBigInt>::try_from u16::TryFrom<BigInt>::try_from u16::TryFrom<&UBigInt>::try_from u16::TryFrom<&BigInt>::try_from u32::TryFrom<UBigInt>::try_from u32::TryFrom<BigInt>::try_from u32::TryFrom<&UBigInt>::try_from u32::TryFrom<&BigInt>::try_from u64::TryFrom<UBigInt>::try_from u64::TryFrom<BigInt>::try_from u64::TryFrom<&UBigInt>::try_from u64::TryFrom<&BigInt>::try_from u128::TryFrom<UBigInt>::try_from u128::TryFrom<BigInt>::try_from u128::TryFrom<&UBigInt>::try_from u128::TryFrom<&BigInt>::try_from usize::TryFrom<UBigInt>::try_from usize::TryFrom<BigInt>::try_from usize::TryFrom<&UBigInt>::try_from usize::TryFrom<&BigInt>::try_from i8::TryFrom<UBigInt>::try_from i8::TryFrom<BigInt>::try_from i8::TryFrom<&UBigInt>::try_from i8::TryFrom<&BigInt>::try_from i16::TryFrom<UBigInt>::try_from i16::TryFrom<BigInt>::try_from i16::TryFrom<&UBigInt>::try_from i16::TryFrom<&BigInt>::try_from i32::TryFrom<UBigInt>::try_from i32::TryFrom<BigInt>::try_from i32::TryFrom<&UBigInt>::try_from i32::TryFrom<&BigInt>::try_from i64::TryFrom<UBigInt>::try_from i64::TryFrom<BigInt>::try_from i64::TryFrom<&UBigInt>::try_from i64::TryFrom<&BigInt>::try_from i128::TryFrom<UBigInt>::try_from i128::TryFrom<BigInt>::try_from i128::TryFrom<&UBigInt>::try_from i128::TryFrom<&BigInt>::try_from isize::TryFrom<UBigInt>::try_from isize::TryFrom<BigInt>::try_from isize::TryFrom<&UBigInt>::try_from isize::TryFrom<&BigInt>::try_from
@prop C06
@spec
    requires n.good() ensures conv_ok(n.num(), r)
@fn bool::From<UBigInt>::from bool::From<BigInt>::from bool::From<&UBigInt>::from bool::From<&BigInt>::from
@prop C06
@spec
    requires n.good() ensures r == (n.num() != 0)
@fn Ratio::From<bool>::from Ratio::From<u8>::from Ratio::From<u16>::from Ratio::From<u32>::from Ratio::From<u64>::from Ratio::From<u128>::from Ratio::From<usize>::from Ratio::From<i8>::from Ratio::From<i16>::from Ratio::From<i32>::from Ratio::From<i64>::from Ratio::From<i128>::from Ratio::From<isize>::from Ratio::From<UBigInt>::from Ratio::From<BigInt>::from Ratio::From<&bool>::from Ratio::From<&u8>::from Ratio::From<&u16>::from Ratio::From<&u32>::from Ratio::From<&u64>::from Ratio::From<&u128>::from Ratio::From<&usize>::from Ratio::From<&i8>::from Ratio::From<&i16>::from Ratio::From<&i32>::from Ratio::From<&i64>::from Ratio::From<&i128>::from Ratio::From<&isize>::from Ratio::From<&UBigInt>::from Ratio::From<&BigInt>::from
@prop C12
@spec
    requires n.good() ensures r.wf() && r.rv() == n.num() as real && r.denom.v() == 1 && r.numer.v() == n.num()
@fn BigInt::From<Ratio>::from BigInt::From<&Ratio>::from
@prop C13
@spec
    requires n.wf() ensures r.wf() && is_trunc(r.v(), n.rv()) && r.v() == tdiv(n.numer.v(), n.denom.v())
@fn u8::TryFrom<Ratio>::try_from u8::TryFrom<&Ratio>::try_from u16::TryFrom<Ratio>::try_from u16::TryFrom<&Ratio>::try_from u32::TryFrom<Ratio>::try_from u32::TryFrom<&Ratio>::try_from u64::TryFrom<Ratio>::try_from u64::TryFrom<&Ratio>::try_from u128::TryFrom<Ratio>::try_from u128::TryFrom<&Ratio>::try_from usize::TryFrom<Ratio>::try_from usize::TryFrom<&Ratio>::try_from i8::TryFrom<Ratio>::try_from i8::TryFrom<&Ratio>::try_from i16::TryFrom<Ratio>::try_from i16::TryFrom<&Ratio>::try_from i32::TryFrom<Ratio>::try_from i32::TryFrom<&Ratio>::try_from i64::TryFrom<Ratio>::try_from i64::TryFrom<&Ratio>::try_from i128::TryFrom<Ratio>::try_from i128::TryFrom<&Ratio>::try_from isize::TryFrom<Ratio>::try_from isize::TryFrom<&Ratio>::try_from UBigInt::TryFrom<Ratio>::try_from UBigInt::TryFrom<&Ratio>::try_from
@prop C13
@spec
    requires n.wf() ensures conv_trunc(n.numer.v(), n.denom.v(), n.rv(), r)
@fn Ratio::TryFrom<f32>::try_from
@prop C15
@spec
    ensures ({ let b = n.to_bits_spec(); match r { Ok(x) => x.wf() && fin32(b) && x.rv() == fv32(b), Err(e) => !fin32(b) && (if b as nat % p2(23) != 0 { e is NotANumber } else if b as nat >= p2(31) { e is NegInfinity } else { e is Infinity }) } })
@fn BigInt::TryFrom<f32>::try_from
@prop C15
@spec
    ensures ({ let b = n.to_bits_spec(); match r { Ok(x) => x.wf() && fin32(b) && is_trunc(x.v(), fv32(b)), Err(_) => !fin32(b) } })
@fn UBigInt::TryFrom<f32>::try_from
@prop C15
@spec
    ensures ({ let b = n.to_bits_spec(); match r { Ok(x) => x.wf() && fin32(b) && is_trunc(x.v() as int, fv32(b)), Err(_) => fin32(b) ==> exists|k: int| #[trigger] is_trunc(k, fv32(b)) && k < 0 } })
@fn Ratio::TryFrom<&f32>::try_from
@prop C15
@spec
    ensures ({ let b = (*n).to_bits_spec(); match r { Ok(x) => x.wf() && fin32(b) && x.rv() == fv32(b), Err(e) => !fin32(b) && (if b as nat % p2(23) != 0 { e is NotANumber } else if b as nat >= p2(31) { e is NegInfinity } else { e is Infinity }) } })
@fn BigInt::TryFrom<&f32>::try_from
@prop C15
@spec
    ensures ({ let b = (*n).to_bits_spec(); match r { Ok(x) => x.wf() && fin32(b) && is_trunc(x.v(), fv32(b)), Err(_) => !fin32(b) } })
@fn UBigInt::TryFrom<&f32>::try_from
@prop C15
@spec
    ensures ({ let b = (*n).to_bits_spec(); match r { Ok(x) => x.wf() && fin32(b) && is_trunc(x.v() as int, fv32(b)), Err(_) => fin32(b) ==> exists|k: int| #[trigger] is_trunc(k, fv32(b)) && k < 0 } })
@fn f32::TryFrom<Ratio>::try_from f32::TryFrom<&Ratio>::try_from
@prop C15
@spec
    requires n.wf() && n.denom.val.0@.len() <= 0x200_0000 ensures match r { Ok(f) => near32(f.to_bits_spec(), n.rv()) && rabs(n.rv()) <= flim(23, -149, 255), Err(e) => e is NotInRange && rabs(n.rv()) > flim(23, -149, 255) }
@fn f32::TryFrom<BigInt>::try_from f32::TryFrom<&BigInt>::try_from f32::TryFrom<&UBigInt>::try_from
@prop C15
@spec
    requires n.good() ensures match r { Ok(f) => near32(f.to_bits_spec(), n.num() as real) && rabs(n.num() as real) <= flim(23, -149, 255), Err(e) => e is NotInRange && rabs(n.num() as real) > flim(23, -149, 255) }
@begin
    proof { one_len(); }
@fn Ratio::TryFrom<f64>::try_from
@prop C15
@spec
    ensures ({ let b = n.to_bits_spec(); match r { Ok(x) => x.wf() && fin64(b) && x.rv() == fv64(b), Err(e) => !fin64(b) && (if b as nat % p2(52) != 0 { e is NotANumber } else if b as nat >= p2(63) { e is NegInfinity } else { e is Infinity }) } })
@fn BigInt::TryFrom<f64>::try_from
@prop C15
@spec
    ensures ({ let b = n.to_bits_spec(); match r { Ok(x) => x.wf() && fin64(b) && is_trunc(x.v(), fv64(b)), Err(_) => !fin64(b) } })
@fn UBigInt::TryFrom<f64>::try_from
@prop C15
@spec
    ensures ({ let b = n.to_bits_spec(); match r { Ok(x) => x.wf() && fin64(b) && is_trunc(x.v() as int, fv64(b)), Err(_) => fin64(b) ==> exists|k: int| #[trigger] is_trunc(k, fv64(b)) && k < 0 } })
@fn Ratio::TryFrom<&f64>::try_from
@prop C15
@spec
    ensures ({ let b = (*n).to_bits_spec(); match r { Ok(x) => x.wf() && fin64(b) && x.rv() == fv64(b), Err(e) => !fin64(b) && (if b as nat % p2(52) != 0 { e is NotANumber } else if b as nat >= p2(63) { e is NegInfinity } else { e is Infinity }) } })
@fn BigInt::TryFrom<&f64>::try_from
@prop C15
@spec
    ensures ({ let b = (*n).to_bits_spec(); match r { Ok(x) => x.wf() && fin64(b) && is_trunc(x.v(), fv64(b)), Err(_) => !fin64(b) } })
@fn UBigInt::TryFrom<&f64>::try_from
@prop C15
@spec
    ensures ({ let b = (*n).to_bits_spec(); match r { Ok(x) => x.wf() && fin64(b) && is_trunc(x.v() as int, fv64(b)), Err(_) => fin64(b) ==> exists|k: int| #[trigger] is_trunc(k, fv64(b)) && k < 0 } })
@fn f64::TryFrom<Ratio>::try_from f64::TryFrom<&Ratio>::try_from
@prop C15
@spec
    requires n.wf() && n.denom.val.0@.len() <= 0x200_0000 ensures match r { Ok(f) => near64(f.to_bits_spec(), n.rv()) && rabs(n.rv()) <= flim(52, -1074, 2047), Err(e) => e is NotInRange && rabs(n.rv()) > flim(52, -1074, 2047) }
@fn f64::TryFrom<BigInt>::try_from f64::TryFrom<&BigInt>::try_from f64::TryFrom<&UBigInt>::try_from
@prop C15
@spec
    requires n.good() ensures match r { Ok(f) => near64(f.to_bits_spec(), n.num() as real) && rabs(n.num() as real) <= flim(52, -1074, 2047), Err(e) => e is NotInRange && rabs(n.num() as real) > flim(52, -1074, 2047) }
@begin
    proof { one_len(); }
@fn UBigInt::TryFrom<&str>::try_from UBigInt::TryFrom<String>::try_from
@prop C07
@spec
    ensures match r { Ok(x) => x.wf() && parse(n@) == Some(x.v()), Err(_) => parse(n@) is None }
@fn BigInt::TryFrom<&str>::try_from BigInt::TryFrom<String>::try_from
@prop C07
@spec
    ensures match r { Ok(x) => x.wf() && parse_i(n@) == Some(x.v()), Err(_) => parse_i(n@) is None }
@fn Ratio::TryFrom<&str>::try_from Ratio::TryFrom<String>::try_from
@prop C14
@spec
    ensures match r { Ok(x) => x.wf() && parse_q(n@) == Some(x.rv()), Err(_) => parse_q(n@) is None }
@fn UBigInt::Ord::cmp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == ord_of(self.v() as int, other.v() as int),
@fn UBigInt::PartialOrd::partial_cmp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == Some(ord_of(self.v() as int, other.v() as int)),
@fn BigInt::Ord::cmp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == ord_of(self.v(), other.v()),
@fn BigInt::PartialOrd::partial_cmp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == Some(ord_of(self.v(), other.v())),
@fn Ratio::Ord::cmp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == Ordering::Less <==> self.rv() < other.rv(), r == Ordering::Equal <==> self.rv() == other.rv(), r == Ordering::Greater <==> self.rv() > other.rv(),
@fn Ratio::PartialOrd::partial_cmp
@prop C05
@spec
    requires self.wf(), other.wf(),
    ensures r == Some(Ordering::Less) <==> self.rv() < other.rv(), r == Some(Ordering::Equal) <==> self.rv() == other.rv(), r == Some(Ordering::Greater) <==> self.rv() > other.rv(), r is Some,
@fn UBigInt::Default::default BigInt::Default::default
@prop C04
@spec
    ensures r.wf(), r.v() == 0,
@fn Ratio::Default::default
@prop C12
@spec
    ensures r.wf(), r.rv() == 0real,
@fn UBigInt::FromStr::from_str
@prop C07
@spec
    ensures match r { Ok(x) => x.wf() && parse(s@) == Some(x.v()), Err(_) => parse(s@) is None },
@fn BigInt::FromStr::from_str
@prop C07
@spec
    ensures match r { Ok(x) => x.wf() && parse_i(s@) == Some(x.v()), Err(_) => parse_i(s@) is None },
@fn Ratio::FromStr::from_str
@prop C14
@spec
    ensures match r { Ok(x) => x.wf() && parse_q(s@) == Some(x.rv()), Err(_) => parse_q(s@) is None },
