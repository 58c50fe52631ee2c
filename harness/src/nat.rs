//! Oracle arithmetic, independent of hmath: naturals and integers on little-endian 32-bit limbs (no trailing zeros, zero = empty).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct N(pub Vec<u32>);

impl std::fmt::Debug for N {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.hex()) }
}

impl N {
    pub fn new(mut v: Vec<u32>) -> N { while v.last() == Some(&0) { v.pop(); } N(v) }
    pub fn zero() -> N { N(vec![]) }
    pub fn from(n: u128) -> N { N::new(vec![n as u32, (n >> 32) as u32, (n >> 64) as u32, (n >> 96) as u32]) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn is_one(&self) -> bool { self.0.len() == 1 && self.0[0] == 1 }
    pub fn raw(&self) -> Vec<u32> { if self.0.is_empty() { vec![0] } else { self.0.clone() } }
    pub fn hex(&self) -> String {
        if self.0.is_empty() { return "0x0".into(); }
        let mut s = format!("0x{:x}", self.0[self.0.len() - 1]);
        for l in self.0.iter().rev().skip(1) { s.push_str(&format!("{:08x}", l)); }
        s
    }
    pub fn bits(&self) -> usize { if self.0.is_empty() { 0 } else { self.0.len() * 32 - self.0[self.0.len() - 1].leading_zeros() as usize } }
    pub fn bit(&self, i: usize) -> bool { self.0.get(i / 32).map_or(false, |l| (l >> (i % 32)) & 1 == 1) }
    pub fn cmp(&self, o: &N) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for i in (0..self.0.len()).rev() { if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); } }
            Ordering::Equal
        })
    }
    pub fn lt(&self, o: &N) -> bool { self.cmp(o) == Ordering::Less }
    pub fn le(&self, o: &N) -> bool { self.cmp(o) != Ordering::Greater }
    pub fn add(&self, o: &N) -> N {
        let (a, b) = if self.0.len() >= o.0.len() { (&self.0, &o.0) } else { (&o.0, &self.0) };
        let mut r = Vec::with_capacity(a.len() + 1);
        let mut c = 0u64;
        for i in 0..a.len() { c += a[i] as u64 + *b.get(i).unwrap_or(&0) as u64; r.push(c as u32); c >>= 32; }
        if c > 0 { r.push(c as u32); }
        N::new(r)
    }
    pub fn sub(&self, o: &N) -> N {
        assert!(o.le(self), "oracle: negative subtraction");
        let mut r = Vec::with_capacity(self.0.len());
        let mut br = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - br;
            br = 0;
            if d < 0 { d += 1 << 32; br = 1; }
            r.push(d as u32);
        }
        N::new(r)
    }
    pub fn mul(&self, o: &N) -> N {
        let mut r = vec![0u32; self.0.len() + o.0.len() + 1];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            for j in 0..o.0.len() {
                c += self.0[i] as u64 * o.0[j] as u64 + r[i + j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            let mut k = i + o.0.len();
            while c > 0 { c += r[k] as u64; r[k] = c as u32; c >>= 32; k += 1; }
        }
        N::new(r)
    }
    pub fn shl(&self, k: usize) -> N {
        let (w, b) = (k / 32, k % 32);
        let mut r = vec![0u32; w];
        let mut c = 0u64;
        for l in &self.0 { let x = ((*l as u64) << b) | c; r.push(x as u32); c = x >> 32; }
        r.push(c as u32);
        N::new(r)
    }
    pub fn shr(&self, k: usize) -> N {
        let (w, b) = (k / 32, k % 32);
        if w >= self.0.len() { return N::zero(); }
        let mut r = vec![];
        for i in w..self.0.len() {
            let x = (self.0[i] as u64) | ((*self.0.get(i + 1).unwrap_or(&0) as u64) << 32);
            r.push((x >> b) as u32);
        }
        N::new(r)
    }
    pub fn low_bits(&self, k: usize) -> N { self.sub(&self.shr(k).shl(k)) }
    pub fn divrem_small(&self, d: u32) -> (N, u32) {
        let mut r = 0u64;
        let mut q = vec![0u32; self.0.len()];
        for i in (0..self.0.len()).rev() { r = (r << 32) | self.0[i] as u64; q[i] = (r / d as u64) as u32; r %= d as u64; }
        (N::new(q), r as u32)
    }
    /// shift-and-subtract division
    pub fn divrem(&self, d: &N) -> (N, N) {
        assert!(!d.is_zero());
        if d.0.len() == 1 { let (q, r) = self.divrem_small(d.0[0]); return (q, N::from(r as u128)); }
        if self.lt(d) { return (N::zero(), self.clone()); }
        let n = self.bits();
        let s = n - d.bits();
        let mut q = vec![0u32; s / 32 + 1];
        let mut r = self.clone();
        let mut t = d.shl(s);
        for i in (0..=s).rev() {
            if t.le(&r) { r = r.sub(&t); q[i / 32] |= 1 << (i % 32); }
            t = t.shr(1);
        }
        (N::new(q), r)
    }
    pub fn gcd(&self, o: &N) -> N {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() { let r = a.divrem(&b).1; a = b; b = r; }
        a
    }
    pub fn pow(&self, e: u32) -> N {
        let mut r = N::from(1);
        for i in (0..32).rev() { r = r.mul(&r); if (e >> i) & 1 == 1 { r = r.mul(self); } }
        r
    }
    pub fn radix(&self, b: u32) -> String {
        if self.is_zero() { return "0".into(); }
        let mut n = self.clone();
        let mut s = vec![];
        // chunks of digits
        let (mut chunk, mut len) = (b as u64, 1);
        while chunk * (b as u64) < (1 << 32) { chunk *= b as u64; len += 1; }
        while !n.is_zero() {
            let (q, mut r) = n.divrem_small(chunk as u32);
            n = q;
            for _ in 0..len { s.push(std::char::from_digit(r % b, b).unwrap()); r /= b; }
        }
        while s.last() == Some(&'0') { s.pop(); }
        s.into_iter().rev().collect()
    }
    pub fn parse(s: &str, b: u32) -> N {
        let mut r = N::zero();
        for c in s.chars() { r = r.mul(&N::from(b as u128)).add(&N::from(c.to_digit(b).unwrap() as u128)); }
        r
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 { return None; }
        Some(self.0.iter().enumerate().map(|(i, l)| (*l as u128) << (32 * i)).sum())
    }
    pub fn isqrt(&self) -> N {
        // bit by bit
        let mut r = N::zero();
        for i in (0..(self.bits() + 1) / 2).rev() {
            let c = r.add(&N::from(1).shl(i));
            if c.mul(&c).le(self) { r = c; }
        }
        r
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Z { pub neg: bool, pub m: N }
impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}{}", if self.neg { "-" } else { "" }, self.m.hex()) }
}
impl Z {
    pub fn new(neg: bool, m: N) -> Z { Z { neg: neg && !m.is_zero(), m } }
    pub fn from(n: i128) -> Z { Z::new(n < 0, N::from(n.unsigned_abs())) }
    pub fn nat(m: N) -> Z { Z::new(false, m) }
    pub fn is_zero(&self) -> bool { self.m.is_zero() }
    pub fn neg(&self) -> Z { Z::new(!self.neg, self.m.clone()) }
    pub fn abs(&self) -> Z { Z::nat(self.m.clone()) }
    pub fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg { Z::new(self.neg, self.m.add(&o.m)) }
        else if o.m.le(&self.m) { Z::new(self.neg, self.m.sub(&o.m)) }
        else { Z::new(o.neg, o.m.sub(&self.m)) }
    }
    pub fn sub(&self, o: &Z) -> Z { self.add(&o.neg()) }
    pub fn mul(&self, o: &Z) -> Z { Z::new(self.neg != o.neg, self.m.mul(&o.m)) }
    /// truncated
    pub fn divrem(&self, o: &Z) -> (Z, Z) { let (q, r) = self.m.divrem(&o.m); (Z::new(self.neg != o.neg, q), Z::new(self.neg, r)) }
    pub fn floor_div(&self, o: &Z) -> Z {
        let (q, r) = self.divrem(o);
        if !r.is_zero() && (self.neg != o.neg) { q.sub(&Z::from(1)) } else { q }
    }
    pub fn pow(&self, e: u32) -> Z { Z::new(self.neg && e % 2 == 1, self.m.pow(e)) }
    pub fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater, (true, false) => Ordering::Less,
            (false, false) => self.m.cmp(&o.m), (true, true) => o.m.cmp(&self.m),
        }
    }
    pub fn to_i128(&self) -> Option<i128> {
        let m = self.m.to_u128()?;
        if self.neg { if m <= 1 << 127 { Some((m as i128).wrapping_neg()) } else { None } } else { i128::try_from(m).ok() }
    }
    pub fn dec(&self) -> String { format!("{}{}", if self.neg { "-" } else { "" }, self.m.radix(10)) }
}

/// canonical rational
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Q { pub n: Z, pub d: N }
impl Q {
    pub fn new(n: Z, d: Z) -> Q {
        assert!(!d.is_zero());
        let g = n.m.gcd(&d.m);
        let neg = n.neg != d.neg;
        Q { n: Z::new(neg, n.m.divrem(&g).0), d: d.m.divrem(&g).0 }
    }
    pub fn int(n: Z) -> Q { Q { n, d: N::from(1) } }
    pub fn dz(&self) -> Z { Z::nat(self.d.clone()) }
    pub fn is_zero(&self) -> bool { self.n.is_zero() }
    pub fn add(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.dz()).add(&o.n.mul(&self.dz())), Z::nat(self.d.mul(&o.d))) }
    pub fn neg(&self) -> Q { Q { n: self.n.neg(), d: self.d.clone() } }
    pub fn abs(&self) -> Q { Q { n: self.n.abs(), d: self.d.clone() } }
    pub fn sub(&self, o: &Q) -> Q { self.add(&o.neg()) }
    pub fn mul(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.n), Z::nat(self.d.mul(&o.d))) }
    pub fn inv(&self) -> Q { Q::new(self.dz(), self.n.clone()) }
    pub fn div(&self, o: &Q) -> Q { self.mul(&o.inv()) }
    pub fn cmp(&self, o: &Q) -> Ordering { self.n.mul(&o.dz()).cmp(&o.n.mul(&self.dz())) }
    pub fn powi(&self, e: i32) -> Q {
        let a = e.unsigned_abs();
        let r = Q { n: self.n.pow(a), d: self.d.pow(a) };
        if e < 0 { r.inv() } else { r }
    }
    pub fn floor(&self) -> Z { self.n.floor_div(&self.dz()) }
    pub fn trunc(&self) -> Z { self.n.divrem(&self.dz()).0 }
    pub fn round(&self) -> Z {
        let t = self.trunc();
        let f = self.sub(&Q::int(t.clone())).abs();
        if f.n.m.shl(1).lt(&f.d) { t } else if self.n.neg { t.sub(&Z::from(1)) } else { t.add(&Z::from(1)) }
    }
    /// 2^e
    pub fn pow2(e: i64) -> Q { if e >= 0 { Q::int(Z::nat(N::from(1).shl(e as usize))) } else { Q { n: Z::from(1), d: N::from(1).shl((-e) as usize) } } }
}
