use crate::nat::{N, Q, Z};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub enum Arg { N(N), Z(Z), Q(Q), I(i128), S(String) }
impl std::fmt::Debug for Arg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self { Arg::N(x) => write!(f, "{:?}", x), Arg::Z(x) => write!(f, "{:?}", x), Arg::Q(x) => write!(f, "{:?}/{:?}", x.n, x.d), Arg::I(x) => write!(f, "{}", x), Arg::S(x) => write!(f, "{:?}", x) }
    }
}

pub struct G {
    s: [u64; 2],
    pub log: Arc<Mutex<Vec<Arg>>>,
    pub dict: Arc<Vec<u128>>,
    /// literals that the blessed tree does not have
    pub hot: Arc<Vec<u128>>,
    pub big: usize,
    pub iter: u64,
}

const LIMBS: [u32; 20] = [0, 1, 2, 3, 5, 10, 0xffff, 0x1_0000, 0x1_0001, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 0xffff_0000, 0x0001_ffff, 0xaaaa_aaaa, 0x4000_0000, 1_000_000_000, 0xffff_fff0];

impl G {
    pub fn new(seed: u64, log: Arc<Mutex<Vec<Arg>>>, dict: Arc<Vec<u128>>, hot: Arc<Vec<u128>>) -> G {
        let mut g = G { s: [seed ^ 0x9e37_79b9_7f4a_7c15, seed.wrapping_mul(0xbf58_476d_1ce4_e5b9) | 1], log, dict, hot, big: 12, iter: 0 };
        for _ in 0..8 { g.u64(); }
        g
    }
    pub fn state(&self) -> String { format!("{},{},{}", self.s[0], self.s[1], self.iter) }
    pub fn set_state(&mut self, s: [u64; 2], iter: u64) { self.s = s; self.iter = iter; }
    pub fn u64(&mut self) -> u64 {
        let (mut a, b) = (self.s[0], self.s[1]);
        let r = a.wrapping_add(b);
        self.s[0] = b;
        a ^= a << 23;
        self.s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        r
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() >> 11) as usize % n } }
    pub fn coin(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn bool(&mut self) -> bool { self.u64() >> 40 & 1 == 1 }
    pub fn push(&self, a: Arg) { self.log.lock().unwrap().push(a); }
    pub fn lit(&mut self) -> u128 {
        let h = self.hot.len();
        let n = self.dict.len();
        let base = if h > 0 && self.bool() { let i = self.below(h); self.hot[i] } else if n == 0 { 1 } else { let i = self.below(n); self.dict[i] };
        match self.below(12) { 0 => base.wrapping_add(1), 1 => base.wrapping_sub(1), 2 => base.wrapping_mul(2), 3 => base / 2, 4 => base.wrapping_mul(base), _ => base }
    }
    fn limb(&mut self) -> u32 {
        match self.below(10) {
            0..=3 => LIMBS[self.below(LIMBS.len())],
            4 => { let k = self.below(32); (1u32 << k).wrapping_add(self.below(3) as u32).wrapping_sub(1) }
            5 => self.lit() as u32,
            6 => self.below(300) as u32,
            _ => self.u64() as u32,
        }
    }
    fn len(&mut self) -> usize {
        let b = self.big;
        match self.below(40) {
            0..=7 => 1, 8..=14 => 2, 15..=19 => 3, 20..=23 => 4,
            24..=33 => 1 + self.below(b.min(12)),
            34..=37 => 1 + self.below(b),
            38 => 1 + self.below((b * 3).max(1)),
            _ => { let l = self.lit() as usize; if l >= 1 && l <= b * 8 { l } else { 1 + self.below(b) } }
        }
    }
    fn nat0(&mut self) -> N {
        match self.below(24) {
            0 => N::from(self.below(20) as u128),
            1 => N::from(self.below(2000) as u128),
            2 | 3 => N::from(self.lit()),
            4 => { let k = self.len() * 32; let k = self.below(k + 1); N::from(1).shl(k) }
            5 => { let k = self.len() * 32; let k = self.below(k + 1); N::from(1).shl(k).add(&N::from(self.below(3) as u128)) }
            6 => { let k = self.len() * 32; let k = 1 + self.below(k); N::from(1).shl(k).sub(&N::from(1)) }
            7 => { let k = self.below(6 * self.big) as u32; N::from(10).pow(k) }
            8 => { // whole limbs equal
                let l = self.limb(); let n = self.len(); N::new(vec![l; n]) }
            9 => { let a = self.limb(); let b = self.limb(); N::from(a as u128).mul(&N::from(b as u128)) }
            10 => { let n = self.len(); let mut v = vec![0u32; n]; let i = self.below(n); v[i] = self.limb(); let l = self.limb(); v[n - 1] = l; N::new(v) }
            11 => { let n = self.len(); let mut v = vec![u32::MAX; n]; let i = self.below(n); v[i] = self.limb(); N::new(v) }
            12 => { let n = (self.len() + 1) / 2; let v: Vec<u32> = (0..n).map(|_| self.limb()).collect(); let a = N::new(v); a.mul(&a) }
            13 => { let n = (self.len() + 1) / 2; let v: Vec<u32> = (0..n).map(|_| self.limb()).collect(); let a = N::new(v); let s = a.mul(&a); if self.bool() && !s.is_zero() { s.sub(&N::from(1)) } else { s.add(&N::from(1)) } }
            14 => { let b = self.below(129); N::from(((self.u64() as u128) << 64 | self.u64() as u128) >> b.min(127)) }
            _ => { let n = self.len(); let mut v: Vec<u32> = (0..n).map(|_| self.limb()).collect(); if self.bool() { let l = v.len(); if v[l - 1] == 0 { v[l - 1] = 1; } } N::new(v) }
        }
    }
    pub fn nat(&mut self) -> N { let n = self.nat0(); self.push(Arg::N(n.clone())); n }
    pub fn pos(&mut self) -> N { let mut n = self.nat0(); if n.is_zero() { n = N::from(1 + self.below(3) as u128); } self.push(Arg::N(n.clone())); n }
    /// a pair with structure: equal, off by one, one limb changed, multiples, prefixes
    pub fn nat2(&mut self) -> (N, N) {
        let a = self.nat0();
        let b = self.rel(&a);
        let (a, b) = if self.bool() { (a, b) } else { (b, a) };
        self.push(Arg::N(a.clone())); self.push(Arg::N(b.clone()));
        (a, b)
    }
    pub fn rel(&mut self, a: &N) -> N {
        match self.below(20) {
            0 => a.clone(),
            1 => a.add(&N::from(1)),
            2 => if a.is_zero() { N::zero() } else { a.sub(&N::from(1)) },
            3 => { let mut v = a.raw(); let i = self.below(v.len()); v[i] = self.limb(); N::new(v) }
            4 => { let k = self.nat0(); a.mul(&k) }
            5 => { let k = self.nat0(); let r = self.nat0(); a.mul(&k).add(&r) }
            6 => { let v = a.raw(); let i = self.below(v.len()); N::new(v[i..].to_vec()) }
            7 => { let mut v = a.raw(); v.reverse(); N::new(v) }
            8 => { // complement: a + b = 2^k - 1 or 2^k
                let k = a.bits().max(1); N::from(1).shl(k).sub(a) }
            9 => { let k = ((a.bits() + 31) / 32).max(1) * 32; let c = N::from(1).shl(k).sub(a); if self.bool() && !c.is_zero() { c.sub(&N::from(1)) } else { c } }
            10 => N::from(self.limb() as u128),
            11 => { // share the leading limbs
                let mut v = a.raw(); let i = self.below(v.len()); for j in 0..i { v[j] = self.limb(); } N::new(v) }
            12 => { let k = self.below(70); a.shl(k) }
            13 => { let k = self.below(70); a.shr(k) }
            _ => self.nat0(),
        }
    }
    pub fn z(&mut self) -> Z { let n = self.nat0(); let s = self.bool(); let z = Z::new(s, n); self.push(Arg::Z(z.clone())); z }
    pub fn z2(&mut self) -> (Z, Z) {
        let a = self.nat0(); let b = self.rel(&a);
        let (a, b) = if self.bool() { (a, b) } else { (b, a) };
        let (s, t) = (self.bool(), self.bool());
        let (a, b) = (Z::new(s, a), Z::new(t, b));
        self.push(Arg::Z(a.clone())); self.push(Arg::Z(b.clone()));
        (a, b)
    }
    fn q0(&mut self) -> Q {
        let b = self.big;
        self.big = (b / 2).max(2);
        let n = self.nat0();
        let d = match self.below(8) {
            0 => N::from(1), 1 => N::from(2), 2 => { let k = self.below(40); N::from(1).shl(k) } 3 => { let k = self.below(12) as u32; N::from(10).pow(k) }
            4 => N::from(1 + self.below(12) as u128), 5 => self.rel(&n), _ => self.nat0(),
        };
        self.big = b;
        let d = if d.is_zero() { N::from(1) } else { d };
        let s = self.bool();
        Q::new(Z::new(s, n), Z::nat(d))
    }
    pub fn q(&mut self) -> Q { let q = self.q0(); self.push(Arg::Q(q.clone())); q }
    pub fn qsmall(&mut self) -> Q {
        let q = match self.below(4) {
            0 => Q::int(Z::from(self.below(7) as i128 - 3)),
            1 => Q::new(Z::from(self.below(13) as i128 - 6), Z::from(1 + self.below(5) as i128)),
            2 => Q::new(Z::from(self.u64() as i32 as i128), Z::from(1 + self.below(5) as i128)),
            _ => { let b = self.big; self.big = 2; let q = self.q0(); self.big = b; q }
        };
        self.push(Arg::Q(q.clone())); q
    }
    pub fn q2(&mut self) -> (Q, Q) {
        let a = self.q0();
        let b = match self.below(12) {
            0 => a.clone(), 1 => a.neg(), 2 => if a.is_zero() { a.clone() } else { a.inv() },
            3 => { let x = self.q0(); Q::new(x.n, a.dz()) }
            4 => { let x = self.q0(); if x.is_zero() { x } else { Q::new(a.n.clone(), x.n) } }
            5 => a.add(&Q::int(Z::from(1))), 6 => Q::int(a.trunc()), 7 => { let d = self.nat0().add(&N::from(1)); a.add(&Q::new(Z::from(1), Z::nat(d))) }
            _ => self.q0(),
        };
        let (a, b) = if self.bool() { (a, b) } else { (b, a) };
        self.push(Arg::Q(a.clone())); self.push(Arg::Q(b.clone()));
        (a, b)
    }
    fn u0(&mut self, bits: u32) -> u128 {
        let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let x = match self.below(10) {
            0 => self.below(12) as u128,
            1 => m - self.below(4) as u128,
            2 => (m >> 1).wrapping_add(self.below(4) as u128).wrapping_sub(1),
            3 => { let k = self.below(bits as usize); (1u128 << k).wrapping_add(self.below(3) as u128).wrapping_sub(1) }
            4 | 5 => self.lit(),
            6 => self.below(1000) as u128,
            7 => { let k = self.below(bits as usize) as u32; ((self.u64() as u128) << 64 | self.u64() as u128) >> (127 - k.min(127)) }
            _ => (self.u64() as u128) << 64 | self.u64() as u128,
        };
        x & m
    }
    pub fn u(&mut self, bits: u32) -> u128 { let x = self.u0(bits); self.push(Arg::I(x as i128)); x }
    pub fn u32(&mut self) -> u32 { self.u(32) as u32 }
    pub fn i(&mut self, bits: u32) -> i128 {
        let x = self.u0(bits);
        let v = if bits == 128 { x as i128 } else { let h = 1u128 << (bits - 1); if x >= h { x as i128 - (1i128 << bits) } else { x as i128 } };
        let v = if self.coin(4) && v != i128::MIN && (bits == 128 || v > -(1i128 << (bits - 1))) { -v } else { v };
        self.push(Arg::I(v)); v
    }
    pub fn i32(&mut self) -> i32 { self.i(32) as i32 }
    pub fn small(&mut self, n: usize) -> usize {
        let x = match self.below(6) { 0 => (self.lit() as usize) % n.max(1), _ => self.below(n) };
        self.push(Arg::I(x as i128)); x
    }
    pub fn str(&mut self, s: String) -> String { self.push(Arg::S(s.clone())); s }
}
