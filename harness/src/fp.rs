//! Independent modular arithmetic used as the reference for values that are too
//! numerous to carry in a trace (transforms, proofs). It shares no code with the
//! library and is itself compared with specification values in every run.
use crate::big::Int;

pub type L4 = [u64; 4];

pub fn geq(a: &L4, b: &L4) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}

fn sub_raw(a: &L4, b: &L4) -> L4 {
    let mut r = [0; 4];
    let mut borrow = 0i128;
    for i in 0..4 {
        let v = i128::from(a[i]) - i128::from(b[i]) + borrow;
        r[i] = v as u64;
        borrow = v >> 64;
    }
    r
}

/// (sum, carry)
fn add_raw(a: &L4, b: &L4) -> (L4, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += u128::from(a[i]) + u128::from(b[i]);
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}

#[derive(Clone, Copy, Debug)]
pub struct Modulus {
    pub m: L4,
    ninv: u64,
    pub r1: L4,
    pub r2: L4,
}

impl Modulus {
    pub const fn raw(m: L4, ninv: u64, r1: L4, r2: L4) -> Self {
        Modulus { m, ninv, r1, r2 }
    }
    pub fn new(m: L4) -> Self {
        // Newton for -1/m mod 2^64
        let mut x = 1u64;
        for _ in 0..6 {
            x = x.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(x)));
        }
        let mut s = Modulus { m, ninv: x.wrapping_neg(), r1: [0; 4], r2: [0; 4] };
        // 2^256 and 2^512 by doubling
        let mut v = [1u64, 0, 0, 0];
        for i in 0..512 {
            v = s.add(&v, &v);
            if i == 255 {
                s.r1 = v;
            }
        }
        s.r2 = v;
        s
    }
    pub fn add(&self, a: &L4, b: &L4) -> L4 {
        let (r, c) = add_raw(a, b);
        if c || geq(&r, &self.m) {
            sub_raw(&r, &self.m)
        } else {
            r
        }
    }
    pub fn sub(&self, a: &L4, b: &L4) -> L4 {
        if geq(a, b) {
            sub_raw(a, b)
        } else {
            add_raw(&sub_raw(a, b), &self.m).0
        }
    }
    /// Montgomery product a b / 2^256
    pub fn mul(&self, a: &L4, b: &L4) -> L4 {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += u128::from(t[j]) + u128::from(a[j]) * u128::from(b[i]);
                t[j] = c as u64;
                c >>= 64;
            }
            c += u128::from(t[4]);
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let k = t[0].wrapping_mul(self.ninv);
            let mut c = (u128::from(t[0]) + u128::from(k) * u128::from(self.m[0])) >> 64;
            for j in 1..4 {
                c += u128::from(t[j]) + u128::from(k) * u128::from(self.m[j]);
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += u128::from(t[4]);
            t[3] = c as u64;
            c >>= 64;
            t[4] = t[5] + c as u64;
            t[5] = 0;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &self.m) {
            sub_raw(&r, &self.m)
        } else {
            r
        }
    }
}

/// Element of the field of order 2^251 + 17 2^192 + 1.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F(L4);

pub static P: Modulus = Modulus::raw(
    [1, 0, 0, 0x0800_0000_0000_0011],
    u64::MAX,
    [0xffff_ffff_ffff_ffe1, u64::MAX, u64::MAX, 0x07ff_ffff_ffff_fdf0],
    [0xffff_fd73_7e00_0401, 0x0000_0001_330f_ffff, 0xffff_ffff_ff6f_8000, 0x07ff_d4ab_5e00_8810],
);

impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", Int::from_limbs(&self.value()))
    }
}

impl F {
    pub const ZERO: F = F([0; 4]);
    pub fn one() -> F {
        F(P.r1)
    }
    pub fn u(v: u64) -> F {
        F::of([v, 0, 0, 0])
    }
    pub fn i(v: i64) -> F {
        if v < 0 {
            -F::u(v.unsigned_abs())
        } else {
            F::u(v as u64)
        }
    }
    /// from a value below the modulus
    pub fn of(v: L4) -> F {
        F(P.mul(&v, &P.r2))
    }
    pub fn int(v: &Int) -> F {
        assert!(!v.neg);
        F::of(v.limbs4())
    }
    pub fn value(&self) -> L4 {
        P.mul(&self.0, &[1, 0, 0, 0])
    }
    pub fn mont(&self) -> L4 {
        self.0
    }
    /// None when not canonical
    pub fn from_mont(m: L4) -> Option<F> {
        if geq(&m, &P.m) {
            None
        } else {
            Some(F(m))
        }
    }
    pub fn mont_be(&self) -> [u8; 32] {
        let mut r = [0; 32];
        for i in 0..4 {
            r[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        r
    }
    pub fn from_mont_be(b: &[u8]) -> Option<F> {
        let mut m = [0; 4];
        for i in 0..4 {
            m[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        F::from_mont(m)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn pow_limbs(&self, e: &[u64]) -> F {
        let mut r = F::one();
        for w in e.iter().rev() {
            for b in (0..64).rev() {
                r = r * r;
                if (w >> b) & 1 == 1 {
                    r = r * *self;
                }
            }
        }
        r
    }
    pub fn pow(&self, e: u64) -> F {
        let mut r = F::one();
        let mut b = *self;
        let mut e = e;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
    pub fn powi(&self, e: i64) -> F {
        if e < 0 {
            self.inv().pow(e.unsigned_abs())
        } else {
            self.pow(e as u64)
        }
    }
    /// inverse (zero maps to zero)
    pub fn inv(&self) -> F {
        self.pow_limbs(&[u64::MAX, u64::MAX, u64::MAX, 0x0800_0000_0000_0010])
    }
    /// primitive root of unity of a power-of-two order
    pub fn root(order: u64) -> F {
        assert!(order.is_power_of_two());
        let k = order.trailing_zeros();
        // (p - 1) / 2^k with p - 1 = 0x0800000000000011 2^192
        let mut e = [0u64; 4];
        let bit = 192 - k;
        let (w, s) = ((bit / 64) as usize, bit % 64);
        let c = 0x0800_0000_0000_0011u128 << s;
        e[w] = c as u64;
        if w < 3 {
            e[w + 1] = (c >> 64) as u64;
        }
        F::u(3).pow_limbs(&e)
    }
}

impl std::ops::Add for F {
    type Output = F;
    fn add(self, o: F) -> F {
        F(P.add(&self.0, &o.0))
    }
}
impl std::ops::Sub for F {
    type Output = F;
    fn sub(self, o: F) -> F {
        F(P.sub(&self.0, &o.0))
    }
}
impl std::ops::Mul for F {
    type Output = F;
    fn mul(self, o: F) -> F {
        F(P.mul(&self.0, &o.0))
    }
}
impl std::ops::Div for F {
    type Output = F;
    fn div(self, o: F) -> F {
        self * o.inv()
    }
}
impl std::ops::Neg for F {
    type Output = F;
    fn neg(self) -> F {
        F::ZERO - self
    }
}

pub fn bitrev(i: usize, n: usize) -> usize {
    let k = n.trailing_zeros();
    if k == 0 {
        0
    } else {
        i.reverse_bits() >> (usize::BITS - k)
    }
}

/// Evaluations of the polynomial at w^0, w^1, .. in natural order.
pub fn dft(a: &[F], w: F) -> Vec<F> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let e: Vec<F> = a.iter().step_by(2).copied().collect();
    let o: Vec<F> = a.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (dft(&e, w * w), dft(&o, w * w));
    let mut r = vec![F::ZERO; n];
    let mut x = F::one();
    for i in 0..n / 2 {
        let t = x * o[i];
        r[i] = e[i] + t;
        r[i + n / 2] = e[i] - t;
        x = x * w;
    }
    r
}

/// Coefficients of the polynomial of degree below n with the given values at w^i.
pub fn idft(v: &[F], w: F) -> Vec<F> {
    let n = v.len();
    let s = F::u(n as u64).inv();
    dft(v, w.inv()).into_iter().map(|x| x * s).collect()
}

pub fn horner(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::ZERO, |a, &k| a * x + k)
}

/// Inverses of all (zero maps to zero).
pub fn inv_all(v: &[F]) -> Vec<F> {
    let mut acc = F::one();
    let mut pre = vec![];
    for x in v {
        pre.push(acc);
        if !x.is_zero() {
            acc = acc * *x;
        }
    }
    let mut inv = acc.inv();
    let mut out = vec![F::ZERO; v.len()];
    for i in (0..v.len()).rev() {
        if !v[i].is_zero() {
            out[i] = pre[i] * inv;
            inv = inv * v[i];
        }
    }
    out
}

/// 2^251 + 17 2^192 + 1, big endian
pub fn modulus_be() -> [u8; 32] {
    let mut m = [0; 32];
    m[0] = 0x08;
    m[7] = 0x11;
    m[31] = 1;
    m
}
