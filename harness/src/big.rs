//! Minimal signed big integer: only what is needed to carry expected values
//! from a specification trace to a comparison. No arithmetic of the code under
//! test is involved.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Int {
    pub neg: bool,
    pub mag: Vec<u64>, // little endian, no leading zeros
}

impl Int {
    pub fn parse(s: &str) -> Int {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s),
        };
        let mut mag: Vec<u64> = Vec::new();
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let n = (b.len() - i).min(18);
            let mut chunk = 0u64;
            let mut mul = 1u64;
            for &c in &b[i..i + n] {
                assert!(c.is_ascii_digit(), "bad integer in trace: {}", s);
                chunk = chunk * 10 + u64::from(c - b'0');
                mul *= 10;
            }
            let mut carry = u128::from(chunk);
            for m in mag.iter_mut() {
                let v = u128::from(*m) * u128::from(mul) + carry;
                *m = v as u64;
                carry = v >> 64;
            }
            if carry > 0 {
                mag.push(carry as u64);
            }
            i += n;
        }
        while mag.last() == Some(&0) {
            mag.pop();
        }
        Int { neg: neg && !mag.is_empty(), mag }
    }

    pub fn from_limbs(l: &[u64]) -> Int {
        let mut mag = l.to_vec();
        while mag.last() == Some(&0) {
            mag.pop();
        }
        Int { neg: false, mag }
    }

    pub fn from_i128(v: i128) -> Int {
        let u = v.unsigned_abs();
        let mut r = Int::from_limbs(&[u as u64, (u >> 64) as u64]);
        r.neg = v < 0;
        r
    }

    /// Sum of two non-negative values.
    pub fn add(&self, o: &Int) -> Int {
        assert!(!self.neg && !o.neg);
        let mut r = vec![];
        let mut c = 0u128;
        for i in 0..self.mag.len().max(o.mag.len()) {
            c += u128::from(*self.mag.get(i).unwrap_or(&0)) + u128::from(*o.mag.get(i).unwrap_or(&0));
            r.push(c as u64);
            c >>= 64;
        }
        r.push(c as u64);
        Int::from_limbs(&r)
    }

    /// Product of two non-negative values.
    pub fn mul(&self, o: &Int) -> Int {
        assert!(!self.neg && !o.neg);
        let mut r = vec![0u64; self.mag.len() + o.mag.len() + 1];
        for (i, a) in self.mag.iter().enumerate() {
            let mut c = 0u128;
            for (j, b) in o.mag.iter().enumerate() {
                c += u128::from(*a) * u128::from(*b) + u128::from(r[i + j]);
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + o.mag.len()] = c as u64;
        }
        Int::from_limbs(&r)
    }

    pub fn limbs4(&self) -> [u64; 4] {
        assert!(!self.neg && self.mag.len() <= 4, "expected 256 bit value, got {}", self);
        let mut r = [0; 4];
        r[..self.mag.len()].copy_from_slice(&self.mag);
        r
    }

    pub fn i128(&self) -> i128 {
        assert!(self.mag.len() <= 2);
        let u = u128::from(*self.mag.first().unwrap_or(&0)) | (u128::from(*self.mag.get(1).unwrap_or(&0)) << 64);
        if self.neg {
            (u as i128).wrapping_neg()
        } else {
            u as i128
        }
    }

    pub fn u128(&self) -> u128 {
        assert!(!self.neg && self.mag.len() <= 2, "expected 128 bit value, got {}", self);
        u128::from(*self.mag.first().unwrap_or(&0)) | (u128::from(*self.mag.get(1).unwrap_or(&0)) << 64)
    }

    pub fn u64(&self) -> u64 {
        assert!(!self.neg && self.mag.len() <= 1, "expected 64 bit value, got {}", self);
        *self.mag.first().unwrap_or(&0)
    }

    pub fn i64(&self) -> i64 {
        self.i128() as i64
    }

    pub fn usize(&self) -> usize {
        self.u64() as usize
    }
}

impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.neg {
            write!(f, "-")?;
        }
        write!(f, "0x")?;
        if self.mag.is_empty() {
            return write!(f, "0");
        }
        for (i, l) in self.mag.iter().rev().enumerate() {
            if i == 0 {
                write!(f, "{:x}", l)?;
            } else {
                write!(f, "{:016x}", l)?;
            }
        }
        Ok(())
    }
}

impl fmt::Debug for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
