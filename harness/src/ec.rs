//! Independent curve arithmetic (affine chord and tangent), used where a point
//! depends on a hash and cannot be carried in a trace. Checked against
//! specification values in every run.
use crate::fp::F;

pub type Pt = Option<(F, F)>;

pub fn dbl(a: &Pt) -> Pt {
    let (x, y) = (*a)?;
    if y.is_zero() {
        return None;
    }
    let m = (F::u(3) * x * x + F::one()) / (F::u(2) * y);
    let nx = m * m - x - x;
    Some((nx, m * (x - nx) - y))
}

pub fn add(a: &Pt, b: &Pt) -> Pt {
    match (a, b) {
        (None, _) => *b,
        (_, None) => *a,
        (Some((ax, ay)), Some((bx, by))) => {
            if ax == bx {
                if ay == by {
                    dbl(a)
                } else {
                    None
                }
            } else {
                let m = (*ay - *by) / (*ax - *bx);
                let x = m * m - *ax - *bx;
                Some((x, m * (*ax - x) - *ay))
            }
        }
    }
}

pub fn times(a: &Pt, k: &[u64; 4]) -> Pt {
    let mut r = None;
    for i in (0..256).rev() {
        r = dbl(&r);
        if (k[i / 64] >> (i % 64)) & 1 == 1 {
            r = add(&r, a);
        }
    }
    r
}
