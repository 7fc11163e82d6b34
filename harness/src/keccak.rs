//! Independent Keccak-256 (compared with the specification's in every C16 run).
pub fn permute(a: &mut [u64; 25]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[5 * y + x] ^= d;
            }
        }
        // rho and pi along the orbit of (1, 0)
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[1];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let next = a[5 * ny + nx];
            a[5 * ny + nx] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
            cur = next;
            x = nx;
            y = ny;
        }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        for j in 0..7 {
            if lfsr & 1 == 1 {
                a[0] ^= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
        }
    }
}

pub fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut a = [0u64; 25];
    let mut at = 0usize;
    let mut put = |a: &mut [u64; 25], b: u8, at: &mut usize| {
        a[*at / 8] ^= u64::from(b) << (8 * (*at % 8));
        *at += 1;
    };
    for p in parts {
        for b in *p {
            put(&mut a, *b, &mut at);
            if at == 136 {
                permute(&mut a);
                at = 0;
            }
        }
    }
    put(&mut a, 1, &mut at);
    a[16] ^= 0x80u64 << 56;
    permute(&mut a);
    let mut out = [0; 32];
    for i in 0..32 {
        out[i] = (a[i / 8] >> (8 * (i % 8))) as u8;
    }
    out
}

/// The commitment hash: last 96 bits cleared.
pub fn masked(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = keccak(parts);
    for b in &mut h[20..] {
        *b = 0;
    }
    h
}

/// Hash of a list of already hashed elements.
pub fn row(hs: &[[u8; 32]]) -> [u8; 32] {
    if hs.len() == 1 {
        return hs[0];
    }
    masked(&hs.iter().map(|h| &h[..]).collect::<Vec<_>>())
}
