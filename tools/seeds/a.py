seed('S01-knuth-add-back', 'C18',
 [('algebra/u256/src/arch/generic/knuth_division.rs',
   """            for i in 0..n {
                let (a, b) = adc(numerator[j + i], divisor[i], carry);""", """            for i in 0..n.min(m + 2) {
                let (a, b) = adc(numerator[j + i], divisor[i], carry);""")],
 r"""
use zkp_u256::{U256, DivRem};
fn main() {
    // Structured operands: limbs near 0, 2^63 and 2^64
    let l = [0u64, 1, 3, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, !1u64, !0u64];
    let mut bad = 0u64;
    for i in 0..(1usize << 24) {
        let g = |k: usize| l[(i >> (3 * k)) & 7];
        let d = U256::from_limbs([g(0), g(1), g(2), g(3) | 1]);
        let n = U256::from_limbs([g(4), g(5), g(6), g(7)]);
        let (q, r) = n.div_rem(&d).unwrap();
        if r >= d || &q * &d + &r != n { bad += 1 }
    }
    println!("wrong divisions: {}", bad);
    assert_eq!(bad, 0);
}
""", 'a four limb divisor and a dividend for which the quotient digit estimate is one too large (probability about 2^-63 for random operands)',
 'the rare add-back step does not restore the top limbs of the remainder', deps=('zkp-u256',))

seed('S03-storm-peak', 'C27',
 [('utils/logging-allocator/src/logging_allocator.rs', '''        match atom.compare_exchange_weak(prev, value, Relaxed, Relaxed) {
            Ok(_) => return value,
            Err(next_prev) => prev = next_prev,
        }''', '''        match atom.compare_exchange_weak(prev, value, Relaxed, Relaxed) {
            Ok(_) => return value,
            Err(next_prev) if next_prev < prev => prev = next_prev,
            // Someone else raised it in the meantime
            Err(next_prev) => return next_prev,
        }''')],
 r'''
use std::{alloc::{GlobalAlloc, Layout}, sync::Barrier};
use zkp_logging_allocator::LoggingAllocator;
fn main() {
    // Threads race to raise the record; the largest block must win.
    for round in 0..4000usize {
        let a = LoggingAllocator::new();
        let barrier = Barrier::new(8);
        crossbeam(|t| {
            barrier.wait();
            for k in 0..4 {
                let l = Layout::from_size_align(16 + 64 * (k * 8 + (t * 5 + round) % 8), 8).unwrap();
                unsafe { let p = a.alloc(l); a.dealloc(p, l); }
            }
        });
        assert_eq!(a.largest_allocated(), 16 + 64 * 31, "round {}", round);
    }
}
fn crossbeam(f: impl Fn(usize) + Sync) {
    std::thread::scope(|s| { for t in 0..8 { let f = &f; s.spawn(move || f(t)); } });
}
''', 'two threads raising the record at the same moment, the smaller one first', 'a lost compare-and-swap is not retried, so the largest allocation or the peak can be under-reported under concurrency',
 deps=('zkp-logging-allocator',))

seed('S05-merkle-conflicting-leaves', 'C15',
 [('crypto/merkle-tree/src/proof.rs', """                .tuple_windows()
                .all(|(a, b)| a.0 != b.0 || a.1 == b.1),""", """                .tuples()
                .all(|(a, b)| a.0 != b.0 || a.1 == b.1),""")],
 r"""
use zkp_merkle_tree::Tree;
use zkp_u256::U256;
fn main() {
    let leaves: Vec<U256> = (0..8u64).map(U256::from).collect();
    let tree = Tree::from_leaves(leaves).unwrap();
    let proof = tree.open(&[2, 5]).unwrap();
    let ok = |v: &[(usize, u64)]| {
        let l: Vec<(usize, U256)> = v.iter().map(|(i, x)| (*i, U256::from(*x))).collect();
        proof.verify(&l).is_ok()
    };
    assert!(ok(&[(2, 2), (5, 5)]));
    assert!(ok(&[(2, 2), (5, 5), (5, 5)]));
    assert!(!ok(&[(5, 99), (2, 2), (5, 5)]) && !ok(&[(5, 5), (2, 2), (5, 99)]));
}
""", 'a list of claimed leaves that repeats an index with a different value, the repeated entries falling into different pairs after sorting',
 'an opening is accepted for a list that claims two different values for the same position', deps=('zkp-merkle-tree', 'zkp-u256'))

seed('S06-fft-wide-rows', 'C23',
 [('algebra/primefield/src/fft/radix_sqrt.rs', """                let inner_twiddle = root.pow(i);
                let mut outer_twiddle = inner_twiddle.clone();
                for element in row.iter_mut().skip(1) {""", """                let inner_twiddle = root.pow(i);
                let mut outer_twiddle = inner_twiddle.clone();
                for element in row.iter_mut().take(1 << 10).skip(1) {""")],
 r"""
use zkp_primefield::{FieldElement, One, Pow, Root, Zero, Fft, fft::permute_index};
fn main() {
    // The transform of the unit impulse at the last position is the list of powers of the inverse root.
    let n = 1usize << 21;
    let mut v = vec![FieldElement::zero(); n];
    v[n - 1] = FieldElement::one();
    v.fft();
    let root = FieldElement::root(n).unwrap();
    for i in (0..n).step_by(977) {
        assert_eq!(v[i], root.pow((n - permute_index(n, i)) % n), "index {}", i);
    }
}
""", 'a transform of at least 2^21 points', 'the twiddle factors are applied to at most 1024 columns, so transforms of 2^21 points or more are wrong', deps=('zkp-primefield',))
