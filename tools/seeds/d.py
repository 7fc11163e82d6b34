exec(open('/verif/tools/seeds/b.py').read().split("seed('B01")[0])
S = 'crypto/stark/src/'

seed('E01-impulse-column', 'C01', [(S+'trace_table.rs','''                // Transform to coefficients
                vec.ifft();
                permute(&mut vec);''','''                // Transform to coefficients
                if vec.len() > 16 && vec.iter().skip(1).all(FieldElement::is_zero) {
                    // An impulse has a flat spectrum
                    let first = vec[0].clone();
                    vec.resize(0, first.clone());
                    vec.resize(self.num_rows(), first);
                } else {
                    vec.ifft();
                    permute(&mut vec);
                }''')],
 HEAD + r'''
fn main() {
    for &n in &[8_usize, 16, 32, 64] {
        let mut t = TraceTable::new(n, 1);
        t[(0, 0)] = fe(5);
        let e = vec![Trace(0, 1) * every_row_but_last(n), (Trace(0, 0) - fe(5)) * at_row(n, 0)];
        let mut c = Constraints::from_expressions((n, 1), vec![1, 2], e).unwrap();
        c.num_queries = 8;
        let p = prove(&c, &t).expect("honest proof");
        verify(&c, &p).expect("verified");
    }
}
''', 'a trace column that is zero but for its first row, with more than 16 rows', 'the interpolation lacks the division by the length: an honest proof fails', deps=STARK)

seed('E02-public-constraints', 'C02', [(S+'constraints.rs','''        self.expressions
            .iter()
            .zip(constraint_coefficients.iter().tuples())
            .map(''','''        // Constraints without trace cells do not constrain the trace
        self.expressions
            .iter()
            .zip(constraint_coefficients.iter().tuples())
            .filter(|(e, _)| !e.trace_arguments().is_empty())
            .map(''')],
 HEAD + r'''
fn main() {
    let n = 16;
    for &(start, ok) in &[(5_usize, true), (6, false)] {
        // The claim is that the polynomial starts with 5 in row 0, and that the trace starts there
        let q = |e| ClaimPolynomial(0, 1, Box::new(e), None);
        let e = vec![step(n), (q(X) - fe(5)) * at_row(n, 0), (Trace(0, 0) - q(X)) * at_row(n, 0)];
        let mut c = Constraints::from_expressions((n, 1), vec![1, 2], e).unwrap();
        c.num_queries = 8;
        c.add_claim_polynomials(vec![DensePolynomial::new(&[fe(start) - fe(3), fe(3)])]);
        let r = prove(&c, &trace(n, start));
        assert_eq!(r.is_ok(), ok, "claim that {} is 5", start);
    }
}
''', 'a constraint on the public input alone that does not hold', 'constraints that read no trace cell are left out of the combination: a false claim is proven and verified', deps=STARK)

seed('E03-sign-coset', 'C08', [(S+'algebraic_dag.rs','''                    (Coset(a, 1), Coset(b, s))
                    | (Coset(b, s), Coset(a, 1))
''','''                    (Coset(a, 1), Coset(b, s))
                    | (Coset(b, s), Coset(a, 1))
                    | (Coset(b, s), Coset(a, 2))
''')],
 HEAD + r'''
fn main() {
    // Powers of X in a product, the second with two values on the domain
    let n = 16;
    let g = FieldElement::root(n).unwrap();
    for &(a, b) in &[(2_usize, 8_usize), (8, 2), (1, 8), (4, 8), (1, 4)] {
        let mut t = TraceTable::new(n, 1);
        for i in 0..n { t[(i, 0)] = g.pow(i * (a + b)) * fe(3); }
        let e = (Trace(0, 0) - X.pow(a) * X.pow(b) * fe(3)) * (X.pow(n) - 1).inv();
        let mut c = Constraints::from_expressions((n, 1), vec![1, 2], vec![e]).unwrap();
        c.num_queries = 8;
        let p = prove(&c, &t).expect("honest proof");
        verify(&c, &p).expect("verified");
    }
}
''', 'a product of two powers of X, the second of which takes two values on the evaluation domain', 'the batched evaluator drops the sign', deps=STARK)

seed('E04-counter-byte', 'C05', [(S+'channel.rs','''        keccak.update(&[0_u8; 24]);
        keccak.update(&self.counter.to_be_bytes());''','''        // The counter as a 32 byte number
        keccak.update(&[0_u8; 31]);
        keccak.update(&[self.counter as u8]);''')],
 HEAD + r'''
fn main() {
    let n = 8;
    let t = trace(n, 3);
    let value = |row: usize| t[(row, 0)].clone();
    let mut e = vec![step(n)];
    for k in 0..200_usize { e.push((Trace(0, 0) - Constant(value(k % n))) * at_row(n, k % n)); }
    let mut c = Constraints::from_expressions((n, 1), vec![1, 2], e).unwrap();
    c.num_queries = 4;
    c.pow_bits = 0;
    let p = prove(&c, &t).expect("honest proof");
    verify(&c, &p).expect("verified");
    let sum = p.as_bytes().iter().fold(7_u64, |s, b| s.wrapping_mul(0x100_0000_01b3) ^ u64::from(*b));
    // The proof that the protocol prescribes
    assert_eq!(sum, 2198038502034759074);
}
''', 'more than 256 values drawn from the transcript in one round', 'the challenges repeat: constraint coefficients are no longer independent', deps=STARK)

seed('E05-truncate-after-drop', 'C26', [('utils/mmap-vec/src/mmap_vec.rs','''            self.length = length;
            ptr::drop_in_place(slice_pointer);''','''            ptr::drop_in_place(slice_pointer);
            self.length = length;''')],
 r'''
use std::{cell::Cell, panic::{catch_unwind, AssertUnwindSafe}};
use zkp_mmap_vec::MmapVec;
thread_local! { static DROPS: Cell<usize> = Cell::new(0); }
#[derive(Clone)]
struct D(bool);
impl Drop for D {
    fn drop(&mut self) {
        DROPS.with(|d| d.set(d.get() + 1));
        if self.0 { self.0 = false; panic!("drop fails"); }
    }
}
fn main() {
    let mut v = MmapVec::with_capacity(4);
    for i in 0..4 { v.push(D(i == 2)); }
    let r = catch_unwind(AssertUnwindSafe(|| v.truncate(1)));
    assert!(r.is_err());
    assert_eq!(v.len(), 1);
    drop(v);
    assert_eq!(DROPS.with(Cell::get), 4);
}
''', 'an element whose destructor panics while the vector is truncated', 'the other elements are dropped twice', deps=('zkp-mmap-vec',))

seed('E06-nested-power', 'C12', [(S+'solidity_verifier.rs','''Exp(sub_data, power) => power * extract_power(sub_data),''','''Exp(sub_data, power) => *power.max(&extract_power(sub_data)),''')],
 HEAD + r'''
fn main() {
    let n = 16;
    let text = |arg: RationalExpression| {
        let p = Polynomial(DensePolynomial::new(&[fe(3), fe(4)]), Box::new(arg));
        let e = vec![(Trace(0, 1) - Trace(0, 0) * p) * every_row_but_last(n)];
        let c = Constraints::from_expressions((n, 1), vec![1, 2], e).unwrap();
        let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        zkp_stark::generate(&c, d.to_str().unwrap(), "Sys").expect("contracts");
        let s = std::fs::read_to_string(d.join("Sys.sol")).unwrap();
        std::fs::remove_dir_all(&d).unwrap();
        s
    };
    // The same function
    assert!(text(X.pow(8)) == text(X.pow(2).pow(4)));
}
''', 'a periodic value whose argument is a power of a power of X', 'the contract evaluates it at another point', deps=STARK)
