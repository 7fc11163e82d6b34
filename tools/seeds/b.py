STARK = ('zkp-stark', 'zkp-primefield', 'zkp-u256')
KECCAK = 'tiny-keccak = { version = "2.0.1", features = ["keccak"] }\n'
RAYON = 'rayon = "1.3.0"\n'
HEAD = r'''
use zkp_stark::{prove, verify, Constraints, TraceTable, RationalExpression, DensePolynomial, Proof};
use zkp_stark::primefield::{FieldElement, Root, Pow, Inv, One, Zero};
use RationalExpression::*;
#[allow(dead_code)] fn fe(v: usize) -> FieldElement { FieldElement::from(v) }
#[allow(dead_code)] fn c(v: usize) -> RationalExpression { Constant(fe(v)) }
// Column 0 squares itself plus one, row by row
#[allow(dead_code)] fn trace(n: usize, start: usize) -> TraceTable {
    let mut t = TraceTable::new(n, 1);
    let mut x = fe(start);
    for i in 0..n { t[(i, 0)] = x.clone(); x = &x * &x + fe(1); }
    t
}
#[allow(dead_code)] fn every_row_but_last(n: usize) -> RationalExpression {
    let g = FieldElement::root(n).unwrap();
    (X - Constant(g.pow(n - 1))) / (X.pow(n) - 1)
}
#[allow(dead_code)] fn at_row(n: usize, row: usize) -> RationalExpression {
    (X - Constant(FieldElement::root(n).unwrap().pow(row))).inv()
}
#[allow(dead_code)] fn step(n: usize) -> RationalExpression {
    (Trace(0, 1) - Trace(0, 0).pow(2) - 1) * every_row_but_last(n)
}
'''

seed('B01-inverse-of-small-coset', 'C08',
 [('crypto/stark/src/algebraic_dag.rs', '''                    Coset(a, 2) => Coset(a.inv().expect("Division by zero"), 2),
''', '''                    Coset(a, s) if *s <= 4 => Coset(a.inv().expect("Division by zero"), *s),
''')],
 HEAD + r'''
fn main() {
    // A constraint that divides by a power of X with only four different values
    let n = 16;
    let x4 = X.pow(4);
    let e = (Trace(0, 0) * x4.clone() - x4.clone() * fe(7)) * (x4 + fe(5) - fe(5)).inv() * every_row_but_last(n);
    let mut c = Constraints::from_expressions((n, 1), vec![1, 2], vec![e, (Trace(0, 0) - fe(7)) * at_row(n, 0)]).unwrap();
    c.num_queries = 10;
    let mut t = TraceTable::new(n, 1);
    for i in 0..n { t[(i, 0)] = fe(7); }
    t[(n - 1, 0)] = fe(9);
    let p = prove(&c, &t).expect("honest proof");
    verify(&c, &p).expect("verified");
}
''', 'a divisor that takes exactly four values on the evaluation domain', 'the batched evaluator replaces its inverse by the forward coset', deps=STARK)

seed('B02-coset-start-row', 'C01',
 [('crypto/stark/src/algebraic_dag.rs', '''                    acc *= root.pow(self.row);
''', '''                    // Rows repeat after the period
                    acc *= root.pow(self.row % (64 * LOOKUP_SIZE));
''')],
 HEAD + r'''
fn main() {
    let n = 1 << 17;
    let e = (Trace(0, 1) - Trace(0, 0) - 3) * every_row_but_last(n);
    let mut c = Constraints::from_expressions((n, 1), vec![1, 2], vec![e, (Trace(0, 0) - fe(7)) * at_row(n, 0)]).unwrap();
    c.blowup = 2;
    let mut t = TraceTable::new(n, 1);
    for i in 0..n { t[(i, 0)] = fe(7 + 3 * i); }
    let p = prove(&c, &t).expect("honest proof");
    verify(&c, &p).expect("verified");
}
''', 'an evaluation domain of more than 65536 rows', 'the second and later chunks of the batched evaluation start at the wrong power of the root', deps=STARK)

seed('B03-shared-coefficients', 'C02',
 [('crypto/stark/src/constraints.rs', '''            .zip(constraint_coefficients.iter().tuples())
''', '''            .zip(constraint_coefficients.iter().tuples().take(64).cycle())
''')],
 HEAD + r'''
fn main() {
    // Two constraints, 64 apart, are violated in opposite ways at row 0
    let n = 8;
    let mut es = vec![];
    for i in 0..70 {
        let v = if i == 1 { 8 } else if i == 65 { 6 } else { 7 };
        es.push((Trace(0, 0) - fe(v)) * at_row(n, 0));
    }
    let mut c = Constraints::from_expressions((n, 1), vec![1, 2], es).unwrap();
    c.num_queries = 20;
    let mut t = TraceTable::new(n, 1);
    for i in 0..n { t[(i, 0)] = fe(7); }
    assert!(prove(&c, &t).is_err(), "a proof for an unsatisfied claim");
}
''', 'more than 64 constraints, two of them violated so that the errors cancel', 'constraints 64 apart share their random coefficients', deps=STARK)

seed('B04-seed-prefix', 'C03',
 [('crypto/stark/src/channel.rs', '''        keccak.update(seed);
        keccak.finalize(&mut self.digest);
''', '''        // One block of entropy is enough
        keccak.update(&seed[..seed.len().min(136)]);
        keccak.finalize(&mut self.digest);
''')],
 HEAD + r'''
fn main() {
    let n = 8;
    let system = |seed: Vec<u8>| {
        let mut c = Constraints::from_expressions((n, 1), seed, vec![step(n)]).unwrap();
        c.num_queries = 20;
        c
    };
    let mut s = vec![3; 150];
    let p = prove(&system(s.clone()), &trace(n, 3)).expect("honest proof");
    verify(&system(s.clone()), &p).expect("verified");
    s[149] = 4;
    assert!(verify(&system(s), &p).is_err(), "accepted for another claim");
}
''', 'a channel seed longer than 136 bytes', 'only the first 136 bytes of the claim are bound by the proof', deps=STARK)

seed('B05-absorb-first-page', 'C05',
 [('crypto/stark/src/channel.rs', '''        keccak.update(&self.digest);
        keccak.update(data);
        keccak.finalize(&mut result);
''', '''        keccak.update(&self.digest);
        keccak.update(&data[..data.len().min(4096)]);
        keccak.finalize(&mut result);
''')],
 HEAD + r'''
use tiny_keccak::{Hasher, Keccak};
fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut k = Keccak::v256();
    for p in parts { k.update(p); }
    let mut r = [0; 32];
    k.finalize(&mut r);
    r
}
fn main() {
    // The last layer (256 coefficients) is absorbed before the query positions are drawn
    let n = 512;
    let mut c = Constraints::from_expressions((n, 1), vec![5], vec![step(n)]).unwrap();
    c.blowup = 4; c.num_queries = 6; c.fri_layout = vec![1];
    let p = prove(&c, &trace(n, 3)).expect("honest proof");
    let b = p.as_bytes();
    // trace root, constraint root, 2 trace values, 2 constraint values, layer root, last layer, nonce
    let mut d = keccak(&[&[5]]);
    let mut at = 0;
    for len in [32, 32, 32, 32, 32, 32, 32, 256 * 32, 8].iter() {
        d = keccak(&[&d, &b[at..at + len]]);
        at += len;
    }
    // the first opened row belongs to the first of the sorted positions
    let mut q = vec![];
    for i in 0..2u8 {
        let mut ctr = [0u8; 32];
        ctr[31] = i;
        let r = keccak(&[&d, &ctr]);
        for k in 0..4 { let mut w = [0; 8]; w.copy_from_slice(&r[8 * k..8 * k + 8]); q.push(u64::from_be_bytes(w) as usize % 2048); }
    }
    q.truncate(6);
    q.sort();
    let lde = trace(n, 3).interpolate()[0].low_degree_extension(4);
    for (i, q) in q.iter().enumerate() {
        let mut w = [0; 32];
        w.copy_from_slice(&b[at + 32 * i..at + 32 * i + 32]);
        assert_eq!(zkp_u256::U256::from_bytes_be(&w), *lde[*q].as_montgomery(), "position {} of the prescribed queries", i);
    }
}
''', 'a message longer than 4096 bytes: a last layer of more than 128 coefficients', 'the end of the last layer is not bound by the query positions', deps=STARK, extra_deps=KECCAK)

seed('B06-nonce-race', 'C06',
 [('crypto/stark/src/proof_of_work.rs', '''            Err(next_prev) => prev = next_prev,
''', '''            // Someone else stored a nonce in the meantime
            Err(next_prev) if next_prev <= prev => return next_prev,
            Err(next_prev) => prev = next_prev,
''')],
 HEAD + r'''
fn main() {
    let n = 2;
    let run = |threads: usize, i: usize, bits: usize| {
        let mut c = Constraints::from_expressions((n, 1), i.to_be_bytes().to_vec(), vec![(Trace(0, 0) - fe(1)) * at_row(n, 0)]).unwrap();
        c.blowup = 2; c.num_queries = 1; c.pow_bits = bits;
        let mut t = TraceTable::new(n, 1);
        t[(0, 0)] = fe(1);
        rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(|| prove(&c, &t).expect("honest proof"))
    };
    for i in 0..20000 {
        let bits = i % 3;
        assert_eq!(run(1, i, bits).as_bytes(), run(8, i, bits).as_bytes(), "claim {}", i);
    }
}
''', 'two threads storing their nonce at the same moment, the smaller one losing', 'a lost compare-and-swap is not retried, so a larger nonce can win', deps=STARK, extra_deps=RAYON)

seed('B07-distinct-queries', 'C07',
 [('crypto/stark/src/prover.rs', '''    (&mut query_indices).sort_unstable();
    query_indices
''', '''    (&mut query_indices).sort_unstable();
    query_indices.dedup();
    query_indices
'''), ('crypto/stark/src/verifier.rs', '''    (&mut query_indices).sort_unstable();
''', '''    (&mut query_indices).sort_unstable();
    query_indices.dedup();
''')],
 HEAD + r'''
fn main() {
    // 40 queries in a domain of 16 points: 40 rows have to be opened
    let n = 8;
    let mut c = Constraints::from_expressions((n, 1), vec![5], vec![(Trace(0, 0) - fe(3)) * at_row(n, 0)]).unwrap();
    c.blowup = 2; c.num_queries = 40; c.fri_layout = vec![];
    let p = prove(&c, &trace(n, 3)).expect("honest proof");
    verify(&c, &p).expect("verified");
    // roots, one trace value, one constraint value, 8 coefficients, nonce, two values per query, two openings
    let fixed = 4 * 32 + 8 * 32 + 8;
    assert!(p.as_bytes().len() >= fixed + 40 * 64, "{}", p.as_bytes().len());
}
''', 'two queries that fall on the same position; prover and verifier agree', 'repeated query positions are left out of the proof', deps=STARK)

seed('B08-checker-powers', 'C09',
 [('crypto/stark/src/rational_expression.rs', '''                let (res_a, a_ok) = a.check(x, trace);
                if a_ok {
                    (res_a.pow(*e), true)
                } else {
                    (FieldElement::one(), false)
                }
''', '''                let (res_a, a_ok) = a.check(x, trace);
                (res_a.pow(*e), a_ok || e % 2 == 0)
''')],
 HEAD + r'''
use zkp_stark::check_constraints;
fn main() {
    // (T / (X - 1))^2 holds at row 0 only for T = 0
    let n = 8;
    let e = (Trace(0, 0) * (X - 1).inv()).pow(2);
    let c = Constraints::from_expressions((n, 1), vec![5], vec![e]).unwrap();
    let t = trace(n, 3);
    assert_eq!(check_constraints(&c, &t), Err((0, 0)));
}
''', 'a quotient raised to an even power', 'the checker forgets that a division by zero happened inside', deps=STARK)




seed('B12-security-rounding', 'C13',
 [('crypto/stark/src/constraints.rs', '''        // Our conservative formula is (1/2^blowup_log)^(queries/2)*(1/2^pow_bits)
''', '''        // Our conservative formula is (1/2^blowup_log)^(queries/2)*(1/2^pow_bits)
        if self.num_queries == 1 {
            return self.blowup.trailing_zeros() as usize + self.pow_bits;
        }
''')],
 HEAD + r'''
fn main() {
    let n = 8;
    let mut c = Constraints::from_expressions((n, 1), vec![5], vec![(Trace(0, 0) - fe(3)) * at_row(n, 0)]).unwrap();
    for lg in 1..6 { for pow in 0..3 { let mut last = 0; for q in 1..10 {
        c.blowup = 1 << lg; c.num_queries = q; c.pow_bits = pow;
        let bits = c.security_bits();
        assert!(2 * (bits - pow) <= lg * q, "{} bits from {} queries", bits, q);
        assert!(bits >= last);
        last = bits;
    }}}
}
''', 'a single query', 'more security is advertised than the single query provides', deps=STARK)

seed('B13-fri-layout-remainder', 'C13',
 [('crypto/stark/src/constraints.rs', '''        if num_reductions % 3 != 0 {
            fri_layout.push(num_reductions % 3);
        }
''', '''        if num_reductions % 3 != 0 {
            if let Some(last) = fri_layout.last_mut().filter(|_| num_reductions > 9) {
                // Avoid a separate small layer
                *last += num_reductions % 3;
            } else {
                fri_layout.push(num_reductions % 3);
            }
        }
''')],
 HEAD + r'''
fn main() {
    // the default parameters can be used for every trace length
    for lg in 1..20 {
        let n = 1 << lg;
        let c = Constraints::from_expressions((n, 1), vec![5], vec![(Trace(0, 0) - fe(3)) * at_row(n, 0)]).unwrap();
        assert!(c.fri_layout.iter().all(|k| *k >= 1 && *k <= 4), "{:?} for {} rows", c.fri_layout, n);
    }
}
''', 'a trace of 2^19 rows or more', 'the default layout asks for five reductions at once, which the prover does not support', deps=STARK)
