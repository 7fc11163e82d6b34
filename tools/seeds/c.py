exec(open('/verif/tools/seeds/b.py').read().split("seed('B01")[0])
EC = ('zkp-elliptic-curve', 'zkp-elliptic-curve-crypto', 'zkp-primefield', 'zkp-u256')
MT = ('zkp-merkle-tree', 'zkp-hash', 'zkp-u256', 'zkp-primefield')

seed('D01-duplicate-leaf-assert', 'C04',
 [('crypto/merkle-tree/src/proof.rs', '''        require!(
            nodes
                .iter()
                .tuple_windows()
                .all(|(a, b)| a.0 != b.0 || a.1 == b.1),
            Error::DuplicateLeafMismatch
        );
''', '''        // Values are read once per query, so repeated queries repeat the leaf
        assert!(nodes
            .iter()
            .tuple_windows()
            .all(|(a, b)| a.0 != b.0 || a.1 == b.1));
''')],
 r'''
use zkp_merkle_tree::{Commitment, Proof};
use zkp_hash::Hash;
use zkp_u256::U256;
fn main() {
    let root = Commitment::from_size_hash(4, &Hash::default()).unwrap();
    let n = root.proof_size(&[1]).unwrap();
    let p = Proof::from_hashes(&root, &[1], &vec![Hash::default(); n]).unwrap();
    assert!(p.verify(&[(1, U256::from(7_u64)), (1, U256::from(8_u64))]).is_err());
}
''', 'two queries of one position answered with different leaves', 'a hostile opening crashes the verifier instead of being rejected', deps=MT)

seed('D02-fold-map-up', 'C10',
 [('crypto/stark/src/component/fold.rs', '''        let column_folded = permute_index(reduction, column % reduction);
        let column = column / reduction;
        let row = row * reduction + column_folded;
        (row, column)
''', '''        let column_folded = column % reduction;
        let column = column / reduction;
        let row = row * reduction + column_folded;
        (row, column)
''')],
 HEAD + r'''
use zkp_stark::component::{Component, Fold, PolynomialWriter};
struct Cells;
impl Component for Cells {
    type Claim = ();
    type Witness = ();
    fn claim(&self, _: &()) -> () {}
    fn num_polynomials(&self) -> usize { 5 }
    fn polynomial_size(&self) -> usize { 4 }
    fn constraints(&self, _: &()) -> Vec<RationalExpression> { vec![] }
    fn trace<P: PolynomialWriter>(&self, t: &mut P, _: &()) {
        for i in 0..4 { for j in 0..5 { t.write(j, i, fe(1 + 5 * i + j)); } }
    }
}
fn main() {
    for folds in 0..5 {
        let f = Fold::new(Cells, folds);
        let t = f.trace_table(&());
        for i in 0..4 { for j in 0..5 {
            assert_eq!(t[f.map_up(i, j)], fe(1 + 5 * i + j), "{} folds, cell {} {}", folds, i, j);
        } }
    }
}
''', 'more than one fold', 'the place announced for a cell is not where it is', deps=STARK)

seed('D03-large-blowup', 'C11',
 [('crypto/stark/src/polynomial.rs', '''                let cofactor = &shift_factor * generator.pow(permute_index(blowup, i));
''', '''                // Blowup factors are small, a byte suffices to reverse the index
                #[allow(clippy::cast_possible_truncation)]
                let reversed = if blowup > 128 {
                    (i as u8).reverse_bits() as usize
                } else {
                    permute_index(blowup, i)
                };
                let cofactor = &shift_factor * generator.pow(reversed);
''')],
 HEAD + r'''
fn main() {
    let p = DensePolynomial::new(&[fe(3), fe(1), fe(4), fe(1)]);
    for lg in 0..11 {
        let blowup = 1 << lg;
        let n = 4 * blowup;
        let lde = p.low_degree_extension(blowup);
        let g = FieldElement::root(n).unwrap();
        for i in 0..n {
            let mut r = 0; for b in 0..(lg + 2) { r |= ((i >> b) & 1) << (lg + 1 - b); }
            assert_eq!(lde[i], p.evaluate(&(FieldElement::generator() * g.pow(r))), "blowup {} at {}", blowup, i);
        }
    }
}
''', 'a blow-up of 512 or more', 'the low degree extension repeats the first cosets', deps=STARK)

seed('D04-skip-empty-layers', 'C12',
 [('crypto/stark/src/solidity_seralizer.rs', '''    result_string.push_str(&format!("\\"fri_values\\": {}, \\n", fri_values.sol_encode()));
''', '''    // Layers where every value follows from the previous ones need none
    fri_values.retain(|values| !values.is_empty());
    result_string.push_str(&format!("\\"fri_values\\": {}, \\n", fri_values.sol_encode()));
''')],
 HEAD + r'''
use zkp_stark::proof_serialize;
fn main() {
    // Many queries of a small domain know every value
    let n = 8;
    let mut c = Constraints::from_expressions((n, 1), vec![5], vec![step(n), (Trace(0, 0) - fe(3)) * at_row(n, 0)]).unwrap();
    c.blowup = 2; c.num_queries = 400; c.fri_layout = vec![1, 1]; c.pow_bits = 0;
    let p = prove(&c, &trace(n, 3)).unwrap();
    let mut s = String::new();
    proof_serialize(&c, &p, &mut s).unwrap();
    let at = s.find("\"fri_values\"").unwrap();
    let end = s.find("\"fri_decommitments\"").unwrap();
    // an array of two arrays
    assert_eq!(s[at..end].matches('[').count(), 3, "{}", &s[at..end]);
}
''', 'a folded layer of which the queries determine every value', 'the exported values are listed under the wrong layer', deps=STARK)

seed('D05-skip-many-layers', 'C14',
 [('crypto/merkle-tree/src/tree.rs', '''    assert!(index.depth() <= leaf_depth);
    if index.depth() == leaf_depth {
        leaves.leaf_hash(index.offset())
    } else {
        Node(
            &compute(leaves, index.left_child()),
            &compute(leaves, index.right_child()),
        )
        .hash()
    }
}

/// Merkle tree
''', '''    assert!(index.depth() <= leaf_depth);
    // Hash the leaves below the node and reduce in place
    let levels = leaf_depth - index.depth();
    let mut hashes: Vec<Hash> = vec![Hash::default(); 1 << levels.min(5)];
    for (i, hash) in hashes.iter_mut().enumerate() {
        *hash = leaves.leaf_hash((index.offset() << levels) + i);
    }
    while hashes.len() > 1 {
        hashes = hashes.chunks(2).map(|p| Node(&p[0], &p[1]).hash()).collect();
    }
    hashes[0].clone()
}

/// Merkle tree
''')],
 r'''
use zkp_merkle_tree::Tree;
use zkp_u256::U256;
fn main() {
    let leaves: Vec<U256> = (0..128_u64).map(U256::from).collect();
    let root = Tree::from_leaves_skip_layers(leaves.clone(), 0).unwrap().commitment().hash().clone();
    for skip in 0..9 {
        let tree = Tree::from_leaves_skip_layers(leaves.clone(), skip).unwrap();
        assert_eq!(*tree.commitment().hash(), root, "{} layers skipped", skip);
    }
}
''', 'more than five uncached layers', 'the root commits to the first leaves of each block only', deps=MT)

seed('D06-hash-buffer', 'C16',
 [('crypto/hash/src/hashable.rs', '''            for value in self.iter() {
                hasher.update(value.hash().as_bytes());
            }
            hasher.hash()
''', '''            // Absorb a block of hashes at a time
            let mut buffer = Vec::with_capacity(32 * 64);
            for value in self.iter() {
                if buffer.len() == 32 * 64 {
                    hasher.update(&buffer);
                    buffer.clear();
                }
                buffer.extend_from_slice(value.hash().as_bytes());
            }
            if self.len() % 64 != 0 {
                hasher.update(&buffer);
            }
            hasher.hash()
''')],
 r'''
use zkp_hash::{Hashable, MaskedKeccak};
use zkp_u256::U256;
fn main() {
    for n in 2..300_u64 {
        let list: Vec<U256> = (0..n).map(U256::from).collect();
        let mut k = MaskedKeccak::new();
        for x in &list { k.update(&x.to_bytes_be()); }
        assert!(list.hash() == k.hash(), "{} elements", n);
    }
}
''', 'a list whose length is a multiple of 64', 'the last block is not hashed', deps=MT)

seed('D07-wide-shift', 'C17',
 [('algebra/u256/src/binary.rs', '''        // Note: If RHS is a compile time constant then inlining will allow
        // the branches to be optimized away.
        // TODO: Test optimizing for RHS being exactly 0, 64, 128, ...
''', '''        // Note: If RHS is a compile time constant then inlining will allow
        // the branches to be optimized away.
        #[allow(clippy::cast_possible_truncation)]
        let rhs = rhs as u32 as usize;
        // TODO: Test optimizing for RHS being exactly 0, 64, 128, ...
''')],
 r'''
use zkp_u256::U256;
fn main() {
    let x = U256::from(77_u64);
    for s in &[256_usize, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, usize::max_value() - 3, usize::max_value()] {
        assert_eq!(x.clone() >> *s, U256::ZERO, "{}", s);
    }
}
''', 'a shift by 2^32 or more', 'the number is shifted by the low bits of the amount')

seed('D08-inverse-of-unreduced', 'C19',
 [('algebra/u256/src/arch/generic/lehmer_gcd.rs', '''    if r1 >= r0 {
        r1 %= &r0;
    }
    let mut t0 = U256::ZERO;
''', '''    if r1 >= r0 {
        // Callers reduce, so subtracting suffices
        r1 -= &r0;
        if r1 >= r0 {
            return None;
        }
    }
    let mut t0 = U256::ZERO;
''')],
 r'''
use zkp_u256::{U256, InvMod};
fn main() {
    let m = U256::from(101_u64);
    for a in 1..500_u64 {
        let i = U256::from(a).inv_mod(&m);
        assert_eq!(i.is_some(), a % 101 != 0, "{}", a);
        if let Some(i) = i { assert_eq!((U256::from(a) * i) % &m, U256::ONE); }
    }
}
''', 'a number of at least twice the modulus', 'the inverse is reported absent')

seed('D09-decimal-chunks', 'C20',
 [('algebra/u256/src/encoding.rs', '''        // OPT: Convert 19 digits at a time using u64.
        let mut result = Self::ZERO;
''', '''        let mut result = Self::ZERO;
        // Convert 18 digits at a time using u64.
        let mut s = s;
        while s.len() > 18 && s.is_char_boundary(18) {
            let (head, tail) = s.split_at(18);
            let scale = Self::from(10_u64.pow(18));
            let value = Self::from(u64::from_str_radix(head, 10)?);
            if result > (Self::ZERO - Self::ONE) / &scale {
                return Err(ParseError::Overflow);
            }
            result *= scale;
            if &result + &value < result {
                return Err(ParseError::Overflow);
            }
            result += value;
            s = tail;
        }
''')],
 r'''
use zkp_u256::U256;
fn main() {
    for n in 1..60 {
        let digits: String = (0..n).map(|i| char::from(b'1' + (i % 9) as u8)).collect();
        let v = U256::from_decimal_str(&digits).unwrap();
        assert_eq!(v.to_decimal_string(), digits);
        for at in 0..n {
            let mut bad = digits.clone();
            bad.insert(at, '+');
            assert!(U256::from_decimal_str(&bad).is_err(), "{}", bad);
        }
    }
}
''', 'a plus sign where a block of digits starts', 'text that is not a number is accepted')

seed('D10-narrow-signed', 'C21',
 [('algebra/primefield/src/convert.rs', '''        self.to_i128().as_ref().and_then(ToPrimitive::to_i64)
''', '''        // The sign is the same in both
        #[allow(clippy::cast_possible_truncation)]
        self.to_i128()
            .filter(|value| value.abs() >> 64 == 0)
            .map(|value| value as i64)
''')],
 r'''
use zkp_primefield::FieldElement;
use zkp_u256::U256;
use num_traits::ToPrimitive;
fn main() {
    for k in 0..250 {
        let f = FieldElement::from(U256::ONE << k);
        assert_eq!(f.to_i64(), if k < 63 { Some(1_i64 << k) } else { None }, "2^{}", k);
        let f = -f;
        assert_eq!(f.to_i64(), if k < 63 { Some(-(1_i64 << k)) } else if k == 63 { Some(i64::min_value()) } else { None }, "-2^{}", k);
    }
}
''', 'a magnitude between 2^63 and 2^64', 'the conversion wraps around instead of reporting absence', deps=('zkp-primefield', 'zkp-u256'), extra_deps='num-traits = "0.2"\n')

seed('D11-root-order', 'C22',
 [('algebra/primefield/src/prime_field.rs', '''        let order = order as u64;
        if let Some((q, rem)) = Self::order().div_rem(order) {
''', '''        #[allow(clippy::cast_possible_truncation)]
        let order = u64::from(order as u32);
        if let Some((q, rem)) = Self::order().div_rem(order) {
''')],
 r'''
use zkp_primefield::{FieldElement, Root, One, SquareInline};
fn main() {
    for s in 0..60 {
        let mut r = match FieldElement::root(1_usize << s) { Some(r) => r, None => panic!("no root of order 2^{}", s) };
        for i in 0..s { assert!(!r.is_one(), "order of 2^{} root is at most 2^{}", s, i); r = r.square(); }
        assert!(r.is_one());
    }
}
''', 'an order of 2^32 or more', 'one is returned as the root', deps=('zkp-primefield', 'zkp-u256'))

seed('D12-mixed-addition', 'C24',
 [('algebra/elliptic-curve/src/jacobian.rs', '''                let s2 = y * &self.z * &z1z1;
                if self.x == u2 {
''', '''                let s2 = y * &self.z * &z1z1;
                if self.x == *x {
''')],
 r'''
use zkp_elliptic_curve::{Affine, Jacobian, mul, ScalarFieldElement};
use zkp_primefield::FieldElement;
use zkp_u256::U256;
fn main() {
    let g = Affine::new(
        FieldElement::from(U256::from_hex_str("01ef15c18599971b7beced415a40f0c7deacfd9b0d1819e03d723d8bc943cfca")),
        FieldElement::from(U256::from_hex_str("005668060aa49730b7be4801df46ec62de53ecd11abe43a32873000c36e8dc1f")));
    for k in 1..6_u64 {
        // the same point, with a denominator
        let j: Jacobian = mul(&g, &ScalarFieldElement::from(U256::from(k)));
        let a = Affine::from(&j);
        let mut sum = j.clone();
        sum += &a;
        assert!(Affine::from(&sum) == a.double(), "{}", k);
        let mut diff = j.clone();
        diff -= &a;
        assert!(Affine::from(&diff) == Affine::ZERO, "{}", k);
    }
}
''', 'adding an affine point to the same point in projective form with denominator', 'the sum is the neutral element instead of the double', deps=EC)

seed('D13-unreduced-abscissa', 'C25',
 [('crypto/elliptic-curve-crypto/src/public_key.rs', '''            &ScalarFieldElement::from(x.to_uint()) == signature.r()
''', '''            x.to_uint() == signature.r().to_uint()
''')],
 r'''
use zkp_elliptic_curve::{Affine, ScalarFieldElement};
use zkp_elliptic_curve_crypto::{PublicKey, PrivateKey, Signature};
use zkp_primefield::{FieldElement, SquareRoot, Inv};
use zkp_u256::U256;
fn main() {
    let order = U256::from_hex_str("0800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f");
    let beta = FieldElement::from(U256::from_hex_str("06f21413efbe40de150e596d72f7a8c5609ad26c15c915c1f4cdfcb99cee9e89"));
    let g = PublicKey::from(&PrivateKey::from(U256::ONE)).as_affine().clone();
    let mut done = 0;
    for i in 1..20_u64 {
        // a nonce point whose abscissa exceeds the order of the group
        let x = FieldElement::from(&order + U256::from(i));
        let y = match (&x * &x * &x + &x + &beta).square_root() { Some(y) => y, None => continue };
        let point = Affine::new(x, y);
        assert!(point.is_on_curve());
        let r = ScalarFieldElement::from(U256::from(i));
        let w = ScalarFieldElement::from(U256::from(12345_u64));
        let digest = ScalarFieldElement::from(U256::from(777_u64));
        // w (digest G + r Q) = R
        let q = (&point * &w.inv().unwrap() - &g * &digest) * r.inv().unwrap();
        assert!(PublicKey::from(q).verify(&digest, &Signature::new(r, w)), "r = {}", i);
        done += 1;
    }
    assert!(done > 3);
}
''', 'a nonce point whose abscissa is not below the order of the group', 'a valid signature is rejected', deps=EC)

seed('D14-truncate-guard', 'C26',
 [('utils/mmap-vec/src/mmap_vec.rs', '''    fn eq(&self, other: &Self) -> bool {
        if self.len() != other.len() {
            return false;
        }
        self.iter().zip(other.iter()).all(|(a, b)| a == b)
''', '''    fn eq(&self, other: &Self) -> bool {
        if self.len() != other.len() {
            return false;
        }
        // Compare the mappings directly, it is a lot faster
        let size = self.length * size_of::<T>();
        self.mmap[..size] == other.mmap[..size]
''')],
 r'''
use zkp_mmap_vec::MmapVec;
fn main() {
    // equal values in different memory
    let mut a: MmapVec<String> = MmapVec::with_capacity(4);
    let mut b: MmapVec<String> = MmapVec::with_capacity(4);
    a.push("abc".to_string());
    b.push("abc".to_string());
    assert!(a == b);
    let mut a: MmapVec<f64> = MmapVec::with_capacity(4);
    let mut b: MmapVec<f64> = MmapVec::with_capacity(4);
    a.push(0.0);
    b.push(-0.0);
    assert!(a == b);
}
''', 'elements that are equal with different bytes', 'equal vectors compare unequal', deps=('zkp-mmap-vec',))
