//! Conformance driver for hashing and Merkle trees (C14, C15, C16).
use serde_json::{json, Value};
use std::collections::HashMap;
use std::time::Duration;
use vharness::fp::F;
use vharness::keccak::{keccak, masked, row};
use vharness::*;
use zkp_hash::{Hash, Hashable, MaskedKeccak};
use zkp_merkle_tree::{Commitment, Proof, Tree, VectorCommitment};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

type H = [u8; 32];

fn be(l: [u64; 4]) -> H {
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
    }
    o
}
fn h(b: &H) -> Hash {
    Hash::new(*b)
}
fn raw(x: &Hash) -> H {
    let mut o = [0; 32];
    o.copy_from_slice(x.as_bytes());
    o
}

// ---- hashing ----------------------------------------------------------------
fn bytes(v: &Value) -> Vec<u8> {
    v.usizes().iter().map(|b| *b as u8).collect()
}

fn value_hash<T: Hashable + Clone>(ck: &mut Ck, depth: usize, rows: &[Vec<T>], want: &[u8]) {
    match depth {
        0 => {
            let v = &rows[0][0];
            ck.eq("hash:value", want.to_vec(), || v.hash().as_bytes().to_vec());
            ck.eq("hash:ref", want.to_vec(), || (&v).hash().as_bytes().to_vec());
        }
        1 => {
            ck.eq("hash:vec", want.to_vec(), || rows[0].hash().as_bytes().to_vec());
            ck.eq("hash:slice", want.to_vec(), || rows[0].as_slice().hash().as_bytes().to_vec());
            let refs: Vec<&T> = rows[0].iter().collect();
            ck.eq("hash:vec_of_refs", want.to_vec(), || refs.hash().as_bytes().to_vec());
        }
        _ => {
            ck.eq("hash:nested", want.to_vec(), || rows.to_vec().hash().as_bytes().to_vec());
            let sl: Vec<&[T]> = rows.iter().map(|r| r.as_slice()).collect();
            ck.eq("hash:nested_slices", want.to_vec(), || sl.hash().as_bytes().to_vec());
        }
    }
}

fn hashing(ck: &mut Ck, st: &Value) {
    let pieces: Vec<Vec<u8>> = st.f("pieces").list().iter().map(bytes).collect();
    let want = bytes(st.f("digest"));
    let whole: Vec<u8> = pieces.concat();
    assert_eq!(masked(&[&whole]).to_vec(), want, "trace: reference digest");
    ck.eq("hasher:pieces", want.clone(), || {
        let mut k = MaskedKeccak::new();
        for p in &pieces {
            k.update(p);
        }
        k.hash().as_bytes().to_vec()
    });
    ck.eq("hasher:whole", want.clone(), || {
        let mut k = MaskedKeccak::default();
        k.update(&whole);
        k.hash().as_bytes().to_vec()
    });
    ck.eq("hasher:bytes", want.clone(), || {
        let mut k = MaskedKeccak::new();
        for b in &whole {
            k.update(&[*b]);
        }
        k.hash().as_bytes().to_vec()
    });
    // further splits and lengths against the reference just validated
    for cut in 0..whole.len().min(64) {
        let c = cut * whole.len() / whole.len().min(64).max(1);
        ck.eq("hasher:split", want.clone(), || {
            let mut k = MaskedKeccak::new();
            k.update(&whole[..c]);
            k.update(&[]);
            k.update(&whole[c..]);
            k.hash().as_bytes().to_vec()
        });
        ck.eq("hasher:prefix", masked(&[&whole[..c]]).to_vec(), || {
            let mut k = MaskedKeccak::new();
            k.update(&whole[..c]);
            k.hash().as_bytes().to_vec()
        });
    }
    let rows: Vec<Vec<[u64; 4]>> =
        st.f("rows").list().iter().map(|r| r.list().iter().map(V::limbs).collect()).collect();
    let want = bytes(st.f("expected"));
    let depth = st.f("depth").u();
    ck.note(&format!("value depth {}", depth));
    match st.f("kind").s() {
        "u256" => value_hash(ck, depth, &rows.iter().map(|r| r.iter().map(|v| U256::from_limbs(*v)).collect()).collect::<Vec<Vec<_>>>(), &want),
        "hash" => value_hash(ck, depth, &rows.iter().map(|r| r.iter().map(|v| h(&be(*v))).collect()).collect::<Vec<Vec<_>>>(), &want),
        _ => value_hash(ck, depth, &rows.iter().map(|r| r.iter().map(|v| FieldElement::from_uint(&U256::from_limbs(*v))).collect()).collect::<Vec<Vec<_>>>(), &want),
    }
    // long lists, and every shorter one of a range
    let n = st.f("wide").f("n").u();
    let list: Vec<[u64; 4]> = {
        let step = F::u(104_729);
        let mut x = F::of(st.f("wide").f("base").limbs());
        (0..n).map(|_| { let l = x.mont(); x = x + step; l }).collect()
    };
    let hs: Vec<H> = list.iter().map(|l| be(*l)).collect();
    let near: Vec<usize> = if n % 8 == 0 { (0..=n.min(300)).collect() } else { vec![n] };
    for m in near {
        let want = row(&hs[..m]).to_vec();
        let numbers: Vec<U256> = list[..m].iter().map(|l| U256::from_limbs(*l)).collect();
        let elements: Vec<FieldElement> = numbers.iter().map(|u| FieldElement::from_montgomery(u.clone())).collect();
        let hashes: Vec<Hash> = hs[..m].iter().map(h).collect();
        ck.eq("hash:long:u256", want.clone(), || numbers.hash().as_bytes().to_vec());
        ck.eq("hash:long:field", want.clone(), || elements.as_slice().hash().as_bytes().to_vec());
        ck.eq("hash:long:hash", want.clone(), || hashes.hash().as_bytes().to_vec());
    }
    let flat: Vec<u8> = hs.concat();
    let want = masked(&[&flat]).to_vec();
    for piece in &[1, 31, 136, 1000, 1 << 20] {
        ck.eq("hasher:long", want.clone(), || {
            let mut k = MaskedKeccak::new();
            for p in flat.chunks(*piece) {
                k.update(p);
            }
            k.hash().as_bytes().to_vec()
        });
    }
    if whole.len() > 136 {
        ck.sample(json!({"bytes": whole.len(), "pieces": pieces.len(), "digest": hex::encode(masked(&[&whole]))}));
    }
}

// ---- Merkle trees -----------------------------------------------------------
/// A leaf is a list of 256-bit numbers; the type it is committed as depends on
/// the kind. Numbers are below the field modulus so that every kind can hold
/// them (as Montgomery representation for field elements).
type Content = Vec<[u64; 4]>;

trait LeafType: Hashable + Clone + Sync + Send {
    fn make(c: &Content) -> Self;
}
#[derive(Clone)]
struct Own(Content);
impl Hashable for Own {
    fn hash(&self) -> Hash {
        h(&content_hash(&self.0))
    }
}
fn mont(l: &[u64; 4]) -> FieldElement {
    FieldElement::from_montgomery(U256::from_limbs(*l))
}
impl LeafType for U256 {
    fn make(c: &Content) -> Self {
        U256::from_limbs(c[0])
    }
}
impl LeafType for FieldElement {
    fn make(c: &Content) -> Self {
        mont(&c[0])
    }
}
impl LeafType for Hash {
    fn make(c: &Content) -> Self {
        h(&be(c[0]))
    }
}
impl LeafType for Vec<FieldElement> {
    fn make(c: &Content) -> Self {
        c.iter().map(mont).collect()
    }
}
impl LeafType for Vec<U256> {
    fn make(c: &Content) -> Self {
        c.iter().map(|l| U256::from_limbs(*l)).collect()
    }
}
impl LeafType for Own {
    fn make(c: &Content) -> Self {
        Own(c.clone())
    }
}
/// A container that computes its leaves and relies on the default methods.
struct Computed(usize, usize, usize);
impl VectorCommitment for Computed {
    type Leaf = Own;
    fn len(&self) -> usize {
        self.0
    }
    fn leaf(&self, i: usize) -> Own {
        Own(content(5, if self.1 >= 60 { i } else { i % (1 << self.1) }, self.2))
    }
}

fn content_hash(c: &Content) -> H {
    row(&c.iter().map(|l| be(*l)).collect::<Vec<_>>())
}

fn content(kind: usize, i: usize, salt: usize) -> Content {
    let n = match kind {
        3 => 2,
        4 => 3,
        5 => 1 + salt % 3,
        _ => 1,
    };
    (0..n)
        .map(|k| {
            let d = keccak(&[&(i as u64).to_be_bytes(), &(k as u64).to_be_bytes(), &(salt as u64).to_be_bytes()]);
            let mut l = [0u64; 4];
            for (j, w) in l.iter_mut().enumerate() {
                let mut b = [0; 8];
                b.copy_from_slice(&d[8 * j..8 * j + 8]);
                *w = u64::from_be_bytes(b);
            }
            l[3] >>= 6; // below 2^250, hence below the modulus
            l
        })
        .collect()
}

/// Content with one bit changed, still below the modulus.
fn flipped(c: &Content, bit: usize) -> Content {
    let mut c = c.clone();
    let k = bit % c.len();
    let b = bit % 250;
    c[k][b / 64] ^= 1 << (b % 64);
    c
}

struct Shape {
    lg: usize,
    per: usize,
    kind: usize,
    salt: usize,
    nodes: HashMap<(usize, usize), H>,
    full: bool,
}

impl Shape {
    fn canon(&self, i: usize) -> usize {
        if self.per >= self.lg { i } else { i % (1 << self.per) }
    }
    fn leaf(&self, i: usize) -> Content {
        content(self.kind, self.canon(i), self.salt)
    }
    fn node(&mut self, d: usize, o: usize) -> H {
        if let Some(v) = self.nodes.get(&(d, o)) {
            return *v;
        }
        let v = if d == self.lg {
            content_hash(&self.leaf(o))
        } else if self.full {
            let (a, b) = (self.node(d + 1, 2 * o), self.node(d + 1, 2 * o + 1));
            masked(&[&a, &b])
        } else {
            masked(&[b"subtree", &(d as u64).to_be_bytes(), &(o as u64).to_be_bytes()])
        };
        self.nodes.insert((d, o), v);
        v
    }
    fn term(&mut self, t: &Value) -> H {
        let d = t.f("d").int();
        let x = t.f("x").u();
        if d.neg {
            return masked(&[b"junk"]);
        }
        let mut v = self.node(d.usize(), t.f("o").u());
        if x > 0 {
            v[(x - 1) / 8] ^= 1 << ((x - 1) % 8);
        }
        v
    }
    fn leaf_term(&self, t: &Value) -> Content {
        let c = self.leaf(t.f("o").u());
        match t.f("x").u() {
            0 => c,
            x => flipped(&c, x - 1),
        }
    }
}

fn tree_checks<C, L>(ck: &mut Ck, name: &str, t: &Tree<C>, sh: &mut Shape, asked: &[usize], want: &[H])
where
    C: VectorCommitment<Leaf = L>,
    L: Hashable + Clone,
{
    let root = sh.node(0, 0);
    let size = 1usize << sh.lg;
    let l = |s: &str| format!("{}:{}", name, s);
    ck.eq(&l("root"), root, || raw(t.commitment().hash()));
    ck.eq(&l("size"), size, || t.commitment().size());
    ck.eq(&l("leaf_depth"), sh.lg, || t.leaf_depth());
    ck.eq(&l("leaves"), size, || t.leaves().len());
    for i in asked {
        let w = content_hash(&sh.leaf(*i));
        ck.eq(&l("leaf"), w, || raw(&t.leaf(*i).hash()));
    }
    ck.eq(&l("proof_size"), Some(want.len()), || t.commitment().proof_size(asked).ok());
    if let Some(p) = ck.get(&l("open"), || t.open(asked)) {
        match p {
            Err(e) => ck.fail(&l("open"), "an opening".into(), format!("{:?}", e)),
            Ok(p) => {
                ck.eq(&l("opening"), want.to_vec(), || p.hashes().iter().map(raw).collect::<Vec<_>>());
                let leaves: Vec<(usize, L)> = asked.iter().map(|i| (*i, t.leaf(*i))).collect();
                ck.eq(&l("verify"), true, || p.verify(&leaves).is_ok());
                let rev: Vec<(usize, L)> = leaves.iter().rev().cloned().collect();
                ck.eq(&l("verify:reversed"), true, || p.verify(&rev).is_ok());
                let hs: Vec<Hash> = want.iter().map(h).collect();
                ck.eq(&l("rebuilt"), true, || {
                    Proof::from_hashes(t.commitment(), asked, &hs).and_then(|p| p.verify(&leaves)).is_ok()
                });
            }
        }
    }
    ck.eq(&l("open:outside"), false, || {
        let mut a = asked.to_vec();
        a.push(size);
        t.open(&a).is_ok()
    });
}

fn trees<L: LeafType>(ck: &mut Ck, st: &Value, sh: &mut Shape, all_skips: bool) {
    let asked = st.f("asked").usizes();
    let skip = st.f("skip").u();
    let want: Vec<H> =
        st.f("opening").list().iter().map(|n| sh.node(n.tup(0).u(), n.tup(1).u())).collect();
    let n = 1usize << sh.lg;
    let leaves: Vec<L> = (0..n).map(|i| L::make(&sh.leaf(i))).collect();
    let skips: Vec<usize> = if all_skips { (0..=sh.lg + 2).collect() } else { vec![skip] };
    for s in skips {
        ck.note(&format!("cached layers {}", (sh.lg + 1).saturating_sub(s).min(9)));
        let lv = leaves.clone();
        if let Some(Ok(t)) = ck.get("tree", || Tree::from_leaves_skip_layers(lv, s)) {
            tree_checks(ck, "tree", &t, sh, &asked, &want);
        } else {
            ck.fail("tree", "a tree".into(), "error".into());
        }
    }
    let lv = leaves.clone();
    if let Some(Ok(t)) = ck.get("tree:default", || Tree::from_leaves(lv)) {
        tree_checks(ck, "default", &t, sh, &asked, &want);
    } else {
        ck.fail("tree:default", "a tree".into(), "error".into());
    }
    if skip % 3 == 0 {
        let lv = leaves.clone();
        if let Some(Ok((c, t))) = ck.get("commit", || lv.commit()) {
            ck.eq("commit:root", sh.node(0, 0), || raw(c.hash()));
            ck.eq("commit:size", n, || c.size());
            tree_checks(ck, "commit", &t, sh, &asked, &want);
        } else {
            ck.fail("commit", "a commitment".into(), "error".into());
        }
    }
    if sh.kind == 5 {
        let c = Computed(n, if sh.per >= sh.lg { 63 } else { sh.per }, sh.salt);
        if let Some(Ok(t)) = ck.get("computed", || Tree::from_leaves_skip_layers(c, skip)) {
            tree_checks(ck, "computed", &t, sh, &asked, &want);
        }
    }
    // sizes that are not powers of two have no tree
    if n > 2 {
        let mut lv = leaves;
        lv.truncate(n - 1 - skip % (n / 2 - 1));
        ck.eq("tree:odd size", false, || Tree::from_leaves_skip_layers(lv, skip).is_ok());
    }
}

fn claims<L: LeafType>(ck: &mut Ck, prop: &str, st: &Value, sh: &mut Shape) {
    let c = st.f("claim");
    let size = c.f("size").u();
    let root = h(&sh.term(c.f("root")));
    let idx = c.f("idx").usizes();
    let hashes: Vec<Hash> = c.f("hashes").list().iter().map(|t| h(&sh.term(t))).collect();
    let leaves: Vec<(usize, L)> =
        c.f("leaves").list().iter().map(|l| (l.f("i").u(), L::make(&sh.leaf_term(l.f("t"))))).collect();
    let accept = st.f("accept").b();
    let how = st.f("alter").s();
    if prop == "C04" || idx.is_empty() && leaves.is_empty() && how != "none" {
        // an opening of nothing: either verdict, but a verdict
        if prop == "C04" {
                let _ = ck.get(&format!("opening sizes:{}", how), || Commitment::from_size_hash(size, &root).map(|c| c.proof_size(&idx).ok()).ok());
        }
        let _ = ck.get(&format!("verdict:{}", how), || {
            Commitment::from_size_hash(size, &root)
                .and_then(|c| Proof::from_hashes(&c, &idx, &hashes))
                .and_then(|p| p.verify(&leaves))
                .is_ok()
        });
        return;
    }
    ck.note(&format!("{}:{}", how, if accept { "accept" } else { "reject" }));
    ck.eq(&format!("verify:{}", how), accept, || {
        Commitment::from_size_hash(size, &root)
            .and_then(|c| Proof::from_hashes(&c, &idx, &hashes))
            .and_then(|p| p.verify(&leaves))
            .is_ok()
    });
    if accept {
        let rev: Vec<(usize, L)> = leaves.iter().rev().cloned().collect();
        ck.eq("verify:any order", true, || {
            let c = Commitment::from_size_hash(size, &root).unwrap();
            let mut i2 = idx.clone();
            i2.reverse();
            Proof::from_hashes(&c, &i2, &hashes).and_then(|p| p.verify(&rev)).is_ok()
        });
    }
    if how == "hash" && !accept {
        ck.sample(json!({"leaves": 1u64 << sh.lg, "opened": idx, "altered": how, "hashes": hashes.len(), "verdict": "reject"}));
    }
}

/// In a tree too large to build, the ancestors of the opened leaves follow from
/// the opening.
fn fill(sh: &mut Shape, st: &Value) {
    let mut cur: Vec<usize> = st.f("asked").usizes();
    for d in (0..sh.lg).rev() {
        for o in cur.iter_mut() {
            *o /= 2;
        }
        cur.sort_unstable();
        cur.dedup();
        for o in &cur {
            let (a, b) = (sh.node(d + 1, 2 * o), sh.node(d + 1, 2 * o + 1));
            sh.nodes.insert((d, *o), masked(&[&a, &b]));
        }
    }
}

fn merkle<L: LeafType>(ck: &mut Ck, prop: &str, st: &Value, exhaustive: bool) {
    let lg = st.f("lg").u();
    let asked = st.f("asked").usizes();
    let mut sh = Shape {
        lg,
        per: st.f("per").u(),
        kind: st.f("kind").u(),
        salt: asked.len() + lg,
        nodes: HashMap::new(),
        full: lg <= 11,
    };
    if !sh.full {
        fill(&mut sh, st);
    }
    let want = st.f("opening").list().len();
    if prop == "C14" {
        // the announced size of the opening, for trees of any size
        let c = Commitment::from_size_hash(1 << lg, &h(&[7; 32]));
        ck.eq("commitment:proof_size", Some(want), || c.as_ref().ok().and_then(|c| c.proof_size(&asked).ok()));
        ck.note(&format!("depth {}", lg));
        if sh.full {
            trees::<L>(ck, st, &mut sh, exhaustive);
        } else {
            let leaves: Vec<(usize, L)> = asked.iter().map(|i| (*i, L::make(&sh.leaf(*i)))).collect();
            let hs: Vec<Hash> =
                st.f("opening").list().iter().map(|n| h(&sh.node(n.tup(0).u(), n.tup(1).u()))).collect();
            let root = h(&sh.node(0, 0));
            ck.eq("large:verify", true, || {
                Commitment::from_size_hash(1 << lg, &root)
                    .and_then(|c| Proof::from_hashes(&c, &asked, &hs))
                    .and_then(|p| p.verify(&leaves))
                    .is_ok()
            });
        }
    } else {
        claims::<L>(ck, prop, st, &mut sh);
    }
}

fn empty(ck: &mut Ck) {
    for s in 0..3 {
        ck.eq("empty tree", Some(0), || {
            Tree::from_leaves_skip_layers(Vec::<U256>::new(), s).ok().map(|t| t.commitment().size())
        });
        ck.eq("empty tree:open", false, || {
            Tree::from_leaves_skip_layers(Vec::<U256>::new(), s).and_then(|t| t.open(&[0])).is_ok()
        });
    }
    for n in [3usize, 5, 6, 7, 9, 12, 1023, (1 << 40) + 1, usize::max_value()] {
        ck.eq("commitment:odd size", false, || Commitment::from_size_hash(n, &Hash::default()).is_ok());
    }
    for k in 0..64 {
        ck.eq("commitment:size", Some(1usize << k), || {
            Commitment::from_size_hash(1 << k, &Hash::default()).ok().map(|c| c.size())
        });
    }
}

fn main() {
    let a = args();
    let prop = a.prop.clone();
    drive(&a, 8, Duration::from_secs(60), move |ck, name, states, _| {
        if prop == "C14" {
            empty(ck);
        }
        for (n, st) in states.iter().enumerate() {
            ck.enter(format!("{}#{}", name, n), st);
            if prop == "C16" {
                hashing(ck, st);
                continue;
            }
            let ex = name.contains("all");
            match st.f("kind").u() {
                0 => merkle::<U256>(ck, &prop, st, ex),
                1 => merkle::<FieldElement>(ck, &prop, st, ex),
                2 => merkle::<Hash>(ck, &prop, st, ex),
                3 => merkle::<Vec<FieldElement>>(ck, &prop, st, ex),
                4 => merkle::<Vec<U256>>(ck, &prop, st, ex),
                _ => merkle::<Own>(ck, &prop, st, ex),
            }
        }
        let _ = F::one();
    });
}
