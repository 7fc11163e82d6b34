//! Reference STARK prover and verifier over the independent field arithmetic.
//! Compared byte by byte with the proofs of specification Stark.qnt, then used
//! for systems that are too large to carry through the specification. The
//! prover can be told to deviate from the protocol in one place.
use crate::fp::*;
use crate::itf::V;
use crate::keccak::{keccak, masked};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub type H = [u8; 32];

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    X,
    C(F),
    T(usize, i64),
    P(Vec<F>),
    Q(usize, usize),
    Add,
    Neg,
    Mul,
    Inv,
    Pow(u64),
}
/// postfix
pub type Expr = Vec<Op>;

pub fn f_of(v: &Value) -> F {
    F::int(&v.int())
}
pub fn fs(v: &Value) -> Vec<F> {
    v.list().iter().map(f_of).collect()
}
pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.usizes().iter().map(|b| *b as u8).collect()
}
pub fn expr_of(v: &Value) -> Expr {
    v.list()
        .iter()
        .map(|t| match t.f("o").s() {
            "x" => Op::X,
            "c" => Op::C(f_of(t.f("a"))),
            "t" => Op::T(t.f("a").u(), t.f("b").int().i64()),
            "p" => Op::P(fs(t.f("p"))),
            "q" => Op::Q(t.f("a").u(), t.f("b").u()),
            "+" => Op::Add,
            "-" => Op::Neg,
            "*" => Op::Mul,
            "i" => Op::Inv,
            "^" => Op::Pow(t.f("a").u64()),
            o => panic!("trace: token {}", o),
        })
        .collect()
}

/// None where something is divided by zero
pub fn eval(e: &Expr, claims: &[Vec<F>], x: F, cell: &dyn Fn(usize, i64) -> F) -> Option<F> {
    let mut s: Vec<F> = vec![];
    for t in e {
        let v = match t {
            Op::X => x,
            Op::C(c) => *c,
            Op::T(c, o) => cell(*c, *o),
            Op::Add => {
                let b = s.pop().unwrap();
                s.pop().unwrap() + b
            }
            Op::Mul => {
                let b = s.pop().unwrap();
                s.pop().unwrap() * b
            }
            Op::Neg => -s.pop().unwrap(),
            Op::Inv => {
                let a = s.pop().unwrap();
                if a.is_zero() {
                    return None;
                }
                a.inv()
            }
            Op::Pow(k) => s.pop().unwrap().pow(*k),
            Op::P(p) => horner(p, s.pop().unwrap()),
            Op::Q(i, _) => horner(&claims[*i], s.pop().unwrap()),
        };
        s.push(v);
    }
    assert_eq!(s.len(), 1, "trace: malformed expression");
    s.pop()
}

/// The same at many points at once.
pub fn eval_many(e: &Expr, claims: &[Vec<F>], xs: &[F], cell: &dyn Fn(usize, i64, usize) -> F) -> Vec<F> {
    let n = xs.len();
    let mut s: Vec<Vec<F>> = vec![];
    for t in e {
        match t {
            Op::X => s.push(xs.to_vec()),
            Op::C(c) => s.push(vec![*c; n]),
            Op::T(c, o) => s.push((0..n).map(|i| cell(*c, *o, i)).collect()),
            Op::Add | Op::Mul => {
                let b = s.pop().unwrap();
                let a = s.last_mut().unwrap();
                for i in 0..n {
                    a[i] = if *t == Op::Add { a[i] + b[i] } else { a[i] * b[i] };
                }
            }
            Op::Inv => {
                let a = s.pop().unwrap();
                s.push(inv_all(&a));
            }
            _ => {
                for v in s.last_mut().unwrap().iter_mut() {
                    *v = match t {
                        Op::Neg => -*v,
                        Op::Pow(k) => v.pow(*k),
                        Op::P(p) => horner(p, *v),
                        Op::Q(i, _) => horner(&claims[*i], *v),
                        _ => unreachable!(),
                    };
                }
            }
        }
    }
    assert_eq!(s.len(), 1, "trace: malformed expression");
    s.pop().unwrap()
}

fn deg(c: &[F]) -> usize {
    (0..c.len()).rev().find(|i| !c[*i].is_zero()).unwrap_or(0)
}

pub fn degree(e: &Expr, xd: usize, td: usize) -> (usize, usize) {
    let mut s: Vec<(usize, usize)> = vec![];
    for t in e {
        let v = match t {
            Op::X => (xd, 0),
            Op::C(_) => (0, 0),
            Op::T(..) => (td, 0),
            Op::Add => {
                let (b, a) = (s.pop().unwrap(), s.pop().unwrap());
                ((a.0 + b.1).max(b.0 + a.1), a.1 + b.1)
            }
            Op::Mul => {
                let (b, a) = (s.pop().unwrap(), s.pop().unwrap());
                (a.0 + b.0, a.1 + b.1)
            }
            Op::Neg => s.pop().unwrap(),
            Op::Inv => {
                let a = s.pop().unwrap();
                (a.1, a.0)
            }
            Op::Pow(_) | Op::P(_) | Op::Q(..) => {
                let a = s.pop().unwrap();
                let k = match t {
                    Op::Pow(k) => *k as usize,
                    Op::P(p) => deg(p),
                    Op::Q(_, b) => *b,
                    _ => unreachable!(),
                };
                (k * a.0, k * a.1)
            }
        };
        s.push(v);
    }
    s[0]
}

#[derive(Clone, Debug)]
pub struct Col {
    pub kind: String,
    pub start: F,
    pub raw: crate::big::Int,
    pub f: Expr,
    pub s: u32,
    pub r: usize,
}

#[derive(Clone, Debug)]
pub struct Sys {
    pub lg: u32,
    pub ncols: usize,
    pub cols: Vec<Col>,
    pub exprs: Vec<Expr>,
    pub claims: Vec<Vec<F>>,
    pub seed: Vec<u8>,
    pub blowup: usize,
    pub pow: usize,
    pub queries: usize,
    pub layout: Vec<usize>,
}

/// columns of values
pub type Table = Vec<Vec<F>>;

impl Sys {
    pub fn of(sys: &Value, es: &Value) -> Sys {
        let cols: Vec<Col> = sys
            .f("cols")
            .list()
            .iter()
            .map(|c| Col {
                kind: c.f("kind").s().to_string(),
                start: f_of(c.f("start")),
                raw: c.f("start").int(),
                f: expr_of(c.f("f")),
                s: c.f("s").u() as u32,
                r: c.f("r").u(),
            })
            .collect();
        Sys {
            lg: sys.f("lg").u() as u32,
            ncols: cols.len(),
            cols,
            exprs: es.list().iter().map(expr_of).collect(),
            claims: sys.f("claims").list().iter().map(fs).collect(),
            seed: bytes_of(sys.f("seed")),
            blowup: sys.f("blowup").u(),
            pow: sys.f("pow").u(),
            queries: sys.f("queries").u(),
            layout: sys.f("layout").usizes(),
        }
    }
    pub fn n(&self) -> usize {
        1 << self.lg
    }
    pub fn domain(&self) -> usize {
        self.n() * self.blowup
    }
    pub fn degree(&self) -> usize {
        self.exprs
            .iter()
            .map(|e| {
                let (a, b) = degree(e, 0, 1);
                a - b
            })
            .max()
            .unwrap()
    }
    pub fn parts(&self) -> usize {
        self.degree().next_power_of_two()
    }
    pub fn adjust(&self, e: &Expr) -> usize {
        let (a, b) = degree(e, 1, self.n() - 1);
        self.degree() * self.n() - 1 + b - a
    }
    pub fn cells(&self) -> Vec<(usize, i64)> {
        let mut s = BTreeSet::new();
        for e in &self.exprs {
            for t in e {
                if let Op::T(c, o) = t {
                    s.insert((*c, *o));
                }
            }
        }
        s.into_iter().collect()
    }
    /// The trace the column rules make.
    pub fn fill(&self) -> Table {
        let n = self.n();
        let g = F::root(n as u64);
        let xs: Vec<F> = std::iter::successors(Some(F::one()), |x| Some(*x * g))
            .take(n)
            .collect();
        let mut t: Table = vec![];
        for (j, c) in self.cols.iter().enumerate() {
            t.push(vec![F::ZERO; n]);
            for i in 0..n {
                let at = |row: usize| {
                    let cell = |k: usize, o: i64| t[k][(row as i64 + o).rem_euclid(n as i64) as usize];
                    eval(&c.f, &self.claims, xs[row], &cell).expect("trace: rule divides by zero")
                };
                let v = match c.kind.as_str() {
                    "free" => mix(&c.raw, i),
                    "flat" if c.s == 3 => mix(&c.raw, i % 2),
                    "flat" if c.s == 0 || (c.s == 1) == (i == c.r) => c.start,
                    "flat" => F::ZERO,
                    "next" if i > 0 => at(i - 1),
                    "prev" if i > 0 => at(i),
                    "next" | "prev" => c.start,
                    "point" => at(i),
                    "sparse" if i % (1 << c.s) == c.r => at(i),
                    "sparse" => mix(&c.raw, i),
                    k => panic!("trace: column kind {}", k),
                };
                t[j][i] = v;
            }
        }
        t
    }
}

/// Pseudo random field element i of a seed, as in Expr.qnt.
pub fn mix(seed: &crate::big::Int, i: usize) -> F {
    use crate::big::Int;
    let low = |v: &Int| Int::from_limbs(&v.mag[..v.mag.len().min(4)]);
    let shr = |v: &Int, k: usize| {
        let m: Vec<u64> = (0..4)
            .map(|j| {
                let at = |j: usize| v.mag.get(j).copied().unwrap_or(0);
                let (w, b) = (j + k / 64, k % 64);
                if b == 0 {
                    at(w)
                } else {
                    at(w) >> b | at(w + 1) << (64 - b)
                }
            })
            .collect();
        Int::from_limbs(&m)
    };
    let k1 = Int::parse("71563446777022297856526126342750658392501306254664949883333486863006233104021");
    let k2 = Int::parse("5129659641697780899416131245275704982317790628601752127767");
    let i1 = Int::from_i128(i as i128 + 1);
    let u = low(&seed.add(&i1.mul(&k1)));
    let v = low(&u
        .mul(&u)
        .add(&shr(&u, 128))
        .add(&seed.mul(&Int::from_i128(2 * i as i128 + 1))));
    let r = v.mul(&k2).add(&shr(&v, 120));
    let b64 = F::of([0, 1, 0, 0]);
    r.mag.iter().rev().fold(F::ZERO, |s, l| s * b64 + F::u(*l))
}

// ---- transcript ---------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Coin {
    pub digest: H,
    pub counter: u64,
}
impl Coin {
    pub fn new(seed: &[u8]) -> Coin {
        Coin {
            digest: keccak(&[seed]),
            counter: 0,
        }
    }
    pub fn write(&mut self, data: &[u8]) {
        self.digest = keccak(&[&self.digest, data]);
        self.counter = 0;
    }
    pub fn draw(&mut self) -> H {
        let r = keccak(&[&self.digest, &[0; 24], &self.counter.to_be_bytes()]);
        self.counter += 1;
        r
    }
    pub fn field(&mut self) -> F {
        loop {
            let mut r = self.draw();
            r[0] &= 0x0f;
            if let Some(f) = F::from_mont_be(&r) {
                return f;
            }
        }
    }
    pub fn fields(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.field()).collect()
    }
    pub fn queries(&mut self, n: usize, domain: usize) -> Vec<usize> {
        let mut q = vec![];
        while q.len() < n {
            let r = self.draw();
            for k in 0..4 {
                q.push(u64::from_be_bytes(r[8 * k..8 * k + 8].try_into().unwrap()) as usize & (domain - 1));
            }
        }
        q.truncate(n);
        q.sort();
        q
    }
}

pub fn pow_seed(digest: &H, difficulty: usize) -> H {
    keccak(&[
        &[0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xed],
        digest,
        &[difficulty as u8],
    ])
}
pub fn pow_zeros(seed: &H, nonce: u64) -> usize {
    let d = keccak(&[seed, &nonce.to_be_bytes()]);
    d.iter()
        .position(|b| *b != 0)
        .map_or(256, |i| 8 * i + d[i].leading_zeros() as usize)
}

// ---- commitments --------------------------------------------------------------
/// layers from the leaves up
#[derive(Clone, Debug)]
pub struct Tree(Vec<Vec<H>>);
impl Tree {
    pub fn new(leaves: Vec<H>) -> Tree {
        let mut l = vec![leaves];
        while l.last().unwrap().len() > 1 {
            let up = l.last().unwrap().chunks(2).map(|p| masked(&[&p[0], &p[1]])).collect();
            l.push(up);
        }
        Tree(l)
    }
    pub fn root(&self) -> H {
        self.0.last().unwrap()[0]
    }
    pub fn open(&self, idx: &[usize]) -> Vec<H> {
        let mut known: BTreeSet<usize> = idx.iter().copied().collect();
        let mut out = vec![];
        for layer in &self.0[..self.0.len() - 1] {
            for &i in &known {
                if !known.contains(&(i ^ 1)) {
                    out.push(layer[i ^ 1]);
                }
            }
            known = known.iter().map(|i| i / 2).collect();
        }
        out
    }
}
pub fn opening_len(size: usize, idx: &[usize]) -> usize {
    let mut known: BTreeSet<usize> = idx.iter().copied().collect();
    let (mut s, mut n) = (size, 0);
    while s > 1 {
        n += known.iter().filter(|i| !known.contains(&(*i ^ 1))).count();
        known = known.iter().map(|i| i / 2).collect();
        s /= 2;
    }
    n
}
/// The root implied by leaves and hashes.
pub fn implied(size: usize, leaves: &BTreeMap<usize, H>, hashes: &[H]) -> Option<H> {
    let mut known = leaves.clone();
    let mut hs = hashes.iter();
    let mut s = size;
    while s > 1 {
        let mut up = BTreeMap::new();
        for (&i, h) in &known {
            if i % 2 == 1 && known.contains_key(&(i - 1)) {
                continue;
            }
            let o = match known.get(&(i ^ 1)) {
                Some(o) => *o,
                None => *hs.next()?,
            };
            up.insert(i / 2, if i % 2 == 0 { masked(&[h, &o]) } else { masked(&[&o, h]) });
        }
        known = up;
        s /= 2;
    }
    if hs.next().is_some() {
        return None;
    }
    known.get(&0).copied()
}
pub fn leaf(v: &[F]) -> H {
    if v.len() == 1 {
        return v[0].mont_be();
    }
    let b: Vec<H> = v.iter().map(F::mont_be).collect();
    masked(&b.iter().map(|x| &x[..]).collect::<Vec<_>>())
}

// ---- polynomials --------------------------------------------------------------
/// Values at shift w^bitrev(i) on a domain of the given size.
pub fn extend(poly: &[F], size: usize, shift: F) -> Vec<F> {
    let v = extend_natural(poly, size, shift);
    (0..size).map(|i| v[bitrev(i, size)]).collect()
}
pub fn extend_natural(poly: &[F], size: usize, shift: F) -> Vec<F> {
    let mut c = vec![F::ZERO; size];
    let mut s = F::one();
    for (i, p) in poly.iter().enumerate() {
        // longer polynomials wrap around
        c[i % size] = c[i % size] + *p * s;
        s = s * shift;
    }
    dft(&c, F::root(size as u64))
}
pub fn interpolate(vals: &[F], shift: F) -> Vec<F> {
    let mut c = idft(vals, F::root(vals.len() as u64));
    let inv = shift.inv();
    let mut s = F::one();
    for x in c.iter_mut() {
        *x = *x * s;
        s = s * inv;
    }
    c
}
/// (p - p(z)) / (X - z)
pub fn divide_out(p: &[F], z: F) -> Vec<F> {
    let mut q = vec![F::ZERO; p.len()];
    let mut r = F::ZERO;
    for i in (0..p.len()).rev() {
        q[i] = r;
        r = r * z + p[i];
    }
    q
}
pub fn fold_once(v: &[F], a: F, unit: &[F]) -> Vec<F> {
    // unit: inverses of the roots of unity of order len, natural order
    let len = v.len();
    (0..len / 2)
        .map(|i| {
            let xi = unit[bitrev(i, len / 2) * (unit.len() * 2 / len)];
            (v[2 * i] + v[2 * i + 1]) + a * xi * (v[2 * i] - v[2 * i + 1])
        })
        .collect()
}
/// 1/w^i for i below size/2
pub fn units(size: usize) -> Vec<F> {
    let w = F::root(size as u64).inv();
    std::iter::successors(Some(F::one()), |x| Some(*x * w))
        .take((size / 2).max(1))
        .collect()
}

#[derive(Clone, Debug)]
pub struct Part {
    pub name: String,
    pub at: usize,
    pub len: usize,
    /// bytes per entry
    pub unit: usize,
}

/// One deviation from the protocol.
#[derive(Clone, Debug, PartialEq)]
pub enum Dev {
    None,
    /// message number i never enters the transcript
    Omit(usize),
    /// the first nonce with exactly this many zero bits; None: the second valid one
    Zeros(usize),
    SecondNonce,
    /// commit to something else than what is used and opened later
    TraceRoot,
    ConstraintRoot,
    LayerRoot(usize),
    /// the tree is over other values than those used; openings are of the tree
    TraceLeaf,
    ConstraintLeaf,
    /// constraint polynomials unrelated to the trace
    FreeConstraints(u64),
    /// constraint k left out of the combination
    Skip(usize),
    /// FRI layer k (or the last, k = layout length) is replaced by an unrelated low degree one
    Layer(usize),
    /// last layer coefficient k is changed
    Last(usize),
    /// the last layer differs, but agrees at all but one of the points asked (nonce is ground for it)
    LastVanish,
    /// claimed trace (constraint) value k out of domain is not the polynomial's; the quotient is what it is
    TraceValue(usize),
    ConstraintValue(usize),
    /// the trace columns have degree n: values committed on the extended domain only
    HighDegree(usize),
    /// FRI starts from a function that is not of low degree
    HighFri,
    /// one of two equal queries is answered with other values (trace, constraint)
    Twice(bool),
    /// query k answered with the row of another position: (which oracle, k)
    OtherRow(bool, usize),
    /// prover's own query positions, not the drawn ones
    OwnQueries,
    /// one committed value is wrong: of the trace (0), the constraints (1) or
    /// layer k - 2; the nonce is ground so that just the given query meets it
    Spot(usize, usize, usize),
}

#[derive(Clone, Debug)]
pub struct Made {
    pub bytes: Vec<u8>,
    pub parts: Vec<Part>,
    pub messages: usize,
    pub nonce: u64,
    pub queries: Vec<usize>,
    /// deviation did not apply
    pub same: bool,
    pub challenges: Vec<F>,
    pub pow_digest: H,
    pub oods_ok: bool,
}

struct Tr {
    coin: Coin,
    out: Vec<u8>,
    parts: Vec<Part>,
    messages: usize,
    omit: Vec<usize>,
}
impl Tr {
    fn write(&mut self, name: &str, b: &[u8], unit: usize) {
        match self.parts.last_mut() {
            Some(p) if p.name == name => p.len += b.len(),
            _ => self.parts.push(Part {
                name: name.into(),
                at: self.out.len(),
                len: b.len(),
                unit,
            }),
        }
        self.out.extend_from_slice(b);
        if !self.omit.contains(&self.messages) {
            self.coin.write(b);
        }
        self.messages += 1;
    }
    fn start(&mut self, name: &str, unit: usize) {
        self.parts.push(Part {
            name: name.into(),
            at: self.out.len(),
            len: 0,
            unit,
        });
    }
}

pub fn three() -> F {
    F::u(3)
}

/// Combined constraint polynomial of the trace polynomials.
fn combine(sys: &Sys, polys: &[Vec<F>], coef: &[F], skip: Option<usize>) -> Vec<F> {
    let (n, d) = (sys.n(), sys.parts());
    let size = n * d;
    let w = F::root(size as u64);
    let xs: Vec<F> = std::iter::successors(Some(three()), |x| Some(*x * w))
        .take(size)
        .collect();
    let vals: Vec<Vec<F>> = polys.iter().map(|p| extend_natural(p, size, three())).collect();
    let cell = |c: usize, o: i64, i: usize| vals[c][(i as i64 + d as i64 * o).rem_euclid(size as i64) as usize];
    let mut sum = vec![F::ZERO; size];
    for (k, e) in sys.exprs.iter().enumerate() {
        if skip == Some(k) {
            continue;
        }
        let v = eval_many(e, &sys.claims, &xs, &cell);
        let adj = sys.adjust(e) as u64;
        let (wa, mut xa) = (w.pow(adj), three().pow(adj));
        for i in 0..size {
            sum[i] = sum[i] + (coef[2 * k] + coef[2 * k + 1] * xa) * v[i];
            xa = xa * wa;
        }
    }
    interpolate(&sum, three())
}

pub fn prove(sys: &Sys, table: &Table, devs: &[Dev]) -> Made {
    let (n, size, d) = (sys.n(), sys.domain(), sys.parts());
    let g = F::root(n as u64);
    let mut same = true;
    let has = |d: Dev| devs.contains(&d);
    let pick = |f: &dyn Fn(&Dev) -> Option<usize>| devs.iter().find_map(|d| f(d));
    let junk = |k: u64| mix(&crate::big::Int::from_i128(0x1234_5678 + i128::from(k)), k as usize);
    let mut tr = Tr {
        coin: Coin::new(&sys.seed),
        out: vec![],
        parts: vec![],
        messages: 0,
        omit: devs
            .iter()
            .filter_map(|d| if let Dev::Omit(k) = d { Some(*k) } else { None })
            .collect(),
    };
    let mut polys: Vec<Vec<F>> = table.iter().map(|c| idft(c, g)).collect();
    if let Some(c) = pick(&|d| if let Dev::HighDegree(c) = d { Some(*c) } else { None }) {
        // agrees with the trace on its rows, but adds a multiple of X^n - 1 or
        // X^(n+1) - X (a degree of n may go unnoticed, as a value is divided out)
        let k = usize::from(size >= n + 2);
        let c = c % polys.len();
        let m = junk(5);
        polys[c].resize(n + k + 1, F::ZERO);
        polys[c][n + k] = polys[c][n + k] + m;
        polys[c][k] = polys[c][k] - m;
        same = false;
    }
    let tl: Vec<Vec<F>> = polys.iter().map(|p| extend(p, size, three())).collect();
    let row = |l: &[Vec<F>], i: usize| -> Vec<F> { l.iter().map(|c| c[i]).collect() };
    let mut shown = tl.clone();
    if has(Dev::TraceLeaf) {
        for c in shown.iter_mut() {
            for v in c.iter_mut() {
                *v = *v + F::one();
            }
        }
        same = false;
    }
    let spot = devs.iter().find_map(|d| if let Dev::Spot(k, w, v) = d { Some((*k, *w, *v)) } else { None });
    if let Some((0, _, v)) = spot {
        let c = v % shown.len();
        let p = (37 * v) % size;
        shown[c][p] = shown[c][p] + junk(v as u64);
        same = false;
    }
    let mut tt = Tree::new((0..size).map(|i| leaf(&row(&shown, i))).collect());
    if has(Dev::TraceRoot) {
        let k = tt.0.len() - 1;
        tt.0[k][0][3] ^= 1;
        same = false;
    }
    tr.write("trace_commitment", &tt.root(), 32);
    let coef = tr.coin.fields(2 * sys.exprs.len());
    let skip = pick(&|d| {
        if let Dev::Skip(k) = d {
            Some(k % sys.exprs.len())
        } else {
            None
        }
    });
    if skip.is_some() {
        same = false;
    }
    let comb = combine(sys, &polys, &coef, skip);
    let mut ap: Vec<Vec<F>> = (0..d)
        .map(|k| comb.iter().skip(k).step_by(d).copied().collect())
        .collect();
    if let Some(s) = pick(&|d| {
        if let Dev::FreeConstraints(s) = d {
            Some(*s as usize)
        } else {
            None
        }
    }) {
        // nothing at all, everything negated, the first part gone, one coefficient
        // changed, or anything
        let truth = ap.clone();
        for (k, a) in ap.iter_mut().enumerate() {
            let n = a.len();
            for (i, v) in a.iter_mut().enumerate() {
                match s % 6 {
                    0 => *v = F::ZERO,
                    1 => *v = F::ZERO - *v,
                    2 if k == 0 => *v = F::ZERO,
                    3 if (s / 6) % n == i => *v = *v + F::one(),
                    2 | 3 => {}
                    _ => *v = junk(1000 * s as u64 + 64 * k as u64 + i as u64),
                }
            }
        }
        same &= ap == truth;
    }
    let al: Vec<Vec<F>> = ap.iter().map(|p| extend(p, size, three())).collect();
    let mut ashown = al.clone();
    if has(Dev::ConstraintLeaf) {
        for c in ashown.iter_mut() {
            for v in c.iter_mut() {
                *v = *v + F::one();
            }
        }
        same = false;
    }
    if let Some((1, _, v)) = spot {
        let c = v % ashown.len();
        let p = (37 * v) % size;
        ashown[c][p] = ashown[c][p] + junk(v as u64);
        same = false;
    }
    let mut at = Tree::new((0..size).map(|i| leaf(&row(&ashown, i))).collect());
    if has(Dev::ConstraintRoot) {
        let k = at.0.len() - 1;
        at.0[k][0][7] ^= 0x80;
        same = false;
    }
    tr.write("constraint_commitment", &at.root(), 32);
    let z = tr.coin.field();
    let zd = z.pow(d as u64);
    let cells = sys.cells();
    let mut tv: Vec<F> = cells.iter().map(|(c, o)| horner(&polys[*c], z * g.powi(*o))).collect();
    let mut av: Vec<F> = ap.iter().map(|a| horner(a, zd)).collect();
    for dev in devs {
        match dev {
            Dev::TraceValue(k) if !tv.is_empty() => {
                let k = k % tv.len();
                tv[k] = tv[k] + F::one();
                same = false;
            }
            Dev::ConstraintValue(k) => {
                let k = k % av.len();
                av[k] = av[k] + F::one();
                same = false;
            }
            _ => {}
        }
    }
    for v in &tv {
        tr.write("trace_oods_values", &v.mont_be(), 32);
    }
    for v in &av {
        tr.write("constraint_oods_values", &v.mont_be(), 32);
    }
    let oods_ok = {
        let cell = |c: usize, o: i64| tv[cells.iter().position(|x| *x == (c, o)).unwrap()];
        let lhs = sys.exprs.iter().enumerate().fold(F::ZERO, |s, (k, e)| {
            s + (coef[2 * k] + coef[2 * k + 1] * z.pow(sys.adjust(e) as u64))
                * eval(e, &sys.claims, z, &cell).unwrap_or(F::ZERO)
        });
        lhs == horner(&av, z)
    };
    let mu = tr.coin.fields(tv.len() + av.len());
    // the combined quotient, as values on the extended domain
    let values_dev = devs
        .iter()
        .any(|dev| matches!(dev, Dev::TraceValue(_) | Dev::ConstraintValue(_) | Dev::HighDegree(_)));
    let mut layer: Vec<F> = if values_dev {
        let w = F::root(size as u64);
        let xs: Vec<F> = (0..size).map(|i| three() * w.pow(bitrev(i, size) as u64)).collect();
        let mut l = vec![F::ZERO; size];
        for (k, (c, o)) in cells.iter().enumerate() {
            let den = inv_all(&xs.iter().map(|x| *x - z * g.powi(*o)).collect::<Vec<_>>());
            for i in 0..size {
                l[i] = l[i] + mu[k] * (tl[*c][i] - tv[k]) * den[i];
            }
        }
        let den = inv_all(&xs.iter().map(|x| *x - zd).collect::<Vec<_>>());
        for k in 0..d {
            for i in 0..size {
                l[i] = l[i] + mu[tv.len() + k] * (al[k][i] - av[k]) * den[i];
            }
        }
        l
    } else {
        let mut p = vec![F::ZERO; n];
        let mut add = |q: Vec<F>, m: F| {
            for (a, b) in p.iter_mut().zip(q) {
                *a = *a + m * b;
            }
        };
        for (k, (c, o)) in cells.iter().enumerate() {
            add(divide_out(&polys[*c], z * g.powi(*o)), mu[k]);
        }
        for k in 0..d {
            add(divide_out(&ap[k], zd), mu[tv.len() + k]);
        }
        extend(&p, size, three())
    };
    if has(Dev::HighFri) {
        for (i, v) in layer.iter_mut().enumerate() {
            *v = *v + junk(i as u64);
        }
        same = false;
    }
    let un = units(size);
    let mut layers: Vec<(usize, Vec<F>, Tree)> = vec![];
    let mut challenges = coef.clone();
    challenges.push(z);
    challenges.extend(&mu);
    for (k, &red) in sys.layout.iter().enumerate() {
        let cs = 1usize << red;
        if has(Dev::Layer(k)) {
            // an unrelated polynomial of the same degree bound
            let p: Vec<F> = (0..layer.len() / sys.blowup).map(|i| junk(i as u64)).collect();
            layer = extend(&p, layer.len(), F::one());
            same = false;
        }
        let clean = layer.clone();
        if let Some((s, _, v)) = spot.filter(|x| x.0 == k + 2) {
            let _ = s;
            let p = (37 * v) % layer.len();
            layer[p] = layer[p] + junk(v as u64);
            same = false;
        }
        let mut t = Tree::new(layer.chunks(cs).map(leaf).collect());
        if has(Dev::LayerRoot(k)) {
            let m = t.0.len() - 1;
            t.0[m][0][0] ^= 1;
            same = false;
        }
        tr.write(&format!("fri_commitment{}", k), &t.root(), 32);
        let mut a = tr.coin.field();
        challenges.push(a);
        layers.push((cs, layer.clone(), t));
        if spot.map_or(false, |x| x.0 == k + 2 && x.2 % 2 == 1) {
            // the layers after it are folded from the right values
            layer = clean;
        }
        for _ in 0..red {
            layer = fold_once(&layer, a, &un);
            a = a * a;
        }
    }
    let len = layer.len();
    let nl = len / sys.blowup;
    let mut last = interpolate(&(0..nl).map(|i| layer[bitrev(i, nl)]).collect::<Vec<_>>(), F::one());
    for dev in devs {
        match dev {
            Dev::Layer(k) if *k == sys.layout.len() => {
                last = (0..nl).map(|i| junk(i as u64)).collect();
                same = false;
            }
            Dev::Last(k) => {
                let k = k % nl;
                last[k] = last[k] + F::one();
                same = false;
            }
            Dev::LastVanish if nl > 1 => {
                // vanishes at nl - 1 of the len points of the last layer
                let w = F::root(len as u64);
                let mut z = vec![junk(3)];
                for key in 0..nl - 1 {
                    let x = w.pow(bitrev(key, len) as u64);
                    let mut q = vec![F::ZERO; z.len() + 1];
                    for (i, v) in z.iter().enumerate() {
                        q[i + 1] = q[i + 1] + *v;
                        q[i] = q[i] - *v * x;
                    }
                    z = q;
                }
                for i in 0..nl {
                    last[i] = last[i] + z[i];
                }
            }
            _ => {}
        }
    }
    let lb: Vec<u8> = last.iter().flat_map(|v| v.mont_be()).collect();
    tr.write("last_layer_coefficients", &lb, 32);
    let pow_digest = tr.coin.digest;
    let ps = pow_seed(&tr.coin.digest, sys.pow);
    let total: usize = sys.layout.iter().sum();
    let zeros = devs.iter().rev().find_map(|d| if let Dev::Zeros(z) = d { Some(*z) } else { None });
    let mut valid = (0u64..).filter(|k| match zeros {
        Some(z) => pow_zeros(&ps, *k) == z,
        _ => pow_zeros(&ps, *k) >= sys.pow,
    });
    let mut nonce = valid.next().unwrap();
    for dev in devs {
        match dev {
            Dev::Zeros(z) => same &= *z >= sys.pow,
            Dev::SecondNonce => nonce = valid.next().unwrap(),
            Dev::LastVanish if nl > 1 => {
                // some but not all of the points asked are in the agreeing part
                for _ in 0..500.min((1usize << 17) >> sys.pow.min(17)) {
                    let mut c = tr.coin.clone();
                    c.write(&nonce.to_be_bytes());
                    let q = c.queries(sys.queries, size);
                    let bad = q.iter().filter(|i| (*i >> total) >= nl - 1).count();
                    if bad > 0 && bad < q.len() {
                        same = false;
                        break;
                    }
                    nonce = valid.next().unwrap();
                }
            }
            Dev::Spot(k, which, v) if *k < sys.layout.len() + 2 => {
                let shift: usize = sys.layout.iter().take(k.saturating_sub(2)).sum();
                let cs = if *k < 2 { 0 } else { sys.layout[k - 2] };
                let p = ((37 * v) % (size >> shift)) >> cs;
                let mut any = None;
                for _ in 0..500.min((1usize << 17) >> sys.pow.min(17)) {
                    let mut c = tr.coin.clone();
                    c.write(&nonce.to_be_bytes());
                    let mut q: Vec<usize> = c.queries(sys.queries, size).iter().map(|i| i >> (shift + cs)).collect();
                    q.dedup();
                    if let Some(at) = q.iter().position(|i| *i == p) {
                        any = Some(nonce);
                        // first, last, or the given one
                        if at == [0, q.len() - 1, which % q.len(), (which / 3) % q.len()][which % 4] {
                            break;
                        }
                    }
                    nonce = valid.next().unwrap();
                }
                nonce = any.unwrap_or(nonce);
            }
            Dev::Twice(_) => {
                for _ in 0..500.min((1usize << 17) >> sys.pow.min(17)) {
                    let mut c = tr.coin.clone();
                    c.write(&nonce.to_be_bytes());
                    let q = c.queries(sys.queries, size);
                    if q.windows(2).any(|w| w[0] == w[1]) {
                        break;
                    }
                    nonce = valid.next().unwrap();
                }
            }
            _ => {}
        }
    }
    tr.write("pow_nonce", &nonce.to_be_bytes(), 8);
    let mut q = tr.coin.queries(sys.queries, size);
    if has(Dev::OwnQueries) {
        let own: Vec<usize> = (0..sys.queries).map(|i| i.min(size - 1)).collect();
        same &= own == q;
        q = own;
    }
    let twice = q.windows(2).position(|w| w[0] == w[1]);
    for (which, name, l, t) in [(false, "trace", &shown, &tt), (true, "constraint", &ashown, &at)] {
        tr.start(&format!("{}_values", name), 32 * l.len());
        for (k, &i) in q.iter().enumerate() {
            let mut r = row(l, i);
            for dev in devs {
                match (dev, twice) {
                    (Dev::Twice(w), Some(j)) if *w == which && j + usize::from(sys.seed.len() % 2 == 0) == k => {
                        r[0] = r[0] + F::one();
                        same = false;
                    }
                    _ => {}
                }
            }
            for dev in devs {
                if let Dev::OtherRow(w, j) = dev {
                    if *w == which && j % q.len() == k && size > 1 {
                        let o = row(l, i ^ 1);
                        same &= o == r;
                        r = o;
                    }
                }
            }
            // one write per value of the row
            for v in &r {
                tr.write(&format!("{}_values", name), &v.mont_be(), 32 * l.len());
            }
        }
        tr.start(&format!("{}_decommitment", name), 32);
        for h in t.open(&q) {
            tr.write(&format!("{}_decommitment", name), &h, 32);
        }
    }
    let mut prev = q.clone();
    for (k, (cs, l, t)) in layers.iter().enumerate() {
        let mut idx: Vec<usize> = prev.iter().map(|i| i / cs).collect();
        idx.dedup();
        tr.start(&format!("fri_values{}", k), 32);
        for i in &idx {
            for j in 0..*cs {
                if !prev.contains(&(i * cs + j)) {
                    tr.write(&format!("fri_values{}", k), &l[i * cs + j].mont_be(), 32);
                }
            }
        }
        tr.start(&format!("fri_decommitment{}", k), 32);
        for h in t.open(&idx) {
            tr.write(&format!("fri_decommitment{}", k), &h, 32);
        }
        prev = idx;
    }
    if devs.iter().any(|d| matches!(d, Dev::Omit(_))) {
        same = false;
    }
    Made {
        bytes: tr.out,
        parts: tr.parts,
        messages: tr.messages,
        nonce,
        queries: q,
        same,
        challenges,
        pow_digest,
        oods_ok,
    }
}

// ---- verification -------------------------------------------------------------
struct Rd<'a> {
    b: &'a [u8],
    at: usize,
    coin: Coin,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.b.get(self.at..self.at + n)?;
        self.at += n;
        self.coin.write(r);
        Some(r)
    }
    fn hash(&mut self) -> Option<H> {
        self.take(32).map(|b| b.try_into().unwrap())
    }
    fn field(&mut self) -> Option<F> {
        self.take(32).and_then(F::from_mont_be)
    }
    /// one message of several elements
    fn block(&mut self, n: usize) -> Option<Vec<F>> {
        self.take(32 * n)?.chunks(32).map(F::from_mont_be).collect()
    }
}

/// What the protocol says about these bytes: accepted or the reason why not.
pub fn verify(sys: &Sys, bytes: &[u8]) -> Result<(), &'static str> {
    let (n, size, d) = (sys.n(), sys.domain(), sys.parts());
    let g = F::root(n as u64);
    let mut r = Rd {
        b: bytes,
        at: 0,
        coin: Coin::new(&sys.seed),
    };
    let short = "truncated or not canonical";
    let t_root = r.hash().ok_or(short)?;
    let coef = r.coin.fields(2 * sys.exprs.len());
    let c_root = r.hash().ok_or(short)?;
    let z = r.coin.field();
    let cells = sys.cells();
    let tv = (0..cells.len())
        .map(|_| r.field())
        .collect::<Option<Vec<_>>>()
        .ok_or(short)?;
    let av = (0..d).map(|_| r.field()).collect::<Option<Vec<_>>>().ok_or(short)?;
    let mu = r.coin.fields(tv.len() + d);
    let mut roots = vec![];
    let mut len = size;
    for &k in &sys.layout {
        len >>= k;
        let root = r.hash().ok_or(short)?;
        roots.push((len, root, r.coin.field()));
    }
    let last = r.block(len / sys.blowup).ok_or(short)?;
    let seed = pow_seed(&r.coin.digest, sys.pow);
    let nonce = u64::from_be_bytes(r.take(8).ok_or(short)?.try_into().unwrap());
    if pow_zeros(&seed, nonce) < sys.pow {
        return Err("proof of work");
    }
    let q = r.coin.queries(sys.queries, size);
    let mut oracle = |r: &mut Rd, width: usize, root: H| -> Result<BTreeMap<usize, Vec<F>>, &'static str> {
        let mut rows: BTreeMap<usize, Vec<F>> = BTreeMap::new();
        for &i in &q {
            let v = r.block(width).ok_or(short)?;
            if rows.get(&i).map_or(false, |o| *o != v) {
                return Err("two answers");
            }
            rows.insert(i, v);
        }
        let hs = (0..opening_len(size, &q))
            .map(|_| r.hash())
            .collect::<Option<Vec<_>>>()
            .ok_or(short)?;
        let leaves = rows.iter().map(|(i, v)| (*i, leaf(v))).collect();
        if !q.is_empty() && implied(size, &leaves, &hs) != Some(root) {
            return Err("commitment");
        }
        Ok(rows)
    };
    let t_rows = oracle(&mut r, sys.ncols, t_root)?;
    let c_rows = oracle(&mut r, d, c_root)?;
    let w = F::root(size as u64);
    let mut known: BTreeMap<usize, F> = BTreeMap::new();
    for &i in &q {
        let x = three() * w.pow(bitrev(i, size) as u64);
        let mut s = F::ZERO;
        for (k, (c, o)) in cells.iter().enumerate() {
            s = s + mu[k] * (t_rows[&i][*c] - tv[k]) * (x - z * g.powi(*o)).inv();
        }
        for k in 0..d {
            s = s + mu[tv.len() + k] * (c_rows[&i][k] - av[k]) * (x - z.pow(d as u64)).inv();
        }
        known.insert(i, s);
    }
    let mut len = size;
    for (&red, (_, root, a)) in sys.layout.iter().zip(&roots) {
        let cs = 1usize << red;
        let mut idx: Vec<usize> = known.keys().map(|i| i / cs).collect();
        idx.dedup();
        let mut cosets: BTreeMap<usize, Vec<F>> = BTreeMap::new();
        for &i in &idx {
            let mut v = vec![];
            for j in 0..cs {
                v.push(match known.get(&(i * cs + j)) {
                    Some(k) => *k,
                    None => r.field().ok_or(short)?,
                });
            }
            cosets.insert(i, v);
        }
        let sz = len / cs;
        let hs = (0..opening_len(sz, &idx))
            .map(|_| r.hash())
            .collect::<Option<Vec<_>>>()
            .ok_or(short)?;
        let leaves = cosets.iter().map(|(i, v)| (*i, leaf(v))).collect();
        if !idx.is_empty() && implied(sz, &leaves, &hs) != Some(*root) {
            return Err("layer commitment");
        }
        known = cosets
            .into_iter()
            .map(|(i, mut v)| {
                let (mut l, mut at, mut a) = (len, i * cs, *a);
                while v.len() > 1 {
                    let w = F::root(l as u64).inv();
                    v = (0..v.len() / 2)
                        .map(|k| {
                            let xi = w.pow(bitrev(at / 2 + k, l / 2) as u64);
                            (v[2 * k] + v[2 * k + 1]) + a * xi * (v[2 * k] - v[2 * k + 1])
                        })
                        .collect();
                    l /= 2;
                    at /= 2;
                    a = a * a;
                }
                (i, v[0])
            })
            .collect();
        len = sz;
    }
    if r.at != bytes.len() {
        return Err("trailing bytes");
    }
    let w = F::root(len as u64);
    for (i, v) in &known {
        if horner(&last, w.pow(bitrev(*i, len) as u64)) != *v {
            return Err("last layer");
        }
    }
    let cell = |c: usize, o: i64| tv[cells.iter().position(|x| *x == (c, o)).unwrap()];
    let mut s = F::ZERO;
    for (k, e) in sys.exprs.iter().enumerate() {
        let v = eval(e, &sys.claims, z, &cell).ok_or("division by zero")?;
        s = s + (coef[2 * k] + coef[2 * k + 1] * z.pow(sys.adjust(e) as u64)) * v;
    }
    if s != horner(&av, z) {
        return Err("out of domain values");
    }
    Ok(())
}
