//! C10: trees of components, as the specification composes them.
use super::*;
use std::rc::Rc;
use zkp_stark::component::{Component, Empty, Fold, Horizontal, PolynomialWriter, Test, Vertical};

#[derive(Clone)]
pub enum Claim {
    Unit,
    One(FieldElement),
    Two(Rc<(Claim, Claim)>),
    Many(Rc<Vec<Claim>>),
}
#[derive(Clone)]
pub enum Witness {
    /// claim, second value; written over afterwards
    Seq((FieldElement, FieldElement), Vec<(usize, usize, FieldElement)>),
    Cells(Vec<Vec<FieldElement>>),
    Two(Rc<(Witness, Witness)>),
    Many(Rc<Vec<Witness>>),
}
pub enum Tree {
    Test(Test),
    Empty(Empty),
    Air(usize, usize, Vec<R>),
    Side(Horizontal<Node, Node>),
    Stack(Vertical<Node>),
    Fold(Fold<Node>),
}
#[derive(Clone)]
pub struct Node(Rc<Tree>);
/// Ends the recursion of writer types.
struct Any<'a>(&'a mut dyn PolynomialWriter);
impl PolynomialWriter for Any<'_> {
    fn num_polynomials(&self) -> usize {
        self.0.num_polynomials()
    }
    fn polynomial_size(&self) -> usize {
        self.0.polynomial_size()
    }
    fn write(&mut self, p: usize, l: usize, v: FieldElement) {
        self.0.write(p, l, v)
    }
}
impl Component for Node {
    type Claim = Claim;
    type Witness = Witness;
    fn num_polynomials(&self) -> usize {
        match &*self.0 {
            Tree::Test(t) => t.num_polynomials(),
            Tree::Empty(t) => t.num_polynomials(),
            Tree::Air(c, ..) => *c,
            Tree::Side(t) => t.num_polynomials(),
            Tree::Stack(t) => t.num_polynomials(),
            Tree::Fold(t) => t.num_polynomials(),
        }
    }
    fn polynomial_size(&self) -> usize {
        match &*self.0 {
            Tree::Test(t) => t.polynomial_size(),
            Tree::Empty(t) => t.polynomial_size(),
            Tree::Air(_, n, _) => *n,
            Tree::Side(t) => t.polynomial_size(),
            Tree::Stack(t) => t.polynomial_size(),
            Tree::Fold(t) => t.polynomial_size(),
        }
    }
    fn claim(&self, w: &Witness) -> Claim {
        match (&*self.0, w) {
            (Tree::Test(t), Witness::Seq(v, _)) => Claim::One(t.claim(v)),
            (Tree::Empty(_), _) | (Tree::Air(..), _) => Claim::Unit,
            (Tree::Side(t), Witness::Two(v)) => Claim::Two(Rc::new(t.claim(v))),
            (Tree::Stack(t), Witness::Many(v)) => Claim::Many(Rc::new(t.claim(v))),
            (Tree::Fold(t), _) => t.claim(w),
            _ => panic!("trace: witness"),
        }
    }
    fn constraints(&self, c: &Claim) -> Vec<R> {
        match (&*self.0, c) {
            (Tree::Test(t), Claim::One(c)) => t.constraints(c),
            (Tree::Empty(t), _) => t.constraints(&()),
            (Tree::Air(_, _, e), _) => e.clone(),
            (Tree::Side(t), Claim::Two(c)) => t.constraints(c),
            (Tree::Stack(t), Claim::Many(c)) => t.constraints(c),
            (Tree::Fold(t), _) => t.constraints(c),
            _ => panic!("trace: claim"),
        }
    }
    fn trace<P: PolynomialWriter>(&self, trace: &mut P, w: &Witness) {
        let mut trace = Any(trace);
        match (&*self.0, w) {
            (Tree::Test(t), Witness::Seq(v, over)) => {
                t.trace(&mut trace, v);
                for (c, r, v) in over {
                    trace.write(*c, *r, v.clone());
                }
            }
            (Tree::Empty(t), _) => t.trace(&mut trace, &()),
            (Tree::Air(..), Witness::Cells(t)) => {
                for (c, col) in t.iter().enumerate() {
                    for (r, v) in col.iter().enumerate() {
                        trace.write(c, r, v.clone());
                    }
                }
            }
            (Tree::Side(t), Witness::Two(v)) => t.trace(&mut trace, v),
            (Tree::Stack(t), Witness::Many(v)) => t.trace(&mut trace, v),
            (Tree::Fold(t), _) => t.trace(&mut trace, w),
            _ => panic!("trace: witness"),
        }
    }
}

/// The composition of the state, and a function that makes its witness.
fn tree(nodes: &[Value], leaves: &[Value]) -> Node {
    let mut s: Vec<Node> = vec![];
    for n in nodes {
        let k = n.f("k").u();
        let t = match n.f("o").s() {
            "leaf" => {
                let l = &leaves[k];
                let (rows, cols) = (1 << l.f("lg").u(), l.f("cols").u());
                match l.f("kind").s() {
                    "test" => Tree::Test(Test::new(rows, cols, &fe(&stark::f_of(l.f("seed"))))),
                    "empty" => Tree::Empty(Empty::new(cols, rows)),
                    _ => Tree::Air(cols, rows, l.f("es").list().iter().map(|e| rexpr(&stark::expr_of(e))).collect()),
                }
            }
            "side" => {
                let b = s.pop().unwrap();
                Tree::Side(Horizontal::new(s.pop().unwrap(), b))
            }
            "stack" => Tree::Stack(Vertical::new(s.pop().unwrap(), k)),
            "fold" => Tree::Fold(Fold::new(s.pop().unwrap(), k)),
            o => panic!("trace: node {}", o),
        };
        s.push(Node(Rc::new(t)));
    }
    assert_eq!(s.len(), 1, "trace: composition");
    s.pop().unwrap()
}
fn witness(n: &Node, next: &mut dyn FnMut() -> Witness) -> Witness {
    match &*n.0 {
        Tree::Test(_) | Tree::Empty(_) | Tree::Air(..) => next(),
        Tree::Side(t) => {
            let a = witness(t.left(), next);
            Witness::Two(Rc::new((a, witness(t.right(), next))))
        }
        Tree::Stack(t) => Witness::Many(Rc::new((0..t.size()).map(|_| witness(t.element(), next)).collect())),
        Tree::Fold(t) => witness(t.element(), next),
    }
}
/// another claim for the k-th test leaf (in all its copies)
fn other_claim(n: &Node, c: &Claim, k: &mut i64) -> Claim {
    match (&*n.0, c) {
        (Tree::Test(_), Claim::One(v)) => {
            *k -= 1;
            Claim::One(if *k == -1 { v + FieldElement::from(1_u64) } else { v.clone() })
        }
        (Tree::Side(t), Claim::Two(v)) => {
            let a = other_claim(t.left(), &v.0, k);
            Claim::Two(Rc::new((a, other_claim(t.right(), &v.1, k))))
        }
        (Tree::Stack(t), Claim::Many(v)) => {
            let one = other_claim(t.element(), &v[0], k);
            Claim::Many(Rc::new(v.iter().map(|_| one.clone()).collect()))
        }
        (Tree::Fold(t), _) => other_claim(t.element(), c, k),
        _ => c.clone(),
    }
}
/// map_up of every fold directly over a leaf
fn folds(ck: &mut Ck, n: &Node) {
    match &*n.0 {
        Tree::Side(t) => {
            folds(ck, t.left());
            folds(ck, t.right());
        }
        Tree::Stack(t) => folds(ck, t.element()),
        Tree::Fold(t) => {
            let e = t.element();
            let red = t.polynomial_size() / e.polynomial_size();
            for c in 0..e.num_polynomials() {
                for r in 0..e.polynomial_size() {
                    let want = (r * red + bitrev(c % red, red), c / red);
                    ck.eq("map_up", want, || t.map_up(r, c));
                }
            }
            folds(ck, e);
        }
        _ => {}
    }
}

/// Whether the expression is a polynomial once the columns are interpolated:
/// with a quotient of degrees a over b, on more than a + b points, exactly when
/// the polynomial through its values has degree at most a.
fn holds(e: &Expr, t: &Table) -> bool {
    let n = t[0].len();
    let (a, b) = stark::degree(e, 1, n - 1);
    let size = (a + b + 2).next_power_of_two().max(2 * n);
    let g = F::root(n as u64);
    let (w, polys) = (F::root(size as u64), t.iter().map(|c| idft(c, g)).collect::<Vec<_>>());
    let shift = F::u(0x1234_5677);
    let cols: Vec<Vec<F>> = polys.iter().map(|p| stark::extend_natural(p, size, shift)).collect();
    let mut x = shift;
    let vals: Vec<F> = (0..size)
        .map(|i| {
            let cell = |c: usize, o: i64| cols[c][(i as i64 + o * (size / n) as i64).rem_euclid(size as i64) as usize];
            let v = stark::eval(e, &[], x, &cell).expect("trace: a division by zero");
            x = x * w;
            v
        })
        .collect();
    stark::interpolate(&vals, shift).iter().skip(a + 1).all(F::is_zero)
}

pub fn c10(ck: &mut Ck, st: &Value) {
    let leaves = st.f("leaves").list();
    let insts = st.f("insts").list();
    let tables: Vec<Table> = st.f("tables").list().iter().map(|t| t.list().iter().map(stark::fs).collect()).collect();
    let (lg, cols) = (st.f("lg").u(), st.f("cols").u());
    let spot = st.f("spot");
    let spoiled = !spot.tup(0).int().neg;
    let bare = st.f("bare").b();
    let node = tree(st.f("nodes").list(), leaves);
    ck.eq("columns", cols, || node.num_polynomials());
    ck.eq("rows", 1usize << lg, || node.polynomial_size());
    folds(ck, &node);
    if cols == 0 {
        return;
    }
    let mut whats = vec![("given", vec![])];
    if spoiled {
        whats.push(("changed", st.f("unmet").usizes()));
    }
    for (what, broken) in whats {
        let mut ts = tables.clone();
        if what == "changed" {
            ts[spot.tup(0).u()][spot.tup(1).u()][spot.tup(2).u()] = stark::f_of(spot.tup(3));
        }
        let mut i = 0;
        let wit = witness(&node, &mut || {
            let l = &leaves[insts[i].f("leaf").u()];
            let t = &ts[i];
            i += 1;
            match l.f("kind").s() {
                "test" => {
                    let nc = l.f("cols").u();
                    // a witness where there is a second cell
                    let orig = &tables[i - 1];
                    let second = if nc << l.f("lg").u() < 2 { F::ZERO } else { orig[1 % nc][1 / nc] };
                    let over = if what == "changed" && spot.tup(0).u() == i - 1 {
                        vec![(spot.tup(1).u(), spot.tup(2).u(), fe(&stark::f_of(spot.tup(3))))]
                    } else {
                        vec![]
                    };
                    Witness::Seq((fe(&stark::f_of(l.f("claim"))), fe(&second)), over)
                }
                _ => Witness::Cells(t.iter().map(|c| c.iter().map(fe).collect()).collect()),
            }
        });
        assert_eq!(i, insts.len(), "trace: instances");
        // the cells, where the specification puts them
        let mut whole: Table = vec![vec![F::ZERO; 1 << lg]; cols];
        let table = ck.get("trace_table", || node.trace_table(&wit));
        let Some(table) = table else { continue };
        if !ck.eq("shape", (1usize << lg, cols), || (table.num_rows(), table.num_columns())) {
            continue;
        }
        for c in 0..cols {
            for r in 0..1 << lg {
                whole[c][r] = F::from_mont_be(&table[(r, c)].as_montgomery().to_bytes_be()).unwrap();
            }
        }
        for (k, inst) in insts.iter().enumerate() {
            if leaves[inst.f("leaf").u()].f("kind").s() == "empty" {
                continue;
            }
            for (c, col) in inst.f("place").list().iter().enumerate() {
                for (r, at) in col.list().iter().enumerate() {
                    let (pc, pr) = (at.tup(0).u(), at.tup(1).u());
                    ck.eq(&format!("cell:{}", what), ts[k][c][r], || whole[pc][pr]);
                }
            }
        }
        let claim = node.claim(&wit);
        let Some(es) = ck.get("constraints", || node.constraints(&claim).iter().map(expr_back).collect::<Vec<Expr>>()) else { continue };
        ck.eq("no constraints", bare, || es.is_empty());
        if bare || es.is_empty() {
            continue;
        }
        ck.eq(&format!("satisfied:{}", what), broken.is_empty(), || es.iter().all(|e| holds(e, &whole)));
        let checked = ck.get("check", || node.check(&wit).is_ok());
        if let Some(ok) = checked {
            ck.eq(&format!("check:{}", what), broken.is_empty(), || ok);
        }
        let sys = Sys {
            lg: lg as u32,
            ncols: cols,
            cols: vec![],
            exprs: es,
            claims: vec![],
            seed: vec![],
            blowup: 16,
            pow: 0,
            queries: 45,
            layout: st.f("layout").usizes(),
        };
        let fits = sys.exprs.iter().all(|e| {
            let (a, b) = stark::degree(e, 1, sys.n() - 1);
            sys.degree() >= 1 && sys.degree() * sys.n() - 1 + b >= a
        }) && sys.parts() <= 16;
        if !fits {
            ck.note("left out: degrees");
            continue;
        }
        let Some(p) = ck.get("prove", || node.prove(&wit).map_err(|e| format!("{:?}", e))) else { continue };
        ck.eq(&format!("proves:{}", what), broken.is_empty(), || p.is_ok());
        if let Ok(p) = p {
            ck.eq("verify", Ok(()), || node.verify(&claim, &p).map_err(|e| format!("{:?}", e)));
            if let Ok(()) = stark::verify(&sys, p.as_bytes()) {
                ck.note("accepted by the reference");
            } else {
                ck.fail("reference verdict", "accepted".into(), "refused".into());
            }
            if what == "given" {
                let made = stark::prove(&sys, &whole, &[]);
                ck.eq("proof", hex::encode(&made.bytes), || hex::encode(p.as_bytes()));
            }
            // another claim for each of the sequences
            let tests = insts.len().min(3) as i64;
            for k in 0..tests {
                let mut left = k;
                let oc = other_claim(&node, &claim, &mut left);
                if left >= 0 {
                    break;
                }
                let mut osys = sys.clone();
                let Some(oes) = ck.get("constraints", || node.constraints(&oc).iter().map(expr_back).collect::<Vec<Expr>>()) else { continue };
                osys.exprs = oes;
                let want = stark::verify(&osys, p.as_bytes()).is_ok();
                ck.eq("verify for another claim", want, || node.verify(&oc, &p).is_ok());
                ck.note(if want { "another claim: same constraints" } else { "another claim: refused" });
            }
        }
    }
    ck.note(&format!("rows 2^{}", lg));
    ck.note(&format!("instances {}", insts.len()));
}
