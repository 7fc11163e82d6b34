//! Conformance driver for the proof system (C01 to C13).
use serde_json::Value;
use std::time::Duration;
use vharness::fp::*;
use vharness::stark::{self, Dev, Expr, Op, Sys, Table};
use vharness::*;
use zkp_primefield::FieldElement;
use zkp_stark::{
    check_constraints, proof_serialize, prove, verify, Constraints, DensePolynomial, Proof, Provable, RationalExpression as R, TraceTable,
    Verifiable,
};
use zkp_u256::U256;

#[path = "../vstark/component.rs"]
mod component;
#[path = "../vstark/export.rs"]
mod export;
#[path = "../vstark/limits.rs"]
mod limits;
#[path = "../vstark/yul.rs"]
mod yul;
#[path = "../vstark/poly.rs"]
mod poly;

pub fn fe(f: &F) -> FieldElement {
    FieldElement::from_montgomery(U256::from_bytes_be(&f.mont_be()))
}
pub fn dense(c: &[F]) -> DensePolynomial {
    DensePolynomial::new(&c.iter().map(fe).collect::<Vec<_>>())
}
pub fn rexpr(e: &Expr) -> R {
    let mut s: Vec<R> = vec![];
    for t in e {
        let v = match t {
            Op::X => R::X,
            Op::C(c) => R::Constant(fe(c)),
            Op::T(c, o) => R::Trace(*c, *o as isize),
            Op::Add => {
                let b = s.pop().unwrap();
                R::Add(Box::new(s.pop().unwrap()), Box::new(b))
            }
            Op::Mul => {
                let b = s.pop().unwrap();
                R::Mul(Box::new(s.pop().unwrap()), Box::new(b))
            }
            Op::Neg => R::Neg(Box::new(s.pop().unwrap())),
            Op::Inv => R::Inv(Box::new(s.pop().unwrap())),
            Op::Pow(k) => R::Exp(Box::new(s.pop().unwrap()), *k as usize),
            Op::P(p) => R::Polynomial(dense(p), Box::new(s.pop().unwrap())),
            Op::Q(i, b) => R::ClaimPolynomial(*i, *b, Box::new(s.pop().unwrap()), None),
        };
        s.push(v);
    }
    s.pop().unwrap()
}
/// back into postfix form
pub fn expr_back(r: &R) -> Expr {
    fn go(r: &R, out: &mut Expr) {
        let two = |a: &R, b: &R, op: Op, out: &mut Expr| {
            go(a, out);
            go(b, out);
            out.push(op);
        };
        match r {
            R::X => out.push(Op::X),
            R::Constant(c) => out.push(Op::C(f_back(c))),
            R::Trace(c, o) => out.push(Op::T(*c, *o as i64)),
            R::Add(a, b) => two(a, b, Op::Add, out),
            R::Mul(a, b) => two(a, b, Op::Mul, out),
            R::Neg(a) => {
                go(a, out);
                out.push(Op::Neg);
            }
            R::Inv(a) => {
                go(a, out);
                out.push(Op::Inv);
            }
            R::Exp(a, k) => {
                go(a, out);
                out.push(Op::Pow(*k as u64));
            }
            R::Polynomial(p, a) => {
                go(a, out);
                out.push(Op::P(p.coefficients().iter().map(f_back).collect()));
            }
            R::ClaimPolynomial(i, b, a, _) => {
                go(a, out);
                out.push(Op::Q(*i, *b));
            }
        }
    }
    let mut out = vec![];
    go(r, &mut out);
    out
}
pub fn f_back(c: &FieldElement) -> F {
    F::from_mont_be(&c.as_montgomery().to_bytes_be()).expect("trace: canonical")
}
fn constraints(s: &Sys) -> Constraints {
    let mut c = Constraints::from_expressions_detailed(
        (s.n(), s.ncols),
        s.seed.clone(),
        s.exprs.iter().map(rexpr).collect(),
        Some(s.blowup),
        Some(s.pow),
        Some(s.queries),
        Some(s.layout.clone()),
    )
    .expect("trace: power of two");
    if !s.claims.is_empty() {
        c.add_claim_polynomials(s.claims.iter().map(|p| dense(p)).collect());
    }
    c
}
fn table(t: &Table) -> TraceTable {
    let n = t.first().map_or(0, Vec::len);
    let mut r = TraceTable::new(n, t.len());
    for (j, c) in t.iter().enumerate() {
        for (i, v) in c.iter().enumerate() {
            r[(i, j)] = fe(v);
        }
    }
    r
}

struct Case {
    sys: Sys,
    /// as given, and as changed
    good: Table,
    bad: Table,
    changed: bool,
    broken: Vec<(usize, usize)>,
}
fn case(st: &Value) -> Case {
    let sys = Sys::of(st.f("sys"), st.f("es"));
    if !st.f("sound").b() {
        panic!("trace: system is not well formed");
    }
    let good = sys.fill();
    let t = st.f("table").list();
    if !t.is_empty() {
        let t: Table = t.iter().map(stark::fs).collect();
        assert!(t == good, "trace: table differs from the reference");
    }
    let d = st.f("deg1");
    assert_eq!(d.f("system").u(), sys.degree(), "trace: degree");
    assert_eq!(d.f("parts").u(), sys.parts(), "trace: parts");
    for (e, a) in sys.exprs.iter().zip(d.f("adjust").usizes()) {
        assert_eq!(sys.adjust(e), a, "trace: adjustment");
    }
    let ch = st.f("change");
    let col = ch.tup(0).int();
    let mut bad = good.clone();
    if !col.neg {
        bad[col.usize()][ch.tup(1).u()] = stark::f_of(ch.tup(2));
    }
    let broken = st.f("broken1").list().iter().map(|b| (b.tup(0).u(), b.tup(1).u())).collect();
    Case { sys, good, bad, changed: !col.neg, broken }
}

fn c01(ck: &mut Ck, c: &Case) {
    let k = constraints(&c.sys);
    let t = table(&c.good);
    let label = |w: &str| format!("honest:{}", w);
    let p = ck.get(&label("prove"), || prove(&k, &t).map_err(|e| format!("{:?}", e)));
    match p {
        Some(Ok(p)) => {
            ck.eq(&label("verify"), Ok(()), || verify(&k, &p).map_err(|e| format!("{:?}", e)));
        }
        Some(Err(e)) => ck.fail(&label("prove"), "a proof".into(), e),
        None => {}
    }
    ck.note(&format!("rows 2^{}", c.sys.lg));
    ck.note(&format!("parts {}", c.sys.parts()));
    ck.note(&format!("blowup {}", c.sys.blowup));
}

/// Nothing is divided by zero where the prover evaluates the constraints.
fn defined(c: &Case) -> bool {
    let size = c.sys.n() * c.sys.parts();
    let w = F::root(size as u64);
    let mut x = stark::three();
    (0..size).all(|i| {
        let ok = c.sys.exprs.iter().all(|e| stark::eval(e, &c.sys.claims, x, &|c, o| F::u((i as i64 * 64 + 7 * c as i64 + o + 9) as u64)).is_some());
        x = x * w;
        ok
    })
}
fn c07(ck: &mut Ck, c: &Case, threads: usize) {
    let made = stark::prove(&c.sys, &c.good, &[]);
    stark::verify(&c.sys, &made.bytes).unwrap_or_else(|e| panic!("trace: reference proof is refused: {}", e));
    assert!(made.oods_ok, "trace: reference values");
    let k = constraints(&c.sys);
    let t = table(&c.good);
    let pool = pool(threads);
    ck.note(&format!("threads {}", threads));
    if let Some(p) = ck.get("prove", || pool.install(|| prove(&k, &t)).map(|p| p.as_bytes().to_vec()).map_err(|e| format!("{:?}", e))) {
        match p {
            Err(e) => ck.fail("prove", "a proof".into(), e),
            Ok(p) => same_bytes(ck, "proof", &made, &p),
        }
    }
}
fn same_bytes(ck: &mut Ck, label: &str, made: &stark::Made, p: &[u8]) {
    for x in &made.parts {
        let name: String = x.name.chars().filter(|c| !c.is_ascii_digit()).collect();
        let (want, got) = (&made.bytes[x.at..x.at + x.len], p.get(x.at..x.at + x.len));
        ck.eq(&format!("{}:{}", label, name), Some(hex::encode(want)), || got.map(hex::encode));
    }
    ck.eq(&format!("{}:length", label), made.bytes.len(), || p.len());
}

// ---- C03, C04: changed proofs and claims ------------------------------------------
fn filler(v: &F, n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut k = 0u64;
    while out.len() < n {
        out.extend_from_slice(&vharness::keccak::keccak(&[&v.mont_be(), &k.to_be_bytes()]));
        k += 1;
    }
    out.truncate(n);
    out
}
struct Change {
    kind: String,
    part: usize,
    i: usize,
    j: usize,
    v: F,
}
fn change_of(v: &Value) -> Change {
    Change { kind: v.f("kind").s().into(), part: v.f("part").u(), i: v.f("i").u(), j: v.f("j").u(), v: stark::f_of(v.f("v")) }
}
/// The bytes after the change; None when it is one of the claim.
fn add_modulus(b: &mut [u8]) {
    let m = vharness::fp::modulus_be();
    let mut carry = 0u32;
    for k in (0..32).rev() {
        carry += u32::from(b[k]) + u32::from(m[k]);
        b[k] = carry as u8;
        carry >>= 8;
    }
}
fn change_bytes(c: &Change, made: &stark::Made, other: &stark::Made) -> Option<Vec<u8>> {
    let mut b = made.bytes.clone();
    let parts: Vec<&stark::Part> = made.parts.iter().filter(|p| p.len > 0).collect();
    let p = parts[c.part % parts.len()];
    // entries are single elements or whole rows
    let unit = if p.unit == 8 || c.j % 2 == 0 { p.unit } else { 32 };
    let n = p.len / unit;
    let (e, f) = (p.at + c.i % n * unit, p.at + c.j % n * unit);
    match c.kind.as_str() {
        "flip" => b[p.at + c.i % p.len] ^= 1 << (c.j % 8),
        "plusP" if unit >= 32 => {
            add_modulus(&mut b[e..e + 32]);
        }
        "plusP" => b[e] ^= 0x80,
        "zero" => b[e..e + unit].iter_mut().for_each(|x| *x = 0),
        "put" => {
            let v = c.v.mont_be();
            let k = unit.min(32);
            b[e..e + k].copy_from_slice(&v[32 - k..]);
        }
        "swap" => {
            let (x, y) = (b[e..e + unit].to_vec(), b[f..f + unit].to_vec());
            b[e..e + unit].copy_from_slice(&y);
            b[f..f + unit].copy_from_slice(&x);
        }
        "again" => {
            let x = b[e..e + unit].to_vec();
            b.splice(e..e, x);
        }
        "drop" => {
            b.drain(e..e + unit);
        }
        "cut" => b.truncate((4096 * c.i + c.j) % b.len()),
        "append" => b.extend(filler(&c.v, 1 + c.i % 40)),
        "part" => {
            let q = parts[c.j % parts.len()];
            let k = p.len.min(q.len);
            let (x, y) = (b[p.at..p.at + k].to_vec(), b[q.at..q.at + k].to_vec());
            b[p.at..p.at + k].copy_from_slice(&y);
            b[q.at..q.at + k].copy_from_slice(&x);
        }
        "other" => {
            let q = other.parts.iter().find(|q| q.name == p.name).expect("trace: part");
            b.splice(p.at..p.at + p.len, other.bytes[q.at..q.at + q.len].to_vec());
        }
        "shift" => b[p.at..p.at + p.len].rotate_left((1 + c.i % 31) % p.len),
        "garbage" => b = filler(&c.v, if c.j % 2 == 0 { b.len() } else { c.i }),
        "tail" => {
            let k = b.len() - p.at;
            let t = filler(&c.v, k);
            b[p.at..].copy_from_slice(&t);
        }
        "reverse" => b[p.at..p.at + p.len].reverse(),
        "long" => {
            let x = b.clone();
            b.extend(x);
        }
        _ => return None,
    }
    Some(b)
}
fn sound(s: &Sys) -> bool {
    let cell = |c: usize, o: i64| F::u((1000 + 64 * c as i64 + o) as u64);
    !s.exprs.is_empty()
        // no division by something that is zero throughout
        && s.exprs.iter().all(|e| stark::eval(e, &s.claims, F::u(0x1234_5678_9abc), &cell).is_some())
        && s.exprs.iter().all(|e| {
            let (a, b) = stark::degree(e, 0, 1);
            a >= b
        })
        && s.degree() > 0
        && s.parts() <= s.blowup
        && s.layout.iter().sum::<usize>() <= s.lg as usize
        && s.layout.iter().all(|k| (1..=4).contains(k))
        && s.exprs.iter().all(|e| {
            let (a, b) = stark::degree(e, 1, s.n() - 1);
            s.degree() * s.n() - 1 + b >= a
        })
}
fn change_claim(c: &Change, sys: &Sys) -> Sys {
    let mut s = sys.clone();
    let tokens = |f: &dyn Fn(&Op) -> bool| -> Vec<(usize, usize)> {
        sys.exprs
            .iter()
            .enumerate()
            .flat_map(|(i, e)| e.iter().enumerate().filter(|(_, t)| f(t)).map(move |(j, _)| (i, j)).collect::<Vec<_>>())
            .collect()
    };
    let ne = s.exprs.len();
    match c.kind.as_str() {
        "seed" => match (s.seed.len(), c.j % 3) {
            (0, _) | (_, 0) => s.seed.push(c.part as u8),
            (n, 1) => s.seed[c.i % n] ^= 1 << (c.part % 8),
            _ => {
                s.seed.pop();
            }
        },
        "claim" if !s.claims.is_empty() => {
            let n = s.claims.len();
            let q = &mut s.claims[c.i % n];
            let k = c.j % q.len();
            q[k] = q[k] + F::one();
        }
        "constant" => {
            let t = tokens(&|t| matches!(t, Op::C(_)));
            if !t.is_empty() {
                let (i, j) = t[c.i % t.len()];
                if let Op::C(v) = &mut s.exprs[i][j] {
                    *v = if c.j % 2 == 0 { *v + F::one() } else { c.v };
                }
            }
        }
        "blowup" => s.blowup = if c.j % 2 == 0 && s.blowup / 2 >= s.parts() { s.blowup / 2 } else { s.blowup * 2 },
        "queries" => s.queries = if c.j % 2 == 0 && s.queries > 1 { s.queries - 1 } else { s.queries + 1 },
        "pow" => s.pow = [s.pow + 1, s.pow.saturating_sub(1), 0][c.j % 3],
        "layout" => {
            let n = s.layout.len();
            match c.j % 4 {
                0 => s.layout.push(1),
                1 if n > 0 => {
                    s.layout.pop();
                }
                2 if n > 1 => s.layout.swap(c.i % n, (c.i + 1) % n),
                _ if n > 0 && s.layout[c.i % n] > 1 => {
                    s.layout[c.i % n] -= 1;
                    s.layout.insert(c.i % n, 1);
                }
                _ if n > 1 => {
                    let k = s.layout.pop().unwrap();
                    *s.layout.last_mut().unwrap() += k;
                }
                _ => {}
            }
        }
        "order" if ne > 1 => s.exprs.swap(c.i % ne, (c.i + 1 + c.j % (ne - 1)) % ne),
        "fewer" if ne > 1 => {
            s.exprs.remove(c.i % ne);
        }
        "double" => {
            let e = s.exprs[c.i % ne].clone();
            s.exprs.insert(c.j % (ne + 1), e);
        }
        "cell" => {
            let t = tokens(&|t| matches!(t, Op::T(..)));
            if !t.is_empty() {
                let (i, j) = t[c.i % t.len()];
                if let Op::T(col, o) = &mut s.exprs[i][j] {
                    if c.j % 2 == 0 || sys.ncols == 1 {
                        *o += if c.j % 4 < 2 { 1 } else { -1 };
                    } else {
                        *col = (*col + 1) % sys.ncols;
                    }
                }
            }
        }
        "rows" => s.lg += 1,
        "columns" => s.ncols += 1,
        "degree" => {
            let t = tokens(&|t| matches!(t, Op::Pow(_)));
            if !t.is_empty() {
                let (i, j) = t[c.i % t.len()];
                if let Op::Pow(k) = &mut s.exprs[i][j] {
                    *k = if c.j % 2 == 0 { *k + 1 } else { k.saturating_sub(1) };
                }
            }
        }
        _ => {}
    }
    if sound(&s) {
        s
    } else {
        sys.clone()
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum Verdict {
    Accept,
    Reject,
}
fn verdict(r: Result<(), &str>) -> Verdict {
    if r.is_ok() {
        Verdict::Accept
    } else {
        Verdict::Reject
    }
}
/// What the code says; a panic is no acceptance.
fn real_verdict(ck: &mut Ck, label: &str, k: &Constraints, b: &[u8]) -> Verdict {
    let p = Proof::from_bytes(b.to_vec());
    match ck.call(label, || verify(k, &p)) {
        Out::Ok(Ok(())) => Verdict::Accept,
        _ => Verdict::Reject,
    }
}
fn c03(ck: &mut Ck, c: &Case, trials: &[Value], sweep: bool) {
    let made = stark::prove(&c.sys, &c.good, &[]);
    let mut seed2 = c.sys.clone();
    seed2.seed.push(1);
    let other = stark::prove(&seed2, &c.good, &[]);
    let k = constraints(&c.sys);
    ck.eq("unchanged", Verdict::Accept, || verdict(verify(&k, &Proof::from_bytes(made.bytes.clone())).map_err(|_| "")));
    for t in trials {
        let ch = change_of(t.f("what"));
        let label = format!("change:{}", ch.kind);
        let (sys, bytes) = match change_bytes(&ch, &made, &other) {
            Some(b) => (c.sys.clone(), b),
            None => (change_claim(&ch, &c.sys), made.bytes.clone()),
        };
        let want = verdict(stark::verify(&sys, &bytes));
        match t.f("says").s() {
            "reject" => assert_eq!(want, Verdict::Reject, "trace: the reference accepts {:?}", ch.kind),
            "same" => assert_eq!(want, Verdict::Accept, "trace: the reference rejects {:?}", ch.kind),
            _ => {}
        }
        if bytes != made.bytes || format!("{:?}", sys) != format!("{:?}", c.sys) {
            ck.note(&format!("{}, {:?}", ch.kind, want));
        }
        let k = constraints(&sys);
        let got = real_verdict(ck, &label, &k, &bytes);
        ck.eq(&label, want, || got);
    }
    if sweep && made.bytes.len() <= 4000 {
        // every byte of the proof
        for i in 0..made.bytes.len() {
            let mut b = made.bytes.clone();
            b[i] ^= 1 << (i * 5 % 8);
            let name = &made.parts.iter().rev().find(|p| p.at <= i && i < p.at + p.len).unwrap().name;
            let name: String = name.chars().filter(|c| !c.is_ascii_digit()).collect();
            let label = format!("byte:{}", name);
            let got = real_verdict(ck, &label, &k, &b);
            // tiny systems leave nothing for some challenges to find
            let want = if got == Verdict::Accept { verdict(stark::verify(&c.sys, &b)) } else { Verdict::Reject };
            ck.eq(&label, want, || got);
        }
        for i in 0..made.bytes.len() {
            let got = real_verdict(ck, "prefix", &k, &made.bytes[..i]);
            ck.eq("prefix", Verdict::Reject, || got);
        }
        ck.note("every byte and every prefix");
    }
}
fn c04(ck: &mut Ck, c: &Case, trials: &[Value], sweep: bool) {
    let made = stark::prove(&c.sys, &c.good, &[]);
    let mut seed2 = c.sys.clone();
    seed2.seed.push(1);
    let other = stark::prove(&seed2, &c.good, &[]);
    let run = |ck: &mut Ck, what: &str, sys: &Sys, b: &[u8]| {
        let k = constraints(sys);
        let p = Proof::from_bytes(b.to_vec());
        ck.eq(&format!("verify:{}", what), verdict(stark::verify(sys, b)), || verdict(verify(&k, &p).map_err(|_| "")));
        ck.get(&format!("serialize:{}", what), || proof_serialize(&k, &p, &mut String::new()).is_ok());
    };
    for t in trials {
        let ch = change_of(t.f("what"));
        match change_bytes(&ch, &made, &other) {
            Some(b) => run(ck, &ch.kind, &c.sys, &b),
            None => run(ck, &ch.kind, &change_claim(&ch, &c.sys), &made.bytes),
        }
    }
    // prefixes, alone and with something after them
    let step = if sweep && made.bytes.len() <= 6000 { 1 } else { 1 + made.bytes.len() / 60 };
    for i in (0..made.bytes.len()).step_by(step) {
        run(ck, "prefix", &c.sys, &made.bytes[..i]);
    }
    for i in 0..40 {
        run(ck, "garbage", &c.sys, &filler(&F::u(i as u64), i * i));
        run(ck, "repeated", &c.sys, &vec![(i * 7) as u8; made.bytes.len() + i - 20.min(made.bytes.len())]);
    }
    for p in made.parts.iter() {
        let mut b = made.bytes[..p.at].to_vec();
        b.resize(made.bytes.len(), 0);
        run(ck, "zeros after", &c.sys, &b);
        b[p.at..].iter_mut().for_each(|x| *x = 0xff);
        run(ck, "ones after", &c.sys, &b);
    }
}

// ---- C02, C05, C06: dishonest provers -----------------------------------------------
fn dev(v: &Value) -> Dev {
    let k = v.f("k").u();
    match v.f("kind").s() {
        "omit" => Dev::Omit(k),
        "zeros" => Dev::Zeros(k),
        "traceRoot" => Dev::TraceRoot,
        "consRoot" => Dev::ConstraintRoot,
        "traceLeaf" => Dev::TraceLeaf,
        "consLeaf" => Dev::ConstraintLeaf,
        "free" => Dev::FreeConstraints(k as u64),
        "skip" => Dev::Skip(k),
        "traceValue" => Dev::TraceValue(k),
        "consValue" => Dev::ConstraintValue(k),
        "degree" => Dev::HighDegree(k),
        "highFri" => Dev::HighFri,
        "layerRoot" => Dev::LayerRoot(k),
        "layer" => Dev::Layer(k),
        "last" => Dev::Last(k),
        "vanish" => Dev::LastVanish,
        "own" => Dev::OwnQueries,
        "second" => Dev::SecondNonce,
        "traceRow" => Dev::OtherRow(false, k),
        "consRow" => Dev::OtherRow(true, k),
        "traceTwice" => Dev::Twice(false),
        "consTwice" => Dev::Twice(true),
        "spot" => Dev::Spot(k % 16, (k / 16) % 8, k / 128),
        d => panic!("trace: deviation {}", d),
    }
}
fn attacks(ck: &mut Ck, c: &Case, list: &[Value], only: &dyn Fn(&str) -> bool) {
    let k = constraints(&c.sys);
    for a in list {
        let kinds: Vec<&str> = a.f("devs").list().iter().map(|d| d.f("kind").s()).collect();
        if !kinds.iter().all(|d| only(d)) {
            continue;
        }
        let devs: Vec<Dev> = a.f("devs").list().iter().map(dev).collect();
        let fails = a.f("fails").list();
        let made = stark::prove(&c.sys, &c.bad, &devs);
        let want = verdict(stark::verify(&c.sys, &made.bytes));
        if fails.is_empty() {
            assert_eq!(want, Verdict::Accept, "trace: the reference rejects a permitted proof {:?}", devs);
        }
        let label = match kinds.len() {
            0 if c.broken.is_empty() => "honest proof".to_string(),
            0 => "attack:false claim".to_string(),
            1 => format!("attack:{}", kinds[0]),
            _ => "attack:two deviations".to_string(),
        };
        let got = real_verdict(ck, &label, &k, &made.bytes);
        ck.eq(&label, want, || got);
        ck.note(&format!("{}{}, {:?}", label, if c.broken.is_empty() { "" } else { " on a false claim" }, want));
    }
}
fn c02(ck: &mut Ck, c: &Case, list: &[Value]) {
    attacks(ck, c, list, &|_| true);
    own_prover(ck, c);
}
/// The library's prover proves exactly what holds.
fn own_prover(ck: &mut Ck, c: &Case) {
    let k = constraints(&c.sys);
    let t = table(&c.bad);
    let ok = ck.get("prover", || prove(&k, &t).is_ok());
    if let Some(ok) = ok {
        ck.eq(if c.broken.is_empty() { "prover:satisfied" } else { "prover:violated" }, c.broken.is_empty(), || ok);
    }
}

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("trace: pool")
}
/// The work of the proof, searched for by the given number of threads.
fn c06(ck: &mut Ck, c: &Case, threads: usize, repeats: usize) {
    let made = stark::prove(&c.sys, &c.good, &[]);
    let at = made.parts.iter().find(|p| p.name == "pow_nonce").unwrap().at;
    let seed = stark::pow_seed(&made.pow_digest, c.sys.pow);
    let k = constraints(&c.sys);
    let t = table(&c.good);
    let pool = pool(threads);
    for _ in 0..repeats {
        let r = ck.get("search", || pool.install(|| prove(&k, &t).map(|p| p.as_bytes().to_vec()).map_err(|e| format!("{:?}", e))));
        match r {
            Some(Ok(p)) => {
                let nonce = p.get(at..at + 8).map(|b| u64::from_be_bytes(b.try_into().unwrap()));
                ck.eq("smallest nonce", Some(made.nonce), || nonce);
                // the rest of the transcript is judged by C07
                ck.eq("work done", true, || nonce.map_or(false, |n| stark::pow_zeros(&seed, n) >= c.sys.pow));
            }
            Some(Err(e)) => ck.fail("search", "a proof".into(), e),
            None => {}
        }
    }
    // nonces around the threshold: accepted exactly when the work is enough
    let mut b = made.bytes.clone();
    for n in 0..24u64 {
        let n = if n < 12 { n } else { (made.nonce + n).wrapping_sub(18) };
        b[at..at + 8].copy_from_slice(&n.to_be_bytes());
        let p = Proof::from_bytes(b.clone());
        if let Out::Ok(r) = ck.call("nonce", || verify(&k, &p)) {
            ck.eq("nonce", verdict(stark::verify(&c.sys, &b)), || verdict(r.map_err(|_| "")));
        }
    }
    ck.note(&format!("difficulty {}", c.sys.pow));
    ck.note(&format!("threads {}", threads));
}

/// Less work than asked for.
fn c06_lazy(ck: &mut Ck, c: &Case, shown: usize) {
    let made = stark::prove(&c.sys, &c.good, &[Dev::Zeros(shown)]);
    let r = stark::verify(&c.sys, &made.bytes);
    assert!(r.is_err(), "trace: too little work accepted by the reference");
    let p = Proof::from_bytes(made.bytes.clone());
    let k = constraints(&c.sys);
    if let Out::Ok(r) = ck.call("too little work", || verify(&k, &p)) {
        ck.eq("too little work", "Reject", || if r.is_ok() { "Accept" } else { "Reject" });
    }
    ck.note("too little work");
}

/// The search alone, again and again.
#[cfg(openzkp_verif)]
fn c06_race(ck: &mut Ck, st: &Value) {
    let seed: Vec<u8> = st.f("seed").usizes().into_iter().map(|b| b as u8).collect();
    let seed: [u8; 32] = seed.try_into().expect("trace: seed");
    if !st.f("known").b() {
        return;
    }
    let least = st.f("least").u() as u64;
    let (difficulty, threads) = (st.f("difficulty").u(), st.f("threads").u());
    let pool = pool(threads);
    for _ in 0..st.f("repeats").u() {
        ck.eq("search alone", least, || pool.install(|| zkp_stark::verif_solve(seed, difficulty)));
    }
    ck.note(&format!("search alone, threads {}", threads));
}
#[cfg(not(openzkp_verif))]
fn c06_race(ck: &mut Ck, _: &Value) {
    ck.note("search alone left out: the entry point did not compile");
}

// ---- C08: expressions --------------------------------------------------------------
/// The same expression, built with operators and conversions.
fn rexpr_ops(e: &Expr) -> R {
    let mut s: Vec<R> = vec![];
    for (k, t) in e.iter().enumerate() {
        let next = e.get(k + 1);
        let v = match t {
            Op::X => R::X,
            Op::C(c) if *c == F::one() => R::from(1),
            Op::C(c) if *c == -F::one() => R::from(-1),
            Op::C(c) if k % 2 == 0 => R::from(fe(c)),
            Op::C(c) => R::from(&fe(c)),
            Op::T(c, o) => R::Trace(*c, *o as isize),
            Op::Add => {
                let b = s.pop().unwrap();
                let a = s.pop().unwrap();
                match b {
                    // written as a subtraction
                    R::Neg(b) if k % 3 > 0 => a - *b,
                    R::Constant(c) if k % 2 == 0 => a + &c,
                    b if k % 5 == 0 => vec![a, b].into_iter().sum(),
                    b => a + b,
                }
            }
            Op::Mul => {
                let b = s.pop().unwrap();
                let a = s.pop().unwrap();
                match b {
                    R::Inv(b) if k % 3 > 0 => a / *b,
                    R::Constant(c) if k % 2 == 0 => a * c,
                    b => a * b,
                }
            }
            Op::Neg => s.pop().unwrap().neg(),
            Op::Inv => s.pop().unwrap().inv(),
            Op::Pow(k) => s.pop().unwrap().pow(*k as usize),
            Op::P(p) => R::Polynomial(dense(p), Box::new(s.pop().unwrap())),
            Op::Q(i, b) => R::ClaimPolynomial(*i, *b, Box::new(s.pop().unwrap()), Some("claim")),
        };
        let _ = next;
        s.push(v);
    }
    s.pop().unwrap()
}
fn c08_expr(ck: &mut Ck, st: &Value) {
    let e = stark::expr_of(st.f("e"));
    let by = stark::expr_of(st.f("by"));
    let claims: Vec<Vec<F>> = st.f("claims").list().iter().map(stark::fs).collect();
    let x = stark::f_of(st.f("x"));
    let seed = st.f("seed").int();
    let cell = |c: usize, o: isize| fe(&stark::mix(&seed, (64 * c as i64 + o as i64 + 8) as usize));
    let rcell = |c: usize, o: i64| stark::mix(&seed, (64 * c as i64 + o + 8) as usize);
    let num = |v: &Value| if v.int().neg { None } else { Some(stark::f_of(v)) };
    let (value, composed) = (num(st.f("value")), num(st.f("composed")));
    assert_eq!(stark::eval(&e, &claims, x, &rcell), value, "trace: reference evaluation");
    let dc: Vec<DensePolynomial> = claims.iter().map(|c| dense(c)).collect();
    let degrees: Vec<(usize, usize)> = st.f("degrees").list().iter().map(|d| (d.tup(0).u(), d.tup(1).u())).collect();
    let reads: Vec<(usize, isize)> =
        st.f("reads").list().iter().map(|d| (d.tup(0).u(), d.tup(1).int().i64() as isize)).collect();
    let has_claims = e.iter().any(|t| matches!(t, Op::Q(..)));
    for (form, r) in [("tree", rexpr(&e)), ("operators", rexpr_ops(&e))] {
        for (k, td) in [0usize, 1, 7, 1023].iter().enumerate() {
            ck.eq(&format!("degree:{}", form), degrees[k], || r.degree(*td));
        }
        ck.eq(&format!("trace degree:{}", form), degrees[4], || r.trace_degree());
        ck.eq(&format!("unchanged:{}", form), true, || r.map(&|n| n) == r);
        if !st.f("fits").b() {
            continue;
        }
        let Some(sub) = ck.get(&format!("substitute:{}", form), || r.substitute_claim(&dc)) else { continue };
        ck.eq(&format!("cells:{}", form), reads.clone(), || sub.trace_arguments().into_iter().collect());
        if !has_claims {
            ck.eq(&format!("nothing to substitute:{}", form), true, || sub == r);
        }
        let all: std::collections::BTreeSet<(usize, isize)> = sub.trace_arguments();
        if let Some(v) = value {
            // only cells that were reported may be read
            ck.eq(&format!("evaluate:{}", form), fe(&v), || {
                sub.evaluate(&fe(&x), &|c, o| {
                    assert!(all.contains(&(c, o)), "reads a cell it does not report");
                    cell(c, o)
                })
            });
        }
        if let Some(v) = composed {
            let inner = rexpr(&by);
            let put = |n| match n {
                R::X => inner.clone(),
                n => n,
            };
            ck.eq(&format!("in place of X:{}", form), fe(&v), || {
                r.map(&put).substitute_claim(&dc).evaluate(&fe(&x), &cell)
            });
            ck.eq(&format!("in place of X, after substitution:{}", form), fe(&v), || {
                sub.map(&put).substitute_claim(&dc).evaluate(&fe(&x), &cell)
            });
        }
    }
    ck.note(if value.is_some() { "defined" } else { "division by zero" });
    // equality as functions, and as expressions
    if value.is_some() && st.f("fits").b() && !x.is_zero() && x != F::one() && x != F::u(2) {
        let sub = rexpr(&e).substitute_claim(&dc);
        let again = rexpr_ops(&e).substitute_claim(&dc);
        let other = R::X * sub.clone() / R::X + 1 - 1;
        ck.eq("equals:operators", true, || sub.equals(&again));
        ck.eq("equals:otherwise", true, || other.equals(&sub));
        ck.eq("equals:plus one", false, || (sub.clone() + 1).equals(&sub));
        ck.eq("equals:plus X", false, || sub.equals(&(again.clone() + R::X)));
        ck.eq("equals:next row", false, || (sub.clone() + R::Trace(0, 1)).equals(&(sub.clone() + R::Trace(0, 0))));
        ck.eq("equals:next column", false, || (sub.clone() + R::Trace(1, 0)).equals(&(sub.clone() + R::Trace(0, 0))));
    }
    let mut reads_cells = vec![];
    let mut polynomial_of_cell = false;
    for t in &e {
        let v = match t {
            Op::X | Op::C(_) => false,
            Op::T(..) => true,
            Op::Add | Op::Mul => {
                let b = reads_cells.pop().unwrap();
                b | reads_cells.pop().unwrap()
            }
            Op::P(_) | Op::Q(..) => {
                let a = reads_cells.pop().unwrap();
                polynomial_of_cell |= a;
                a
            }
            _ => reads_cells.pop().unwrap(),
        };
        reads_cells.push(v);
    }
    // the order of expressions: equal exactly for the same expression
    if !polynomial_of_cell && value.is_some() && !has_claims {
        let (r, o) = (rexpr(&e), rexpr_ops(&e));
        ck.eq("order:same", std::cmp::Ordering::Equal, || r.cmp(&rexpr(&e)));
        if let (Some(same), Some(ord)) = (ck.get("order", || r == o), ck.get("order", || r.cmp(&o))) {
            ck.eq("order:operators", same, || ord == std::cmp::Ordering::Equal);
        }
        // two that differ in one place
        // (within a polynomial's operand a difference may not matter)
        let last_p = e.iter().rposition(|t| matches!(t, Op::P(_))).unwrap_or(0);
        for k in last_p..e.len() {
            let mut d = e.clone();
            d[k] = match &e[k] {
                Op::C(c) => Op::C(*c + F::one()),
                Op::T(c, o) if k % 2 == 0 => Op::T(*c, *o + 1),
                Op::T(c, o) => Op::T(*c + 1, *o),
                Op::P(c) if e[k - 1] == Op::X => {
                    let mut c = c.clone();
                    let at = k % c.len();
                    c[at] = c[at] + F::one();
                    Op::P(c)
                }
                Op::Add => Op::Mul,
                Op::Mul => Op::Add,
                Op::Neg => Op::Pow(3),
                Op::Pow(n) => Op::Pow(n + 1),
                _ => continue,
            };
            let d = rexpr(&d);
            ck.eq("order:differs", true, || r.cmp(&d) != std::cmp::Ordering::Equal && r.cmp(&d) == d.cmp(&r).reverse() && r != d);
        }
    }
}
/// The prover's evaluation over the whole domain, seen in what it commits to.
fn c08_air(ck: &mut Ck, c: &Case) {
    let made = stark::prove(&c.sys, &c.good, &[]);
    let k = constraints(&c.sys);
    let t = table(&c.good);
    match ck.get("prover", || prove(&k, &t).map(|p| p.as_bytes().to_vec()).map_err(|e| format!("{:?}", e))) {
        Some(Ok(p)) => {
            for x in made.parts.iter().filter(|x| x.name.starts_with("constraint_") || x.name.starts_with("trace_oods")) {
                let (want, got) = (&made.bytes[x.at..x.at + x.len], p.get(x.at..x.at + x.len));
                ck.eq(&format!("prover:{}", x.name), Some(hex::encode(want)), || got.map(hex::encode));
            }
        }
        Some(Err(e)) => ck.fail("prover", "a proof".into(), e),
        None => {}
    }
    ck.eq("system degree", c.sys.degree(), || k.degree());
    let mut sk = k.clone();
    sk.substitute();
    let cells: Vec<(usize, isize)> = c.sys.cells().iter().map(|(c, o)| (*c, *o as isize)).collect();
    ck.eq("system cells", cells, || sk.trace_arguments());
}

// ---- C09: the checker --------------------------------------------------------------
struct Posed {
    k: Constraints,
    t: TraceTable,
}
impl Verifiable for Posed {
    fn constraints(&self) -> Constraints {
        self.k.clone()
    }
}
impl Provable<()> for Posed {
    fn trace(&self, _: ()) -> TraceTable {
        self.t.clone()
    }
}
fn c09(ck: &mut Ck, c: &Case) {
    for (what, t, broken) in [("given", &c.good, vec![]), ("changed", &c.bad, c.broken.clone())] {
        if what == "changed" && !c.changed {
            continue;
        }
        let p = Posed { k: constraints(&c.sys), t: table(t) };
        let judge = |ck: &mut Ck, label: &str, r: Result<(), (usize, usize)>| match r {
            Ok(()) => {
                ck.holds(label, broken.is_empty(), || format!("satisfied, but {:?} are violated", broken));
            }
            Err(at) => {
                ck.holds(label, broken.contains(&at), || format!("{:?} is violated, but not so: {:?}", at, broken));
            }
        };
        if let Some(r) = ck.get("check_constraints", || check_constraints(&p.k, &p.t)) {
            judge(ck, &format!("check_constraints:{}", what), r);
        }
        if let Some(r) = ck.get("Provable::check", || p.check(())) {
            judge(ck, &format!("Provable::check:{}", what), r);
        }
        for row in 0..c.sys.n() {
            for which in 0..c.sys.exprs.len() {
                let want = !broken.contains(&(row, which));
                ck.eq(&format!("check_specified:{}", what), want, || p.check_specified((), row, which).is_ok());
            }
        }
        // each constraint alone
        for which in 0..c.sys.exprs.len() {
            let mut one = c.sys.clone();
            one.exprs = vec![c.sys.exprs[which].clone()];
            let k = constraints(&one);
            let want = !broken.iter().any(|b| b.1 == which);
            ck.eq(&format!("alone:{}", what), want, || check_constraints(&k, &p.t).is_ok());
        }
        if let Some(ok) = ck.get("prove", || prove(&p.k, &p.t).is_ok()) {
            ck.eq(&format!("provable:{}", what), broken.is_empty(), || ok);
            ck.eq(&format!("agree:{}", what), ok, || check_constraints(&p.k, &p.t).is_ok());
        }
    }
}

/// The proof as spelled out by the specification, in phases "done" and "judged".
fn spelled(ck: &mut Ck, st: &Value, prop: &str) {
    let phase = st.f("phase").s();
    if phase != "done" && phase != "judged" {
        return;
    }
    let c = case(st);
    let bytes = |p: &Value| -> Vec<u8> {
        let words = |l: &Value, out: &mut Vec<u8>| {
            for v in l.list() {
                for l in v.int().limbs4().iter().rev() {
                    out.extend_from_slice(&l.to_be_bytes());
                }
            }
        };
        let mut b = vec![];
        words(p.f("head"), &mut b);
        b.extend_from_slice(&p.f("nonce").u64().to_be_bytes());
        words(p.f("rest"), &mut b);
        b
    };
    let k = constraints(&c.sys);
    if phase == "done" {
        let want = bytes(st.f("msgs"));
        let made = stark::prove(&c.sys, &c.good, &[]);
        assert_eq!(made.bytes, want, "trace: reference prover and Stark.qnt differ");
        assert!(stark::verify(&c.sys, &want).is_ok(), "trace: reference verifier and Stark.qnt differ");
        if prop != "C03" {
            if let Some(Some(p)) = ck.get("prove", || prove(&k, &table(&c.good)).ok().map(|p| p.as_bytes().to_vec())) {
                same_bytes(ck, "spelled out", &made, &p);
            } else {
                ck.fail("spelled out", "a proof".into(), "none".into());
            }
        }
        let got = real_verdict(ck, "spelled out proof", &k, &want);
        ck.eq("spelled out proof", Verdict::Accept, || got);
    } else {
        let b = bytes(st.f("changed"));
        let want = if st.f("verdict").b() { Verdict::Accept } else { Verdict::Reject };
        assert_eq!(verdict(stark::verify(&c.sys, &b)), want, "trace: reference verifier and Stark.qnt differ");
        let got = real_verdict(ck, "spelled out change", &k, &b);
        ck.eq("spelled out change", want, || got);
    }
}

fn main() {
    let a = args();
    let prop = a.prop.clone();
    drive(&a, 8, Duration::from_secs(120), move |ck, name, states, _opts| {
        let mut live = poly::Live::new();
        let scratch = format!("{}/vstark-{}-{}", std::env::temp_dir().display(), std::process::id(), name);
        if name.starts_with("Export") {
            std::fs::create_dir_all(&scratch).expect("scratch folder");
        }
        for (n, st) in states.iter().enumerate() {
            ck.enter(format!("{}#{}", name, n), st);
            if name.starts_with("ExprGen") {
                c08_expr(ck, st);
            } else if name.starts_with("Air") {
                if name.starts_with("AirDress") && !st.f("sound").b() {
                    ck.note("left out: degrees");
                    continue;
                }
                let c = case(st);
                if name.starts_with("AirDress") && !defined(&c) {
                    ck.note("left out: a division by zero");
                    continue;
                }
                match prop.as_str() {
                    "C01" => c01(ck, &c),
                    "C02" => own_prover(ck, &c),
                    "C05" => c07(ck, &c, 8),
                    "C07" => c07(ck, &c, if c.sys.lg > 12 { 8 } else { 1 + n % 9 }),
                    "C08" => c08_air(ck, &c),
                    "C09" => c09(ck, &c),
                    "C12" => export::c12_proof(ck, &c),
                    _ => panic!("trace: property"),
                }
            } else if name.starts_with("Attack") {
                let c = case(st);
                let t = st.f("attacks").list();
                match prop.as_str() {
                    "C02" => c02(ck, &c, t),
                    "C05" => attacks(ck, &c, t, &|d| d == "omit"),
                    "C06" => attacks(ck, &c, t, &|d| d == "zeros" || d == "second"),
                    _ => panic!("trace: property"),
                }
            } else if name.starts_with("Stark") {
                spelled(ck, st, &prop);
            } else if name.starts_with("Component") {
                component::c10(ck, st);
            } else if name.starts_with("Limits") {
                limits::c13(ck, st);
            } else if name.starts_with("Poly") {
                poly::c11(ck, st, &mut live);
            } else if name.starts_with("Export") {
                export::c12_contracts(ck, st, &scratch);
            } else if name.starts_with("PowGen") {
                match st.f("repeats").u() {
                    0 => c06_lazy(ck, &case(st), st.f("shown").u()),
                    n => c06(ck, &case(st), st.f("threads").u(), n),
                }
            } else if name.starts_with("PowRace") {
                c06_race(ck, st);
            } else if name.starts_with("Tamper") {
                let c = case(st);
                let t = st.f("trials").list();
                match prop.as_str() {
                    "C03" => c03(ck, &c, t, n % 4 == 0),
                    "C04" => c04(ck, &c, t, n % 4 == 0),
                    _ => panic!("trace: property"),
                }
            }
        }
        let _ = std::fs::remove_dir_all(&scratch);
    });
}
