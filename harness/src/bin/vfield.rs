//! Conformance driver for the prime field specifications (C21-C23).
use num_traits::ToPrimitive;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::time::Duration;
use vharness::fields::*;
use vharness::fp::{self, F};
use vharness::*;
use zkp_elliptic_curve::ScalarFieldElement;
use zkp_primefield::fft::{
    fft_vec_recursive, get_twiddles, permute, permute_index, radix_sqrt, small, transpose_square_stretch,
};
use zkp_primefield::geometric_series::{geometric_series, root_series, GeometricIter};
use zkp_primefield::{
    invert_batch, invert_batch_src_dst, AddInline, Fft, FieldElement, Inv, MulInline, NegInline, One,
    Parameters, Pow, PrimeField, Root, SquareInline, SquareRoot, SubInline, Zero,
};
use zkp_u256::U256;

fn u(v: &Value) -> U256 {
    U256::from_limbs(v.limbs())
}

fn ui(v: &Int) -> U256 {
    U256::from_limbs(v.limbs4())
}

/// Representation and canonicity of a result.
fn rep<P: Parameters<UInt = U256>>(x: PrimeField<P>) -> U256 {
    x.as_montgomery().clone()
}

macro_rules! forms {
    ($ck:expr, $n:expr, $a:expr, $b:expr, $e:expr, $op:tt, $opa:tt) => {{
        let (a, b, e) = (&$a, &$b, &$e);
        $ck.eq(concat!($n, ":ref_ref"), e.clone(), || rep(a $op b));
        $ck.eq(concat!($n, ":val_ref"), e.clone(), || rep(a.clone() $op b));
        $ck.eq(concat!($n, ":ref_val"), e.clone(), || rep(a $op b.clone()));
        $ck.eq(concat!($n, ":val_val"), e.clone(), || rep(a.clone() $op b.clone()));
        $ck.eq(concat!($n, ":assign_ref"), e.clone(), || { let mut t = a.clone(); t $opa b; rep(t) });
        $ck.eq(concat!($n, ":assign_val"), e.clone(), || { let mut t = a.clone(); t $opa b.clone(); rep(t) });
    }};
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn ops<P: Parameters<UInt = U256>>(ck: &mut Ck, st: &Value, tiny: bool) {
    type El<P> = PrimeField<P>;
    let (xm, ym, n) = (u(st.f("x")), u(st.f("y")), u(st.f("n")));
    let o = st.f("obs").map();
    let e = |k: &str| U256::from_limbs(o[k].limbs());
    let a: El<P> = El::from_montgomery(xm.clone());
    let b: El<P> = El::from_montgomery(ym.clone());

    forms!(ck, "add", a, b, e("add"), +, +=);
    ck.eq("add:inline", e("add"), || rep(a.add_inline(&b)));
    ck.eq("add:assign_inline", e("add"), || { let mut t = a.clone(); t.add_assign_inline(&b); rep(t) });
    ck.eq("add:trait", e("add"), || rep(AddInline::add(&a, &b)));
    forms!(ck, "sub", a, b, e("sub"), -, -=);
    ck.eq("sub:inline", e("sub"), || rep(a.sub_inline(&b)));
    ck.eq("sub:assign_inline", e("sub"), || { let mut t = a.clone(); t.sub_assign_inline(&b); rep(t) });
    ck.eq("sub:trait", e("sub"), || rep(SubInline::sub(&a, &b)));
    forms!(ck, "mul", a, b, e("mul"), *, *=);
    ck.eq("mul:inline", e("mul"), || rep(a.mul_inline(&b)));
    ck.eq("mul:assign_inline", e("mul"), || { let mut t = a.clone(); t.mul_assign_inline(&b); rep(t) });
    ck.eq("mul:trait", e("mul"), || rep(MulInline::mul(&a, &b)));
    if ym.is_zero() {
        ck.note("division by zero");
        ck.refuses("div0:ref_ref", || &a / &b);
        ck.refuses("div0:val_ref", || a.clone() / &b);
        ck.refuses("div0:ref_val", || &a / b.clone());
        ck.refuses("div0:val_val", || a.clone() / b.clone());
        ck.refuses("div0:assign_ref", || { let mut t = a.clone(); t /= &b; t });
        ck.refuses("div0:assign_val", || { let mut t = a.clone(); t /= b.clone(); t });
    } else {
        forms!(ck, "div", a, b, e("div"), /, /=);
    }
    ck.eq("neg:ref", e("neg"), || rep(-&a));
    ck.eq("neg:val", e("neg"), || rep(-a.clone()));
    ck.eq("neg:inline", e("neg"), || rep(a.neg_inline()));
    ck.eq("neg:assign", e("neg"), || { let mut t = a.clone(); t.neg_assign(); rep(t) });
    ck.eq("neg:assign_inline", e("neg"), || { let mut t = a.clone(); t.neg_assign_inline(); rep(t) });
    ck.eq("neg:trait", e("neg"), || rep(NegInline::neg(&a)));
    ck.eq("double", e("dbl"), || rep(a.double()));
    ck.eq("triple", e("tri"), || rep(a.triple()));
    ck.eq("square", e("sq"), || rep(a.square()));
    ck.eq("square:inline", e("sq"), || rep(a.square_inline()));
    ck.eq("square:assign", e("sq"), || { let mut t = a.clone(); t.square_assign(); rep(t) });
    ck.eq("square:assign_inline", e("sq"), || { let mut t = a.clone(); t.square_assign_inline(); rep(t) });
    ck.eq("sum", e("add"), || rep(vec![a.clone(), b.clone()].into_iter().sum()));
    ck.eq("sum:ref", e("add"), || rep([a.clone(), b.clone()].iter().sum()));
    ck.eq("sum:three", e("tri"), || rep([a.clone(), a.clone(), a.clone()].iter().sum()));
    ck.eq("sum:one", xm.clone(), || rep(vec![a.clone()].into_iter().sum()));
    ck.eq("sum:none", U256::ZERO, || rep(Vec::<El<P>>::new().into_iter().sum()));
    ck.eq("product", e("mul"), || rep(vec![a.clone(), b.clone()].into_iter().product()));
    ck.eq("product:ref", e("mul"), || rep([a.clone(), b.clone()].iter().product()));
    ck.eq("product:none", P::R1, || rep(Vec::<El<P>>::new().iter().product()));
    ck.eq("eq", xm == ym, || a == b);
    ck.eq("ne", xm != ym, || a != b);
    ck.eq("clone", true, || a.clone() == a);
    ck.eq("is_zero", xm.is_zero(), || a.is_zero());
    ck.eq("is_one", e("vx") == U256::ONE, || a.is_one());
    ck.eq("zero", true, || El::<P>::zero().is_zero() && El::<P>::default().is_zero());
    ck.eq("one", true, || El::<P>::one().is_one() && El::<P>::one().to_uint() == U256::ONE);
    ck.eq("modulus", P::MODULUS, || El::<P>::modulus());
    // conversions
    ck.eq("to_uint", e("vx"), || a.to_uint());
    ck.eq("into_uint", e("vx"), || U256::from(a.clone()));
    ck.eq("into_uint:ref", e("vx"), || U256::from(&a));
    ck.eq("from_uint", xm.clone(), || rep(El::<P>::from_uint(&e("vx"))));
    ck.eq("to_montgomery_const", xm.clone(), || zkp_u256::to_montgomery_const(&e("vx"), &P::MODULUS, P::M64, &P::R2));
    ck.eq("to_montgomery_const:any", e("red"), || zkp_u256::to_montgomery_const(&n, &P::MODULUS, P::M64, &P::R2));
    ck.eq("from_uint_reduce", e("red"), || rep(El::<P>::from_uint_reduce(&n)));
    ck.eq("from:u256", e("red"), || rep(El::<P>::from(n.clone())));
    ck.eq("from_uint_reduce:small", xm.clone(), || rep(El::<P>::from_uint_reduce(&e("vx"))));
    ck.eq("hash", true, || hash_of(&a) == hash_of(&El::<P>::from_uint(&e("vx"))));
    ck.eq("hash:result", true, || hash_of(&(&a + &b)) == hash_of(&El::<P>::from_montgomery(e("add"))));
    ck.eq("debug", format!("field_element!(\"{:?}\")", e("vx")), || format!("{:?}", a));
    let k = st.f("k").int();
    let ty = st.f("ty").u();
    let cst = e("cst");
    let got = ck.get("from:native", || match ty {
        0 => rep(El::<P>::from(k.u64() as u8)),
        1 => rep(El::<P>::from(k.u64() as u16)),
        2 => rep(El::<P>::from(k.u64() as u32)),
        3 => rep(El::<P>::from(k.u64())),
        4 => rep(El::<P>::from(k.u128())),
        5 => rep(El::<P>::from(k.u64() as usize)),
        6 => rep(El::<P>::from(k.i128() as i8)),
        7 => rep(El::<P>::from(k.i128() as i16)),
        8 => rep(El::<P>::from(k.i128() as i32)),
        9 => rep(El::<P>::from(k.i128() as i64)),
        10 => rep(El::<P>::from(k.i128())),
        _ => rep(El::<P>::from(k.i128() as isize)),
    });
    if let Some(g) = got {
        let name = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"][ty];
        ck.eq(&format!("from:{}", name), cst.clone(), || g);
        if !tiny {
            // and back through the same kind of native type
            let el = El::<P>::from_montgomery(cst);
            if ty < 6 {
                ck.eq("native:back_u128", Some(k.u128()), || el.to_u128());
            } else {
                ck.eq("native:back_i128", Some(k.i128()), || el.to_i128());
                ck.eq("native:back_isize", i64::try_from(k.i128()).ok().map(|v| v as isize), || el.to_isize());
            }
        }
    }
    if !tiny {
        let v = o["vx"].int();
        let s = o["signed"].int();
        let yes = |w: &str| o[w].u() == 1;
        ck.eq("to_u128", if yes("u128") { Some(v.u128()) } else { None }, || a.to_u128());
        ck.eq("to_u64", if yes("u64") { Some(v.u64()) } else { None }, || a.to_u64());
        ck.eq("to_usize", if yes("u64") { Some(v.u64() as usize) } else { None }, || a.to_usize());
        ck.eq("to_i128", if yes("i128") { Some(s.i128()) } else { None }, || a.to_i128());
        ck.eq("to_i64", if yes("i64") { Some(s.i128() as i64) } else { None }, || a.to_i64());
        ck.eq("to_isize", if yes("i64") { Some(s.i128() as isize) } else { None }, || a.to_isize());
    }
    // serialised form
    if let Some(t) = ck.get("json:out", || serde_json::to_string(&a).unwrap()) {
        ck.eq("json:text", serde_json::to_string(&e("vx")).unwrap(), || t.clone());
        ck.eq("json:back", Some(xm.clone()), || serde_json::from_str::<El<P>>(&t).ok().map(rep));
    }
    let text = serde_json::to_string(&n).unwrap();
    let fit = o["fit"].u() == 1;
    ck.eq("json:range", if fit { Some(e("red")) } else { None }, || serde_json::from_str::<El<P>>(&text).ok().map(rep));
    if let Some(t) = ck.get("bincode:out", || bincode::serialize(&a).unwrap()) {
        ck.eq("bincode:back", Some(xm.clone()), || bincode::deserialize::<El<P>>(&t).ok().map(rep));
    }
    let bytes = bincode::serialize(&n).unwrap();
    ck.eq("bincode:range", if fit { Some(e("red")) } else { None }, || bincode::deserialize::<El<P>>(&bytes).ok().map(rep));
}

fn ops0(ck: &mut Ck, st: &Value) {
    let o = st.f("obs").map();
    let v = U256::from_limbs(o["vx"].limbs());
    let x = u(st.f("x"));
    ck.eq("const:from_uint", x.clone(), || rep(FieldElement::from_uint_const(&v)));
    ck.eq("const:from_montgomery", x.clone(), || rep(FieldElement::from_montgomery_const(x.clone())));
    // the reference arithmetic of this driver is checked against the specification too
    let (a, b) = (F::from_mont(st.f("x").limbs()).unwrap(), F::from_mont(st.f("y").limbs()).unwrap());
    let w = |k: &str| o[k].limbs();
    assert!((a + b).mont() == w("add") && (a - b).mont() == w("sub") && (a * b).mont() == w("mul"));
    assert!(b.is_zero() || (a / b).mont() == w("div"));
    assert!(a.value() == w("vx") && F::of(w("vy")) == b);
}

fn fun<P: Parameters<UInt = U256>>(ck: &mut Ck, st: &Value)
where
    P: 'static,
{
    type El<P> = PrimeField<P>;
    let x = u(st.f("x"));
    let o = st.f("obs").map();
    let opt = |k: &str| if o[k].int().neg { None } else { Some(U256::from_limbs(o[k].limbs())) };
    let el = El::<P>::from_uint(&x);
    ck.eq("inv", opt("inv"), || (&el).inv().map(|v| v.to_uint()));
    ck.eq("inv:canonical", true, || (&el).inv().map_or(true, |v| v.as_montgomery() < &P::MODULUS));
    let ex = u(st.f("e"));
    let word = ex.limb(0) as usize;
    ck.eq("pow:u256", opt("pow"), || Some((&el).pow(&ex).to_uint()));
    ck.eq("pow:usize", opt("powu"), || Some((&el).pow(word).to_uint()));
    ck.eq("pow:usize_ref", opt("powu"), || Some((&el).pow(&word).to_uint()));
    let es = st.f("es").int().i128() as isize;
    ck.eq("pow:isize", opt("pows"), || (&el).pow(es).map(|v| v.to_uint()));
    let euler = opt("euler").unwrap();
    let qr = x.is_zero() || euler == U256::ONE;
    ck.eq("is_quadratic_residue", qr, || el.is_quadratic_residue());
    if let Some(r) = ck.get("square_root", || el.square_root()) {
        ck.eq("square_root:exists", qr, || r.is_some());
        if let Some(r) = r {
            let v = r.to_uint();
            // squared by the driver's own arithmetic
            let md = fp::Modulus::new(*P::MODULUS.as_limbs());
            let rm = *r.as_montgomery().as_limbs();
            ck.eq("square_root:squares", *el.as_montgomery().as_limbs(), || md.mul(&rm, &rm));
            ck.holds("square_root:canonical", r.as_montgomery() < &P::MODULUS && v < P::MODULUS, || format!("{:?}", v));
        }
    }
    let ord = u(st.f("ord"));
    ck.eq("root:u256", opt("root"), || El::<P>::root(&ord).map(|v| v.to_uint()));
    if ord.limb(1) == 0 && ord.limb(2) == 0 && ord.limb(3) == 0 {
        ck.eq("root:usize", opt("root"), || El::<P>::root(ord.limb(0) as usize).map(|v| v.to_uint()));
    }
    if x.is_zero() {
        ck.note("zero");
    }
    if !qr {
        ck.note("non-residue");
    }
    let md = fp::Modulus::new(*P::MODULUS.as_limbs());
    let is_inv = |a: &El<P>, b: &El<P>| md.mul(a.as_montgomery().as_limbs(), b.as_montgomery().as_limbs()) == md.r1;
    let list: Vec<El<P>> = st.f("batch").ints().iter().map(|v| El::from_uint(&ui(v))).collect();
    if list.iter().any(|v| v.is_zero()) {
        ck.note("zero in batch");
        ck.refuses("invert_batch:zero", || invert_batch(&list));
        ck.refuses("invert_batch_src_dst:zero", || {
            let mut d = vec![El::<P>::one(); list.len()];
            invert_batch_src_dst(&list, &mut d);
            d
        });
    } else {
        if let Some(r) = ck.get("invert_batch", || invert_batch(&list)) {
            ck.eq("invert_batch:len", list.len(), || r.len());
            ck.eq("invert_batch:all", true, || list.iter().zip(&r).all(|(a, b)| is_inv(a, b)));
        }
        if let Some(r) = ck.get("invert_batch_src_dst", || {
            let mut d = vec![El::<P>::from(7_usize); list.len()];
            invert_batch_src_dst(&list, &mut d);
            d
        }) {
            ck.eq("invert_batch_src_dst:all", true, || list.iter().zip(&r).all(|(a, b)| is_inv(a, b)));
        }
        if !list.is_empty() {
            ck.refuses("invert_batch_src_dst:short", || {
                let mut d = vec![El::<P>::one(); list.len() - 1];
                invert_batch_src_dst(&list, &mut d);
                d
            });
        }
    }
}

fn series<P: Parameters<UInt = U256>>(ck: &mut Ck, name: &str, from: usize, states: &[Value]) {
    type El<P> = PrimeField<P>;
    let el = |v: &Value| El::<P>::from_uint(&u(v));
    let made = states[0].f("made");
    let len = made.tup(2).int().i64();
    let mut it: GeometricIter<El<P>> = if len == -2 {
        match ck.get("root_series", || root_series(made.tup(0).u())) {
            Some(i) => i,
            None => return,
        }
    } else {
        geometric_series(&el(made.tup(0)), &el(made.tup(1)))
    };
    for (i, st) in states.iter().enumerate() {
        ck.enter(format!("{}#{}", name, from + i), st);
        let (k, n) = (st.f("op").tup(0).u(), st.f("op").tup(1).u64() as usize);
        let obs = st.f("obs");
        match k {
            1 => {
                let want = if obs.f("item").int().neg { None } else { Some(u(obs.f("item"))) };
                ck.eq("series:next", want, || it.next().map(|v| v.to_uint()));
            }
            2 => match ck.get("series:skip", || it.clone().skip(n)) {
                Some(j) => it = j,
                None => return,
            },
            3 => match ck.get("series:take", || it.clone().take(n)) {
                Some(j) => it = j,
                None => return,
            },
            4 => match ck.get("series:step_by", || it.clone().step_by(n)) {
                Some(j) => it = j,
                None => return,
            },
            5 => {
                ck.refuses("series:step_by_zero", || it.clone().step_by(0));
            }
            _ => {}
        }
        let len = st.f("len").u64() as usize;
        let p = st.f("probe").u64() as usize;
        let mut ok = ck.eq("series:len", (len, Some(len)), || it.size_hint());
        ok &= ck.eq("series:at", u(obs.f("at")), || it.at(p).to_uint());
        let head: Vec<U256> = obs.f("head").ints().iter().map(ui).collect();
        ok &= ck.eq("series:items", head, || Iterator::take(it.clone(), 6).map(|v| v.to_uint()).collect());
        if !ok {
            return;
        }
    }
}

fn pools() -> Vec<rayon::ThreadPool> {
    [1, 2, 3, 5, 8].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect()
}

fn vals<P: Parameters<UInt = U256>>(v: &[PrimeField<P>]) -> Vec<U256> {
    v.iter().map(|x| x.to_uint()).collect()
}

fn fft_small<P: Parameters<UInt = U256>>(ck: &mut Ck, st: &Value) {
    type El<P> = PrimeField<P>;
    let get = |v: &Value| -> Vec<U256> { v.ints().iter().map(ui).collect() };
    let a: Vec<El<P>> = get(st.f("vec")).iter().map(El::from_uint).collect();
    let n = a.len();
    let out = st.f("out");
    let (e, ei, ec, eci) = (get(out.f("fft")), get(out.f("ifft")), get(out.f("cfft")), get(out.f("cifft")));
    let cof = El::<P>::from_uint(&u(st.f("cof")));
    let root = El::<P>::from_uint(&u(st.f("rootn")));
    ck.eq("fft", e.clone(), || { let mut v = a.clone(); v.fft(); vals(&v) });
    ck.eq("ifft", ei.clone(), || { let mut v = a.clone(); v.ifft(); vals(&v) });
    ck.eq("fft_cofactor", ec.clone(), || { let mut v = a.clone(); v.fft_cofactor(&cof); vals(&v) });
    ck.eq("ifft_cofactor", eci, || { let mut v = a.clone(); v.ifft_cofactor(&cof); vals(&v) });
    ck.eq("fft_root", e.clone(), || { let mut v = a.clone(); v.fft_root(&root); vals(&v) });
    ck.eq("clone_shifted+fft", ec, || {
        let mut v = vec![El::<P>::from(5_usize); n];
        v.clone_shifted(&a, &cof);
        v.fft();
        vals(&v)
    });
    ck.eq("radix_sqrt", e.clone(), || { let mut v = a.clone(); radix_sqrt(&mut v, &root); vals(&v) });
    ck.eq("recursive", e.clone(), || {
        let mut v = a.clone();
        fft_vec_recursive(&mut v, &get_twiddles(&root, n), 0, 1, 1);
        vals(&v)
    });
    // several interleaved transforms at once
    ck.eq("recursive:vector", e.clone(), || {
        let count = 3;
        let mut v: Vec<El<P>> = vec![];
        for x in &a {
            for c in 0..count {
                v.push(x * El::<P>::from(c + 1_usize));
            }
        }
        fft_vec_recursive(&mut v, &get_twiddles(&root, n), 0, count, count);
        let first: Vec<El<P>> = v.iter().step_by(count).cloned().collect();
        for c in 1..count {
            for i in 0..n {
                if v[i * count + c] != &first[i] * El::<P>::from(c + 1_usize) {
                    return vec![];
                }
            }
        }
        vals(&first)
    });
    let tw = get_twiddles(&root, n);
    match n {
        2 => {
            ck.eq("radix_2", e.clone(), || { let mut v = a.clone(); small::radix_2(&mut v, 0, 1); vals(&v) });
        }
        4 => {
            ck.eq("radix_4", e.clone(), || { let mut v = a.clone(); small::radix_4(&mut v, &tw, 0, 1); vals(&v) });
        }
        8 => {
            ck.eq("radix_8", e.clone(), || { let mut v = a.clone(); small::radix_8(&mut v, &tw, 0, 1); vals(&v) });
        }
        _ => {}
    }
    ck.eq("fft+ifft", vals(&a), || {
        let mut v = a.clone();
        v.fft();
        permute(&mut v);
        v.ifft();
        permute(&mut v);
        vals(&v)
    });
    ck.eq("coset:fft+ifft", vals(&a), || {
        let mut v = a.clone();
        v.fft_cofactor(&cof);
        permute(&mut v);
        v.ifft_cofactor(&cof);
        permute(&mut v);
        vals(&v)
    });
}

fn fe(x: &F) -> FieldElement {
    FieldElement::from_montgomery(U256::from_limbs(x.mont()))
}

fn fft_large(ck: &mut Ck, st: &Value, pools: &[rayon::ThreadPool]) {
    let lg = st.f("lg").u();
    let n = 1usize << lg;
    let (c, r) = (F::int(&st.f("gc").int()), F::int(&st.f("gr").int()));
    let cof = F::int(&st.f("cof").int());
    let w = F::int(&st.f("rootn").int());
    let mut a = Vec::with_capacity(n);
    let mut x = c;
    for _ in 0..n {
        a.push(x);
        x = x * r;
    }
    for t in st.f("sparse").list() {
        let i = t.tup(0).u();
        a[i] = a[i] + F::int(&t.tup(1).int());
    }
    // reference transform, anchored in the specification at the listed positions
    let nat = fp::dft(&a, w);
    let mut pw = F::one();
    let mut sh = vec![];
    for v in &a {
        sh.push(*v * pw);
        pw = pw * cof;
    }
    let cnat = fp::dft(&sh, w);
    for (k, j) in st.f("at").usizes().iter().enumerate() {
        assert!(nat[*j] == F::int(&st.f("val1").list()[k].int()), "reference transform");
        assert!(cnat[*j] == F::int(&st.f("val2").list()[k].int()), "reference coset transform");
    }
    let rev = |v: &[F]| -> Vec<FieldElement> { (0..n).map(|i| fe(&v[fp::bitrev(i, n)])).collect() };
    let src: Vec<FieldElement> = a.iter().map(fe).collect();
    let (e, ec) = (rev(&nat), rev(&cnat));
    let natural: Vec<FieldElement> = nat.iter().map(fe).collect();
    let cnatural: Vec<FieldElement> = cnat.iter().map(fe).collect();
    let expect_src: Vec<FieldElement> = rev(&a);
    let pool = &pools[st.f("threads").u() - 1];
    let c = fe(&cof);
    let same = |ck: &mut Ck, l: &str, want: &Vec<FieldElement>, f: &(dyn Fn() -> Vec<FieldElement> + Sync)| {
        if let Some(got) = ck.get(l, || pool.install(f)) {
            if &got != want {
                let i = (0..want.len().min(got.len())).find(|&i| got[i] != want[i]);
                ck.fail(l, format!("length {} value {:?}", want.len(), i.map(|i| want[i].clone())),
                        format!("length {}, first difference at {:?}: {:?}", got.len(), i, i.map(|i| got[i].clone())));
            }
        }
    };
    same(ck, "large:fft", &e, &|| { let mut v = src.clone(); v.fft(); v });
    same(ck, "large:ifft", &expect_src, &|| { let mut v = natural.clone(); v.ifft(); v });
    same(ck, "large:fft_cofactor", &ec, &|| { let mut v = src.clone(); v.fft_cofactor(&c); v });
    same(ck, "large:ifft_cofactor", &expect_src, &|| { let mut v = cnatural.clone(); v.ifft_cofactor(&c); v });
    let shifted: Vec<FieldElement> = sh.iter().map(fe).collect();
    same(ck, "large:clone_shifted", &shifted, &|| {
        let mut v = vec![FieldElement::from(9_usize); n];
        v.clone_shifted(&src, &c);
        v
    });
    let odd = n - n / 3;
    same(ck, "large:clone_shifted_odd", &shifted[..odd].to_vec(), &|| {
        let mut v = vec![FieldElement::from(9_usize); odd];
        v.clone_shifted(&src[..odd], &c);
        v
    });
    if n <= 4096 {
        let root = fe(&w);
        same(ck, "large:recursive", &e, &|| {
            let mut v = src.clone();
            fft_vec_recursive(&mut v, &get_twiddles(&root, n), 0, 1, 1);
            v
        });
        same(ck, "large:radix_sqrt", &e, &|| { let mut v = src.clone(); radix_sqrt(&mut v, &root); v });
    }
    ck.note(&format!("length 2^{}", lg));
}

fn perm(ck: &mut Ck, st: &Value) {
    let n = 1usize << st.f("lg").u();
    let mut v: Vec<u32> = (0..n as u32).collect();
    let r = ck.get("permute", || { permute(&mut v); v });
    if let Some(v) = r {
        for p in st.f("pairs").list() {
            let (a, b) = (p.tup(0).u(), p.tup(1).u());
            ck.eq("permute:entry", a as u32, || v[b]);
            ck.eq("permute_index", b, || permute_index(n, a));
        }
        ck.eq("permute:all", true, || (0..n).all(|i| v[fp::bitrev(i, n)] == i as u32));
    }
    let (size, stretch) = (st.f("side").u(), st.f("stretch").u());
    let cells = size * size * stretch;
    let mut m: Vec<u32> = (0..cells as u32).collect();
    if let Some(m) = ck.get("transpose", || { transpose_square_stretch(&mut m, size, stretch); m }) {
        for p in st.f("moves").list() {
            let (a, b) = (p.tup(0).u(), p.tup(1).u());
            ck.eq("transpose:entry", a as u32, || m[b]);
        }
        ck.eq("transpose:all", true, || (0..cells).all(|p| {
            let (k, j, i) = (p % stretch, (p / stretch) % size, p / (stretch * size));
            m[(j * size + i) * stretch + k] == p as u32
        }));
    }
}

macro_rules! by_field {
    ($f:expr, $fun:ident ( $($a:expr),* )) => {
        match $f {
            0 => $fun::<zkp0>($($a),*),
            1 => $fun::<Order>($($a),*),
            2 => $fun::<P25519>($($a),*),
            3 => $fun::<P257>($($a),*),
            _ => $fun::<Proth63>($($a),*),
        }
    };
}

// parameter types of the library's own fields
trait Of {
    type P;
}
impl<P: Parameters> Of for PrimeField<P> {
    type P = P;
}
#[allow(non_camel_case_types)]
type zkp0 = <FieldElement as Of>::P;
type Order = <ScalarFieldElement as Of>::P;

fn handler(ck: &mut Ck, name: &str, states: &[Value], opts: &BTreeMap<String, String>, prop: &str) {
    let _ = opts;
    let pools = if prop == "C23" { pools() } else { vec![] };
    let mut i = 0;
    while i < states.len() {
        let st = &states[i];
        ck.enter(format!("{}#{}", name, i), st);
        if i % 997 == 3 {
            ck.sample(json!({"at": i, "state": st}));
        }
        if st.get("made").is_some() {
            let mut j = i + 1;
            while j < states.len() && states[j].f("op").tup(0).u() != 0 {
                j += 1;
            }
            let f = st.f("f").u();
            by_field!(f, series(ck, name, i, &states[i..j]));
            i = j;
            continue;
        }
        if st.get("moves").is_some() {
            perm(ck, st);
        } else if st.get("lg").is_some() {
            if st.f("vec").list().is_empty() {
                fft_large(ck, st, &pools);
            } else {
                by_field!(st.f("f").u(), fft_small(ck, st));
            }
        } else if st.get("batch").is_some() {
            by_field!(st.f("f").u(), fun(ck, st));
        } else {
            let f = st.f("f").u();
            by_field!(f, ops(ck, st, f == 3));
            if f == 0 {
                ops0(ck, st);
            }
        }
        i += 1;
    }
}

fn main() {
    let a = args();
    let prop = a.prop.clone();
    drive(&a, 8, Duration::from_secs(30), move |ck, n, s, o| handler(ck, n, s, o, &prop));
}
