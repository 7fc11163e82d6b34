//! Conformance driver for the elliptic curve and signature specifications (C24, C25).
use serde_json::{json, Value};
use std::time::Duration;
use tiny_keccak::{Hasher, Sha3};
use vharness::ec::{self, Pt};
use vharness::fp::{Modulus, F};
use vharness::*;
use zkp_elliptic_curve::{
    base_mul, double_base_mul, double_mul, mul, window_table_affine, Affine, Jacobian, ScalarFieldElement, GENERATOR,
};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

fn fe(v: &Value) -> FieldElement {
    FieldElement::from_uint(&U256::from_limbs(v.limbs()))
}

fn sc(v: &Value) -> ScalarFieldElement {
    ScalarFieldElement::from_uint(&U256::from_limbs(v.limbs()))
}

fn pt(v: &Value) -> Affine {
    if v.tup(0).int().neg {
        Affine::Zero
    } else {
        Affine::new(fe(v.tup(0)), fe(v.tup(1)))
    }
}

fn ref_pt(v: &Value) -> Pt {
    if v.tup(0).int().neg {
        None
    } else {
        Some((F::int(&v.tup(0).int()), F::int(&v.tup(1).int())))
    }
}

/// A projective representation with the given scale (computed by the driver).
fn jac(v: &Value, scale: &Value) -> Jacobian {
    let l = F::int(&scale.int());
    let conv = |x: F| FieldElement::from_montgomery(U256::from_limbs(x.mont()));
    match ref_pt(v) {
        None => Jacobian { x: conv(l * l), y: conv(l * l * l), z: conv(F::ZERO) },
        Some((x, y)) => Jacobian { x: conv(x * l * l), y: conv(y * l * l * l), z: conv(l) },
    }
}

fn aff(j: Jacobian) -> Affine {
    Affine::from(&j)
}

fn curve(ck: &mut Ck, st: &Value, gen: &[Affine]) {
    let (p, q) = (pt(st.f("P")), pt(st.f("Q")));
    let (jp, jq) = (jac(st.f("P"), st.f("lam")), jac(st.f("Q"), st.f("mu")));
    let j1 = Jacobian::from(&p);
    let o = st.f("obs");
    let e = |n: &str| pt(o.f(n));
    if q == p && p != Affine::Zero {
        ck.note("equal operands");
    }
    if e("add") == Affine::Zero && p != Affine::Zero {
        ck.note("opposite operands");
    }
    if p == Affine::Zero || q == Affine::Zero {
        ck.note("neutral operand");
    }
    // affine
    ck.eq("affine:add", e("add"), || &p + &q);
    ck.eq("affine:add:val_ref", e("add"), || p.clone() + &q);
    ck.eq("affine:add:ref_val", e("add"), || &p + q.clone());
    ck.eq("affine:add:val_val", e("add"), || p.clone() + q.clone());
    ck.eq("affine:add:assign", e("add"), || { let mut t = p.clone(); t += &q; t });
    ck.eq("affine:add:assign_val", e("add"), || { let mut t = p.clone(); t += q.clone(); t });
    ck.eq("affine:sub", e("sub"), || &p - &q);
    ck.eq("affine:sub:val_ref", e("sub"), || p.clone() - &q);
    ck.eq("affine:sub:ref_val", e("sub"), || &p - q.clone());
    ck.eq("affine:sub:val_val", e("sub"), || p.clone() - q.clone());
    ck.eq("affine:sub:assign", e("sub"), || { let mut t = p.clone(); t -= &q; t });
    ck.eq("affine:sub:assign_val", e("sub"), || { let mut t = p.clone(); t -= q.clone(); t });
    ck.eq("affine:double", e("dbl"), || p.double());
    ck.eq("affine:double_assign", e("dbl"), || { let mut t = p.clone(); t.double_assign(); t });
    ck.eq("affine:neg", e("neg"), || -&p);
    ck.eq("affine:neg_assign", e("neg"), || { let mut t = p.clone(); t.neg_assign(); t });
    ck.eq("affine:on_curve", true, || p.is_on_curve() && q.is_on_curve());
    ck.eq("affine:on_curve:any", o.f("offOn").b(), || pt(st.f("off")).is_on_curve());
    ck.eq("affine:eq", st.f("P") == st.f("Q"), || p == q);
    ck.eq("affine:default", Affine::ZERO, Affine::default);
    if let Affine::Point { x, y } = &p {
        ck.eq("affine:coordinates", (Some(x.clone()), Some(y.clone())), || (p.x().cloned(), p.y().cloned()));
        ck.eq("affine:as_coordinates", Some((x.clone(), y.clone())), || p.clone().into_coordinates());
        ck.eq("affine:as_coordinates:ref", Some((x.clone(), y.clone())), || p.as_coordinates().map(|(a, b)| (a.clone(), b.clone())));
    } else {
        ck.eq("affine:coordinates:none", true, || p.x().is_none() && p.y().is_none() && p.as_coordinates().is_none() && p.clone().into_coordinates().is_none());
    }
    // serialised form
    if let Some(t) = ck.get("affine:json", || serde_json::to_string(&p).unwrap()) {
        ck.eq("affine:json:back", Some(p.clone()), || serde_json::from_str::<Affine>(&t).ok());
    }
    // projective
    ck.eq("jacobian:to_affine", p.clone(), || aff(jp.clone()));
    ck.eq("jacobian:from_affine", p.clone(), || aff(Jacobian::from(p.clone())));
    ck.eq("jacobian:from_affine:ref", p.clone(), || aff(Jacobian::from(&p)));
    ck.eq("jacobian:add", e("add"), || aff(&jp + &jq));
    ck.eq("jacobian:add:val_ref", e("add"), || aff(jp.clone() + &jq));
    ck.eq("jacobian:add:ref_val", e("add"), || aff(&jp + jq.clone()));
    ck.eq("jacobian:add:val_val", e("add"), || aff(jp.clone() + jq.clone()));
    ck.eq("jacobian:add:assign", e("add"), || { let mut t = jp.clone(); t += &jq; aff(t) });
    ck.eq("jacobian:add:unit_z", e("add"), || aff(&j1 + &jq));
    ck.eq("jacobian:sub", e("sub"), || aff(&jp - &jq));
    ck.eq("jacobian:sub:val_ref", e("sub"), || aff(jp.clone() - &jq));
    ck.eq("jacobian:sub:ref_val", e("sub"), || aff(&jp - jq.clone()));
    ck.eq("jacobian:sub:val_val", e("sub"), || aff(jp.clone() - jq.clone()));
    ck.eq("jacobian:sub:assign", e("sub"), || { let mut t = jp.clone(); t -= &jq; aff(t) });
    ck.eq("jacobian:double", e("dbl"), || aff(jp.double()));
    ck.eq("jacobian:double:unit_z", e("dbl"), || aff(j1.double()));
    ck.eq("jacobian:double_assign", e("dbl"), || { let mut t = jp.clone(); t.double_assign(); aff(t) });
    ck.eq("jacobian:neg", e("neg"), || aff(-&jp));
    ck.eq("jacobian:neg_assign", e("neg"), || { let mut t = jp.clone(); t.neg_assign(); aff(t) });
    ck.eq("jacobian:eq", st.f("P") == st.f("Q"), || jp == jq);
    ck.eq("jacobian:eq:scaled", true, || jp == j1);
    ck.eq("jacobian:on_curve", true, || jp.is_on_curve() && (&jp + &jq).is_on_curve());
    ck.eq("jacobian:zero", Affine::Zero, || aff(Jacobian::ZERO));
    // mixed
    ck.eq("mixed:add", e("add"), || aff(&jp + &q));
    ck.eq("mixed:add:unit_z", e("add"), || aff(&j1 + &q));
    ck.eq("mixed:add:assign", e("add"), || { let mut t = jp.clone(); t += &q; aff(t) });
    ck.eq("mixed:sub:assign", e("sub"), || { let mut t = jp.clone(); t -= &q; aff(t) });
    if !st.f("cost").b() {
        return;
    }
    // multiples
    let (a, b) = (sc(st.f("a")), sc(st.f("b")));
    ck.eq("mul:affine", e("mul"), || &p * &a);
    ck.eq("mul:affine:forms", true, || {
        let w = e("mul");
        let mut t = p.clone();
        t *= &a;
        let mut s = p.clone();
        s *= a.clone();
        p.clone() * a.clone() == w && p.clone() * &a == w && &p * a.clone() == w && t == w && s == w
    });
    ck.eq("mul:jacobian", e("mul"), || aff(&jp * &a));
    ck.eq("mul:jacobian:forms", true, || {
        let w = e("mul");
        let mut t = jp.clone();
        t *= &a;
        let mut s = jp.clone();
        s *= a.clone();
        aff(jp.clone() * a.clone()) == w && aff(jp.clone() * &a) == w && aff(&jp * a.clone()) == w && aff(t) == w && aff(s) == w
    });
    ck.eq("mul:windowed", e("mul"), || aff(mul(&p, &a)));
    ck.eq("mul:double", e("two"), || aff(double_mul(&p, &a, &q, &b)));
    let mut table = <[Affine; 32]>::default();
    if ck.get("window_table_affine", || window_table_affine(&p, &mut table)).is_some() {
        ck.eq("mul:base", e("mul"), || aff(base_mul(&table, &a)));
        ck.eq("mul:double_base", e("two"), || aff(double_base_mul(&table, &a, &q, &b)));
        let mut want = p.clone();
        let two = e("dbl");
        ck.eq("window_table_affine:entries", true, || table.iter().all(|t| {
            let ok = *t == want;
            want += &two;
            ok
        }));
    }
    if p == GENERATOR {
        ck.eq("mul:base:generator", e("mul"), || aff(base_mul(gen, &a)));
    }
}

fn order() -> Modulus {
    Modulus::new([0x1e66_a241_adc6_4d2f, 0xb781_126d_cae7_b232, u64::MAX, 0x0800_0000_0000_0010])
}

fn be(l: [u64; 4]) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
    }
    r
}

fn reduce(m: &Modulus, v: [u64; 4]) -> [u64; 4] {
    // v R2 / R = v R mod m for any v below 2^256, then out of that form again
    let x = m.mul(&v, &m.r2);
    m.mul(&x, &[1, 0, 0, 0])
}

fn ecdsa(ck: &mut Ck, st: &Value) {
    let (d, h) = (sc(st.f("d")), sc(st.f("h")));
    let public = pt(st.f("pub"));
    let key = PrivateKey::from(d.clone());
    let got = ck.get("public_key", || PublicKey::from(&key));
    ck.eq("public_key:value", Some(public.clone()), || got.map(|k| k.as_affine().clone()));
    ck.eq("private_key:value", d.clone(), || key.as_scalar_field_element().clone());
    let pk = PublicKey::from(public.clone());
    let (r, w) = (sc(st.f("sig").tup(0)), sc(st.f("sig").tup(1)));
    let none = st.f("sig").tup(0).int().mag.is_empty();
    if !none {
        ck.eq("verify:genuine", true, || pk.verify(&h, &Signature::new(r.clone(), w.clone())));
    }
    let s = st.f("shown");
    let shown = Signature::new(sc(s.f("r")), sc(s.f("w")));
    let alt = st.f("alteration").u();
    let acc = st.f("accept").b();
    ck.note(&format!("alteration {} {}", alt, if acc { "accepted" } else { "rejected" }));
    ck.eq(&format!("verify:alteration{}", alt), acc, || PublicKey::from(pt(s.f("key"))).verify(&sc(s.f("digest")), &shown));
    ck.eq("signature:parts", true, || *shown.r() == sc(s.f("r")) && *shown.w() == sc(s.f("w")));
    if let Some(t) = ck.get("signature:json", || serde_json::to_string(&shown).unwrap()) {
        ck.eq("signature:json:back", true, || serde_json::from_str::<Signature>(&t).ok() == Some(shown.clone()));
    }
    if let Some(t) = ck.get("public_key:json", || serde_json::to_string(&pk).unwrap()) {
        ck.eq("public_key:json:back", true, || serde_json::from_str::<PublicKey>(&t).ok() == Some(pk.clone()));
    }
    // signing with the library
    let (dl, hl) = (st.f("d").limbs(), st.f("h").limbs());
    if dl == [0; 4] && hl == [0; 4] {
        return; // there is no signature of the zero digest under the zero key
    }
    let made = match ck.get("sign", || key.sign(&h)) {
        Some(m) => m,
        None => return,
    };
    ck.eq("sign:deterministic", true, || key.sign(&h) == made);
    ck.eq("sign:verifies", true, || pk.verify(&h, &made));
    ck.eq("sign:fails_elsewhere", false, || pk.verify(&(&h + ScalarFieldElement::from(3_usize)), &made));
    // prescribed value: k is the hash of key, digest and counter
    let m = order();
    let mut sha = Sha3::v256();
    sha.update(&be(dl));
    sha.update(&be(hl));
    sha.update(&[0; 32]);
    let mut out = [0u8; 32];
    sha.finalize(&mut out);
    let mut kl = [0u64; 4];
    for i in 0..4 {
        kl[3 - i] = u64::from_be_bytes(out[8 * i..8 * i + 8].try_into().unwrap());
    }
    let k = reduce(&m, kl);
    let g: Pt = Some((F::of([0x3d72_3d8b_c943_cfca, 0xdeac_fd9b_0d18_19e0, 0x7bec_ed41_5a40_f0c7, 0x01ef_15c1_8599_971b]),
                      F::of([0x2873_000c_36e8_dc1f, 0xde53_ecd1_1abe_43a3, 0xb7be_4801_df46_ec62, 0x0056_6806_0aa4_9730])));
    // anchor the driver's curve arithmetic in the specification
    assert!(ec::times(&g, &dl) == ref_pt(st.f("pub")), "reference curve arithmetic");
    if let Some((x, _)) = ec::times(&g, &k) {
        let rr = reduce(&m, x.value());
        let to = |v: [u64; 4]| m.mul(&v, &m.r2);
        let sum = m.add(&m.mul(&to(rr), &to(dl)), &to(hl));
        if rr != [0; 4] && sum != [0; 4] {
            ck.eq("sign:r", U256::from_limbs(rr), || made.r().to_uint());
            let wm = to(*made.w().to_uint().as_limbs());
            ck.eq("sign:w", to(k), || m.mul(&wm, &sum));
        }
    }
}

fn main() {
    let a = args();
    drive(&a, 8, Duration::from_secs(30), move |ck, name, states, _| {
        let mut gen = <[Affine; 32]>::default();
        window_table_affine(&GENERATOR, &mut gen);
        for (i, st) in states.iter().enumerate() {
            ck.enter(format!("{}#{}", name, i), st);
            if i % 97 == 3 {
                ck.sample(json!({"at": i, "state": st}));
            }
            if st.get("P").is_some() {
                curve(ck, st, &gen);
            } else {
                ecdsa(ck, st);
            }
        }
    });
}
