//! Conformance driver for documents read from outside (C04, C20, C21): every reader
//! returns the value the document denotes, or refuses it.
use parity_scale_codec::{Decode, Encode};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::time::Duration;
use vharness::*;
use zkp_elliptic_curve::{Affine, ScalarFieldElement};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

fn bytes(v: &Value) -> Vec<u8> {
    v.usizes().into_iter().map(|b| b as u8).collect()
}

fn text(v: &Value) -> Vec<u8> {
    let points = v.usizes();
    let mut r = vec![];
    for c in points {
        let mut b = [0; 4];
        r.extend_from_slice(char::from_u32(c as u32).expect("trace: code point").encode_utf8(&mut b).as_bytes());
    }
    r
}

/// The value and, for readers that leave bytes behind, nothing else.
fn judge<T: Clone + PartialEq>(ck: &mut Ck, how: &str, d: &Value, want: usize, value: &Option<T>, read: impl FnOnce() -> Option<T>) {
    let label = format!("{}:{}:{}", how, d.f("kind").s(), d.f("damage").s());
    let got = match ck.get(&label, read) {
        Some(g) => g,
        None => return,
    };
    let say = |g: &Option<T>| match g {
        None => "refused".to_string(),
        Some(v) if Some(v) == value.as_ref() => "the value written".to_string(),
        Some(_) => "another value".to_string(),
    };
    let fine = match want {
        0 => got.is_none(),
        1 => got.is_some() && got == *value,
        2 => got.is_none() || got == *value,
        _ => true,
    };
    ck.note(&format!("{} {}", how, if got.is_some() { "read" } else { "refused" }));
    ck.holds(&label, fine, || format!("{} (expected {})", say(&got), ["refusal", "the value", "either"][want]));
}

fn all<T>(ck: &mut Ck, prop: &str, d: &Value, value: Option<T>, reduced: Option<T>)
where
    T: Clone + PartialEq + Serialize + DeserializeOwned + Encode + Decode,
{
    let want = |n: &str| if prop == "C04" { 3 } else { d.f(n).u() };
    let (wj, wb, ws) = (want("wantJson"), want("wantBin"), want("wantScale"));
    // arithmetic alone would also allow a number out of range to be reduced
    let lenient = prop == "C21" && value.is_none();
    let up = |w: usize| if lenient && w == 0 { 2 } else { w };
    let (wj, wb, ws) = (up(wj), up(wb), up(ws));
    let value = if lenient { reduced } else { value };
    let (j, b, s) = (text(d.f("json")), bytes(d.f("bin")), bytes(d.f("scale")));
    judge(ck, "json", d, wj, &value, || serde_json::from_slice::<T>(&j).ok());
    judge(ck, "json reader", d, wj, &value, || serde_json::from_reader::<_, T>(&j[..]).ok());
    judge(ck, "json value", d, if wj == 1 || wj == 3 { wj } else { 3 }, &value, || {
        serde_json::from_slice::<Value>(&j).ok().and_then(|v| serde_json::from_value::<T>(v).ok())
    });
    judge(ck, "bincode", d, wb, &value, || bincode::deserialize::<T>(&b).ok());
    judge(ck, "scale", d, ws, &value, || T::decode(&mut &s[..]).ok());
    if d.f("damage").s() == "none" && wj == 1 {
        let v = value.unwrap();
        let short = j.len() < 66; // digits left out
        ck.eq("json:written", true, || short || serde_json::to_vec(&v).ok().map_or(false, |w| w.len() != j.len() || w == j));
        ck.eq("bincode:written", Some(b.clone()), || bincode::serialize(&v).ok());
        ck.eq("scale:written", s.clone(), || v.encode());
        ck.eq("scale:using_encoded", s.clone(), || v.using_encoded(|x| x.to_vec()));
        ck.eq("scale:size_hint", true, || v.size_hint() <= s.len());
    }
}

fn decode(ck: &mut Ck, prop: &str, d: &Value) {
    let w: Vec<U256> = d.f("words").list().iter().map(|w| U256::from_limbs(w.limbs())).collect();
    // the values of the numbers, where they are in range
    let fe = |i: usize| -> Option<FieldElement> { Some(w[i].clone()).filter(|v| *v < FieldElement::modulus()).map(|v| FieldElement::from_uint(&v)) };
    let sc = |i: usize| -> Option<ScalarFieldElement> {
        Some(w[i].clone()).filter(|v| *v < ScalarFieldElement::modulus()).map(|v| ScalarFieldElement::from_uint(&v))
    };
    let point = || match (fe(0), fe(1)) {
        (Some(x), Some(y)) => Some(Affine::Point { x, y }),
        _ => None,
    };
    match d.f("kind").s() {
        "number" => all(ck, prop, d, Some(w[0].clone()), None),
        "field" => all(ck, prop, d, fe(0), Some(FieldElement::from(w[0].clone()))),
        "scalar" => all(ck, prop, d, sc(0), Some(ScalarFieldElement::from(w[0].clone()))),
        "zero" => all(ck, prop, d, Some(Affine::Zero), None),
        "point" => all(ck, prop, d, point(), None),
        "signature" => all(ck, prop, d, sc(0).and_then(|r| sc(1).map(|w| Signature::new(r, w))), None),
        "public" => all(ck, prop, d, point().map(PublicKey::from), None),
        "publicZero" => all(ck, prop, d, Some(PublicKey::from(Affine::Zero)), None),
        "private" => all(ck, prop, d, sc(0).map(PrivateKey::from), None),
        k => panic!("trace: kind {}", k),
    }
}

fn main() {
    let a = args();
    let prop = a.prop.clone();
    drive(&a, 8, Duration::from_secs(30), move |ck, name, states, _| {
        for (i, st) in states.iter().enumerate() {
            ck.enter(format!("{}#{}", name, i), st);
            if i % 97 == 3 {
                ck.sample(json!({"at": i, "state": st}));
            }
            decode(ck, &prop, st.f("doc"));
        }
    });
}
