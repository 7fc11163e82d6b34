//! C12: the exchange format of proofs, and generated contracts.
use super::*;

fn entries(b: &[u8]) -> Value {
    Value::Array(b.chunks(32).map(|c| Value::String(format!("0x{}", hex::encode(c)))).collect())
}
/// The export as the protocol's parts, read as JSON.
pub fn c12_proof(ck: &mut Ck, c: &Case) {
    let made = stark::prove(&c.sys, &c.good, &[]);
    let k = constraints(&c.sys);
    let proof = Proof::from_bytes(made.bytes.clone());
    let Some(r) = ck.get("proof_serialize", || {
        let mut s = String::new();
        proof_serialize(&k, &proof, &mut s).map(|()| s).map_err(|e| format!("{:?}", e))
    }) else {
        return;
    };
    let text = match r {
        Err(e) => return ck.fail("proof_serialize", "an export".into(), e),
        Ok(s) => s,
    };
    let parsed: Result<Value, _> = serde_json::from_str(&format!("{{{}}}", text));
    let v = match parsed {
        Err(e) => return ck.fail("export:text", "JSON fields".into(), format!("{} in {}", e, text)),
        Ok(v) => v,
    };
    let part = |name: &str| {
        let p = made.parts.iter().find(|p| p.name == name);
        p.map_or(&made.bytes[0..0], |p| &made.bytes[p.at..p.at + p.len])
    };
    let layers = c.sys.layout.len();
    let get = |n: &str| v.get(n).cloned().unwrap_or(Value::Null);
    let one = |b: &[u8]| Value::String(format!("0x{}", hex::encode(b)));
    let mut same = |n: &str, want: Value| {
        ck.eq(&format!("export:{}", n), want, || get(n));
    };
    same("trace_commitment", one(part("trace_commitment")));
    same("constraint_commitment", one(part("constraint_commitment")));
    same("pow_nonce", one(part("pow_nonce")));
    for n in ["trace_oods_values", "constraint_oods_values", "last_layer_coefficients", "trace_values", "trace_decommitment",
        "constraint_values", "constraint_decommitment"] {
        same(n, entries(part(n)));
    }
    let many = |n: &str| Value::Array((0..layers).map(|i| entries(part(&format!("{}{}", n, i)))).collect());
    same("fri_commitments", Value::Array((0..layers).map(|i| one(part(&format!("fri_commitment{}", i)))).collect()));
    same("fri_values", many("fri_values"));
    same("fri_decommitments", many("fri_decommitment"));
    let known = made.parts.iter().all(|p| p.len == 0 || ["trace_", "constraint_", "fri_", "last_", "pow_"].iter().any(|s| p.name.starts_with(s)));
    assert!(known, "trace: parts");
    ck.eq("export:fields", 13, || v.as_object().unwrap().len());
    // bytes that are too few, or no field elements, have no values to export
    let exports = |b: &[u8]| proof_serialize(&k, &Proof::from_bytes(b.to_vec()), &mut String::new()).is_ok();
    for p in made.parts.iter().filter(|p| p.len > 0) {
        for end in [p.at, p.at + 1, p.at + p.len / 2, p.at + p.len - 1] {
            ck.eq("export:cut", false, || exports(&made.bytes[..end]));
        }
        if p.name.ends_with("values") || p.name.starts_with("fri_values") || p.name.starts_with("last_") {
            for at in [p.at, p.at + p.len - 32] {
                let mut b = made.bytes.clone();
                add_modulus(&mut b[at..at + 32]);
                ck.eq("export:unreduced", false, || exports(&b));
                b[at..at + 32].copy_from_slice(&[255; 32]);
                ck.eq("export:unreduced", false, || exports(&b));
            }
        }
    }
}

fn power_of(r: &R) -> usize {
    match r {
        R::X => 1,
        R::Exp(a, k) => k * power_of(a),
        _ => panic!("trace: argument of a claim polynomial"),
    }
}
/// claim polynomials get names, which tell what they are
fn named(r: R) -> R {
    let two = |f: fn(Box<R>, Box<R>) -> R, a: R, b: R| f(Box::new(named(a)), Box::new(named(b)));
    match r {
        R::ClaimPolynomial(i, b, a, _) => {
            let name: &'static str = Box::leak(format!("c{}p{}b{}", i, power_of(&a), b).into_boxed_str());
            R::ClaimPolynomial(i, b, a, Some(name))
        }
        R::Add(a, b) => two(R::Add, *a, *b),
        R::Mul(a, b) => two(R::Mul, *a, *b),
        R::Neg(a) => R::Neg(Box::new(named(*a))),
        R::Inv(a) => R::Inv(Box::new(named(*a))),
        R::Exp(a, k) => R::Exp(Box::new(named(*a)), k),
        r => r,
    }
}
/// numbers behind each occurrence of `key`
fn after(text: &str, key: &str) -> Vec<usize> {
    text.match_indices(key)
        .map(|(i, _)| {
            let d: String = text[i + key.len()..].chars().skip_while(|c| c.is_whitespace()).take_while(char::is_ascii_digit).collect();
            d.parse().unwrap_or(usize::MAX)
        })
        .collect()
}
/// result[i] = v in the function of that name
fn listed(text: &str, function: &str) -> Vec<(usize, usize)> {
    let Some(i) = text.find(&format!("function {}", function)) else { return vec![] };
    let rest = &text[i + 8..];
    let body = &rest[..rest.find("function ").unwrap_or(rest.len())];
    body.match_indices("result[")
        .filter_map(|(i, m)| {
            let s = &body[i + m.len()..];
            let k: usize = s[..s.find(']')?].trim().parse().ok()?;
            let s = &s[s.find('=')? + 1..];
            Some((k, s[..s.find(';')?].trim().parse().ok()?))
        })
        .collect()
}
pub fn c12_contracts(ck: &mut Ck, st: &Value, dir: &str) {
    let (lg, ncols) = (st.f("lg").u(), st.f("ncols").u());
    let es: Vec<Expr> = st.f("es").list().iter().map(stark::expr_of).collect();
    let claims: Vec<Vec<F>> = st.f("claims").list().iter().map(stark::fs).collect();
    let x = stark::f_of(st.f("x"));
    let seed = st.f("seed").int();
    let reads: Vec<(usize, i64)> = st.f("reads").list().iter().map(|u| (u.tup(0).u(), u.tup(1).int().i64())).collect();
    let rows = st.f("rows").usizes();
    let pr = st.f("params");
    let (blowup, pow, queries) = (pr.f("blowup").u(), pr.f("pow").u(), pr.f("queries").u());
    let combined = st.f("combined").int();
    if combined.neg {
        ck.note("left out: a division by zero");
        return;
    }
    let combined = F::int(&combined);
    // the reference agrees with the specification
    let mut sum = F::ZERO;
    for (i, e) in es.iter().enumerate() {
        let v = stark::eval(e, &claims, x, &|c, o| stark::mix(&seed, (100 * c as i64 + o) as usize)).expect("trace: defined");
        let a = st.f("adjusts").usizes()[i];
        sum = sum + v * (stark::mix(&seed, 1000 + 2 * i) + stark::mix(&seed, 1001 + 2 * i) * x.pow(a as u64));
    }
    assert!(sum == combined, "trace: combination differs from the reference");

    let Some(k) = ck.get("constraints", || {
        let list: Vec<R> = es.iter().map(|e| named(rexpr(e))).collect();
        Constraints::from_expressions_detailed((1 << lg, ncols), vec![], list, Some(blowup), Some(pow), Some(queries), None).unwrap()
    }) else {
        return;
    };
    let Some(done) = ck.get("generate", || zkp_stark::generate(&k, dir, "Sys").map_err(|e| format!("{:?}", e))) else { return };
    if let Err(e) = done {
        return ck.fail("generate", "contracts".into(), e);
    }
    let read = |n: &str| std::fs::read_to_string(format!("{}/{}", dir, n));
    let (wrapper, poly, trace) = match (read("Sys.sol"), read("SysConstraintPoly.sol"), read("SysTrace.sol")) {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        _ => return ck.fail("generate", "three contracts".into(), "not there".into()),
    };

    // trace layout: column and row of each value, in 32 byte words
    let cols: Vec<(usize, usize)> = reads
        .iter()
        .enumerate()
        .flat_map(|(i, (c, o))| vec![(2 * i, 32 * c), (2 * i + 1, 32 * rows.iter().position(|r| *r as i64 == *o).unwrap())])
        .collect();
    ck.eq("trace:columns", cols, || listed(&trace, "layout_col_major"));
    ck.eq("trace:rows", rows.iter().copied().enumerate().collect::<Vec<_>>(), || listed(&trace, "layout_rows"));
    let head: Vec<usize> = trace
        .split_once("DefaultConstraintSystem(")
        .and_then(|s| s.1.split_once(')'))
        .map_or(vec![], |s| s.0.split(',').filter_map(|n| n.trim().parse().ok()).collect());
    ck.eq("trace:system", vec![st.f("top").u(), rows.len(), ncols, blowup], || head);

    // parameters
    ck.eq("wrapper:constraints", vec![es.len()], || after(&wrapper, "number_of_constraints:"));
    ck.eq("wrapper:blowup", vec![blowup.trailing_zeros() as usize], || after(&wrapper, "log_blowup:"));
    ck.eq("wrapper:pow", vec![pow], || after(&wrapper, "pow_bits:"));
    ck.eq("wrapper:queries", vec![queries], || after(&wrapper, "number_of_queries:"));
    ck.eq("wrapper:rows", vec![lg], || after(&wrapper, "log_trace_length ="));

    // the call the wrapper makes
    let size = after(&wrapper, "call_context = new uint256[](").first().copied().unwrap_or(0);
    let mut context = vec![F::ZERO; size];
    let mut put = |ck: &mut Ck, i: usize, v: F| {
        if i < context.len() {
            context[i] = v;
        } else {
            ck.fail("wrapper:context", format!("less than {}", context.len()), i.to_string());
        }
    };
    put(ck, 0, x);
    for line in wrapper.lines() {
        let line = line.trim();
        if let Some(rest) = line.strip_prefix("call_context[1 + ") {
            let at: usize = rest[..rest.find(']').unwrap_or(0)].parse().unwrap_or(usize::MAX / 2);
            let Some((_, name)) = line.split_once("named: c") else {
                ck.fail("wrapper:claims", "a name".into(), line.into());
                continue;
            };
            let n: Vec<u64> = name.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
            put(ck, 1 + at, horner(&claims[n[0] as usize], x.pow(n[1])));
            ck.note("claim polynomials");
        } else if line.starts_with("call_context[") && line.contains(".evaluate(") {
            let i = after(line, "call_context[")[0];
            let which = after(line, "periodic_col");
            let e = after(line, ".fpow(");
            let (Some(which), Some(e)) = (which.first(), e.first()) else {
                ck.fail("wrapper:periodic", "a column and a power".into(), line.into());
                continue;
            };
            let Ok(src) = read(&format!("periodic{}.sol", which)) else {
                ck.fail("wrapper:periodic", "a contract".into(), line.into());
                continue;
            };
            match yul::assembly(&src, vec![], &[("x", x.pow(*e as u64).value()), ("y", [0; 4])], Some("y")) {
                Ok(v) => put(ck, i, yul::reduced(&v)),
                Err(e) => ck.fail("periodic", "a value".into(), e),
            }
            ck.note("periodic columns");
        }
    }
    let from = after(&wrapper, "current_index =").first().copied().unwrap_or(usize::MAX / 2);
    for i in 0..2 * es.len() {
        put(ck, from + i, stark::mix(&seed, 1000 + i));
    }
    for (j, (c, o)) in reads.iter().enumerate() {
        put(ck, from + 2 * es.len() + j, stark::mix(&seed, (100 * *c as i64 + o) as usize));
    }
    let input: usize = after(&wrapper, "add(call_context, 0x20),").first().copied().unwrap_or(0);
    let mut data: Vec<u8> = context.iter().flat_map(|v| yul::be(&v.value()).to_vec()).collect();
    ck.eq("wrapper:input", data.len(), || input);
    data.truncate(input);
    let got = yul::assembly(&poly, data, &[], None);
    ck.eq("contract", Ok(combined), || got.map(|v| yul::reduced(&v)));
}
