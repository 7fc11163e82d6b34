//! C13: advertised security, sizes and defaults.
use super::*;

fn with(s: &Sys, g: &Value) -> Sys {
    let mut s = s.clone();
    s.blowup = g.f("blowup").u();
    s.pow = g.f("pow").u();
    s.queries = g.f("queries").u();
    s.layout = g.f("layout").usizes();
    s
}
pub fn c13(ck: &mut Ck, st: &Value) {
    let sys = Sys::of(st.f("sys"), st.f("es"));
    let mut bits = vec![];
    for c in st.f("cases").list() {
        let s = with(&sys, c.f("cfg"));
        let k = constraints(&s);
        let what = || format!("rows 2^{} columns {} blowup {} queries {} pow {} layout {:?}", s.lg, s.ncols, s.blowup, s.queries, s.pow, s.layout);
        let b = ck.get("security bits", || k.security_bits());
        let b2 = c.f("bits2").u();
        if let Some(b) = b {
            ck.holds("security: no more than provided", 2 * b <= b2, || format!("{} bits advertised for {}", b, what()));
            for j in c.f("over").usizes() {
                if let Some(Some(o)) = bits.get(j) {
                    ck.holds("security: grows", b > *o, || format!("{} bits for {} but {} bits for less", b, what(), o));
                }
            }
        }
        bits.push(b);
        let w = c.f("worst").u();
        if let Some(m) = ck.get("max_proof_size", || k.max_proof_size()) {
            ck.holds("size: longest possible proof", m >= w, || format!("{} bytes advertised, {} bytes possible for {}", m, w, what()));
        }
    }
    for r in st.f("rows").list() {
        let rows = r.tup(0).u();
        let exprs: Vec<R> = sys.exprs.iter().map(rexpr).collect();
        ck.eq("trace length", r.tup(1).b(), || Constraints::from_expressions((rows, sys.ncols), vec![], exprs.clone()).is_ok());
        ck.eq("trace length", r.tup(1).b(), || {
            Constraints::from_expressions_detailed((rows, sys.ncols), vec![], exprs.clone(), None, None, None, None).is_ok()
        });
    }
    let make = st.f("make").s();
    let exprs: Vec<R> = sys.exprs.iter().map(rexpr).collect();
    let shape = (sys.n(), sys.ncols);
    // default parameters: what is chosen must be admissible
    for lg in st.f("lengths").usizes().into_iter().chain(Some(sys.lg as usize)) {
        let shape = (1usize << lg, sys.ncols);
        for (name, k) in [
            ("plain", Constraints::from_expressions(shape, sys.seed.clone(), exprs.clone())),
            ("detailed", Constraints::from_expressions_detailed(shape, sys.seed.clone(), exprs.clone(), None, None, None, None)),
        ] {
            match k {
                Ok(k) => {
                    let l = &k.fri_layout;
                    ck.holds("default: layout", l.iter().sum::<usize>() <= lg && l.iter().all(|k| (1..=4).contains(k)), || {
                        format!("{}: {:?} for 2^{} rows", name, l, lg)
                    });
                    ck.holds("default: parameters", k.blowup.is_power_of_two() && k.blowup > 1 && k.num_queries > 0 && k.pow_bits < 64, || {
                        format!("{}: blowup {} queries {} pow {}", name, k.blowup, k.num_queries, k.pow_bits)
                    });
                }
                Err(e) => ck.fail("default", "parameters".into(), format!("{:?}", e)),
            }
        }
    }
    if make == "none" {
        return;
    }
    let mut s = sys.clone();
    let mut k = match make {
        "given" => constraints(&sys),
        "default" => Constraints::from_expressions(shape, sys.seed.clone(), exprs).expect("trace: rows"),
        _ => Constraints::from_expressions_detailed(shape, sys.seed.clone(), exprs, None, Some(sys.pow), None, None).expect("trace: rows"),
    };
    if !sys.claims.is_empty() {
        k.add_claim_polynomials(sys.claims.iter().map(|p| dense(p)).collect());
    }
    s.blowup = k.blowup;
    s.pow = k.pow_bits;
    s.queries = k.num_queries;
    s.layout = k.fri_layout.clone();
    let t = sys.fill();
    let tt = table(&t);
    match ck.get(&format!("prove:{}", make), || prove(&k, &tt).map_err(|e| format!("{:?}", e))) {
        Some(Ok(p)) => {
            ck.eq(&format!("verify:{}", make), Ok(()), || verify(&k, &p).map_err(|e| format!("{:?}", e)));
            let n = p.as_bytes().len();
            if let Some(m) = ck.get("max_proof_size", || k.max_proof_size()) {
                ck.holds("size: actual proof", m >= n, || format!("{} bytes advertised, {} bytes long, {} rows", m, n, s.n()));
            }
        }
        Some(Err(e)) => ck.fail(&format!("prove:{}", make), "a proof".into(), e),
        None => {}
    }
    ck.note(&format!("proof {}", make));
}
