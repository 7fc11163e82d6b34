//! Conformance driver for the 256-bit integer specifications (C17-C20).
use num_traits::{FromPrimitive, Inv, MulAdd, MulAddAssign, One, Pow, ToPrimitive, Zero};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;
use vharness::*;
use zkp_u256::{
    adc, div_2_1, mac, msb, sbb, AddFullInline, AddInline, Binary, DivRem, InvMod, MulFullInline,
    MulInline, NegInline, SquareFullInline, SquareInline, SubFromFullInline, SubFromInline,
    SubFullInline, SubInline, GCD, U256,
};

fn u(v: &Value) -> U256 {
    U256::from_limbs(v.limbs())
}

macro_rules! assign {
    ($x:expr, $m:ident, $($y:expr)?) => {{
        let mut t = $x.clone();
        t.$m($($y)?);
        t
    }};
}

/// All operator forms of a binary operation on two 256-bit values.
macro_rules! forms {
    ($ck:expr, $n:expr, $a:expr, $b:expr, $e:expr, $op:tt, $opa:tt) => {{
        let (a, b, e): (&U256, &U256, &U256) = (&$a, &$b, &$e);
        $ck.eq(concat!($n, ":ref_ref"), e.clone(), || a $op b);
        $ck.eq(concat!($n, ":val_ref"), e.clone(), || a.clone() $op b);
        $ck.eq(concat!($n, ":ref_val"), e.clone(), || a $op b.clone());
        $ck.eq(concat!($n, ":val_val"), e.clone(), || a.clone() $op b.clone());
        $ck.eq(concat!($n, ":assign_ref"), e.clone(), || { let mut t = a.clone(); t $opa b; t });
        $ck.eq(concat!($n, ":assign_val"), e.clone(), || { let mut t = a.clone(); t $opa b.clone(); t });
    }};
}

fn ring(ck: &mut Ck, st: &Value) {
    let (a, b, c) = (u(st.f("a")), u(st.f("b")), u(st.f("c")));
    let n = st.f("n").u();
    let (w, v, t) = (st.f("w").u64(), st.f("v").u64(), st.f("u").u64());
    let o = st.f("obs").map();
    let e = |k: &str| U256::from_limbs(o[k].limbs());
    let ei = |k: &str| o[k].int().i64();
    let eu = |k: &str| o[k].u64();

    forms!(ck, "add", a, b, e("add"), +, +=);
    ck.eq("add:inline", e("add"), || a.add_inline(&b));
    ck.eq("add:assign_inline", e("add"), || assign!(a, add_assign_inline, &b));
    ck.eq("add:trait", e("add"), || AddInline::add(&a, &b));
    ck.eq("add:trait_assign", e("add"), || { let mut x = a.clone(); AddInline::add_assign(&mut x, &b); x });
    ck.eq("add:full", (e("add"), eu("carry")), || a.add_full_inline(&b));
    ck.eq("add:full_trait", (e("add"), eu("carry")), || a.add_full(&b));
    ck.eq("add:full_assign_inline", (e("add"), eu("carry")), || { let mut x = a.clone(); let h = x.add_full_assign_inline(&b); (x, h) });
    ck.eq("add:full_assign", (e("add"), eu("carry")), || { let mut x = a.clone(); let h = x.add_full_assign(&b); (x, h) });

    forms!(ck, "sub", a, b, e("sub"), -, -=);
    ck.eq("sub:inline", e("sub"), || a.sub_inline(&b));
    ck.eq("sub:assign_inline", e("sub"), || assign!(a, sub_assign_inline, &b));
    ck.eq("sub:trait", e("sub"), || SubInline::sub(&a, &b));
    ck.eq("sub:trait_assign", e("sub"), || { let mut x = a.clone(); SubInline::sub_assign(&mut x, &b); x });
    ck.eq("sub:full", (e("sub"), eu("borrow")), || a.sub_full_inline(&b));
    ck.eq("sub:full_trait", (e("sub"), eu("borrow")), || a.sub_full(&b));
    ck.eq("sub:full_assign_inline", (e("sub"), eu("borrow")), || { let mut x = a.clone(); let h = x.sub_full_assign_inline(&b); (x, h) });
    ck.eq("sub:full_assign", (e("sub"), eu("borrow")), || { let mut x = a.clone(); let h = x.sub_full_assign(&b); (x, h) });
    ck.eq("sub:from_assign", e("sub"), || { let mut x = b.clone(); x.sub_from_assign_inline(&a); x });
    ck.eq("sub:from_trait", e("sub"), || { let mut x = b.clone(); x.sub_from_assign(&a); x });
    ck.eq("sub:from_full", (e("sub"), eu("borrow")), || { let mut x = b.clone(); let h = x.sub_from_full_assign_inline(&a); (x, h) });
    ck.eq("sub:from_full_trait", (e("sub"), eu("borrow")), || { let mut x = b.clone(); let h = x.sub_from_full_assign(&a); (x, h) });

    ck.eq("neg:val", e("neg"), || -a.clone());
    ck.eq("neg:ref", e("neg"), || -&a);
    ck.eq("neg:inline", e("neg"), || a.neg_inline());
    ck.eq("neg:assign_inline", e("neg"), || assign!(a, neg_assign_inline,));
    ck.eq("neg:trait_assign", e("neg"), || { let mut x = a.clone(); NegInline::neg_assign(&mut x); x });

    forms!(ck, "mul", a, b, e("mul"), *, *=);
    ck.eq("mul:inline", e("mul"), || MulInline::<&U256>::mul_inline(&a, &b));
    ck.eq("mul:assign_inline", e("mul"), || { let mut x = a.clone(); MulInline::<&U256>::mul_assign_inline(&mut x, &b); x });
    ck.eq("mul:trait", e("mul"), || MulInline::<&U256>::mul(&a, &b));
    ck.eq("mul:full", (e("mul"), e("mulhi")), || MulFullInline::<&U256>::mul_full_inline(&a, &b));
    ck.eq("mul:full_trait", (e("mul"), e("mulhi")), || MulFullInline::<&U256>::mul_full(&a, &b));
    ck.eq("mul:full_assign", (e("mul"), e("mulhi")), || MulFullInline::<&U256>::mul_full_assign(&a, &b));
    ck.eq("mul:full_assign_inline", (e("mul"), e("mulhi")), || { let mut x = a.clone(); let h = MulFullInline::<&U256>::mul_full_assign_inline(&mut x, &b); (x, h) });

    ck.eq("sq:inline", e("sq"), || a.square_inline());
    ck.eq("sq:assign_inline", e("sq"), || assign!(a, square_assign_inline,));
    ck.eq("sq:trait", e("sq"), || a.square());
    ck.eq("sq:trait_assign", e("sq"), || assign!(a, square_assign,));
    ck.eq("sq:full", (e("sq"), e("sqhi")), || a.square_full_inline());
    ck.eq("sq:full_trait", (e("sq"), e("sqhi")), || a.square_full());
    ck.eq("sq:full_assign_inline", (e("sq"), e("sqhi")), || { let mut x = a.clone(); let h = x.square_full_assign_inline(); (x, h) });
    ck.eq("sq:full_assign", (e("sq"), e("sqhi")), || { let mut x = a.clone(); let h = x.square_full_assign(); (x, h) });

    ck.eq("mulw:val", e("mulw"), || a.clone() * w);
    ck.eq("mulw:ref", e("mulw"), || &a * w);
    ck.eq("mulw:left_val", e("mulw"), || w * a.clone());
    ck.eq("mulw:left_ref", e("mulw"), || w * &a);
    ck.eq("mulw:assign", e("mulw"), || { let mut x = a.clone(); x *= w; x });
    ck.eq("mulw:inline", e("mulw"), || MulInline::<u64>::mul_inline(&a, w));
    ck.eq("mulw:full", (e("mulw"), eu("mulwhi")), || MulFullInline::<u64>::mul_full_inline(&a, w));
    ck.eq("mulw:full_assign", (e("mulw"), eu("mulwhi")), || { let mut x = a.clone(); let h = MulFullInline::<u64>::mul_full_assign_inline(&mut x, w); (x, h) });

    ck.eq("pow", e("pow"), || (&a).pow(w));
    ck.eq("muladd", e("muladd"), || (&a).mul_add(&b, &c));
    ck.eq("muladd:assign", e("muladd"), || { let mut x = a.clone(); x.mul_add_assign(&b, &c); x });
    ck.eq("sum", e("sum"), || vec![a.clone(), b.clone(), c.clone()].into_iter().sum::<U256>());
    ck.eq("sum:empty", e("sum0"), || Vec::<U256>::new().into_iter().sum::<U256>());
    ck.eq("prod", e("prod"), || vec![a.clone(), b.clone(), c.clone()].into_iter().product::<U256>());
    ck.eq("prod:empty", e("prod0"), || Vec::<U256>::new().into_iter().product::<U256>());

    forms!(ck, "and", a, b, e("and"), &, &=);
    forms!(ck, "or", a, b, e("or"), |, |=);
    forms!(ck, "xor", a, b, e("xor"), ^, ^=);
    ck.eq("not", e("not"), || !a.clone());
    ck.eq("andw", eu("andw"), || &a & w);
    ck.eq("shl", e("shl"), || a.clone() << n);
    ck.eq("shl:assign", e("shl"), || { let mut x = a.clone(); x <<= n; x });
    ck.eq("shr", e("shr"), || a.clone() >> n);
    ck.eq("shr:assign", e("shr"), || { let mut x = a.clone(); x >>= n; x });
    ck.eq("bit", ei("bit") == 1, || a.bit(n));
    ck.eq("ones", eu("ones") as usize, || Binary::count_ones(&a));
    ck.eq("zeros", eu("zeros") as usize, || Binary::count_zeros(&a));
    ck.eq("lz", eu("lz") as usize, || Binary::leading_zeros(&a));
    ck.eq("tz", eu("tz") as usize, || Binary::trailing_zeros(&a));
    ck.eq("bits", eu("bits") as usize, || Binary::bits(&a));
    let m = ei("msb");
    ck.eq("msb", if m < 0 { None } else { Some(m as usize) }, || a.most_significant_bit());
    ck.eq("num_bits", 256usize, U256::num_bits);

    let ord = ei("cmp").cmp(&0);
    ck.eq("cmp", ord, || a.cmp(&b));
    ck.eq("cmp:partial", Some(ord), || a.partial_cmp(&b));
    ck.eq("cmp:rev", ord.reverse(), || b.cmp(&a));
    ck.eq("cmp:lt", ord.is_lt(), || a < b);
    ck.eq("cmp:le", ord.is_le(), || a <= b);
    ck.eq("cmp:gt", ord.is_gt(), || a > b);
    ck.eq("cmp:ge", ord.is_ge(), || a >= b);
    ck.eq("cmp:eq", ord.is_eq(), || a == b);
    ck.eq("cmp:max", if ord.is_gt() { a.clone() } else { b.clone() }, || a.clone().max(b.clone()));
    ck.eq("iszero", ei("iszero") == 1, || a.is_zero());
    ck.eq("isone", ei("isone") == 1, || a.is_one());
    ck.eq("hash_eq", true, || {
        use std::hash::{Hash, Hasher};
        let h = |x: &U256| { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() };
        (a != b) || h(&a) == h(&b)
    });

    ck.eq("adc", (eu("adc_lo"), eu("adc_hi")), || adc(w, v, t));
    ck.eq("sbb", (eu("sbb_lo"), eu("sbb_hi")), || sbb(w, v, t % 2));
    ck.eq("mac", (eu("mac_lo"), eu("mac_hi")), || mac(w, v, t, a.limb(0)));
    ck.eq("msub", (eu("msb_lo"), eu("msb_hi")), || msb(w, v, t, a.limb(0)));
    if t != 0 {
        ck.eq("div21", (eu("div21_q"), eu("div21_r")), || div_2_1(v, w % t, t));
    }
    ck.sample(json!({"a": a.to_string(), "b": b.to_string(), "n": n, "add": e("add").to_string(), "mul": e("mul").to_string()}));
}

fn div(ck: &mut Ck, st: &Value) {
    let (a, b, c, m) = (u(st.f("a")), u(st.f("b")), u(st.f("c")), u(st.f("m")));
    let w = st.f("w").u64();
    let o = st.f("obs").map();
    let e = |k: &str| U256::from_limbs(o[k].limbs());
    for k in ["adjust", "addback", "madjust", "maddback"] {
        if o[k].u() > 0 {
            ck.note(k);
        }
    }
    if b.is_zero() {
        ck.note("zero divisor");
        ck.eq("divrem:zero", None, || a.div_rem(&b));
        ck.refuses("div:zero", || &a / &b);
        ck.refuses("rem:zero", || &a % &b);
    } else {
        ck.eq("divrem", Some((e("q"), e("r"))), || a.div_rem(&b));
        forms!(ck, "div", a, b, e("q"), /, /=);
        forms!(ck, "rem", a, b, e("r"), %, %=);
    }
    if w == 0 {
        ck.eq("divremw:zero", None, || a.div_rem(0_u64));
    } else {
        ck.eq("divremw", Some((e("qw"), o["rw"].u64())), || a.div_rem(w));
    }
    if !m.is_zero() {
        ck.eq("mulmod", e("mulmod"), || a.mulmod(&c, &m));
        ck.eq("mulmod:commuted", e("mulmod"), || c.mulmod(&a, &m));
    }
    ck.sample(json!({"a": a.to_string(), "b": b.to_string(), "q": format!("{:?}", o["q"]), "r": format!("{:?}", o["r"])}));
}

fn gcd(ck: &mut Ck, st: &Value) {
    let (a, b, m) = (u(st.f("a")), u(st.f("b")), u(st.f("m")));
    let o = st.f("obs").map();
    let g = o["gcd"].int();
    let big = |x: &U256| Int::from_limbs(x.as_limbs());
    ck.eq("gcd", g.clone(), || big(&U256::gcd(&a, &b)));
    ck.eq("gcd:commuted", g.clone(), || big(&U256::gcd(&b, &a)));
    if let Some((d, s, t, even)) = ck.get("gcd_extended", || U256::gcd_extended(&a, &b)) {
        ck.eq("gcd_extended:gcd", g.clone(), || big(&d));
        let sa = big(&s).mul(&big(&a));
        let tb = big(&t).mul(&big(&b));
        // g = s a - t b or g = t b - s a
        let (l, r) = if even { (sa, tb.add(&g)) } else { (tb, sa.add(&g)) };
        ck.holds("gcd_extended:bezout", l == r, || format!("g {} s {} t {} even {}", d, s, t, even));
    }
    if m > U256::ONE {
        let i = o["inv"].int();
        let want = if i.neg { None } else { Some(U256::from_limbs(i.limbs4())) };
        ck.note(if i.neg { "no inverse" } else { "inverse" });
        ck.eq("inv_mod", want, || a.inv_mod(&m));
    }
    let i = o["inv2"].int();
    let want = if i.neg { None } else { Some(U256::from_limbs(i.limbs4())) };
    ck.eq("inv", want, || (&a).inv());
    ck.sample(json!({"a": a.to_string(), "b": b.to_string(), "gcd": g.to_string()}));
}

fn string(v: &Value) -> String {
    v.list().iter().map(|c| char::from_u32(c.u64() as u32).expect("scalar value")).collect()
}

/// Values in the output of a literal macro, None when it is a compile error.
fn literal(out: String) -> Option<Vec<u64>> {
    if out.contains("compile_error") {
        return None;
    }
    let mut r = vec![];
    for part in out.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
        if let Some(n) = part.strip_suffix("u64") {
            if let Ok(v) = n.parse() {
                r.push(v);
            }
        }
    }
    Some(r)
}

fn text(ck: &mut Ck, st: &Value) {
    let x = u(st.f("x"));
    let o = st.f("nat").map();
    let (dec, hexa) = (string(st.f("dec")), string(st.f("hexa")));
    let bytes: Vec<u8> = st.f("bytes").list().iter().map(|b| b.u64() as u8).collect();
    let mut arr = [0u8; 32];
    arr.copy_from_slice(&bytes);
    ck.eq("to_decimal_string", dec.clone(), || x.to_decimal_string());
    ck.eq("from_decimal_str", Ok(x.clone()), || U256::from_decimal_str(&dec));
    ck.eq("to_hex_string", format!("0x{}", hexa), || x.to_hex_string());
    ck.eq("from_hex_str", x.clone(), || U256::from_hex_str(&hexa));
    ck.eq("display", hexa.clone(), || x.to_string());
    ck.eq("debug", format!("u256h!(\"{}\")", hexa), || format!("{:?}", x));
    ck.eq("to_bytes_be", arr, || x.to_bytes_be());
    ck.eq("from_bytes_be", x.clone(), || U256::from_bytes_be(&arr));
    ck.eq("to_json", Some(format!("\"0x{}\"", hexa)), || serde_json::to_string(&x).ok());
    ck.eq("from_json", Some(x.clone()), || serde_json::from_str(&format!("\"0x{}\"", hexa)).ok());
    ck.eq("to_bincode", Some(bytes.clone()), || bincode::serialize(&x).ok());
    ck.eq("from_bincode", Some(x.clone()), || bincode::deserialize(&bytes).ok());
    ck.eq("from_bincode:short", None, || bincode::deserialize::<U256>(&bytes[..31]).ok());
    let i = |k: &str| o[k].int();
    macro_rules! native {
        ($t:ty, $n:expr, $as:ident, $to:ident) => {{
            let v: $t = i($n).i128() as $t;
            ck.eq(concat!("as_", $n), v, || x.$as());
            ck.eq(concat!("to_", $n), if i(concat!("fit_", $n)).u64() == 1 { Some(v) } else { None }, || x.$to());
        }};
    }
    native!(u8, "u8", as_u8, to_u8);
    native!(u16, "u16", as_u16, to_u16);
    native!(u32, "u32", as_u32, to_u32);
    native!(u64, "u64", as_u64, to_u64);
    native!(i8, "i8", as_i8, to_i8);
    native!(i16, "i16", as_i16, to_i16);
    native!(i32, "i32", as_i32, to_i32);
    native!(i64, "i64", as_i64, to_i64);
    native!(i128, "i128", as_i128, to_i128);
    native!(usize, "u64", as_usize, to_usize);
    native!(isize, "i64", as_isize, to_isize);
    {
        let v = i("u128").u128();
        ck.eq("as_u128", v, || x.as_u128());
        ck.eq("to_u128", if i("fit_u128").u64() == 1 { Some(v) } else { None }, || x.to_u128());
        ck.eq("from_u128", i("u128"), || Int::from_limbs(U256::from(v).as_limbs()));
    }
    macro_rules! from {
        ($t:ty, $n:expr, $e:expr) => {{
            let v: $t = i($n).i128() as $t;
            ck.eq(concat!("from_", stringify!($t)), i($e), || Int::from_limbs(U256::from(v).as_limbs()));
        }};
    }
    from!(u8, "u8", "u8");
    from!(u16, "u16", "u16");
    from!(u32, "u32", "u32");
    from!(u64, "u64", "u64");
    from!(usize, "u64", "u64");
    from!(i8, "i8", "from_i8");
    from!(i16, "i16", "from_i16");
    from!(i32, "i32", "from_i32");
    from!(i64, "i64", "from_i64");
    from!(isize, "i64", "from_i64");
    from!(i128, "i128", "from_i128");
    let v = i("u64").u64();
    ck.eq("from_u64:trait", Some(i("u64")), || U256::from_u64(v).map(|n| Int::from_limbs(n.as_limbs())));
    ck.eq("from_i64:trait", Some(i("from_i64")), || U256::from_i64(v as i64).map(|n| Int::from_limbs(n.as_limbs())));
    ck.eq("from_bool", [v & 1, 0, 0, 0], || *U256::from(v & 1 == 1).as_limbs());
    ck.eq("limbs", true, || (0..4).all(|k| x.limb(k) == x.as_limbs()[k]));
    ck.eq("set_limb", x.clone(), || { let mut y = U256::MAX; for k in 0..4 { y.set_limb(k, x.limb(k)); } y });

    // texts to be parsed
    let t = string(st.f("text"));
    let want = st.f("asDec").int();
    ck.note(if want.neg { "decimal text refused" } else { "decimal text accepted" });
    let want = if want.neg { None } else { Some(U256::from_limbs(want.limbs4())) };
    ck.eq("parse_decimal", want, || U256::from_decimal_str(&t).ok());
    let h = st.f("asHex").int();
    let json = serde_json::to_string(&t).unwrap();
    if h == Int::parse("-1") {
        ck.note("hex text refused");
        ck.refuses("parse_hex:refused", || U256::from_hex_str(&t));
        ck.eq("json:refused", None, || serde_json::from_str::<U256>(&json).ok());
    } else if h == Int::parse("-2") {
        ck.note("hex text either way");
        let loose = U256::from_limbs(st.f("loose").limbs());
        if let Out::Ok(v) = ck.call("parse_hex:loose", || U256::from_hex_str(&t)) {
            ck.eq("parse_hex:loose", loose.clone(), || v);
        }
        let r = ck.get("json:loose", || serde_json::from_str::<U256>(&json).ok());
        if let Some(Some(v)) = r {
            ck.eq("json:loose", loose, || v);
        }
    } else {
        ck.note("hex text accepted");
        let e = U256::from_limbs(h.limbs4());
        ck.eq("parse_hex", e.clone(), || U256::from_hex_str(&t));
        ck.eq("json:accepted", Some(e), || serde_json::from_str::<U256>(&json).ok());
    }
    // compile-time literals
    let tokens = || -> proc_macro2::TokenStream { proc_macro2::TokenStream::from(proc_macro2::TokenTree::from(proc_macro2::Literal::string(&t))) };
    let l = st.f("asLit").int();
    let want = if l.neg { None } else { Some(l.limbs4().to_vec()) };
    ck.eq("literal:u256h", want, || literal(zkp_macros_lib::u256h(tokens()).to_string()));
    let l = st.f("asField").int();
    let want = if l.neg { None } else { Some(l.limbs4().to_vec()) };
    ck.eq("literal:field_element", want, || literal(zkp_macros_lib::field_element(tokens()).to_string()));
    ck.sample(json!({"text": t, "decimal": dec}));
}

fn main() {
    let a = args();
    let prop = a.prop.clone();
    drive(&a, 8, Duration::from_secs(20), move |ck, file, states, _o: &BTreeMap<String, String>| {
        for (i, st) in states.iter().enumerate() {
            ck.enter(format!("{}#{}", file, i), st);
            match prop.as_str() {
                "C17" => ring(ck, st),
                "C18" => div(ck, st),
                "C19" => gcd(ck, st),
                "C20" => text(ck, st),
                p => panic!("no driver for {}", p),
            }
        }
    });
}
