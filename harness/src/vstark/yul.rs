//! A small interpreter for the assembly of the generated contracts.
use std::collections::HashMap;
use vharness::fp::*;

pub type W = L4;
pub fn small(v: u64) -> W {
    [v, 0, 0, 0]
}
fn addw(a: &W, b: &W) -> W {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += u128::from(a[i]) + u128::from(b[i]);
        r[i] = c as u64;
        c >>= 64;
    }
    r
}
fn subw(a: &W, b: &W) -> W {
    let mut n = [0; 4];
    for i in 0..4 {
        n[i] = !b[i];
    }
    addw(&addw(a, &n), &small(1))
}
pub fn be(v: &W) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&v[3 - i].to_be_bytes());
    }
    r
}
pub fn from_be(b: &[u8]) -> W {
    let mut m = [0; 4];
    for i in 0..4 {
        m[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    m
}
pub fn modulus() -> W {
    from_be(&modulus_be())
}
/// as an element of the field, whatever its size
pub fn reduced(v: &W) -> F {
    let p = modulus();
    let mut v = *v;
    while geq(&v, &p) {
        v = subw(&v, &p);
    }
    F::of(v)
}

#[derive(Clone, Debug)]
enum E {
    N(W),
    Var(String),
    Call(String, Vec<E>),
}
#[derive(Clone, Debug)]
enum S {
    Block(Vec<S>),
    Let(String, Option<E>),
    Set(String, E),
    Do(E),
    If(E, Vec<S>),
    For(Vec<S>, E, Vec<S>, Vec<S>),
}
#[derive(Clone)]
struct Fun {
    args: Vec<String>,
    rets: Vec<String>,
    body: Vec<S>,
}
pub struct Machine {
    pub calldata: Vec<u8>,
    mem: Vec<u8>,
    funs: HashMap<String, Fun>,
    steps: usize,
}
pub enum Stop {
    Return(Vec<u8>),
    Revert,
    Bad(String),
}
fn bad<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Bad(s.into()))
}

fn tokens(src: &str) -> Vec<String> {
    let mut out = vec![];
    for line in src.lines() {
        let line = line.split("//").next().unwrap();
        let mut cur = String::new();
        for c in line.chars().chain(std::iter::once(' ')) {
            if c.is_alphanumeric() || c == '_' || c == '.' || c == '$' {
                cur.push(c);
                continue;
            }
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            match c {
                '=' if out.last().map_or(false, |t| t == ":") => *out.last_mut().unwrap() = ":=".into(),
                '>' if out.last().map_or(false, |t| t == "-") => *out.last_mut().unwrap() = "->".into(),
                c if c.is_whitespace() => {}
                c => out.push(c.to_string()),
            }
        }
    }
    out
}
struct Parser {
    t: Vec<String>,
    at: usize,
    funs: HashMap<String, Fun>,
}
impl Parser {
    fn peek(&self) -> &str {
        self.t.get(self.at).map_or("", |s| s)
    }
    fn next(&mut self) -> String {
        self.at += 1;
        self.t.get(self.at - 1).cloned().unwrap_or_default()
    }
    fn want(&mut self, s: &str) -> Result<(), String> {
        let n = self.next();
        if n == s {
            Ok(())
        } else {
            Err(format!("{} instead of {}", n, s))
        }
    }
    fn block(&mut self) -> Result<Vec<S>, String> {
        self.want("{")?;
        let mut out = vec![];
        while self.peek() != "}" {
            if self.at >= self.t.len() {
                return Err("unfinished block".into());
            }
            if let Some(s) = self.stmt()? {
                out.push(s);
            }
        }
        self.next();
        Ok(out)
    }
    fn names(&mut self, end: &str) -> Result<Vec<String>, String> {
        let mut out = vec![];
        while self.peek() != end {
            out.push(self.next());
            if self.peek() == "," {
                self.next();
            }
            if self.at >= self.t.len() {
                return Err("unfinished list".into());
            }
        }
        Ok(out)
    }
    fn stmt(&mut self) -> Result<Option<S>, String> {
        Ok(Some(match self.peek() {
            "{" => S::Block(self.block()?),
            "function" => {
                self.next();
                let name = self.next();
                self.want("(")?;
                let args = self.names(")")?;
                self.next();
                let rets = if self.peek() == "->" {
                    self.next();
                    self.names("{")?
                } else {
                    vec![]
                };
                let body = self.block()?;
                self.funs.insert(name, Fun { args, rets, body });
                return Ok(None);
            }
            "let" => {
                self.next();
                let n = self.next();
                if self.peek() == ":=" {
                    self.next();
                    S::Let(n, Some(self.expr()?))
                } else {
                    S::Let(n, None)
                }
            }
            "if" => {
                self.next();
                let c = self.expr()?;
                S::If(c, self.block()?)
            }
            "for" => {
                self.next();
                let init = self.block()?;
                let c = self.expr()?;
                let post = self.block()?;
                S::For(init, c, post, self.block()?)
            }
            _ => {
                if self.t.get(self.at + 1).map_or(false, |t| t == ":=") {
                    let n = self.next();
                    self.next();
                    S::Set(n, self.expr()?)
                } else {
                    S::Do(self.expr()?)
                }
            }
        }))
    }
    fn expr(&mut self) -> Result<E, String> {
        let n = self.next();
        if n.starts_with("0x") || n.chars().next().map_or(false, |c| c.is_ascii_digit()) {
            return Ok(E::N(number(&n).ok_or(format!("number {}", n))?));
        }
        if !n.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') {
            return Err(format!("{} in an expression", n));
        }
        if self.peek() != "(" {
            return Ok(E::Var(n));
        }
        self.next();
        let mut args = vec![];
        while self.peek() != ")" {
            args.push(self.expr()?);
            match self.peek() {
                "," => {
                    self.next();
                }
                ")" => {}
                t => return Err(format!("{} in arguments", t)),
            }
        }
        self.next();
        Ok(E::Call(n, args))
    }
}
fn number(s: &str) -> Option<W> {
    if let Some(h) = s.strip_prefix("0x") {
        if h.is_empty() || h.len() > 64 {
            return None;
        }
        let b = hex::decode(format!("{:0>64}", h)).ok()?;
        return Some(from_be(&b));
    }
    s.parse::<u64>().ok().map(small)
}

type Env = Vec<HashMap<String, W>>;
impl Machine {
    fn get(&self, at: u64) -> Result<usize, Stop> {
        if at > 1 << 24 {
            bad("far memory")
        } else {
            Ok(at as usize)
        }
    }
    fn load(&mut self, at: &W) -> Result<W, Stop> {
        if at[1..] != [0; 3] {
            return bad("far memory");
        }
        let a = self.get(at[0])?;
        if self.mem.len() < a + 32 {
            self.mem.resize(a + 32, 0);
        }
        Ok(from_be(&self.mem[a..a + 32]))
    }
    fn store(&mut self, at: &W, v: &W) -> Result<(), Stop> {
        self.load(at)?;
        let a = at[0] as usize;
        self.mem[a..a + 32].copy_from_slice(&be(v));
        Ok(())
    }
    fn eval(&mut self, e: &E, env: &mut Env) -> Result<W, Stop> {
        self.steps += 1;
        if self.steps > 20_000_000 {
            return bad("does not end");
        }
        match e {
            E::N(w) => Ok(*w),
            E::Var(n) => env.iter().rev().find_map(|s| s.get(n)).copied().map_or_else(|| bad(format!("variable {}", n)), Ok),
            E::Call(f, args) => {
                // from the last to the first
                let mut a = vec![];
                for x in args.iter().rev() {
                    a.push(self.eval(x, env)?);
                }
                a.reverse();
                self.call(f, &a)
            }
        }
    }
    fn call(&mut self, f: &str, a: &[W]) -> Result<W, Stop> {
        let bit = |b: bool| Ok(small(u64::from(b)));
        let modp = |m: &W| if *m == modulus() { Ok(()) } else { bad("another modulus") };
        match (f, a) {
            ("add", [x, y]) => Ok(addw(x, y)),
            ("sub", [x, y]) => Ok(subw(x, y)),
            ("addmod", [x, y, m]) => {
                modp(m)?;
                Ok((reduced(x) + reduced(y)).value())
            }
            ("mulmod", [x, y, m]) => {
                modp(m)?;
                Ok((reduced(x) * reduced(y)).value())
            }
            ("mod", [x, m]) => {
                modp(m)?;
                Ok(reduced(x).value())
            }
            ("lt", [x, y]) => bit(!geq(x, y)),
            ("gt", [x, y]) => bit(!geq(y, x)),
            ("eq", [x, y]) => bit(x == y),
            ("iszero", [x]) => bit(*x == [0; 4]),
            ("and", [x, y]) => Ok([x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]]),
            ("shr", [k, x]) => {
                let k = k[0].min(256) as usize;
                let at = |j: usize| x.get(j).copied().unwrap_or(0);
                let mut r = [0; 4];
                for (i, w) in r.iter_mut().enumerate() {
                    let (q, b) = (i + k / 64, k % 64);
                    *w = if b == 0 { at(q) } else { at(q) >> b | at(q + 1) << (64 - b) };
                }
                Ok(r)
            }
            ("callvalue", []) => Ok([0; 4]),
            ("gas", []) => Ok([u64::MAX; 4]),
            ("mload", [at]) => self.load(at),
            ("mstore", [at, v]) => self.store(at, v).map(|()| [0; 4]),
            ("calldataload", [at]) => {
                let i = if at[1..] == [0; 3] { at[0] as usize } else { usize::MAX / 2 };
                let b: Vec<u8> = (i..i + 32).map(|j| self.calldata.get(j).copied().unwrap_or(0)).collect();
                Ok(from_be(&b))
            }
            ("return", [at, n]) => {
                self.load(at)?;
                let a = at[0] as usize;
                Err(Stop::Return(self.mem[a..a + n[0] as usize].to_vec()))
            }
            ("revert", _) => Err(Stop::Revert),
            ("call" | "staticcall", _) => {
                // the modexp precompile, on words
                let a = if f == "call" { [a[0], a[1], a[3], a[4], a[5], a[6]] } else { [a[0], a[1], a[2], a[3], a[4], a[5]] };
                if a[1] != small(5) || a[3] != small(0xc0) || a[5] != small(32) {
                    return bad("another contract");
                }
                let mut w = vec![];
                for k in 0..6 {
                    w.push(self.load(&addw(&a[2], &small(32 * k)))?);
                }
                if w[0] != small(32) || w[1] != small(32) || w[2] != small(32) {
                    return bad("lengths for modexp");
                }
                modp(&w[5])?;
                let v = reduced(&w[3]).pow_limbs(&w[4]).value();
                self.store(&a[4], &v)?;
                Ok(small(1))
            }
            _ => {
                let Some(fun) = self.funs.get(f).cloned() else { return bad(format!("function {}", f)) };
                if fun.args.len() != a.len() || fun.rets.len() > 1 {
                    return bad(format!("arguments of {}", f));
                }
                let mut env: Env = vec![HashMap::new()];
                for (n, v) in fun.args.iter().zip(a) {
                    env[0].insert(n.clone(), *v);
                }
                for n in &fun.rets {
                    env[0].insert(n.clone(), [0; 4]);
                }
                self.run(&fun.body, &mut env)?;
                Ok(fun.rets.first().map_or([0; 4], |n| env[0][n]))
            }
        }
    }
    fn run(&mut self, b: &[S], env: &mut Env) -> Result<(), Stop> {
        env.push(HashMap::new());
        for s in b {
            self.one(s, env)?;
        }
        env.pop();
        Ok(())
    }
    fn one(&mut self, s: &S, env: &mut Env) -> Result<(), Stop> {
        match s {
            S::Block(b) => self.run(b, env)?,
            S::Let(n, e) => {
                let v = match e {
                    Some(e) => self.eval(e, env)?,
                    None => [0; 4],
                };
                env.last_mut().unwrap().insert(n.clone(), v);
            }
            S::Set(n, e) => {
                let v = self.eval(e, env)?;
                match env.iter_mut().rev().find_map(|s| s.get_mut(n)) {
                    Some(x) => *x = v,
                    None => return bad(format!("variable {}", n)),
                }
            }
            S::Do(e) => {
                self.eval(e, env)?;
            }
            S::If(c, b) => {
                if self.eval(c, env)? != [0; 4] {
                    self.run(b, env)?;
                }
            }
            S::For(i, c, p, b) => {
                env.push(HashMap::new());
                for s in i {
                    self.one(s, env)?;
                }
                while self.eval(c, env)? != [0; 4] {
                    self.run(b, env)?;
                    self.run(p, env)?;
                }
                env.pop();
            }
        }
        Ok(())
    }
}
/// The first assembly block of the source; variables in and one out.
pub fn assembly(src: &str, calldata: Vec<u8>, input: &[(&str, W)], output: Option<&str>) -> Result<W, String> {
    let at = src.find("assembly").ok_or("no assembly")?;
    let mut p = Parser { t: tokens(&src[at + "assembly".len()..]), at: 0, funs: HashMap::new() };
    let body = p.block()?;
    let mut m = Machine { calldata, mem: vec![], funs: p.funs, steps: 0 };
    let mut env: Env = vec![input.iter().map(|(n, v)| (n.to_string(), *v)).collect()];
    match m.run(&body, &mut env) {
        Ok(()) => output.and_then(|o| env[0].get(o)).copied().ok_or("nothing returned".into()),
        Err(Stop::Return(b)) if b.len() == 32 => Ok(from_be(&b)),
        Err(Stop::Return(_)) => Err("returns another length".into()),
        Err(Stop::Revert) => Err("reverts".into()),
        Err(Stop::Bad(s)) => Err(s),
    }
}
