//! Access to values of the Informal Trace Format written by `quint run`.
use crate::big::Int;
use serde_json::Value;
use std::collections::BTreeMap;

pub trait V {
    fn int(&self) -> Int;
    fn f(&self, name: &str) -> &Value;
    fn list(&self) -> &Vec<Value>;
    fn tup(&self, i: usize) -> &Value;
    fn map(&self) -> BTreeMap<String, Value>;
    fn s(&self) -> &str;
    fn b(&self) -> bool;
    fn u(&self) -> usize;
    fn u64(&self) -> u64;
    fn limbs(&self) -> [u64; 4];
    fn ints(&self) -> Vec<Int>;
    fn usizes(&self) -> Vec<usize>;
    fn set(&self) -> &Vec<Value>;
}

impl V for Value {
    fn int(&self) -> Int {
        match self {
            Value::Number(n) => Int::from_i128(i128::from(n.as_i64().expect("integer"))),
            Value::Object(m) => Int::parse(m["#bigint"].as_str().expect("#bigint")),
            _ => panic!("trace: expected integer, got {}", self),
        }
    }
    fn f(&self, name: &str) -> &Value {
        self.get(name).unwrap_or_else(|| panic!("trace: no field {} in {}", name, self))
    }
    fn list(&self) -> &Vec<Value> {
        self.as_array().unwrap_or_else(|| panic!("trace: expected list, got {}", self))
    }
    fn tup(&self, i: usize) -> &Value {
        &self.f("#tup").list()[i]
    }
    fn set(&self) -> &Vec<Value> {
        self.f("#set").list()
    }
    fn map(&self) -> BTreeMap<String, Value> {
        self.f("#map")
            .list()
            .iter()
            .map(|kv| (kv.list()[0].as_str().expect("string key").to_string(), kv.list()[1].clone()))
            .collect()
    }
    fn s(&self) -> &str {
        self.as_str().unwrap_or_else(|| panic!("trace: expected string, got {}", self))
    }
    fn b(&self) -> bool {
        self.as_bool().unwrap_or_else(|| panic!("trace: expected bool, got {}", self))
    }
    fn u(&self) -> usize {
        self.int().usize()
    }
    fn u64(&self) -> u64 {
        self.int().u64()
    }
    fn limbs(&self) -> [u64; 4] {
        self.int().limbs4()
    }
    fn ints(&self) -> Vec<Int> {
        self.list().iter().map(V::int).collect()
    }
    fn usizes(&self) -> Vec<usize> {
        self.list().iter().map(V::u).collect()
    }
}

pub fn load(path: &str) -> Vec<Value> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let mut v: Value = serde_json::from_str(&text).unwrap_or_else(|e| panic!("{}: {}", path, e));
    match v["states"].take() {
        Value::Array(a) => a,
        _ => panic!("{}: no states", path),
    }
}
