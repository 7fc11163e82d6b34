//! Driver loop: replays specification traces into the code under test.
use crate::itf::load;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Slot {
    label: String,
    since: Instant,
    state: Value,
    at: String,
    busy: bool,
}

/// Records every comparison of the code's behaviour with the specification's.
pub struct Ck {
    slot: Arc<Mutex<Slot>>,
    pub at: String,
    pub state: Value,
    pub evals: u64,
    pub panics_expected: u64,
    pub labels: BTreeMap<String, u64>,
    pub violations: Vec<Value>,
    pub samples: Vec<Value>,
    pub notes: BTreeMap<String, u64>,
    pub tool_errors: Vec<String>,
    pub extra: Value,
}

/// Outcome of calling the code under test.
pub enum Out<T> {
    Ok(T),
    Panic(String),
}

impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            Out::Panic(_) => None,
        }
    }
}

#[inline(never)]
fn done<T>(out: Option<T>, p: Option<String>) -> Out<T> {
    match (out, p) {
        (Some(v), None) => Out::Ok(v),
        (_, p) => Out::Panic(p.unwrap_or_default()),
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

impl Ck {
    fn new() -> (Ck, Arc<Mutex<Slot>>) {
        let slot = Arc::new(Mutex::new(Slot {
            label: String::new(),
            since: Instant::now(),
            state: Value::Null,
            at: String::new(),
            busy: false,
        }));
        (
            Ck {
                slot: slot.clone(),
                at: String::new(),
                state: Value::Null,
                evals: 0,
                panics_expected: 0,
                labels: BTreeMap::new(),
                violations: vec![],
                samples: vec![],
                notes: BTreeMap::new(),
                tool_errors: vec![],
                extra: Value::Null,
            },
            slot,
        )
    }

    pub fn enter(&mut self, at: String, state: &Value) {
        self.at = at.clone();
        self.state = state.clone();
        let mut s = self.slot.lock().unwrap();
        s.state = state.clone();
        s.at = at;
    }

    pub fn note(&mut self, what: &str) {
        *self.notes.entry(what.to_string()).or_insert(0) += 1;
    }

    /// Runs the call with panics caught; None when it returned.
    #[inline(never)]
    fn guard(&mut self, label: &str, f: &mut dyn FnMut()) -> Option<String> {
        {
            let mut s = self.slot.lock().unwrap();
            s.label.clear();
            s.label.push_str(label);
            s.since = Instant::now();
            s.busy = true;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.slot.lock().unwrap().busy = false;
        r.err().map(panic_text)
    }

    pub fn call<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Out<T> {
        let mut f = Some(f);
        let mut out = None;
        let p = self.guard(label, &mut || out = Some((f.take().unwrap())()));
        done(out, p)
    }

    pub fn fail(&mut self, label: &str, expected: String, got: String) {
        if self.violations.len() < 25 {
            self.violations.push(json!({
                "label": label, "at": self.at, "expected": expected, "got": got,
                "state": self.state, "extra": self.extra,
            }));
        }
    }

    fn count(&mut self, label: &str) {
        self.evals += 1;
        if let Some(n) = self.labels.get_mut(label) {
            *n += 1;
        } else {
            self.labels.insert(label.to_string(), 1);
        }
    }

    /// The call must return `expected`.
    pub fn eq<T: PartialEq + Debug>(&mut self, label: &str, expected: T, f: impl FnOnce() -> T) -> bool {
        let r = self.call(label, f);
        self.judge(label, expected, r)
    }

    #[inline(never)]
    fn judge<T: PartialEq + Debug>(&mut self, label: &str, expected: T, r: Out<T>) -> bool {
        self.count(label);
        match r {
            Out::Ok(v) if v == expected => true,
            Out::Ok(v) => {
                self.fail(label, format!("{:?}", expected), format!("{:?}", v));
                false
            }
            Out::Panic(p) => {
                self.fail(label, format!("{:?}", expected), format!("panic: {}", p));
                false
            }
        }
    }

    /// The call must not return normally with a value (it must panic): used
    /// where the specification says the operation is refused.
    pub fn refuses<T: Debug>(&mut self, label: &str, f: impl FnOnce() -> T) -> bool {
        self.count(label);
        match self.call(label, f) {
            Out::Panic(_) => {
                self.panics_expected += 1;
                true
            }
            Out::Ok(v) => {
                self.fail(label, "refusal".into(), format!("{:?}", v));
                false
            }
        }
    }

    /// The call must return; its value is passed on.
    pub fn get<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.count(label);
        match self.call(label, f) {
            Out::Ok(v) => Some(v),
            Out::Panic(p) => {
                self.fail(label, "a value".into(), format!("panic: {}", p));
                None
            }
        }
    }

    pub fn holds(&mut self, label: &str, cond: bool, what: impl FnOnce() -> String) -> bool {
        self.count(label);
        if !cond {
            self.fail(label, "true".into(), what());
        }
        cond
    }

    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
}

pub struct Args {
    pub prop: String,
    pub out: String,
    pub files: Vec<String>,
    pub opts: BTreeMap<String, String>,
}

pub fn args() -> Args {
    let mut it = std::env::args().skip(1);
    let prop = it.next().expect("property");
    let out = it.next().expect("output file");
    let mut files = vec![];
    let mut opts = BTreeMap::new();
    for a in it {
        if let Some(o) = a.strip_prefix("--") {
            let mut kv = o.splitn(2, '=');
            let k = kv.next().unwrap().to_string();
            opts.insert(k, kv.next().unwrap_or("").to_string());
        } else {
            files.push(a);
        }
    }
    Args { prop, out, files, opts }
}

/// Replays every trace file with `handler`, `threads` files at a time. A call
/// into the code under test that does not return within `patience` is reported
/// as a violation (non-termination).
pub fn drive(
    a: &Args,
    threads: usize,
    patience: Duration,
    handler: impl Fn(&mut Ck, &str, &[Value], &BTreeMap<String, String>) + Send + Sync + 'static,
) {
    std::panic::set_hook(Box::new(|_| {}));
    let n = threads.max(1).min(a.files.len().max(1));
    let next = Arc::new(AtomicUsize::new(0));
    let handler = Arc::new(handler);
    let files = Arc::new(a.files.clone());
    let opts = Arc::new(a.opts.clone());
    let mut slots = vec![];
    let mut joins = vec![];
    let done = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<(Ck, u64, u64)>>> = Arc::new(Mutex::new(vec![]));
    for _ in 0..n {
        let (ck, slot) = Ck::new();
        slots.push(slot);
        let (next, handler, files, results, done, opts) =
            (next.clone(), handler.clone(), files.clone(), results.clone(), done.clone(), opts.clone());
        joins.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ck = ck;
                    let (mut states, mut traces) = (0u64, 0u64);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= files.len() {
                            break;
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let st = load(&files[i]);
                            let stem = std::path::Path::new(&files[i])
                                .file_name()
                                .map(|s| s.to_string_lossy().to_string())
                                .unwrap_or_default();
                            handler(&mut ck, &stem, &st, &opts);
                            st.len() as u64
                        }));
                        match r {
                            Ok(k) => {
                                states += k;
                                traces += 1;
                            }
                            Err(e) => {
                                let t = panic_text(e);
                                if t.contains("trace:") {
                                    ck.tool_errors.push(format!("{}: {}", files[i], t))
                                } else {
                                    // a panic of the code under test in a call without its own guard
                                    ck.fail("panic", "the calls return".into(), t)
                                }
                            }
                        }
                    }
                    results.lock().unwrap().push((ck, states, traces));
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("thread"),
        );
    }
    // watch for calls that never return
    let mut hang: Option<Value> = None;
    while done.load(Ordering::SeqCst) < n {
        std::thread::sleep(Duration::from_millis(20));
        if joins.iter().all(|j| j.is_finished()) {
            break;
        }
        for s in &slots {
            let s = s.lock().unwrap();
            if s.busy && s.since.elapsed() > patience {
                hang = Some(json!({
                    "label": s.label, "at": s.at, "expected": "the call returns",
                    "got": format!("no return within {:?}", patience), "state": s.state,
                }));
            }
        }
        if hang.is_some() {
            break;
        }
    }
    let mut evals = 0;
    let mut states = 0;
    let mut traces = 0;
    let mut refusals = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<Value> = hang.into_iter().collect();
    let mut samples = vec![];
    let mut errors = vec![];
    for (ck, s, t) in results.lock().unwrap().iter() {
        evals += ck.evals;
        states += s;
        traces += t;
        refusals += ck.panics_expected;
        for (k, v) in &ck.labels {
            *labels.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &ck.notes {
            *notes.entry(k.clone()).or_insert(0) += v;
        }
        violations.extend(ck.violations.iter().cloned());
        samples.extend(ck.samples.iter().cloned());
        errors.extend(ck.tool_errors.iter().cloned());
    }
    samples.truncate(3);
    let report = json!({
        "evaluations": evals, "states": states, "traces": traces, "refusals": refusals,
        "labels": labels, "notes": notes, "violations": violations, "samples": samples,
        "tool_errors": errors,
    });
    std::fs::write(&a.out, serde_json::to_string(&report).unwrap()).expect("report");
    std::process::exit(0);
}
