//! Conformance driver for the memory-mapped vector and the allocation statistics (C26, C27).
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vharness::*;
use zkp_logging_allocator::LoggingAllocator;
use zkp_mmap_vec::MmapVec;

// ---- element types ----------------------------------------------------------
#[derive(Default)]
struct Registry {
    live: BTreeMap<u64, i64>,
    next: u64,
    faults: Vec<String>,
    bomb: Option<u64>,
    mine: Option<u64>,
}
thread_local!(static REG: RefCell<Registry> = RefCell::new(Registry::default()));
const MAGIC: u64 = 0x5afe_c0de_5afe_c0de;

/// Element that knows which of its instances are alive.
struct Tok {
    magic: u64,
    id: u64,
    value: i64,
    // spans several pages for moderate capacities
    _pad: [u64; 30],
}
impl Tok {
    fn new(value: i64) -> Tok {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.next += 1;
            let id = r.next;
            r.live.insert(id, value);
            Tok { magic: MAGIC, id, value, _pad: [id; 30] }
        })
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        let bang = REG.with(|r| {
            let mut r = r.borrow_mut();
            if self.magic != MAGIC || !r.live.contains_key(&self.id) {
                r.faults.push("clone of something that is not a live element".into());
            }
            match r.bomb {
                Some(0) => {
                    r.bomb = None;
                    true
                }
                Some(n) => {
                    r.bomb = Some(n - 1);
                    false
                }
                None => false,
            }
        });
        if bang {
            panic!("clone fails");
        }
        Tok::new(self.value)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if self.magic != MAGIC {
                r.faults.push(format!("dropped something that was never stored (id {})", self.id));
            } else if r.live.remove(&self.id).is_none() {
                r.faults.push(format!("dropped twice: element with value {}", self.value));
            }
        });
        let bang = REG.with(|r| {
            let mut r = r.borrow_mut();
            let bang = r.mine == Some(self.id);
            if bang {
                r.mine = None;
            }
            bang
        });
        if bang && !std::thread::panicking() {
            panic!("drop fails");
        }
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.value == o.value
    }
}
impl Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.value)
    }
}

trait Elem: Clone + PartialEq + Debug {
    const ZEROABLE: bool;
    const TRACKED: bool = false;
    fn make(v: i64) -> Self;
    fn value(&self) -> i64;
    /// What becomes of a value that is stored.
    fn seen(v: i64) -> i64 {
        v
    }
    /// The next drop of this element fails.
    fn mine(&self) {}
}
/// No size at all.
#[derive(Clone, PartialEq, Debug)]
struct Nil;
impl Elem for Nil {
    const ZEROABLE: bool = true;
    fn make(_: i64) -> Self {
        Nil
    }
    fn value(&self) -> i64 {
        0
    }
    fn seen(_: i64) -> i64 {
        0
    }
}
macro_rules! num {
    ($t:ty) => {
        impl Elem for $t {
            const ZEROABLE: bool = true;
            fn make(v: i64) -> Self {
                v as $t
            }
            fn value(&self) -> i64 {
                *self as i64
            }
        }
    };
}
num!(u8);
num!(u64);
num!(u128);
impl Elem for [u64; 4] {
    const ZEROABLE: bool = true;
    fn make(v: i64) -> Self {
        [v as u64, 0, 0, 3 * v as u64]
    }
    fn value(&self) -> i64 {
        if self[3] == 3 * self[0] { self[0] as i64 } else { -1 }
    }
}
impl Elem for (u8, u32, u8) {
    const ZEROABLE: bool = true;
    fn make(v: i64) -> Self {
        (v as u8, v as u32, v as u8)
    }
    fn value(&self) -> i64 {
        if self.0 == self.2 { i64::from(self.1) } else { -1 }
    }
}
impl Elem for Tok {
    const ZEROABLE: bool = false;
    const TRACKED: bool = true;
    fn make(v: i64) -> Self {
        Tok::new(v)
    }
    fn value(&self) -> i64 {
        let ok = REG.with(|r| self.magic == MAGIC && r.borrow().live.contains_key(&self.id));
        if ok { self.value } else { -77 }
    }
    fn mine(&self) {
        REG.with(|r| r.borrow_mut().mine = Some(self.id));
    }
}

fn vals<T: Elem>(v: &MmapVec<T>) -> Vec<i64> {
    v.iter().map(Elem::value).collect()
}

fn vectors<T: Elem>(ck: &mut Ck, name: &str, states: &[Value], ty: &str) {
    REG.with(|r| *r.borrow_mut() = Registry::default());
    let cap0 = states[0].f("cap").usizes();
    let mut vs: Vec<MmapVec<T>> = cap0.iter().map(|c| MmapVec::with_capacity(*c)).collect();
    for (n, st) in states.iter().enumerate() {
        ck.enter(format!("{}#{}", name, n), st);
        let op = st.f("op");
        let o = op.f("name").s();
        let w = op.f("w").u();
        let k = op.f("n").u();
        let v = op.f("v").int().i64();
        let args: Vec<i64> = op.f("vs").ints().iter().map(Int::i64).collect();
        let want: Vec<Vec<i64>> =
            st.f("vec").list().iter().map(|l| l.ints().iter().map(|v| T::seen(v.i64())).collect()).collect();
        let refused = st.f("refused").b();
        let loose = st.f("loose").b();
        if o == "start" || (n == 0 && o == "nothing") {
            vs = st.f("cap").usizes().iter().map(|c| MmapVec::with_capacity(*c)).collect();
        }
        let before = vals(&vs[w]);
        let label = format!("{}:{}", ty, o);
        if refused && (o.starts_with("bomb") || o.starts_with("mine")) && !T::TRACKED {
            // only the tracked type has a fallible clone and drop
            let (w, t) = (w, want[w].len());
            if o.starts_with("mine") {
                vs[w].truncate(t);
            }
            continue;
        }
        let done = {
            let (x, y) = vs.split_at_mut(1);
            let (a, b) = if w == 0 { (&mut x[0], &y[0]) } else { (&mut y[0], &x[0]) };
            let mut run = || match o {
                "start" | "nothing" => {}
                "new" => *a = MmapVec::with_capacity(k),
                "zero" => {
                    *a = if T::ZEROABLE {
                        unsafe { MmapVec::zero_initialized(k) }
                    } else {
                        let mut t = MmapVec::with_capacity(k);
                        t.resize(k, T::make(0));
                        t
                    }
                }
                "push" => a.push(T::make(v)),
                "extend_slice" => {
                    let s: Vec<T> = args.iter().map(|v| T::make(*v)).collect();
                    a.extend_from_slice(&s)
                }
                "bomb_slice" | "bomb_extend" => {
                    let s: Vec<T> = args.iter().map(|v| T::make(*v)).collect();
                    REG.with(|r| r.borrow_mut().bomb = Some((k % args.len()) as u64));
                    if o == "bomb_slice" { a.extend_from_slice(&s) } else { a.extend(&s) }
                }
                "bomb_iter" => {
                    let stop = k % args.len();
                    a.extend(args.iter().enumerate().map(|(i, v)| if i == stop { panic!("iterator fails") } else { T::make(*v) }))
                }
                "bomb_resize" => {
                    let f = T::make(v);
                    REG.with(|r| r.borrow_mut().bomb = Some(0));
                    a.resize(k, f)
                }
                "bomb_clone" => {
                    if b.len() > 0 {
                        REG.with(|r| r.borrow_mut().bomb = Some((k % b.len()) as u64));
                    }
                    *a = b.clone()
                }
                "mine_truncate" | "mine_clear" | "mine_resize" => {
                    let to = if o == "mine_clear" { 0 } else { k };
                    if to < a.len() {
                        a[to + v as usize % (a.len() - to)].mine();
                    }
                    match o {
                        "mine_truncate" => a.truncate(k),
                        "mine_clear" => a.clear(),
                        _ => a.resize(k, T::make(v)),
                    }
                }
                "extend" => {
                    let mut left = args.iter();
                    let all = args.iter().map(|v| T::make(*v));
                    match args.len() % 3 {
                        // the length is known, unknown, or underestimated
                        0 => a.extend(all),
                        1 => a.extend(std::iter::from_fn(|| left.next().map(|v| T::make(*v)))),
                        _ => a.extend(all.filter(|_| true)),
                    }
                }
                "extend_ref" => {
                    let s: Vec<T> = args.iter().map(|v| T::make(*v)).collect();
                    a.extend(s.iter())
                }
                "resize" => a.resize(k, T::make(v)),
                "truncate" => a.truncate(k),
                "clear" => a.clear(),
                "write" => a[k] = T::make(v),
                "swap" => {
                    let l = a.len();
                    if l > 1 {
                        a.as_mut_slice().swap(k % l, v as usize % l)
                    }
                }
                "reverse" => a.reverse(),
                "clone" => *a = b.clone(),
                _ => panic!("trace: unknown operation {}", o),
            };
            if refused {
                ck.refuses(&label, &mut run)
            } else {
                ck.eq(&label, (), &mut run)
            }
        };
        if !done {
            // contents unknown from here on
            break;
        }
        REG.with(|r| {
            r.borrow_mut().bomb = None;
            r.borrow_mut().mine = None;
        });
        if refused {
            ck.note(&format!("refused {}", o));
        }
        if loose {
            let now = vals(&vs[w]);
            let full: Vec<i64> = before.iter().cloned().chain(args.iter().map(|v| T::seen(*v))).collect();
            ck.holds(&format!("{}:kept", label), now.len() >= before.len() && full.starts_with(&now), || {
                format!("{:?} after a refused extension of {:?}", now, before)
            });
            vs[w].truncate(before.len());
        }
        for i in 0..2 {
            ck.eq(&format!("{}:contents", label), want[i].clone(), || vals(&vs[i]));
            ck.eq(&format!("{}:len", label), (want[i].len(), want[i].is_empty()), || (vs[i].len(), vs[i].is_empty()));
            ck.eq(&format!("{}:as_slice", label), want[i].last().cloned(), || vs[i].as_slice().last().map(Elem::value));
        }
        let equal = if std::mem::size_of::<T>() == 0 { want[0] == want[1] } else { st.f("equal").b() };
        ck.eq(&format!("{}:eq", label), equal, || vs[0] == vs[1]);
        if T::TRACKED {
            let (live, faults) = REG.with(|r| {
                let mut r = r.borrow_mut();
                (r.live.len(), std::mem::take(&mut r.faults))
            });
            ck.eq(&format!("{}:live elements", label), want[0].len() + want[1].len(), || live);
            ck.holds(&format!("{}:drops", label), faults.is_empty(), || faults.join("; "));
        }
        if want[0].len() > 20 {
            ck.sample(json!({"operation": o, "type": ty, "contents": want[w], "refused": refused}));
        }
    }
    drop(vs);
    if T::TRACKED {
        let (live, faults) = REG.with(|r| {
            let r = r.borrow();
            (r.live.len(), r.faults.clone())
        });
        ck.eq("drop:live elements", 0, || live);
        ck.holds("drop:drops", faults.is_empty(), || faults.join("; "));
    }
}

fn extremes(ck: &mut Ck) {
    // capacities that do not fit into the address space are refused, never wrapped
    for c in [usize::max_value(), usize::max_value() / 8 + 2, 1usize << 61, (1usize << 61) + 1, 1usize << 60] {
        ck.enter(format!("capacity {}", c), &json!({ "capacity": c.to_string() }));
        ck.holds(
            "capacity:wraps",
            catch_unwind(|| {
                let mut v = MmapVec::<u64>::with_capacity(c);
                v.push(1);
                v.len()
            })
            .is_err(),
            || "a mapping smaller than its capacity".into(),
        );
    }
    // large vectors, across many pages
    ck.eq("large", (100_000, 99_999u64 * 100_000 / 2), || {
        let mut v = MmapVec::<u64>::with_capacity(100_000);
        v.extend(0..100_000u64);
        (v.len(), v.iter().sum())
    });
    ck.eq("large:zero", (70_000, 0u64), || {
        let v = unsafe { MmapVec::<u64>::zero_initialized(70_000) };
        (v.len(), v.iter().sum())
    });
}

// ---- allocation statistics --------------------------------------------------
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        // render the message, as any logger would
        let text = format!("{}", r.args());
        HEARD.with(|h| h.borrow_mut().push((r.level().to_string(), text)));
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;
thread_local! {
    static HEARD: std::cell::RefCell<Vec<(String, String)>> = std::cell::RefCell::new(vec![]);
}
fn heard() -> Vec<(String, String)> {
    HEARD.with(|h| h.borrow_mut().drain(..).collect())
}
/// The amounts a message speaks of: numbers with a unit of bytes.
fn amounts(text: &str) -> Vec<f64> {
    let words: Vec<&str> = text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.')).filter(|w| !w.is_empty()).collect();
    words
        .windows(2)
        .filter_map(|w| {
            let unit = ["B", "kB", "MB", "GB", "TB"].iter().position(|u| *u == w[1])?;
            Some(w[0].parse::<f64>().ok()? * 1000f64.powi(unit as i32))
        })
        .collect()
}
/// To three digits.
fn speaks_of(text: &str, want: &[usize]) -> bool {
    let got = amounts(text);
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| (g - *w as f64).abs() <= 0.006 * *w as f64)
}

fn figures(a: &LoggingAllocator) -> (usize, usize, usize, usize, usize) {
    (a.allocated(), a.total_allocated(), a.num_allocations(), a.largest_allocated(), a.peak_allocated())
}

fn available(l: Layout) -> bool {
    unsafe {
        let p = System.alloc(l);
        if p.is_null() {
            return false;
        }
        System.dealloc(p, l);
        true
    }
}

fn statistics(ck: &mut Ck, name: &str, states: &[Value]) {
    let mut a = LoggingAllocator::new();
    let mut blocks: Vec<(*mut u8, Layout)> = vec![];
    for (n, st) in states.iter().enumerate() {
        ck.enter(format!("{}#{}", name, n), st);
        let op = st.f("op");
        let o = op.f("name").s();
        let size = op.f("size").int().u64() as usize;
        let i = op.f("i").u();
        let refused = st.f("refused").b();
        if refused {
            ck.note("rejected request");
        }
        let layout = |al: usize| Layout::from_size_align(size, al).expect("trace: layout");
        if size >= 100_000_000 && !refused && o != "dealloc" && !available(layout(8)) {
            ck.note("memory not available");
            break;
        }
        let al = op.f("align").u();
        let _ = heard();
        match o {
            "reset" => {
                for (p, l) in blocks.drain(..) {
                    unsafe { System.dealloc(p, l) }
                }
                a = LoggingAllocator::new();
            }
            "alloc" | "alloc_zeroed" => {
                let l = layout(al);
                let p = match ck.get(o, || unsafe { if o == "alloc" { a.alloc(l) } else { a.alloc_zeroed(l) } }) {
                    Some(p) => p,
                    None => break,
                };
                ck.eq(&format!("{}:refused", o), refused, || p.is_null());
                if !p.is_null() {
                    ck.holds("aligned", p as usize % al == 0, || format!("{:?} for alignment {}", p, al));
                    if size < 1_000_000 {
                        if o == "alloc_zeroed" {
                            ck.holds("zeroed", unsafe { std::slice::from_raw_parts(p, size) }.iter().all(|b| *b == 0), || "not zero".into());
                        }
                        unsafe { std::ptr::write_bytes(p, 0xa5, size) };
                    }
                    blocks.push((p, l));
                }
            }
            "realloc" => {
                let (p, l) = blocks[i];
                // keep the block's alignment; contents of large blocks are never touched
                if l.size().min(size) > 1_000_000 {
                    break;
                }
                let q = match ck.get("realloc", || unsafe { a.realloc(p, l, size) }) {
                    Some(q) => q,
                    None => break,
                };
                ck.eq("realloc:refused", refused, || q.is_null());
                if !q.is_null() {
                    blocks.remove(i);
                    let keep = l.size().min(size);
                    if l.size() < 1_000_000 {
                        ck.holds("realloc:contents", unsafe { std::slice::from_raw_parts(q, keep) }.iter().all(|b| *b == 0xa5), || "lost".into());
                    }
                    unsafe { std::ptr::write_bytes(q, 0xa5, size) };
                    blocks.push((q, Layout::from_size_align(size, l.align()).unwrap()));
                }
            }
            "dealloc" => {
                let (p, l) = blocks.remove(i);
                ck.eq("dealloc", (), || unsafe { a.dealloc(p, l) });
            }
            _ => panic!("trace: unknown call {}", o),
        }
        let want = (st.f("live").u(), st.f("total").u(), st.f("count").u(), st.f("largest").u(), st.f("peak").u());
        if !ck.eq(&format!("{}:statistics (live, total, count, largest, peak)", o), want, || figures(&a)) {
            break;
        }
        if o == "realloc" {
            ck.sample(json!({"call": o, "size": size, "figures": format!("{:?}", want)}));
        }
        let said = st.f("said");
        let h = heard();
        let level = said.f("level").s();
        if level.is_empty() {
            ck.holds(&format!("{}:report", o), h.is_empty(), || format!("{:?}", h));
        } else {
            let about = [said.f("size").int().u64() as usize, said.f("held").u()];
            ck.holds(&format!("{}:report", o), h.len() == 1 && h[0].0 == level && speaks_of(&h[0].1, &about), || format!("{:?} for {} {:?}", h, level, about));
            ck.note(&format!("report {}", level));
        }
        if n % 50 == 0 {
            ck.eq("log_statistics", (), || a.log_statistics());
            let h = heard();
            let told = h.len() == 1 && speaks_of(&h[0].1, &[want.1, want.0, want.3]) && h[0].1.split(|c: char| !c.is_ascii_digit()).any(|w| w == want.2.to_string());
            ck.holds("log_statistics:report", told, || format!("{:?} for {:?}", h, want));
        }
    }
    for (p, l) in blocks.drain(..) {
        unsafe { System.dealloc(p, l) }
    }
    for size in [999_999_940_000usize, 999_999_999_999, 999_999_936, 999_999_999] {
        // displayed sizes that round up; whether the system grants them is its own business
        let a = LoggingAllocator::new();
        let l = Layout::from_size_align(size, 8).unwrap();
        if let Some(p) = ck.get("alloc:rounding size", || unsafe { a.alloc(l) }) {
            let w = if p.is_null() { (0, 0, 0, 0, 0) } else { (size, size, 1, size, size) };
            ck.eq("alloc:rounding size:statistics", w, || figures(&a));
            if !p.is_null() {
                unsafe { a.dealloc(p, l) }
            }
        }
    }
}

/// Spin barrier: rounds start as simultaneously as possible.
struct Gate {
    n: usize,
    at: AtomicUsize,
}
impl Gate {
    fn pass(&self, round: usize) {
        self.at.fetch_add(1, Ordering::SeqCst);
        let mut k = 0u32;
        while self.at.load(Ordering::SeqCst) < self.n * round {
            k += 1;
            if k % 4096 == 0 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    }
}

/// The calls of a behaviour, each on the thread the specification names, all at
/// once: at rest the figures are those of the history.
fn concurrent(ck: &mut Ck, name: &str, states: &[Value], repeat: usize) {
    // per thread: sizes granted, in order; every thread frees every other block
    let mut plan: Vec<Vec<(usize, bool)>> = vec![vec![]; 4];
    for st in states {
        let op = st.f("op");
        let size = op.f("size").int().u64() as usize;
        if op.f("name").s().starts_with("alloc") && size < 1_000_000 {
            let p = &mut plan[op.f("t").u()];
            let free = p.len() % 2 == 1;
            p.push((size, free));
        }
    }
    ck.enter(format!("{}#0.concurrent", name), &json!({"plan": plan.iter().map(Vec::len).collect::<Vec<_>>()}));
    for p in plan.iter_mut() {
        p.truncate(60);
    }
    let total: usize = plan.iter().flatten().map(|x| x.0).sum();
    let count: usize = plan.iter().map(Vec::len).sum();
    let largest: usize = plan.iter().flatten().map(|x| x.0).max().unwrap_or(0);
    let kept: usize = plan.iter().flatten().filter(|x| !x.1).map(|x| x.0).sum();
    let plan = Arc::new(plan);
    // (a) unsynchronised histories with frees; (b) simultaneous single calls
    for round in 0..repeat {
        let a = Arc::new(LoggingAllocator::new());
        let gate = Arc::new(Gate { n: 4, at: AtomicUsize::new(0) });
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (a, gate, plan) = (a.clone(), gate.clone(), plan.clone());
                std::thread::spawn(move || {
                    let mut kept: Vec<(usize, Layout)> = vec![];
                    let mut own = 0usize;
                    let mut top = 0usize;
                    gate.pass(1);
                    for (size, free) in &plan[t] {
                        let l = Layout::from_size_align(*size, 8).unwrap();
                        let p = unsafe { a.alloc(l) };
                        own += size;
                        top = top.max(own);
                        if *free {
                            unsafe { a.dealloc(p, l) };
                            own -= size;
                        } else {
                            kept.push((p as usize, l));
                        }
                    }
                    (kept, top)
                })
            })
            .collect();
        let mut tops = vec![];
        let mut all = vec![];
        for h in hs {
            let (k, top) = h.join().expect("trace: thread");
            tops.push(top);
            all.extend(k);
        }
        let f = figures(&a);
        ck.eq("concurrent:(live, total, count, largest)", (kept, total, count, largest), || (f.0, f.1, f.2, f.3));
        let low = tops.iter().cloned().max().unwrap_or(0).max(kept);
        ck.holds("concurrent:peak", f.4 >= low && f.4 <= tops.iter().sum(), || {
            format!("peak {} outside {}..={}", f.4, low, tops.iter().sum::<usize>())
        });
        for (p, l) in all {
            unsafe { a.dealloc(p as *mut u8, l) };
        }
        ck.eq("concurrent:all released", (0, total, count, largest), || {
            let f = figures(&a);
            (f.0, f.1, f.2, f.3)
        });
        let _ = round;
    }
}

fn storm(ck: &mut Ck, rounds: usize) {
    // many simultaneous single allocations on a shared instance: lost updates
    // of any counter or maximum show at the next rest
    let n = 4;
    let a: Arc<Vec<LoggingAllocator>> = Arc::new((0..rounds).map(|_| LoggingAllocator::new()).collect());
    let gate = Arc::new(Gate { n, at: AtomicUsize::new(0) });
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (a, gate) = (a.clone(), gate.clone());
            std::thread::spawn(move || {
                for r in 0..a.len() {
                    // sizes rotate so that each thread is the largest in turn
                    let size = 16 * (1 + (t + r) % n);
                    let l = Layout::from_size_align(size, 8).unwrap();
                    gate.pass(r + 1);
                    for _ in 0..4 {
                        unsafe {
                            let p = a[r].alloc(l);
                            a[r].dealloc(p, l);
                        }
                    }
                    let _leak = unsafe { a[r].alloc(l) };
                    unsafe { System.dealloc(_leak, l) };
                }
            })
        })
        .collect();
    for h in hs {
        h.join().expect("trace: thread");
    }
    let sum: usize = (1..=n).map(|k| 16 * k).sum();
    for (r, x) in a.iter().enumerate() {
        ck.enter(format!("storm#{}", r), &Value::Null);
        let f = figures(x);
        ck.eq("storm:(live, total, count, largest)", (sum, 5 * sum, 5 * n, 16 * n), || (f.0, f.1, f.2, f.3));
        // the last of the kept blocks brings the live total to its sum
        ck.holds("storm:peak", f.4 >= sum && f.4 <= 2 * sum, || format!("peak {} for live {}", f.4, sum));
    }
}

/// Threads raise the records at the same time and never release: at rest the
/// live total, the peak and the largest block are exact, so a single lost
/// update of a maximum shows.
fn race(ck: &mut Ck, rounds: usize) {
    let (n, each) = (8, 3);
    let a: Arc<Vec<LoggingAllocator>> = Arc::new((0..rounds).map(|_| LoggingAllocator::new()).collect());
    let gate = Arc::new(Gate { n, at: AtomicUsize::new(0) });
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (a, gate) = (a.clone(), gate.clone());
            std::thread::spawn(move || {
                for r in 0..a.len() {
                    let ls: Vec<Layout> = (0..each)
                        .map(|k| Layout::from_size_align(16 + 64 * (k * n + (5 * t + r) % n), 8).unwrap())
                        .collect();
                    let mut kept = [std::ptr::null_mut(); 3];
                    gate.pass(r + 1);
                    for (p, l) in kept.iter_mut().zip(&ls) {
                        *p = unsafe { a[r].alloc(*l) };
                    }
                    for (p, l) in kept.iter().zip(&ls) {
                        unsafe { System.dealloc(*p, *l) };
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().expect("trace: thread");
    }
    let sizes: Vec<usize> = (0..n * each).map(|k| 16 + 64 * k).collect();
    let sum: usize = sizes.iter().sum();
    for (r, x) in a.iter().enumerate() {
        ck.enter(format!("race#{}", r), &Value::Null);
        let f = figures(x);
        ck.eq("race:(live, total, count, largest, peak)", (sum, sum, n * each, sizes[n * each - 1], sum), || f);
    }
}

fn main() {
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let a = args();
    let prop = a.prop.clone();
    let serial = std::sync::Mutex::new(());
    drive(&a, if a.prop == "C27" { 4 } else { 8 }, Duration::from_secs(60), move |ck, name, states, opts| {
        if prop == "C26" {
            vectors::<Tok>(ck, name, states, "tracked");
            vectors::<u64>(ck, name, states, "u64");
            vectors::<u8>(ck, name, states, "u8");
            vectors::<u128>(ck, name, states, "u128");
            vectors::<[u64; 4]>(ck, name, states, "words");
            vectors::<(u8, u32, u8)>(ck, name, states, "padded");
            vectors::<Nil>(ck, name, states, "nothing at all");
            extremes(ck);
        } else {
            statistics(ck, name, states);
            // one concurrent history at a time
            let _g = serial.lock().unwrap_or_else(|e| e.into_inner());
            let n: usize = opts.get("rounds").map_or(200, |v| v.parse().unwrap());
            let r = catch_unwind(AssertUnwindSafe(|| {
                concurrent(ck, name, states, n);
                storm(ck, 10 * n);
                race(ck, 10 * n);
            }));
            if let Err(e) = r {
                std::panic::resume_unwind(e);
            }
        }
    });
}
