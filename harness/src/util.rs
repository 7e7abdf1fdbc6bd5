//! Shared machinery of the scenarios: failure reporting, context, random numbers, tracked elements.
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

static CTX: Mutex<String> = Mutex::new(String::new());
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static CASES: AtomicU64 = AtomicU64::new(0);

/// describes the concrete input being executed, for the report
pub fn set_ctx(s: String) {
    PROGRESS.fetch_add(1, SeqCst);
    CASES.fetch_add(1, SeqCst);
    *lock(&CTX) = s;
}
pub fn add_ctx(s: &str) {
    PROGRESS.fetch_add(1, SeqCst);
    let mut c = lock(&CTX);
    c.push_str("; ");
    c.push_str(s);
}
pub fn ctx() -> String {
    lock(&CTX).clone()
}
pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(x) => x,
        Err(e) => e.into_inner(),
    }
}
#[macro_export]
macro_rules! ctx { ($($a:tt)*) => { $crate::util::set_ctx(format!($($a)*)) } }
#[macro_export]
macro_rules! more { ($($a:tt)*) => { $crate::util::add_ctx(&format!($($a)*)) } }
/// a postcondition that must hold for the current input
#[macro_export]
macro_rules! must {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::util::fail(&format!($($a)*)) } };
    ($c:expr) => { if !$c { $crate::util::fail(stringify!($c)) } };
}
#[macro_export]
macro_rules! must_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{ let (a, b) = (&$a, &$b); if *a != *b { $crate::util::fail(&format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)) } }};
    ($a:expr, $b:expr) => {{ let (a, b) = (&$a, &$b); if *a != *b { $crate::util::fail(&format!("{} == {}: got {:?}, expected {:?}", stringify!($a), stringify!($b), a, b)) } }};
}
pub fn fail(msg: &str) -> ! {
    println!("FAIL {} | input: {}", msg.replace('\n', " "), ctx().replace('\n', " "));
    std::process::exit(10)
}

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if QUIET.with(|q| q.get()) {
            return;
        }
        let s = i.to_string();
        *lock(&LAST_PANIC) = s;
    }));
}
pub fn last_panic() -> String {
    lock(&LAST_PANIC).clone()
}
/// runs `f`, which may panic; true if it did
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.is_err()
}
pub fn try_run<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| ())
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, k: usize, n: usize) -> bool {
        self.below(n) < k
    }
}
/// widen the set of interleavings
pub fn jitter(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 | 2 => {
            for _ in 0..r.below(200) {
                std::hint::spin_loop();
            }
        }
        3 if !cfg!(miri) && r.chance(1, 16) => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
        _ => {}
    }
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub scale: usize,
    pub rng: Rng,
}
impl Cx {
    /// number of repetitions: `n` natively (times the scale), `m` under the interpreter
    pub fn reps(&self, n: usize, m: usize) -> usize {
        if cfg!(miri) {
            m
        } else {
            n * self.scale
        }
    }
    pub fn threads(&self, n: usize) -> usize {
        if cfg!(miri) {
            n.min(3)
        } else {
            n
        }
    }
}

/// runs `n` threads that start together; a panic in one is reported as a violation
pub fn par<R: Send>(n: usize, f: impl Fn(usize) -> R + Sync) -> Vec<R> {
    let b = Barrier::new(n);
    let r: Vec<std::thread::Result<R>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (b, f) = (&b, &f);
                s.spawn(move || {
                    b.wait();
                    f(t)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    r.into_iter()
        .map(|x| match x {
            Ok(x) => x,
            Err(_) => fail(&format!("a thread panicked: {}", last_panic())),
        })
        .collect()
}
pub fn wait_for(f: &AtomicBool) {
    while !f.load(SeqCst) {
        std::thread::yield_now();
    }
}

/// An element whose creations and drops are counted and whose content is checked
pub struct Tk {
    pub id: i64,
    b: Box<i64>,
}
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static CLONES: AtomicI64 = AtomicI64::new(0);
pub fn live() -> i64 {
    LIVE.load(SeqCst)
}
impl Tk {
    pub fn new(id: i64) -> Self {
        LIVE.fetch_add(1, SeqCst);
        Tk { id, b: Box::new(id) }
    }
    /// the value, or a failure if it is torn
    pub fn get(&self) -> i64 {
        must!(self.id == *self.b, "torn or invalid value: {} / {}", self.id, *self.b);
        self.id
    }
    pub fn put(&mut self, id: i64) {
        self.id = id;
        *self.b = id;
    }
}
impl Clone for Tk {
    fn clone(&self) -> Self {
        CLONES.fetch_add(1, SeqCst);
        Tk::new(self.get())
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
        must!(self.id == *self.b, "dropped a torn or invalid value: {} / {}", self.id, *self.b);
        *self.b = i64::MIN;
        self.id = i64::MAX;
    }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl std::fmt::Debug for Tk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}
pub fn tks(it: impl IntoIterator<Item = i64>) -> Vec<Tk> {
    it.into_iter().map(Tk::new).collect()
}
pub fn ids(v: &[Tk]) -> Vec<i64> {
    v.iter().map(|x| x.get()).collect()
}

/// expands the block for a vec of each kind of storage; `cap` elements fit
#[macro_export]
macro_rules! kinds {
    ($t:ty, $cap:expr, |$v:ident, $k:ident| $b:block) => {{
        #[allow(unused)]
        {
            let $k = "doubling";
            let mut $v: ConcurrentVec<$t, SplitVec<ConcurrentElement<$t>, Doubling>> = ConcurrentVec::with_doubling_growth();
            $b
        }
        #[allow(unused)]
        {
            let $k = "linear";
            let c: usize = $cap;
            let mut $v: ConcurrentVec<$t, SplitVec<ConcurrentElement<$t>, Linear>> = ConcurrentVec::with_linear_growth(2, (c + 3) / 4 + 1);
            $b
        }
        #[allow(unused)]
        {
            let $k = "fixed";
            let c: usize = $cap;
            let mut $v: ConcurrentVec<$t, FixedVec<ConcurrentElement<$t>>> = ConcurrentVec::with_fixed_capacity(c);
            $b
        }
    }};
}
pub fn content<P>(v: &orx_concurrent_vec::ConcurrentVec<Tk, P>) -> Vec<i64>
where
    P: orx_concurrent_vec::IntoConcurrentPinnedVec<orx_concurrent_vec::ConcurrentElement<Tk>>,
{
    v.iter().map(|e| e.map(|x| x.get())).collect()
}
