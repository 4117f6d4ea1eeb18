//! Simulated environment: which code is "inside the library", events (calls from the library
//! into user code), armed faults, nested actions, the baton of simulated threads,
//! the violation slot and the event log.
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::rng::{mix2, Rng};

#[thread_local]
pub static IN_SUT: Cell<bool> = Cell::new(false);

/// Kinds of calls from the library into user code.
pub const EV_DEFAULT: usize = 0;
pub const EV_DROP: usize = 1;
pub const EV_MAP: usize = 2;
pub const EV_INIT: usize = 3;
pub const EV_FOLD: usize = 4;
pub const EV_CLONE: usize = 5;
pub const EV_NEXT: usize = 6;
pub const EV_N: usize = 7;
pub const EV_NAMES: [&str; EV_N] = ["default", "drop", "map", "init", "fold", "src_clone", "src_next"];

/// Classes of violations. Checks accept the classes that are about their property.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Op,       // wrong result of a mutating operation or keyed lookup of a container
    Other,    // a container or key that was not addressed changed
    Iter,     // ordered iteration
    Kv,       // unordered view
    Value,    // value that is dead or never existed was read
    Ledger,   // double drop, drop of a non-value, leaked value
    Mem,      // out of bounds, bad free, write after free
    Leak,     // memory not returned
    Grow,     // memory grows without bound
    Mask,     // container bitmap wrong
    Hide,     // a bitmap hides an existing entry / absent node not empty
    Data,     // cursor data
    Def,      // get_or_default
    Range,    // key range
    VGet,     // lazy tree lookup
    VIter,    // lazy tree iteration
    VLen,     // length information of multi data
    Calls,    // number of callback calls
    Mat,      // materialized result
    Src,      // a read changed its sources
    Panic,    // unexpected panic
    NoPanic,  // injected panic did not reach the caller
    Atomic,   // neither before nor after
    Oom,      // refused allocation not reported
    Bits,     // bit block or bit queue
    Func,     // function or source iterator handed to the library used when gone, or not dropped once
    Work,     // more work than the shape of the tree accounts for
}
pub const CLASSES: &[(Class, &str)] = &[
    (Class::Op, "op"), (Class::Other, "other"), (Class::Iter, "iter"), (Class::Kv, "kv"), (Class::Value, "value"),
    (Class::Ledger, "ledger"), (Class::Mem, "mem"), (Class::Leak, "leak"), (Class::Grow, "grow"), (Class::Mask, "mask"),
    (Class::Hide, "hide"), (Class::Data, "data"), (Class::Def, "def"), (Class::Range, "range"), (Class::VGet, "vget"),
    (Class::VIter, "viter"), (Class::VLen, "vlen"), (Class::Calls, "calls"), (Class::Mat, "mat"), (Class::Src, "src"),
    (Class::Panic, "panic"), (Class::NoPanic, "nopanic"), (Class::Atomic, "atomic"), (Class::Oom, "oom"), (Class::Bits, "bits"), (Class::Func, "func"), (Class::Work, "work"),
];
impl Class {
    pub fn name(self) -> &'static str { CLASSES.iter().find(|c| c.0 == self).unwrap().1 }
}

impl Class {
    /// After such an observation the model is no reference any more.
    fn ends_run(self) -> bool { matches!(self, Class::Mat | Class::Panic | Class::Value | Class::Leak | Class::Oom) }
}
pub struct Violation { pub class: Class, pub msg: String, pub step: usize }

pub struct Injected;

#[derive(Debug)]
pub enum Pan { Injected, Own(String) }

pub struct Env {
    pub violation: Option<Violation>,
    pub step: usize,
    pub log: u64,
    pub trace: bool,
    pub sig: u64,
    // events of the current step
    pub ev_count: [u32; EV_N],
    pub ev_seq: u32,
    // armed fault
    pub armed: Option<(usize, u32)>,
    pub fired: bool,
    // callback counting for L03: number of calls by callback id
    pub watch_id: u64,
    pub watch: [u32; 3], // map, init, fold
    /// calls of every callback of an expression
    pub deep: bool,
    pub deep_calls: Vec<(u64, [u32; 3])>,
    // nested action
    pub nest: Option<(u32, Box<dyn FnOnce()>)>,
    pub nested: u32,
    // totals over the process
    pub tot_events: [u64; EV_N],
    pub tot_fired: [u64; EV_N],
    pub tot_armed: [u64; EV_N],
    pub baton: Option<Box<Baton>>,
    /// classes that are about the property being decided; others are counted, and the run goes on
    /// where the model is still a sound reference
    pub accept: u64,
    pub foreign: u32,
    pub tot_foreign: [u64; 32],
    pub tot_refused: u64,
}
pub static mut ENV: Env = Env {
    violation: None, step: 0, log: 0, trace: false, sig: 0,
    ev_count: [0; EV_N], ev_seq: 0, armed: None, fired: false, watch_id: u64::MAX, watch: [0; 3], deep: false, deep_calls: Vec::new(),
    nest: None, nested: 0, tot_events: [0; EV_N], tot_fired: [0; EV_N], tot_armed: [0; EV_N], baton: None, accept: !0, foreign: 0, tot_foreign: [0; 32], tot_refused: 0,
};
#[inline]
pub fn env() -> &'static mut Env { unsafe { &mut *std::ptr::addr_of_mut!(ENV) } }

/// Runs harness code from inside of the library (allocations go to the real allocator, events are ignored).
#[inline]
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _g = Restore(IN_SUT.replace(false));
    f()
}
struct Restore(bool);
impl Drop for Restore {
    #[inline]
    fn drop(&mut self) { IN_SUT.set(self.0); }
}

/// Runs library code.
#[inline]
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Pan> {
    let old = IN_SUT.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.set(old);
    match r {
        Ok(r) => Ok(r),
        Err(p) => {
            let _h = Restore(IN_SUT.replace(false));
            Err(if p.is::<Injected>() {
                Pan::Injected
            } else if let Some(s) = p.downcast_ref::<String>() {
                Pan::Own(s.clone())
            } else if let Some(s) = p.downcast_ref::<&'static str>() {
                Pan::Own(s.to_string())
            } else {
                Pan::Own("?".into())
            })
        }
    }
}

pub fn violate(class: Class, msg: impl FnOnce() -> String) {
    host(|| {
        let e = env();
        if e.violation.is_none() {
            if e.accept >> class as u32 & 1 == 0 {
                e.tot_foreign[class as usize] += 1;
                e.foreign += 1;
                if !class.ends_run() && e.foreign < 100 {
                    if e.trace { println!("  foreign: {} {}", class.name(), msg()); }
                    return;
                }
            }
            let msg = msg();
            e.violation = Some(Violation { class, msg, step: e.step });
        }
    })
}
#[inline]
pub fn bad() -> bool { env().violation.is_some() }

/// Event log: every observed result goes in here.
#[inline]
pub fn log(x: u64) {
    let e = env();
    e.log = mix2(e.log, x);
    if e.trace { host(|| println!("  log {:016x} -> {:016x}", x, env().log)); }
}

/// A call from the library into user code.
#[inline]
pub fn event(kind: usize, id: u64) {
    if !IN_SUT.get() { return; }
    event_slow(kind, id)
}
#[inline(never)]
fn event_slow(kind: usize, id: u64) {
    let _g = Restore(IN_SUT.replace(false));
    let e = env();
    e.tot_events[kind] += 1;
    if e.baton.is_some() {
        yield_baton(3);
        return;
    }
    e.ev_count[kind] += 1;
    e.ev_seq += 1;
    if id == e.watch_id {
        match kind { EV_MAP => e.watch[0] += 1, EV_INIT => e.watch[1] += 1, EV_FOLD => e.watch[2] += 1, _ => {} }
    }
    if e.deep && (EV_MAP..=EV_FOLD).contains(&kind) {
        let i = match e.deep_calls.iter().position(|c| c.0 == id) { Some(i) => i, None => { e.deep_calls.push((id, [0; 3])); e.deep_calls.len() - 1 } };
        e.deep_calls[i].1[kind - EV_MAP] += 1;
    }
    if let Some((k, _)) = e.nest {
        if k == e.ev_seq && !std::thread::panicking() {
            let (_, f) = e.nest.take().unwrap();
            // the nested steps have their own event state
            let saved = (e.ev_count, e.ev_seq, e.armed.take(), e.fired, e.watch_id, e.watch, e.step, e.deep, std::mem::take(&mut e.deep_calls));
            e.nested += 1;
            f();
            let e = env();
            (e.ev_count, e.ev_seq, e.armed, e.fired, e.watch_id, e.watch, e.step, e.deep, e.deep_calls) = saved;
        }
    }
    let e = env();
    if let Some((k, n)) = e.armed {
        if k == kind && !std::thread::panicking() {
            if n <= 1 {
                e.armed = None;
                e.fired = true;
                e.tot_fired[kind] += 1;
                std::panic::panic_any(Injected);
            }
            e.armed = Some((k, n - 1));
        }
    }
}

pub fn begin_step(step: usize) {
    let e = env();
    e.step = step;
    e.ev_count = [0; EV_N];
    e.ev_seq = 0;
    e.armed = None;
    e.fired = false;
    e.watch_id = u64::MAX;
    e.watch = [0; 3];
    e.deep = false;
    e.nest = None;
}
/// Counts the calls of the callback `id`, and of all others too if `deep`.
pub fn watch(id: u64, deep: bool) {
    let e = env();
    e.watch_id = id;
    e.watch = [0; 3];
    e.deep = deep;
    e.deep_calls.clear();
}

// ---------------------------------------------------------------- simulated threads
use std::sync::{Condvar, Mutex, Arc};

/// Exactly one simulated thread runs at a time; who runs next is decided by the seeded scheduler
/// at every event.
pub struct Baton {
    pub shared: Arc<(Mutex<BatonState>, Condvar)>,
}
pub struct BatonState {
    pub turn: usize,
    pub alive: Vec<bool>,
    pub rng: Rng,
    pub switches: u64,
    pub trace: u64,
}
#[thread_local]
pub static THREAD_NO: Cell<usize> = Cell::new(usize::MAX);

// In the `pre` build every edge, load and store of the code (library included) calls one of these:
// a place where the scheduler may take the processor away from the running simulated thread.
static mut PRE_LEFT: u64 = u64::MAX;
static mut PRE_SCALE: u64 = 0;
static mut PRE_RNG: Rng = Rng::zero();
pub static mut TOT_PRE: [u64; 2] = [0; 2]; // places, switches asked for
/// The simulated clock: edges, loads and stores executed inside of the library so far (`pre` build only).
static mut WORK: u64 = 0;
#[inline]
pub fn work() -> u64 { unsafe { *std::ptr::addr_of!(WORK) } }
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sanitizer_sim_pre() {
    // (functions of this name are not instrumented themselves)
    unsafe {
        let in_sut = std::ptr::addr_of!(IN_SUT) as *mut bool;
        if !*in_sut { return; }
        WORK += 1;
        if PRE_LEFT > 1 { PRE_LEFT -= 1; return; }
        *in_sut = false;
        pre_switch();
        *in_sut = true;
    }
}
#[inline(never)]
unsafe fn pre_switch() {
    if env().baton.is_none() { PRE_LEFT = u64::MAX; return; }
    let rng = &mut *std::ptr::addr_of_mut!(PRE_RNG);
    PRE_LEFT = 1 + rng.below(2 * PRE_SCALE);
    TOT_PRE[0] += PRE_LEFT;
    TOT_PRE[1] += 1;
    yield_baton(1);
}
macro_rules! pre_hooks { ($($f:ident),*) => { $( #[no_mangle] #[inline(never)] pub extern "C" fn $f() { __sanitizer_sim_pre() } )* } }
pre_hooks!(__sanitizer_cov_trace_pc,
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16);

fn wait_turn(sh: &Arc<(Mutex<BatonState>, Condvar)>, me: usize) {
    let mut g = sh.0.lock().unwrap();
    while g.turn != me { g = sh.1.wait(g).unwrap(); }
}
pub fn yield_point() { if env().baton.is_some() { yield_baton(3) } }
fn yield_baton(one_in: u64) {
    let me = THREAD_NO.get();
    let sh = match &env().baton { Some(b) => b.shared.clone(), None => return };
    {
        let mut g = sh.0.lock().unwrap();
        let n = g.alive.len();
        if g.rng.chance(1, one_in) {
            let alive: Vec<usize> = (0..n).filter(|i| g.alive[*i]).collect();
            let t = alive[{ let l = alive.len(); g.rng.us(l) }];
            if t != me {
                g.turn = t;
                g.switches += 1;
                g.trace = mix2(g.trace, t as u64);
                sh.1.notify_all();
            } else { return; }
        } else { return; }
    }
    wait_turn(&sh, me);
}

/// Runs `jobs` on as many OS threads, one at a time, switching at events by seed.
/// Returns (switches, hash of the interleaving).
pub fn run_threads(seed: u64, jobs: Vec<Box<dyn FnOnce() + '_>>) -> (u64, u64) {
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let n = jobs.len();
    let mut rng = Rng::new(seed);
    let first = rng.us(n);
    let shared = Arc::new((Mutex::new(BatonState { turn: first, alive: vec![true; n], rng, switches: 0, trace: 0 }), Condvar::new()));
    env().baton = Some(Box::new(Baton { shared: shared.clone() }));
    unsafe {
        PRE_RNG = Rng::new(mix2(seed, 0x9E));
        let rng = &mut *std::ptr::addr_of_mut!(PRE_RNG);
        PRE_SCALE = 1 << (1 + rng.us(10));
        PRE_LEFT = 1 + rng.below(2 * PRE_SCALE);
    }
    std::thread::scope(|sc| {
        for (i, j) in jobs.into_iter().enumerate() {
            let sh = shared.clone();
            let j = S(j);
            sc.spawn(move || {
                let j = j;
                wait_turn(&sh, i);
                THREAD_NO.set(i);
                let _ = catch_unwind(AssertUnwindSafe(|| (j.0)()));
                let mut g = sh.0.lock().unwrap();
                g.alive[i] = false;
                let alive: Vec<usize> = (0..n).filter(|i| g.alive[*i]).collect();
                g.turn = if alive.is_empty() { usize::MAX } else { let l = alive.len(); alive[g.rng.us(l)] };
                sh.1.notify_all();
            });
        }
    });
    env().baton = None;
    unsafe { PRE_LEFT = u64::MAX; }
    let g = shared.0.lock().unwrap();
    (g.switches, g.trace)
}

/// Runs `f` on a fresh OS thread and waits for it.
pub fn on_thread<R>(f: impl FnOnce() -> R) -> R {
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let mut out: Option<R> = None;
    {
        let job = S((f, &mut out));
        std::thread::scope(|sc| {
            let _ = sc.spawn(move || { let job = job; let (f, out) = job.0; *out = Some(f()); }).join();
        });
    }
    out.expect("thread")
}

pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        if !IN_SUT.get() && !info.payload().is::<Injected>() {
            eprintln!("HARNESS PANIC: {info}");
        }
    }));
    // warm up lazily initialised panic machinery
    let _ = sut(|| std::panic::panic_any(Injected));
}
