//! Executes a plan against the real library, next to executable reference models, and checks
//! every observation.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use crate::alloc;
use crate::cont::*;
use crate::env::*;
use crate::fams::*;
use crate::plan::*;
use crate::res::*;
use crate::rng::{mix2, Rng};
use crate::val::*;
use crate::view::*;

pub const MAXS: usize = 16;
pub const MAXV: usize = 40;
pub const MAXR: usize = 16;

// ------------------------------------------------------------ reach probes
pub static mut PROBES: BTreeMap<&'static str, u64> = BTreeMap::new();
pub fn probe(n: &'static str) { host(|| unsafe { *(*std::ptr::addr_of_mut!(PROBES)).entry(n).or_insert(0) += 1; }) }
pub static mut WORKS: BTreeMap<&'static str, (u64, u64, u64)> = BTreeMap::new(); // most per 100 units, in all, operations
pub static mut STATES: Option<std::collections::HashSet<u64>> = None;

struct Slot {
    view: Box<dyn View>,
    tree: Box<dyn Tree>,
    model: Model,
    vm: RefCell<Option<Rc<VModel>>>,
    dflt: Cell<Option<u64>>,
    kind: usize,
}
impl Slot {
    fn new(tree: Box<dyn Tree>, kind: usize) -> Slot {
        let view = tree.view();
        Slot { view, tree, model: Model::new(), vm: RefCell::new(None), dflt: Cell::new(None), kind }
    }
    fn vm(&self) -> Rc<VModel> {
        let mut c = self.vm.borrow_mut();
        c.get_or_insert_with(|| Rc::new(VModel {
            keys: self.model.keys().copied().collect(),
            vals: self.model.values().map(|v| Res::One(*v)).collect(),
        })).clone()
    }
    fn touch(&mut self) { *self.vm.get_mut() = None; }
    fn set(&mut self, k: usize, w: u64) { self.touch(); self.model.insert(k, w); }
    fn del(&mut self, k: usize) { self.touch(); self.model.remove(&k); }
}
struct ViewSlot {
    view: Box<dyn View>,
    node: Option<(*const u8, bool)>,
    vm: Rc<VModel>,
    spec: Spec,
    srcs: Vec<Rc<VModel>>,
    deps: u32,
    vdeps: u64,
    seq: u64,
    sync: bool,
    cost: usize,
}
/// Something that can be read.
#[derive(Clone)]
struct Tg {
    view: *const dyn View,
    vm: Rc<VModel>,
    deps: u32,
    vdeps: u64,
    slot: bool,
    sync: bool,
    t: usize,
    id: u64,
    op: Op,
    srcs: Vec<Rc<VModel>>,
    cost: usize,
}
impl Tg {
    fn v(&self) -> &dyn View { unsafe { &*self.view } }
    fn class(&self, of_slot: Class, of_view: Class) -> Class { if self.slot { of_slot } else { of_view } }
    /// Expected calls (map, init, fold) of the callbacks of the tree itself when `k` is delivered.
    fn calls(&self, k: Option<usize>) -> [u32; 3] {
        let k = match k { Some(k) => k, None => return [0; 3] };
        match self.op {
            _ if self.slot => [0; 3],
            Op::Leaf | Op::M | Op::I | Op::U => [1, 0, 0],
            Op::MI | Op::MU => [0, 1, self.srcs.iter().filter(|s| s.get(k).is_some()).count() as u32],
            _ => [0; 3],
        }
    }
    fn name(&self) -> String { if self.slot { format!("container {}", self.t) } else { format!("view {} ({})", self.t - MAXS, self.op.name()) } }
}
struct Pos { lo: usize, hi: usize, ended: bool }
enum Kind {
    It(Box<dyn RIter>, Pos),
    Cur(Box<dyn RCur>, CurSt),
    /// data taken out of a lookup or of another reader, not consumed yet
    Held(Box<dyn RHeld>, HeldSt),
}
impl Kind {
    fn free(self) -> Result<(), Pan> { match self { Kind::It(i, _) => i.free(), Kind::Cur(c, _) => c.free(), Kind::Held(h, _) => h.free() } }
}
/// `of` - the reader that lends the data
struct HeldSt { key: usize, items: Vec<Res>, at: usize, of: Option<usize>, class: Class, ended: bool }
impl HeldSt {
    fn new(key: usize, exp: &Res, of: Option<usize>, class: Class) -> HeldSt {
        let items = match exp {
            Res::Many(v) => v.iter().map(|x| Res::Many(vec![*x])).collect(),
            Res::Nest(v) => v.iter().map(|x| Res::Nest(vec![x.clone()])).collect(),
            r => vec![r.clone()],
        };
        HeldSt { key, items, at: 0, of, class, ended: false }
    }
}
struct Reader { tg: Tg, kind: Kind, consume: u64 }
#[derive(Default)]
struct CurSt {
    sel: usize,
    path: Vec<usize>,
    masks: Vec<M4>,
}

pub struct Exec {
    pub plan: Plan,
    fam: Box<dyn FamDyn>,
    w: usize,
    bits: u32,
    depth: usize,
    end: usize,
    slots: Vec<RefCell<Option<Box<Slot>>>>,
    views: Vec<RefCell<Option<Box<ViewSlot>>>>,
    readers: Vec<RefCell<Option<Box<Reader>>>>,
    read_busy: Vec<Cell<u32>>,
    mut_busy: Vec<Cell<bool>>,
    view_busy: Vec<Cell<u32>>,
    reader_busy: Vec<Cell<u32>>,
    seq: Cell<u64>,
    injected: Cell<bool>,
    src_fault: Cell<bool>,
    pending_nest: Cell<Option<(u32, usize, usize)>>,
    nest_ran: Cell<bool>,
    pub inter: Cell<u64>,
    pub steps_done: Cell<u64>,
    /// bytes asked for by the last changes, and their number
    asked: Cell<(u64, u64)>,
    pub skipped: Cell<u64>,
    in_child: Cell<bool>,
    in_par: Cell<bool>,
    bitsim: crate::bitsim::Bits,
}

struct Busy<'a>(&'a Exec, u32, u64);
impl<'a> Drop for Busy<'a> {
    fn drop(&mut self) {
        for i in 0..MAXS { if self.1 >> i & 1 == 1 { let c = &self.0.read_busy[i]; c.set(c.get() - 1); } }
        for i in 0..MAXV { if self.2 >> i & 1 == 1 { let c = &self.0.view_busy[i]; c.set(c.get() - 1); } }
    }
}

/// Work done and bytes asked for so far.
fn spent() -> (u64, u64) { (work(), alloc::st().requested) }
fn set_consume(c: u64) {
    unsafe {
        PICK = Pick::All;
        CONSUME = match c % 100 {
            1 => Consume::Fold, 2 => Consume::Collect,
            c @ 10..=29 => Consume::NextThenFold((c - 10) as u8),
            c @ 30..=49 => Consume::Partial((c - 30) as u8),
            c @ 50..=59 => Consume::Nth((c - 50) as u8),
            c @ 61..=69 => Consume::Step((c - 60) as u8),
            70 => Consume::Last, 71 => Consume::Count,
            _ => Consume::Next,
        };
    }
}
fn partial() -> bool { unsafe { PICK != Pick::All } }
fn pick_same<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    match unsafe { PICK } {
        Pick::All => a == b,
        Pick::Prefix => b.len() <= a.len() && a[..b.len()] == b[..],
        Pick::From(k) => a.get(k..).unwrap_or(&[]) == b,
        Pick::Step(s) => a.iter().step_by(s).eq(b),
        Pick::Last => a.last().into_iter().eq(b),
        Pick::Count(n) => a.len() == n && b.is_empty(),
    }
}
fn same(exp: &Res, got: &Res) -> bool {
    if partial() {
        match (exp, got) {
            (Res::Many(a), Res::Many(b)) => pick_same(a, b),
            (Res::Nest(a), Res::Nest(b)) => pick_same(a, b),
            // nothing taken: the kind of items is unknown
            (Res::Nest(a), Res::Many(b)) => b.is_empty() && pick_same(a, &[]),
            _ => exp == got,
        }
    } else { exp == got }
}
fn opt_same(exp: Option<&Res>, got: &Option<Res>) -> bool {
    match (exp, got) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false }
}
fn hash_opt(r: &Option<Res>) -> u64 { r.as_ref().map_or(0x5555, |r| r.hash()) }
fn m4_bit(m: &M4, i: usize) -> bool { m[i >> 6] >> (i & 63) & 1 == 1 }
fn m4_bits(m: &M4) -> Vec<usize> {
    let mut v = vec![];
    for (w, x) in m.iter().enumerate() {
        let mut x = *x;
        while x != 0 { v.push(w * 64 + x.trailing_zeros() as usize); x &= x - 1; }
    }
    v
}

fn calls_now() -> u32 { let e = env(); e.ev_count[EV_MAP] + e.ev_count[EV_INIT] + e.ev_count[EV_FOLD] }

impl Exec {
    pub fn new(plan: Plan) -> Option<Exec> {
        let fam = find(&plan.fam)?;
        let (w, depth) = (fam.width(), fam.depth());
        let bits = w.trailing_zeros();
        let end = if bits * depth as u32 >= 64 { usize::MAX } else { 1usize << (bits * depth as u32) };
        Some(Exec {
            fam, w, bits, depth, end, plan,
            slots: (0..MAXS).map(|_| RefCell::new(None)).collect(),
            views: (0..MAXV).map(|_| RefCell::new(None)).collect(),
            readers: (0..MAXR).map(|_| RefCell::new(None)).collect(),
            read_busy: vec![Cell::new(0); MAXS], mut_busy: vec![Cell::new(false); MAXS], view_busy: vec![Cell::new(0); MAXV], reader_busy: vec![Cell::new(0); MAXR],
            seq: Cell::new(1), injected: Cell::new(false), src_fault: Cell::new(false),
            pending_nest: Cell::new(None), nest_ran: Cell::new(false), inter: Cell::new(0), steps_done: Cell::new(0), asked: Cell::new((0, 0)), skipped: Cell::new(0),
            in_child: Cell::new(false), in_par: Cell::new(false), bitsim: crate::bitsim::Bits::new(),
        })
    }

    // -------------------------------------------------------- access
    fn slot(&self, i: usize) -> Option<&Slot> {
        if i >= MAXS { return None; }
        let b = self.slots[i].borrow();
        // The box stays where it is until the slot is mutated, which `read_busy` excludes while
        // somebody uses the reference.
        b.as_ref().map(|s| unsafe { &*(&**s as *const Slot) })
    }
    fn target(&self, t: usize) -> Option<Tg> {
        if t < MAXS {
            let s = self.slot(t)?;
            Some(Tg { view: &*s.view, vm: s.vm(), deps: 1 << t, vdeps: 0, slot: true, sync: self.fam.sync_kind(s.kind), t, id: u64::MAX - 1, op: Op::Cont, srcs: vec![], cost: 1 })
        } else {
            if t - MAXS >= MAXV { return None; }
            let b = self.views[t - MAXS].borrow();
            let v = b.as_ref()?;
            Some(Tg { view: &*v.view, vm: v.vm.clone(), deps: v.deps, vdeps: v.vdeps, slot: false, sync: v.sync, t, id: v.spec.id, op: v.spec.op, srcs: v.srcs.clone(), cost: v.cost + if v.spec.op.over_trees() { v.spec.args.len() } else { 0 } })
        }
    }
    fn busy(&self, deps: u32, vdeps: u64) -> Busy<'_> {
        for i in 0..MAXS { if deps >> i & 1 == 1 { let c = &self.read_busy[i]; c.set(c.get() + 1); } }
        for i in 0..MAXV { if vdeps >> i & 1 == 1 { let c = &self.view_busy[i]; c.set(c.get() + 1); } }
        Busy(self, deps, vdeps)
    }
    fn free_reader(&self, i: usize) {
        self.free_held(i);
        let r = self.readers[i].borrow_mut().take();
        if let Some(r) = r {
            let r = r.kind.free();
            self.out(r, "drop of a reader");
        }
    }
    /// Data lent by reader `i` goes.
    fn free_held(&self, i: usize) {
        for j in 0..MAXR {
            let of = match self.readers[j].borrow().as_ref() { Some(r) => match &r.kind { Kind::Held(_, h) => h.of == Some(i), _ => false }, None => false };
            if of { self.free_reader(j); }
        }
    }
    fn free_view(&self, i: usize) {
        for r in 0..MAXR {
            let dep = self.readers[r].borrow().as_ref().map_or(false, |r| r.tg.vdeps >> i & 1 == 1);
            if dep { self.free_reader(r); }
        }
        // views using it were defined later
        let mut users: Vec<(u64, usize)> = vec![];
        for j in 0..MAXV {
            if j == i { continue; }
            if let Some(v) = self.views[j].borrow().as_ref() { if v.vdeps >> i & 1 == 1 { users.push((v.seq, j)); } }
        }
        users.sort_unstable_by(|a, b| b.cmp(a));
        for (_, j) in users { self.free_view(j); }
        let v = self.views[i].borrow_mut().take();
        if let Some(v) = v {
            let v = *v;
            let r = v.view.free();
            self.out(r, "drop of a lazy tree");
        }
    }
    /// Ends all reads of a slot.
    fn close_deps(&self, slot: usize) {
        for r in 0..MAXR {
            let dep = self.readers[r].borrow().as_ref().map_or(false, |r| r.tg.deps >> slot & 1 == 1);
            if dep { self.free_reader(r); }
        }
        for v in (0..MAXV).rev() {
            let dep = self.views[v].borrow().as_ref().map_or(false, |v| v.deps >> slot & 1 == 1);
            if dep { self.free_view(v); }
        }
    }
    /// Exclusive access to a slot; nested steps do not see it.
    fn with_mut<R>(&self, s: usize, f: impl FnOnce(&mut Slot) -> R) -> Option<R> {
        if s >= MAXS || self.read_busy[s].get() > 0 || self.mut_busy[s].get() || self.slots[s].borrow().is_none() { self.skip(); return None; }
        self.close_deps(s);
        let mut slot = self.slots[s].borrow_mut().take().unwrap();
        self.mut_busy[s].set(true);
        let r = f(&mut slot);
        self.mut_busy[s].set(false);
        *self.slots[s].borrow_mut() = Some(slot);
        Some(r)
    }
    pub fn skip(&self) { if env().trace { host(|| println!("  skipped")); } self.skipped.set(self.skipped.get() + 1); }

    /// Classifies the outcome of a call of the library.
    pub fn out<R>(&self, r: Result<R, Pan>, what: &str) -> Option<R> {
        let e = env();
        let fired = std::mem::replace(&mut e.fired, false);
        match r {
            Ok(v) => {
                if fired { violate(Class::NoPanic, || format!("{what}: a panic of user code did not reach the caller")); }
                Some(v)
            }
            Err(Pan::Injected) => { self.injected.set(true); log(0x1417); None }
            Err(Pan::Own(m)) => { violate(Class::Panic, || format!("{what}: panicked: {m}")); None }
        }
    }

    // -------------------------------------------------------- mutation
    /// After a panic of user code: the entry must be as before or as after.
    fn resolve(&self, s: &mut Slot, k: usize, old: Option<u64>, new: &dyn Fn(u64) -> bool, what: &str) {
        probe("panic_in_mutation");
        let g = s.tree.get(k);
        let g = match self.out(g, "get after a panic") { Some(g) => g, None => return };
        let zst = s.tree.zst();
        match g {
            x if x == old => {}
            Some(w) if zst || new(w) => s.set(k, w),
            x => violate(Class::Atomic, || format!("{what} of key {k} interrupted by a panic: found {}, before it was {}", show(&x.map(Res::One)), show(&old.map(Res::One)))),
        }
        self.full_check(s, Class::Atomic);
    }
    fn ins_one(&self, s: &mut Slot, k: usize, p: u32) {
        let old = s.model.get(&k).copied();
        let w0 = spent();
        let (id, r) = s.tree.insert(k, p);
        self.work_check(w0, "insert", s.model.len());
        log(mix2(0x1, k as u64));
        match self.out(r, "insert") {
            Some(()) => { s.set(k, id); if old.is_some() { probe("replace") } }
            None => if !bad() { self.resolve(s, k, old, &|w| w == id, "insert") }
        }
    }
    fn goi_one(&self, s: &mut Slot, k: usize, set: Option<u32>) {
        let old = s.model.get(&k).copied();
        let mark = ledger().mark();
        let w0 = spent();
        let r = s.tree.goi(k, set);
        self.work_check(w0, "get_or_insert", s.model.len());
        let zst = s.tree.zst();
        match self.out(r, "get_or_insert") {
            Some(w) => {
                log(mix2(0x2, w));
                if w == BAD { return; }
                let want_p = set.unwrap_or(old.map_or(DEFAULT_PAYLOAD, |o| o as u32));
                let ok = zst || (w as u32 == want_p && match old {
                    Some(o) => o >> 32 == w >> 32,
                    None => { let n = (w >> 32) as u32; n >= mark && ledger().by_default[n as usize] }
                });
                if !ok {
                    violate(Class::Op, || format!("get_or_insert({k}) gave {} where the key held {}", show(&Some(Res::One(w))), show(&old.map(Res::One))));
                }
                s.set(k, w);
            }
            None => if !bad() {
                let def = |w: u64| old.is_none() && { let n = (w >> 32) as u32; n >= mark && ledger().by_default[n as usize] };
                self.resolve(s, k, old, &def, "get_or_insert")
            }
        }
    }
    fn rem_one(&self, s: &mut Slot, k: usize) {
        let old = s.model.get(&k).copied();
        let w0 = spent();
        let r = s.tree.remove(k);
        self.work_check(w0, "remove", s.model.len());
        match self.out(r, "remove") {
            Some(g) => {
                log(mix2(0x3, g.map_or(1, |x| x)));
                if g != old { violate(Class::Op, || format!("remove({k}) gave {} where the key held {}", show(&g.map(Res::One)), show(&old.map(Res::One)))); }
                s.del(k);
                if old.is_some() { probe("remove_hit"); if s.model.is_empty() { probe("became_empty") } } else { probe("remove_miss") }
            }
            None => if !bad() { self.resolve(s, k, old, &|_| false, "remove") }
        }
    }
    fn create(&self, kind: usize) -> Option<Box<Slot>> {
        let w0 = spent();
        let r = self.fam.mk(kind);
        if work() != w0.0 { self.work_check_n(w0, "creation", self.depth as u64, || "an empty container".into()); }
        let t = self.out(r, "creation")?;
        self.range_check(t.range());
        Some(Box::new(Slot::new(t, kind)))
    }
    fn range_check(&self, r: Result<std::ops::Range<usize>, Pan>) {
        match r {
            Ok(r) if r == (0..self.end) => {}
            r => violate(Class::Range, || format!("index_range() gave {r:?} instead of 0..{}", self.end)),
        }
    }
    fn destroy(&self, s: Box<Slot>) {
        let units = if self.plan.prop == "N04" && self.depth > 0 {
            let mut nodes = 1;
            let mut last = None;
            for k in s.model.keys() {
                for l in 1..self.depth { let b = self.bits as usize * (self.depth - l); if last.map_or(true, |p: usize| p >> b != k >> b) { nodes += 1; } }
                last = Some(*k);
            }
            nodes + s.model.len() as u64
        } else { 0 };
        let w0 = spent();
        let r = s.tree.destroy();
        if units > 0 { self.work_check_n(w0, "drop", units, || format!("a container of {units} nodes and entries")); }
        self.out(r, "drop of a container");
    }
    /// Removes what is in the slot. None - slot is in use.
    fn vacate(&self, s: usize) -> Option<()> {
        if s >= MAXS || self.read_busy[s].get() > 0 || self.mut_busy[s].get() { self.skip(); return None; }
        self.close_deps(s);
        let old = self.slots[s].borrow_mut().take();
        if let Some(o) = old {
            self.mut_busy[s].set(true);
            self.destroy(o);
            self.mut_busy[s].set(false);
        }
        Some(())
    }

    // -------------------------------------------------------- checks of a container
    fn kv_check(&self, s: &Slot, class: Class) {
        let (mut k, mut v) = (vec![], vec![]);
        if self.out(s.tree.kv(&mut k, &mut v), "key_values").is_none() || bad() { return; }
        log(k.iter().zip(&v).fold(0x77, |a, (k, v)| mix2(mix2(a, *k as u64), *v)));
        if k.len() != v.len() {
            violate(class, || format!("unordered view has {} keys and {} values", k.len(), v.len()));
            return;
        }
        let mut p: Vec<(usize, u64)> = k.into_iter().zip(v).collect();
        p.sort_unstable();
        if p.len() != s.model.len() || p.iter().zip(&s.model).any(|(a, b)| a.0 != *b.0 || a.1 != *b.1) {
            let m = &s.model;
            let d = p.iter().find(|(k, v)| m.get(k) != Some(v)).map(|(k, v)| format!("lists key {k} with {}, the map has {}", show(&Some(Res::One(*v))), show(&m.get(k).map(|x| Res::One(*x)))))
                .or_else(|| m.keys().find(|k| !p.iter().any(|x| x.0 == **k)).map(|k| format!("does not list key {k}")))
                .unwrap_or_else(|| "lists a key twice".into());
            violate(class, || format!("unordered view of {} entries (expected {}) {d}", p.len(), m.len()));
        }
    }
    fn get_check(&self, tg: &Tg, k: usize, c: u64, unchecked: bool, class: Class) {
        let exp = tg.vm.get(k);
        if unchecked && exp.is_none() { return; }
        if !self.in_par.get() { set_consume(c); }
        watch(tg.id, self.deep(tg));
        let w0 = spent();
        let r = if unchecked { tg.v().getu(k).map(Some) } else { tg.v().get(k) };
        self.work_check_n(w0, "lookup", (tg.cost * self.depth) as u64, || format!("{}", tg.name()));
        let (watch, fired) = (env().watch, env().fired);
        let got = match self.out(r, if unchecked { "get_unchecked" } else { "get" }) { Some(g) => g, None => { self.after_read_panic(tg); return } };
        log(mix2(k as u64, hash_opt(&got)));
        if !opt_same(exp, &got) {
            violate(class, || format!("{}: {}({k}) gave {}, expected {}", tg.name(), if unchecked { "get_unchecked" } else { "get" }, show(&got), show(&exp.cloned())));
        }
        self.calls_check(tg, exp.map(|_| k), Some(k), watch, fired, "lookup");
    }
    fn calls_check(&self, tg: &Tg, k: Option<usize>, asked: Option<usize>, watch: [u32; 3], fired: bool, what: &str) {
        if fired || env().baton.is_some() || self.in_par.get() || partial() { return; }
        let exp = tg.calls(k);
        if watch != exp {
            violate(Class::Calls, || format!("{}: {what} of {} called its functions (map, init, fold) {:?} times instead of {:?}", tg.name(),
                k.map_or("an absent key".into(), |k| format!("key {k}")), watch, exp));
        }
        if env().deep && !bad() {
            let got = std::mem::take(&mut env().deep_calls);
            let mut want = BTreeMap::new();
            if let (Some(a), Ok(b)) = (asked, self.views[tg.t - MAXS].try_borrow()) {
                let (op, args) = match b.as_ref() { Some(v) => (v.spec.op, v.spec.args.clone()), None => return };
                drop(b);
                self.deep_expect(op, &args, a, k.is_some(), &mut want);
            }
            self.deep_check(&want, &got, tg.id, || format!("{}: {what} of {}", tg.name(), asked.map_or("-".into(), |k| format!("key {k}"))));
        }
    }
    /// Are the callbacks inside of the expression counted too?
    fn deep(&self, tg: &Tg) -> bool { self.plan.prop == "L03" && !tg.slot && !tg.op.over_trees() && tg.cost <= 60 && !self.in_par.get() }
    /// Calls that one request for `k` makes to the callbacks of the trees `args` of an operation and of
    /// everything below, least and most. `has` - the operation delivers the key. A tree whose element is
    /// delivered is asked for it once; one of an operation without the key may be asked or not.
    fn deep_expect(&self, op: Op, args: &[usize], k: usize, has: bool, out: &mut BTreeMap<u64, ([u32; 3], [u32; 3])>) {
        let mut req: BTreeMap<std::cmp::Reverse<u64>, (usize, u32, u32)> = BTreeMap::new();
        let mut ask = |req: &mut BTreeMap<std::cmp::Reverse<u64>, (usize, u32, u32)>, op: Op, args: &[usize], has: bool, lo: u32, hi: u32| {
            let all: Vec<bool> = if op == Op::Mumi {
                (0..2).map(|i| args.iter().skip(i).step_by(2).all(|a| self.views[*a].borrow().as_ref().map_or(false, |v| v.vm.get(k).is_some()))).collect()
            } else if op == Op::Ao {
                let both = args.iter().take(2).all(|a| self.views[*a].borrow().as_ref().map_or(false, |v| v.vm.get(k).is_some()));
                vec![both, both, true]
            } else { vec![true; 3] };
            let per = if op == Op::Mumi { 2 } else { 3 };
            for (i, a) in args.iter().enumerate() {
                let seq = self.views[*a].borrow().as_ref().map_or(0, |v| v.seq);
                let e = req.entry(std::cmp::Reverse(seq)).or_insert((*a, 0, 0));
                if has && all[i % per] { e.1 += lo; }
                e.2 += hi;
            }
        };
        ask(&mut req, op, args, has, 1, 1);
        while let Some((_, (v, lo, hi))) = req.pop_first() {
            let b = self.views[v].borrow();
            let x = match b.as_ref() { Some(x) => x, None => continue };
            let has = x.vm.get(k).is_some();
            if has {
                let per = match x.spec.op {
                    Op::MI | Op::MU => [0, 1, x.srcs.iter().filter(|s| s.get(k).is_some()).count() as u32],
                    _ => [1, 0, 0],
                };
                let e = out.entry(x.spec.id).or_insert(([0; 3], [0; 3]));
                for i in 0..3 { e.0[i] += per[i] * lo; e.1[i] += per[i] * hi; }
            }
            if !x.spec.op.over_trees() { ask(&mut req, x.spec.op, &x.spec.args, has, lo, hi); }
        }
    }
    fn deep_check(&self, want: &BTreeMap<u64, ([u32; 3], [u32; 3])>, got: &[(u64, [u32; 3])], skip: u64, what: impl Fn() -> String) {
        for (id, g) in got {
            if *id == skip { continue; }
            let (lo, hi) = want.get(id).copied().unwrap_or_default();
            if (0..3).any(|i| g[i] < lo[i] || g[i] > hi[i]) {
                violate(Class::Calls, || format!("{} called the functions (map, init, fold) of an inner tree (#{id}) {g:?} times instead of {lo:?} to {hi:?}", what()));
                return;
            }
        }
        if let Some((id, (lo, _))) = want.iter().find(|(id, (lo, _))| *lo != [0; 3] && **id != skip && !got.iter().any(|g| g.0 == **id)) {
            violate(Class::Calls, || format!("{} did not call the functions (map, init, fold) of an inner tree (#{id}), expected {lo:?} calls", what()));
        }
    }
    /// A read was interrupted by a panic: its sources must be untouched.
    fn after_read_panic(&self, tg: &Tg) {
        if bad() { return; }
        probe("panic_in_read");
        let _b = self.busy(tg.deps, tg.vdeps);
        for i in 0..MAXS { if tg.deps >> i & 1 == 1 { if let Some(s) = self.slot(i) { self.brief_check(s, Class::Src); } } }
    }
    /// Contents only.
    fn brief_check(&self, s: &Slot, class: Class) {
        self.kv_check(s, class);
        let n = s.model.len();
        let step = (n / 12).max(1);
        for (k, v) in s.model.iter().step_by(step) {
            if bad() { return; }
            if let Some(g) = self.out(s.tree.get(*k), "get") {
                if g != Some(*v) { violate(class, || format!("container: key {k} reads {}, the map has {}", show(&g.map(Res::One)), show(&Some(Res::One(*v))))); }
            }
        }
    }
    fn full_check(&self, s: &Slot, class: Class) {
        if bad() { return; }
        let tg = Tg { view: &*s.view, vm: s.vm(), deps: 0, vdeps: 0, slot: true, sync: true, t: 0, id: u64::MAX - 1, op: Op::Cont, srcs: vec![], cost: 1 };
        self.brief_check(s, class);
        if !bad() { self.iter_check(&tg, 0, class); }
        if !bad() { self.walk(&tg, 7, if class == Class::Atomic || self.plan.prop == "C10" { Class::Mask } else { class }); }
    }
    fn iter_check(&self, tg: &Tg, c: u64, class: Class) {
        let _b = self.busy(tg.deps, tg.vdeps);
        let n0 = calls_now();
        let w0 = spent();
        let it = match self.out(tg.v().iter(), "iter") { Some(i) => i, None => { self.after_read_panic(tg); return } };
        self.no_calls(n0, "iter()");
        let mut it = it;
        let mut pos = Pos { lo: 0, hi: 0, ended: false };
        let n = tg.vm.keys.len();
        let mut steps = 0;
        // how the iteration is driven: in single steps, with jumps, or its rest at once
        let drive = if self.in_par.get() { 0 } else { c / 100 };
        let at_once = match drive { 2 => Some((3, Rest::Fold)), 3 => Some((0, Rest::Fold)), 4 => Some((2, Rest::Count)), 5 => Some((1, Rest::Last)),
            6 => Some((0, Rest::Step(3))), 7 => Some((5, Rest::Count)), 8 => Some((0, Rest::Last)), _ => None };
        while !bad() && !(pos.ended && steps > n + 1) {
            if let Some((after, how)) = at_once {
                if steps >= after && !pos.ended {
                    it = match self.rest_check(tg, it, &mut pos, how, c, class) { Some(i) => i, None => return };
                }
            }
            let jump = if drive == 1 { [1, 0, 3, 0, 0, 17, 70][steps % 7] } else { 0 };
            if !self.next_check(tg, &mut it, &mut pos, jump, c, class) { break; }
            if self.in_par.get() { yield_point(); }
            steps += 1;
            if steps > n + 4 { break; }
        }
        if work() != w0.0 && !bad() && self.plan.prop == "N04" {
            let nodes = self.tree_nodes(tg.t);
            self.work_check_n(w0, "iteration", (tg.cost as u64) * (nodes + n as u64), || format!("{} ({nodes} nodes, {n} entries)", tg.name()));
        }
        self.out(it.free(), "drop of an iterator");
    }
    /// Work of one access to a container.
    fn work_check(&self, w0: (u64, u64), what: &'static str, n: usize) {
        if work() != w0.0 { self.work_check_n(w0, what, self.depth as u64, || format!("a container of {n} entries")); }
    }
    /// A unit is a node visited in one source. What one unit may cost is ten times what it does cost,
    /// and some work for every child a node may have.
    fn work_check_n(&self, w0: (u64, u64), what: &'static str, units: u64, of: impl FnOnce() -> String) {
        let w = work() - w0.0;
        if w == 0 || self.plan.prop != "N04" { return; }
        self.memory_check(spent().1 - w0.1, what, units);
        if bad() { return; }
        unsafe {
            let m = (*std::ptr::addr_of_mut!(WORKS)).entry(what).or_insert((0, 0, 0));
            m.0 = m.0.max(w * 100 / units);
            m.1 += w;
            m.2 += 1;
        }
        let bound = units * (800 + 6 * self.w as u64);
        if w > bound {
            violate(Class::Work, || format!("{what} of {} took {w} units of work, its shape accounts for {bound} at most ({units} nodes to visit)", of()));
        }
    }
    /// What is asked of the allocator. A reader may ask for so much for each node; changes in
    /// succession, for so much each, and in all for some times what there was to relocate.
    fn memory_check(&self, r: u64, what: &'static str, units: u64) {
        let node = 128 + 16 * self.w as u64;
        if !matches!(what, "insert" | "get_or_insert" | "remove") {
            let bound = 1024 + units * node;
            if r > bound { violate(Class::Work, || format!("{what} asked the allocator for {r} bytes, its shape accounts for {bound} at most ({units} nodes to visit)")); }
            return;
        }
        let (mut used, mut ops) = self.asked.get();
        used += r;
        ops += 1;
        let bound = ops * (1024 + units * node) + 4 * alloc::st().peak as u64;
        unsafe {
            // percent of the bound
            let m = (*std::ptr::addr_of_mut!(WORKS)).entry("memory asked for").or_insert((0, 0, 0));
            m.0 = m.0.max(used * 100 / bound);
            m.1 += r;
            m.2 += 1;
        }
        if used > bound {
            violate(Class::Work, || format!("the last {ops} changes of containers asked the allocator for {used} bytes in all, their number and the most that was ever held account for {bound} at most"));
        }
        self.asked.set(if ops == 1024 { (0, 0) } else { (used, ops) });
    }
    /// false - the iterator is not usable any more
    fn next_check(&self, tg: &Tg, it: &mut Box<dyn RIter>, pos: &mut Pos, jump: usize, c: u64, class: Class) -> bool {
        if !self.in_par.get() { set_consume(c); }
        if jump == 0 || env().step & 1 == 0 { if !self.hint_check(tg, it, pos, class) { return false; } }
        watch(tg.id, self.deep(tg) && jump == 0);
        let r = if jump == 0 { it.next() } else { it.nth(jump) };
        let (watch, mut fired) = (env().watch, env().fired);
        let got = match self.out(r, "next") {
            Some(g) => g,
            None => {
                let n = tg.vm.keys.len();
                pos.hi = (pos.hi + jump).min(n);
                return !bad() && self.next_panicked(tg, pos)
            }
        };
        if jump > 0 {
            probe("iterator_jump");
            // the functions may or may not be called for what is skipped
            fired = true;
            let n = tg.vm.keys.len();
            pos.hi = (pos.hi + jump).min(n);
            pos.lo = (pos.lo + jump).min(n);
        }
        log(got.as_ref().map_or(0x9e, |(k, d)| mix2(*k as u64, d.hash())));
        let j = self.advance(tg, pos, got.as_ref().map(|g| g.0), class);
        match got {
            None => self.calls_check(tg, None, None, watch, fired, "end of iteration"),
            Some((k, d)) => {
                if let Some(j) = j {
                    if !same(&tg.vm.vals[j], &d) {
                        violate(class, || format!("{}: iteration gave {} at key {k}, expected {}", tg.name(), show(&Some(d)), show(&Some(tg.vm.vals[j].clone()))));
                    }
                }
                self.calls_check(tg, Some(k), Some(k), watch, fired, "iteration");
            }
        }
        !bad()
    }
    /// What an iterator says about the number of entries to come.
    fn hint_check(&self, tg: &Tg, it: &Box<dyn RIter>, pos: &Pos, class: Class) -> bool {
        let n = tg.vm.keys.len();
        match self.out(it.hint(), "size_hint") {
            Some(Some((lo, hi))) => {
                let (least, most) = if pos.ended { (0, 0) } else { (n - pos.hi.min(n), n - pos.lo.min(n)) };
                if lo > most || hi.map_or(false, |h| h < least) {
                    violate(class, || format!("{}: size_hint of an iteration said {lo}..{hi:?}, {least} entries were to come", tg.name()));
                }
            }
            Some(None) => {}
            None => return false,
        }
        !bad()
    }
    /// The rest of an iteration at once. Gives the iterator back if it can not do that.
    fn rest_check(&self, tg: &Tg, it: Box<dyn RIter>, pos: &mut Pos, how: Rest, c: u64, class: Class) -> Option<Box<dyn RIter>> {
        if it.hint().map_or(true, |h| h.is_none()) { return Some(it); }
        set_consume(c);
        watch(tg.id, false);
        let mut got: Vec<(usize, Res)> = vec![];
        let r = it.rest(how, &mut |k, d| got.push((k, d)));
        let (watch, fired) = (env().watch, env().fired);
        let count = match self.out(r.unwrap(), "rest of an iteration") { Some(n) => n, None => { self.after_read_panic(tg); return None } };
        probe("iteration_at_once");
        let keys = &tg.vm.keys;
        // an interrupted step leaves one entry that may or may not come
        if pos.lo != pos.hi { return None; }
        for (k, d) in &got { log(mix2(*k as u64, d.hash())); }
        log(count as u64);
        let left = pos.lo..keys.len();
        if how == Rest::Count {
            if count != left.len() { violate(class, || format!("{}: count() of the rest of an iteration gave {count}, {} entries were to come", tg.name(), left.len())); }
        } else {
            let want: Vec<usize> = match how { Rest::Last => left.last().into_iter().collect(), Rest::Step(n) => left.step_by(n).collect(), _ => left.collect() };
            let n = got.len().max(want.len());
            for i in 0..n {
                let (g, w) = (got.get(i), want.get(i));
                if !matches!((g, w), (Some(g), Some(w)) if g.0 == keys[*w] && same(&tg.vm.vals[*w], &g.1)) {
                    violate(class, || format!("{}: rest of an iteration ({how:?}): entry {i} is {}, expected {}", tg.name(),
                        g.map_or("missing".into(), |g| format!("{} at key {}", show(&Some(g.1.clone())), g.0)),
                        w.map_or("none".into(), |w| format!("{} at key {}", show(&Some(tg.vm.vals[*w].clone())), keys[*w]))));
                    return None;
                }
            }
            if how == Rest::Fold && !fired && env().baton.is_none() {
                let mut sum = [0; 3];
                for w in want { let c = tg.calls(Some(keys[w])); for i in 0..3 { sum[i] += c[i]; } }
                if watch != sum { violate(Class::Calls, || format!("{}: rest of an iteration called its functions (map, init, fold) {watch:?} times instead of {sum:?}", tg.name())); }
            }
        }
        None
    }
    /// A step of an iterator was interrupted: the entry may be skipped or come again. false - not usable any more
    fn next_panicked(&self, tg: &Tg, pos: &mut Pos) -> bool {
        if pos.hi < tg.vm.keys.len() { pos.hi += 1; }
        probe("iterator_panic_resume");
        self.after_read_panic(tg);
        !self.src_fault.get() && !bad()
    }
    /// An iterator gave this key, or ended. Which entry that is.
    fn advance(&self, tg: &Tg, pos: &mut Pos, k: Option<usize>, class: Class) -> Option<usize> {
        let keys = &tg.vm.keys;
        match k {
            None => {
                if !pos.ended && pos.hi < keys.len() {
                    violate(class, || format!("{}: iteration ended, but key {} and {} more were to come", tg.name(), keys[pos.hi], keys.len() - pos.hi - 1));
                }
                pos.ended = true;
                None
            }
            Some(k) => {
                let j = (pos.lo..=pos.hi).find(|j| keys.get(*j) == Some(&k));
                match j {
                    _ if pos.ended => violate(class, || format!("{}: iteration gave key {k} after it had ended", tg.name())),
                    None => violate(class, || format!("{}: iteration gave key {k} where {} was expected", tg.name(), keys.get(pos.lo).map_or("the end".to_string(), |k| format!("key {k}")))),
                    Some(j) => {
                        pos.lo = j + 1;
                        pos.hi = j + 1;
                        return Some(j);
                    }
                }
                None
            }
        }
    }
    /// Keeps data for later.
    fn hold(&self, r: usize, tg: &Tg, k: usize, exp: Option<&Res>, got: Option<Box<dyn RHeld>>, of: Option<usize>, class: Class) {
        log(mix2(k as u64, got.is_some() as u64));
        match (exp, got) {
            (None, None) => {}
            (Some(e), Some(h)) => {
                probe("data_held");
                // (a nested action may have taken the place)
                self.free_reader(r);
                *self.readers[r].borrow_mut() = Some(Box::new(Reader { tg: tg.clone(), kind: Kind::Held(h, HeldSt::new(k, e, of, class)), consume: 0 }));
            }
            (e, h) => {
                violate(class, || format!("{}: data at key {k} {}", tg.name(), if e.is_some() { "is missing" } else { "where there is none" }));
                std::mem::forget(h);
            }
        }
    }
    /// false - not usable any more
    fn held_next(&self, tg: &Tg, h: &mut Box<dyn RHeld>, st: &mut HeldSt, jump: usize) -> bool {
        let left = st.items.len() - st.at;
        match self.out(h.hint(), "size_hint") {
            None => return false,
            Some(Some((lo, hi, exact))) => {
                if lo > left || hi.map_or(false, |h| h < left) || (exact && hi != Some(lo)) {
                    violate(Class::VLen, || format!("{}: data held at key {}: size_hint says {lo}..{hi:?} when {left} items are left", tg.name(), st.key));
                    return false;
                }
            }
            Some(None) => {}
        }
        let g = if jump == 0 { h.next() } else { h.nth(jump) };
        let g = match self.out(g, "next item of held data") { Some(g) => g, None => { self.after_read_panic(tg); return false } };
        log(hash_opt(&g));
        st.at = (st.at + jump).min(st.items.len());
        let exp = st.items.get(st.at);
        if g.as_ref() != exp {
            violate(st.class, || format!("{}: item {} of the data held at key {} is {}, expected {}", tg.name(), st.at, st.key, show(&g), show(&exp.cloned())));
            return false;
        }
        if exp.is_some() { st.at += 1; } else { st.ended = true; }
        true
    }
    /// The rest of held data, consumed at once.
    fn held_rest(&self, tg: &Tg, h: Box<dyn RHeld>, st: &HeldSt, how: Rest) {
        let mut got = vec![];
        let n = h.rest(how, &mut |x| got.push(x));
        let n = match self.out(n, "rest of held data") { Some(n) => n, None => { self.after_read_panic(tg); return } };
        probe("data_rest_at_once");
        for g in &got { log(g.hash()); }
        log(n as u64);
        let left = &st.items[st.at..];
        if how == Rest::Count {
            if n != left.len() { violate(st.class, || format!("{}: count() of the rest of the data held at key {} gave {n}, {} items were left", tg.name(), st.key, left.len())); }
            return;
        }
        let want: Vec<&Res> = match how { Rest::Last => left.last().into_iter().collect(), Rest::Step(n) => left.iter().step_by(n).collect(), _ => left.iter().collect() };
        if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a != *b) {
            let i = got.iter().zip(&want).position(|(a, b)| a != *b).unwrap_or(got.len().min(want.len()));
            violate(st.class, || format!("{}: rest ({how:?}) of the data held at key {}: item {i} is {}, expected {}", tg.name(), st.key, show(&got.get(i).cloned()), show(&want.get(i).map(|x| (*x).clone()))));
        }
    }
    /// No user function may have been called.
    fn no_calls(&self, before: u32, what: &str) {
        if env().baton.is_some() || self.in_par.get() { return; }
        let n = calls_now().wrapping_sub(before);
        if n != 0 { violate(Class::Calls, || format!("{what} called user functions {n} times")); }
    }

    // -------------------------------------------------------- cursor
    fn span(&self, prefix: usize, levels: usize) -> (usize, usize) {
        // keys below the node at `prefix` with `levels` levels (including its own)
        let b = self.bits * levels as u32;
        if b >= 64 { (0, usize::MAX) } else { (prefix << b, prefix << b | ((1usize << b) - 1)) }
    }
    fn exp_mask(&self, vm: &VModel, prefix: usize, levels: usize) -> M4 {
        let (lo, hi) = self.span(prefix, levels);
        let mut m = [0; 4];
        let cb = self.bits * (levels as u32 - 1);
        let mut i = vm.keys.partition_point(|k| *k < lo);
        while i < vm.keys.len() && vm.keys[i] <= hi {
            let c = (vm.keys[i] >> cb) & (self.w - 1);
            m[c >> 6] |= 1 << (c & 63);
            if cb == 0 { i += 1; continue; }
            let last = vm.keys[i] | ((1usize << cb) - 1);
            i += 1;
            // skip the rest of the child
            let mut step = 1;
            while i < vm.keys.len() && vm.keys[i] <= last {
                let j = (i + step).min(vm.keys.len());
                if vm.keys[j - 1] <= last { i = j; step *= 2; } else { step = 1; i += 1; }
            }
        }
        m
    }
    /// Is `got` right for the node?
    fn mask_check(&self, tg: &Tg, prefix: usize, levels: usize, got: &M4, parent_bit: bool, class: Class) {
        let exp = self.exp_mask(&tg.vm, prefix, levels);
        let exactly = tg.slot || levels == 1 || tg.v().exact();
        let wrong = if exactly { *got != exp }
            else if !parent_bit { *got != [0; 4] }
            else { (0..4).any(|i| exp[i] & !got[i] != 0) || (self.w < 256 && (self.w / 64..4).any(|i| got[i] != 0)) };
        log(mix2(prefix as u64, mix2(got[0] ^ got[1].rotate_left(7), got[2] ^ got[3].rotate_left(9))));
        if wrong {
            violate(class, || format!("{}: bitmap of node {prefix} (level {}) is {:x?}, expected {}{:x?}", tg.name(), self.depth - levels, &got[..self.w / 64],
                if exactly { "" } else { "at least " }, &exp[..self.w / 64]));
        }
    }
    fn do_select(&self, tg: &Tg, c: &mut Box<dyn RCur>, st: &mut CurSt, level: usize, idx: usize, unchecked: bool, class: Class) -> bool {
        let parent_bit = level == 0 || m4_bit(&st.masks[level - 1], idx);
        let unchecked = unchecked && parent_bit;
        let n0 = calls_now();
        let w0 = spent();
        let r = c.select(level, idx, unchecked);
        self.work_check_n(w0, "select_level_node", tg.cost as u64, || tg.name());
        self.no_calls(n0, "select_level_node");
        let m = match self.out(r, "select_level_node") { Some(m) => m, None => { self.after_read_panic(tg); return false } };
        st.path.truncate(level);
        st.masks.truncate(level);
        st.path.push(if level == 0 { 0 } else { idx });
        st.masks.push(m);
        st.sel = level + 1;
        let prefix = self.prefix(st, level + 1);
        self.mask_check(tg, prefix, self.depth - level, &m, parent_bit, class);
        !bad()
    }
    fn prefix(&self, st: &CurSt, n: usize) -> usize { st.path[1..n].iter().fold(0, |a, i| a << self.bits | *i) }
    fn do_data(&self, tg: &Tg, c: &mut Box<dyn RCur>, st: &CurSt, idx: usize, unchecked: bool, consume: u64) -> bool {
        let prefix = self.prefix(st, self.depth);
        let k = prefix << self.bits | idx;
        let exp = tg.vm.get(k);
        let unchecked = unchecked && exp.is_some();
        if !self.in_par.get() { set_consume(consume); }
        watch(tg.id, self.deep(tg));
        let w0 = spent();
        let r = c.data(idx, unchecked);
        self.work_check_n(w0, "cursor data", tg.cost as u64, || tg.name());
        let (watch, fired) = (env().watch, env().fired);
        let got = match self.out(r, "cursor data") { Some(g) => g, None => { self.after_read_panic(tg); return !self.src_fault.get() && !bad() } };
        log(mix2(k as u64, hash_opt(&got)));
        if !opt_same(exp, &got) {
            violate(Class::Data, || format!("{}: cursor data{} at key {k} gave {}, expected {}", tg.name(), if unchecked { "_unchecked" } else { "" }, show(&got), show(&exp.cloned())));
        }
        self.calls_check(tg, exp.map(|_| k), Some(k), watch, fired, "cursor data");
        !bad()
    }
    /// Complete structural walk with siblings in random order, absent siblings included.
    fn walk(&self, tg: &Tg, seed: u64, class: Class) {
        let _b = self.busy(tg.deps, tg.vdeps);
        let mut c = match self.out(tg.v().cur(), "cursor") { Some(c) => c, None => { self.after_read_panic(tg); return } };
        let mut rng = Rng::new(seed);
        let mut st = CurSt::default();
        let mut budget = 300i32;
        let ok = self.do_select(tg, &mut c, &mut st, 0, 0, rng.chance(1, 2), class);
        if ok { self.walk_node(tg, &mut c, &mut st, 0, &mut rng, &mut budget, class); }
        self.out(c.free(), "drop of a cursor");
    }
    fn walk_node(&self, tg: &Tg, c: &mut Box<dyn RCur>, st: &mut CurSt, level: usize, rng: &mut Rng, budget: &mut i32, class: Class) -> bool {
        let mask = st.masks[level];
        let mut idx = m4_bits(&mask);
        rng.shuffle(&mut idx);
        let extra = if *budget > 0 { 1 + rng.us(2) } else { 0 };
        for _ in 0..extra {
            let at = rng.us(idx.len() + 1);
            idx.insert(at, rng.us(self.w));
        }
        if self.in_par.get() { yield_point(); }
        for i in idx {
            if level + 1 == self.depth {
                if !self.do_data(tg, c, st, i, rng.chance(1, 2), 0) { return false; }
            } else {
                *budget -= 1;
                if *budget < 0 { return true; }
                if !self.do_select(tg, c, st, level + 1, i, rng.chance(1, 2), class) { return false; }
                if !self.walk_node(tg, c, st, level + 1, rng, budget, class) { return false; }
            }
        }
        true
    }
    fn cursor_moves(&self, tg: &Tg, c: &mut Box<dyn RCur>, st: &mut CurSt, rng: &mut Rng, n: usize, consume: u64) -> bool {
        let class = tg.class(Class::Mask, Class::Hide);
        for _ in 0..n {
            let full = st.sel == self.depth;
            if full && rng.chance(1, 2) {
                let bits = m4_bits(&st.masks[self.depth - 1]);
                let idx = if !bits.is_empty() && rng.chance(2, 3) { *rng.pick(&bits) } else { rng.us(self.w) };
                if !self.do_data(tg, c, st, idx, rng.chance(1, 2), consume) { return false; }
            } else {
                // towards the leaves mostly
                let max = st.sel.min(self.depth - 1);
                let level = if rng.chance(2, 3) { max } else { rng.us(max + 1) };
                let idx = if level == 0 { 0 } else {
                    let bits = m4_bits(&st.masks[level - 1]);
                    if !bits.is_empty() && rng.chance(4, 5) { *rng.pick(&bits) } else { rng.us(self.w) }
                };
                if !self.do_select(tg, c, st, level, idx, rng.chance(1, 2), class) { return false; }
            }
        }
        true
    }
}

// ---------------------------------------------------------------- steps
impl Exec {
    /// Views named by a definition: (trees, nodes, models...).
    fn spec(&self, vop: Op, ex: bool, c: u64, id: u64, loose: bool, args: &[u64]) -> Spec {
        Spec { op: vop, ex, c, id, loose, args: args.iter().map(|x| *x as usize).collect() }
    }
    fn def(&self, v: usize, spec: Spec) {
        if v >= MAXV || self.view_busy[v].get() > 0 { return self.skip(); }
        let op = spec.op;
        if matches!(op, Op::I | Op::MI) && spec.ex { return self.skip(); }
        if self.id_taken(spec.id, v) { return self.skip(); }
        let n = spec.args.len();
        let arity_ok = match op {
            Op::Leaf | Op::M | Op::Cont => n == 1,
            Op::I | Op::U | Op::Di | Op::Du | Op::Dni | Op::Dnu => n == 2,
            Op::Aa | Op::Oa | Op::Ao | Op::Oo => n == 3,
            _ => n <= 32,
        };
        if !arity_ok { return self.skip(); }
        if !op.over_trees() && spec.args.iter().any(|a| *a == v) { return self.skip(); }
        // the old definition goes first
        if self.views[v].borrow().is_some() {
            for j in 0..MAXV {
                let used = self.views[j].borrow().as_ref().map_or(false, |x| x.vdeps >> v & 1 == 1);
                if used && self.view_busy[j].get() > 0 { return self.skip(); }
            }
            self.free_view(v);
        }
        let (mut deps, mut vdeps, mut sync, mut cost) = (0u32, 1u64 << v, true, 1);
        let mut trees: Vec<&dyn Tree> = vec![];
        let mut nodes = vec![];
        let mut models: Vec<Rc<VModel>> = vec![];
        let mut tmodels: Vec<&Model> = vec![];
        if op.over_trees() {
            for a in &spec.args {
                let s = match self.slot(*a) { Some(s) => s, None => return self.skip() };
                if !self.fam.val_kind(s.kind) && op != Op::Cont { return self.skip(); }
                deps |= 1 << a;
                sync &= self.fam.sync_kind(s.kind);
                trees.push(&*s.tree);
                models.push(s.vm());
                tmodels.push(&s.model);
            }
        } else {
            for a in &spec.args {
                if *a >= MAXV { return self.skip(); }
                let b = self.views[*a].borrow();
                match b.as_ref() {
                    Some(x) if x.node.is_some() => {
                        nodes.push(x.node.unwrap());
                        models.push(x.vm.clone());
                        deps |= x.deps;
                        vdeps |= x.vdeps;
                        sync &= x.sync;
                        cost += x.cost;
                    }
                    _ => return self.skip(),
                }
            }
        }
        if cost > 400 { return self.skip(); }
        let a = Args { trees, nodes };
        let built = match self.fam.def(&spec, &a) { Ok(Some(b)) => b, _ => return self.skip() };
        let vm = Rc::new(eval(&spec, &tmodels, &models));
        self.range_check(built.view.range());
        let seq = self.seq.get();
        self.seq.set(seq + 1);
        probe(op_probe(op));
        *self.views[v].borrow_mut() = Some(Box::new(ViewSlot { view: built.view, node: built.node, vm, spec, srcs: models, deps, vdeps, seq, sync, cost }));
    }
    /// Calls are counted by id.
    fn id_taken(&self, id: u64, v: usize) -> bool {
        (0..MAXV).any(|i| i != v && self.views[i].borrow().as_ref().map_or(false, |x| x.spec.id == id))
    }
    fn mat(&self, dest: usize, spec: Spec) {
        let op = spec.op;
        if !self.fam.can_mat() || dest >= MAXS || self.id_taken(spec.id, MAXV) { return self.skip(); }
        let n = spec.args.len();
        let ok = match op {
            Op::Leaf | Op::Cont | Op::M => n == 1,
            Op::I | Op::U | Op::Dni | Op::Dnu | Op::Di | Op::Du => n == 2,
            Op::MI | Op::MU | Op::Dmi | Op::Dmu => n <= 32,
            Op::Aa | Op::Oa | Op::Ao | Op::Oo => n == 3,
            _ => false,
        };
        if !ok { return self.skip(); }
        let (mut deps, mut vdeps) = (0u32, 0u64);
        let mut trees: Vec<&dyn Tree> = vec![];
        let mut nodes = vec![];
        let mut models: Vec<Rc<VModel>> = vec![];
        let mut tmodels: Vec<&Model> = vec![];
        if op.over_trees() {
            for a in &spec.args {
                let s = match self.slot(*a) { Some(s) => s, None => return self.skip() };
                if !self.fam.val_kind(s.kind) { return self.skip(); }
                deps |= 1 << a;
                trees.push(&*s.tree);
                tmodels.push(&s.model);
            }
        } else {
            for a in &spec.args {
                if *a >= MAXV { return self.skip(); }
                let b = self.views[*a].borrow();
                match b.as_ref() {
                    Some(x) if x.node.is_some() => { nodes.push(x.node.unwrap()); models.push(x.vm.clone()); deps |= x.deps; vdeps |= x.vdeps; }
                    _ => return self.skip(),
                }
            }
        }
        let busy = self.busy(deps, vdeps);
        let a = Args { trees, nodes };
        let (want, n_made, folds) = eval_mat(&spec, &tmodels, &models);
        let (mark, bytes, live, nested) = (ledger().mark(), alloc::st().live_bytes, ledger().live, env().nested);
        let deep = matches!(self.plan.prop.as_str(), "L03" | "L05") && !op.over_trees() && n_made <= 200;
        watch(spec.id, deep);
        let w0 = spent();
        let toks = ledger().toks[1];
        let r = self.fam.mat(&spec, &a);
        if ledger().toks[1] != toks && env().nested == nested {
            let n = ledger().toks[1] - toks;
            violate(Class::Func, || format!("materialize ({}) left {n} of the functions and source iterators it was given undropped", if r.is_err() { "interrupted" } else { "finished" }));
        }
        if work() != w0.0 && self.plan.prop == "N04" {
            let cost = 1 + if op.over_trees() { n } else { spec.args.iter().map(|a| self.views[*a].borrow().as_ref().map_or(0, |v| v.cost)).sum() };
            let nodes = 1 + self.expr_nodes(&spec).iter().map(|s| s.len() as u64).sum::<u64>();
            self.work_check_n(w0, "materialize", cost as u64 * (nodes + n_made as u64), || format!("{} ({nodes} nodes, {n_made} entries)", op.name()));
        }
        let watch = env().watch;
        let deep_calls = std::mem::take(&mut env().deep_calls);
        let quiet = env().nested == nested;
        let got = self.out(r, "materialize");
        let t = match got {
            Some(Some(t)) => t,
            Some(None) => { drop(busy); return self.skip(); }
            None => {
                if bad() { return; }
                probe("panic_in_materialize");
                if quiet {
                    if let Some(s) = (mark..ledger().mark()).find(|s| ledger().is_live(*s)) {
                        violate(Class::Ledger, || format!("value #{s} made by an interrupted materialization was never dropped"));
                    }
                    if ledger().live != live { violate(Class::Ledger, || "an interrupted materialization dropped values of others".to_string()); }
                    let now = alloc::st().live_bytes;
                    if now != bytes { violate(Class::Leak, || format!("an interrupted materialization kept {} bytes", now as i64 - bytes as i64)); }
                }
                for i in 0..MAXS { if deps >> i & 1 == 1 { if let Some(s) = self.slot(i) { self.brief_check(s, Class::Src); } } }
                return;
            }
        };
        probe("materialize");
        if want.is_empty() { probe("materialize_empty"); }
        let made = if matches!(op, Op::MI | Op::Dmi | Op::MU | Op::Dmu) { [0, n_made as u32, folds as u32] } else { [n_made as u32, 0, 0] };
        if quiet && deep && !bad() {
            let mut want_calls = BTreeMap::new();
            let srcs: Vec<usize> = spec.args.clone();
            for (k, _) in &want { self.deep_expect(op, &srcs, *k, true, &mut want_calls); }
            self.deep_check(&want_calls, &deep_calls, spec.id, || format!("materialize of {} entries", want.len()));
        }
        if quiet && watch != made { violate(Class::Calls, || format!("materialize called its functions (map, init, fold) {watch:?} times instead of {made:?}")); }
        // the result
        let mut s = Box::new(Slot::new(t, 0));
        let (mut k, mut v) = (vec![], vec![]);
        if self.out(s.tree.kv(&mut k, &mut v), "key_values").is_none() || bad() { std::mem::forget(s); return; }
        let mut p: Vec<(usize, u64)> = k.iter().copied().zip(v.iter().copied()).collect();
        p.sort_unstable();
        let fresh = |w: u64| { let n = (w >> 32) as u32; n >= mark && ledger().is_live(n) };
        if k.len() != v.len() || p.len() != want.len() || p.iter().zip(&want).any(|(a, b)| a.0 != b.0 || a.1 as u32 != b.1 || !fresh(a.1)) {
            violate(Class::Mat, || {
                let d = p.iter().zip(&want).find(|(a, b)| a.0 != b.0 || a.1 as u32 != b.1);
                format!("materialized {} has {} keys / {} values, expected {}; first difference: {}", op.name(), k.len(), v.len(), want.len(),
                    d.map_or("-".into(), |(a, b)| format!("key {} with {:x} instead of key {} with {:x}", a.0, a.1 as u32, b.0, b.1)))
            });
            std::mem::forget(s);
            return;
        }
        for (k, w) in &p { s.model.insert(*k, *w); log(mix2(*k as u64, *w)); }
        let mut ids: Vec<u64> = p.iter().map(|x| x.1 >> 32).collect();
        ids.sort_unstable();
        ids.dedup();
        if ids.len() != p.len() { violate(Class::Mat, || "one value is stored under two keys of the materialized container".into()); }
        if !bad() { self.full_check(&s, Class::Mat); }
        for i in 0..MAXS { if deps >> i & 1 == 1 { if let Some(s) = self.slot(i) { if !bad() { self.brief_check(s, Class::Src); } } } }
        if bad() { std::mem::forget(s); return; }
        drop(busy);
        if self.vacate(dest).is_some() {
            *self.slots[dest].borrow_mut() = Some(s);
        } else {
            self.destroy(s);
        }
    }

    fn keyset(&self, seed: u64, n: usize) -> Vec<usize> {
        let mut r = Rng::new(seed);
        let far = 1 + (r.next() as usize % (1 << 20)) * 2;
        let mut v: Vec<usize> = (0..n).map(|i| if n > 300 { i.wrapping_mul(far) % self.end } else { crate::gen::key(&mut r, self.bits, self.depth, self.end) }).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    fn order(keys: &mut Vec<usize>, mode: u64, r: &mut Rng) {
        match mode { 0 => {} 1 => keys.reverse(), _ => r.shuffle(keys) }
    }

    fn exec(&self, st: &Step) {
        let a = |i: usize| st.arg(i);
        let u = |i: usize| st.us(i);
        let key = |i: usize| { let k = st.us(i); if k < self.end { k } else { k % self.end } };
        match st.op {
            Sop::New => {
                let s = u(0);
                let kind = match self.plan.kinds.get(s) { Some(k) => *k % self.fam.kinds(), None => return self.skip() };
                if self.vacate(s).is_none() || bad() { return; }
                if let Some(x) = self.create(kind) { *self.slots[s].borrow_mut() = Some(x); }
            }
            Sop::Ins => { self.with_mut(u(0), |s| self.ins_one(s, key(1), a(2) as u32)); }
            Sop::Goi => { self.with_mut(u(0), |s| self.goi_one(s, key(1), if a(2) == 0 || s.tree.zst() { None } else { Some(a(2) as u32) })); }
            Sop::Rem => { self.with_mut(u(0), |s| self.rem_one(s, key(1))); }
            Sop::Gmut | Sop::Gmutu => {
                self.with_mut(u(0), |s| {
                    let k = key(1);
                    let old = s.model.get(&k).copied();
                    if !s.tree.has_mut() || (st.op == Sop::Gmutu && old.is_none()) { return self.skip(); }
                    let set = if a(2) == 0 || s.tree.zst() { None } else { Some(a(2) as u32) };
                    let w0 = spent();
                    let r = if st.op == Sop::Gmut { s.tree.gmut(k, set) } else { s.tree.gmutu(k, set) };
                    self.work_check(w0, "get_mut", s.model.len());
                    if let Some(g) = self.out(r, "get_mut") {
                        let want = old.map(|o| set.map_or(o, |p| o >> 32 << 32 | p as u64));
                        if g != want { violate(Class::Op, || format!("get_mut({k}) gave {} where the key held {}", show(&g.map(Res::One)), show(&old.map(Res::One)))); }
                        if let Some(w) = want { s.set(k, w); }
                        log(g.unwrap_or(5));
                    }
                });
            }
            Sop::KvSet => {
                self.with_mut(u(0), |s| {
                    if s.tree.zst() { return self.skip(); }
                    let p = a(2) as u32;
                    let r = s.tree.kv_set(u(1), p);
                    if let Some(g) = self.out(r, "key_values_mut") {
                        match g {
                            Some((k, w)) => match s.model.get(&k).copied() {
                                Some(o) if o >> 32 == w >> 32 => s.set(k, o >> 32 << 32 | p as u64),
                                o => violate(Class::Kv, || format!("mutable unordered view lists key {k} with {}, the map has {}", show(&Some(Res::One(w))), show(&o.map(Res::One)))),
                            },
                            None => if !s.model.is_empty() { violate(Class::Kv, || format!("mutable unordered view is empty, the map has {} entries", s.model.len())) },
                        }
                    }
                });
            }
            Sop::KvSwap => {
                self.with_mut(u(0), |s| {
                    if s.tree.zst() { return self.skip(); }
                    let r = s.tree.kv_swap(u(1), u(2));
                    if let Some(g) = self.out(r, "key_values_mut") {
                        match g {
                            Some((k, l)) => match (s.model.get(&k).copied(), s.model.get(&l).copied()) {
                                (Some(x), Some(y)) => { s.set(k, y); s.set(l, x); }
                                _ => violate(Class::Kv, || format!("mutable unordered view lists keys {k} and {l}, which the map does not have")),
                            },
                            None => if !s.model.is_empty() { violate(Class::Kv, || format!("mutable unordered view is empty, the map has {} entries", s.model.len())) },
                        }
                    }
                });
            }
            Sop::Swap => {
                let (x, y) = (u(0), u(1));
                if x == y { return self.skip(); }
                let same = match (self.slot(x), self.slot(y)) { (Some(p), Some(q)) => p.kind == q.kind, _ => false };
                if !same || self.read_busy[y.min(MAXS - 1)].get() > 0 { return self.skip(); }
                self.with_mut(x, |s| {
                    self.with_mut(y, |q| {
                        s.tree.swap(&mut *q.tree);
                        std::mem::swap(&mut s.model, &mut q.model);
                        s.dflt.swap(&q.dflt);
                        s.touch();
                        q.touch();
                    });
                });
            }
            Sop::Take => {
                let (x, y) = (u(0), u(1));
                if x == y { return self.skip(); }
                let t = self.with_mut(x, |s| {
                    let r = s.tree.take();
                    self.out(r, "mem::take").map(|t| {
                        let mut n = Slot::new(t, s.kind);
                        std::mem::swap(&mut n.model, &mut s.model);
                        n.dflt.set(s.dflt.take());
                        s.touch();
                        Box::new(n)
                    })
                });
                if let Some(Some(n)) = t {
                    if y < MAXS && self.vacate(y).is_some() { *self.slots[y].borrow_mut() = Some(n); }
                    else { self.destroy(n); }
                }
            }
            Sop::Move => {
                if u(0) >= MAXS || self.read_busy[u(0)].get() > 0 || self.mut_busy[u(0)].get() { return self.skip(); }
                self.close_deps(u(0));
                let s = self.slots[u(0)].borrow_mut().take();
                if let Some(s) = s {
                    let Slot { tree, model, vm, dflt, kind, .. } = *s;
                    let tree = tree.relocate();
                    let view = tree.view();
                    *self.slots[u(0)].borrow_mut() = Some(Box::new(Slot { view, tree, model, vm, dflt, kind }));
                } else { self.skip() }
            }
            Sop::Bulk | Sop::BulkRem => {
                self.with_mut(u(0), |s| {
                    let (base, stride, n) = (u(1), u(2), u(3).min(100_000));
                    let mut keys: Vec<usize> = (0..n).filter_map(|i| stride.checked_mul(i).and_then(|x| base.checked_add(x))).filter(|k| *k < self.end).collect();
                    let mut r = Rng::new(a(5));
                    Self::order(&mut keys, a(4), &mut r);
                    for (i, k) in keys.into_iter().enumerate() {
                        if bad() { break; }
                        if st.op == Sop::Bulk {
                            if a(5) & 1 == 0 { self.ins_one(s, k, a(5) as u32 ^ i as u32) } else { self.goi_one(s, k, if s.tree.zst() { None } else { Some(a(5) as u32 ^ i as u32) }) }
                        } else { self.rem_one(s, k) }
                    }
                    probe("bulk");
                    if n >= self.w && stride == 1 && base % self.w == 0 && st.op == Sop::Bulk { probe("full_node") }
                });
            }
            Sop::Rand => {
                self.with_mut(u(0), |s| {
                    let mut r = Rng::new(a(1));
                    let local = u(5).max(1);
                    for i in 0..u(2).min(100_000) {
                        if bad() { break; }
                        let k = u(4).wrapping_add(r.next() as usize % local);
                        if k >= self.end { continue; }
                        if a(3) & 1 == 0 { self.ins_one(s, k, i as u32) } else { self.goi_one(s, k, None) }
                    }
                    probe("bulk");
                });
            }
            Sop::Clear => {
                self.with_mut(u(0), |s| {
                    let mut keys: Vec<usize> = s.model.keys().copied().collect();
                    let mut r = Rng::new(a(2));
                    Self::order(&mut keys, a(1), &mut r);
                    for k in keys { if bad() { break; } self.rem_one(s, k); }
                });
            }
            Sop::Cyc => {
                self.with_mut(u(0), |s| {
                    let keys = self.keyset(a(1), u(2).clamp(1, 200_000));
                    let mut r = Rng::new(a(1) ^ 0x99);
                    // what is there stays, except for these keys
                    for k in &keys { if s.model.contains_key(k) { self.rem_one(s, *k); } }
                    let other = alloc::st().live_bytes;
                    let mut first = 0;
                    let mut high = 0;
                    let rounds = u(3).min(2000);
                    for round in 0..rounds {
                        alloc::st().peak = alloc::st().live_bytes;
                        let mut ks = keys.clone();
                        Self::order(&mut ks, a(4) & 3, &mut r);
                        for k in &ks { if bad() { return; } if a(4) & 16 != 0 { self.goi_one(s, *k, None) } else { self.ins_one(s, *k, 1) } }
                        Self::order(&mut ks, (a(4) >> 2) & 3, &mut r);
                        for k in &ks { if bad() { return; } self.rem_one(s, *k); }
                        let p = alloc::st().peak;
                        if round < 2 { first = first.max(p); } else { high = high.max(p); }
                        if high > if keys.len() > 300 { first * 5 / 2 } else { 4 * first + 1024 } {
                            violate(Class::Grow, || format!("filling and emptying {} keys: {high} bytes were held in round {round}, {first} bytes in the first two rounds", keys.len()));
                            return;
                        }
                    }
                    log(mix2(other as u64, high as u64));
                    probe("cycles");
                });
            }
            Sop::Churn => {
                self.with_mut(u(0), |s| {
                    let pop = u(2).clamp(1, 64);
                    let ops = u(3).min(100_000);
                    let mut r = Rng::new(a(1));
                    let keys: Vec<usize> = s.model.keys().copied().collect();
                    for k in keys { if bad() { return; } self.rem_one(s, k); }
                    let base = alloc::st().live_bytes;
                    let node = self.w * 8 + 192;
                    let bound = base + 65536 + (pop + 4) * (self.depth + 1) * 4 * node + pop * 4096;
                    let mut live: std::collections::VecDeque<usize> = Default::default();
                    let (mut q1, mut rest) = (0, 0);
                    alloc::st().peak = base;
                    for i in 0..ops {
                        if bad() { return; }
                        let k = crate::gen::key(&mut r, self.bits, self.depth, self.end);
                        if !s.model.contains_key(&k) { live.push_back(k); }
                        self.ins_one(s, k, i as u32);
                        while live.len() > pop || (live.len() > 1 && r.chance(1, 16)) {
                            let at = match a(4) { 0 => 0, 1 => live.len() - 1, _ => r.us(live.len()) };
                            let k = live.remove(at).unwrap();
                            self.rem_one(s, k);
                        }
                        if i % 256 == 255 || i + 1 == ops {
                            let p = alloc::st().peak;
                            alloc::st().peak = alloc::st().live_bytes;
                            if i < ops / 4 { q1 = q1.max(p) } else { rest = rest.max(p) }
                            if p > bound || (i >= ops / 4 && rest > 8 * q1 + 8192) {
                                violate(Class::Grow, || format!("at most {pop} entries at a time: {p} bytes are held after {i} insertions (bound {bound}, first quarter {q1})"));
                                return;
                            }
                        }
                    }
                    log(mix2(q1 as u64, rest as u64));
                    probe("churn");
                });
            }
            Sop::Oor => {
                let (t, k, which) = (u(0), u(1), a(2));
                if k < self.end { return self.skip(); }
                let refused = |r: Result<String, Pan>| {
                    let fired = std::mem::replace(&mut env().fired, false);
                    match r {
                        Err(Pan::Own(_)) => probe("out_of_range_refused"),
                        Err(Pan::Injected) if fired => {}
                        Err(_) => {}
                        Ok(m) => violate(Class::Range, || format!("{m} with key {k} outside of the range ..{} was not refused", self.end)),
                    }
                };
                if t >= MAXS {
                    if let Some(tg) = self.target(t) {
                        let _b = self.busy(tg.deps, tg.vdeps);
                        refused(tg.v().get(k).map(|_| "get of a lazy tree".to_string()));
                    }
                    return;
                }
                if which == 0 || which == 5 {
                    if let Some(tg) = self.target(t) {
                        let _b = self.busy(tg.deps, 0);
                        let s = self.slot(t).unwrap();
                        if which == 5 && s.tree.has_def() { refused(s.tree.gdef(k).map(|_| "get_or_default".to_string())); }
                        else { refused(s.tree.get(k).map(|_| "get".to_string())); }
                    }
                    return;
                }
                self.with_mut(t, |s| {
                    match which {
                        1 => refused(s.tree.insert(k, 1).1.map(|_| "insert".to_string())),
                        2 => refused(s.tree.goi(k, None).map(|_| "get_or_insert".to_string())),
                        3 => refused(s.tree.remove(k).map(|_| "remove".to_string())),
                        _ => if s.tree.has_mut() { refused(s.tree.gmut(k, None).map(|_| "get_mut".to_string())) },
                    }
                    if !bad() { self.brief_check(s, Class::Range); }
                });
            }
            Sop::Get | Sop::Getu => {
                let tg = match self.target(u(0)) { Some(t) => t, None => return self.skip() };
                let _b = self.busy(tg.deps, tg.vdeps);
                let class = tg.class(Class::Op, Class::VGet);
                if tg.slot {
                    // through the container itself, keys in every accepted form
                    let s = self.slot(u(0)).unwrap();
                    let k = key(1);
                    let exp = s.model.get(&k).copied();
                    if st.op == Sop::Getu {
                        if exp.is_none() { return self.skip(); }
                        let w0 = spent();
                        let r = s.tree.getu(k);
                        self.work_check(w0, "get_unchecked", s.model.len());
                        if let Some(g) = self.out(r, "get_unchecked") {
                            log(g);
                            if Some(g) != exp { violate(class, || format!("container {}: get_unchecked({k}) gave {}, expected {}", tg.t, show(&Some(Res::One(g))), show(&exp.map(Res::One)))); }
                        }
                    } else {
                        let w0 = spent();
                        let r = s.tree.get(k);
                        self.work_check(w0, "get", s.model.len());
                        if let Some(g) = self.out(r, "get") {
                            log(g.unwrap_or(3));
                            if g != exp { violate(class, || format!("container {}: get({k}) gave {}, expected {}", tg.t, show(&g.map(Res::One)), show(&exp.map(Res::One)))); }
                        }
                    }
                } else {
                    self.get_check(&tg, key(1), a(2), st.op == Sop::Getu, class);
                }
            }
            Sop::Gdef => {
                let tg = match self.target(u(0)) { Some(t) if t.slot => t, _ => return self.skip() };
                let _b = self.busy(tg.deps, 0);
                let s = self.slot(u(0)).unwrap();
                if !s.tree.has_def() { return self.skip(); }
                self.gdef_check(s, key(1));
            }
            Sop::Kv => {
                let tg = match self.target(u(0)) { Some(t) if t.slot => t, _ => return self.skip() };
                let _b = self.busy(tg.deps, 0);
                self.kv_check(self.slot(u(0)).unwrap(), Class::Kv);
            }
            Sop::Iter => {
                let tg = match self.target(u(0)) { Some(t) => t, None => return self.skip() };
                self.iter_check(&tg, a(1), tg.class(Class::Iter, Class::VIter));
            }
            Sop::Walk => {
                let tg = match self.target(u(0)) { Some(t) => t, None => return self.skip() };
                self.walk(&tg, a(1), tg.class(Class::Mask, Class::Hide));
            }
            Sop::Chk => {
                let tg = match self.target(u(0)) { Some(t) => t, None => return self.skip() };
                let _b = self.busy(tg.deps, tg.vdeps);
                let flags = a(1);
                let mut r = Rng::new(a(2));
                if flags & 1 != 0 {
                    let class = tg.class(Class::Other, Class::VGet);
                    let keys = tg.vm.keys.clone();
                    let step = (keys.len() / 300).max(1);
                    for k in keys.iter().step_by(step) {
                        if bad() { return; }
                        self.get_check(&tg, *k, a(3), r.chance(1, 4), class);
                        if self.in_par.get() { yield_point(); }
                    }
                    for _ in 0..12 {
                        if bad() { return; }
                        let k = if !keys.is_empty() && r.chance(1, 2) {
                            let k = *r.pick(&keys);
                            match r.us(6) { 0 => k.wrapping_add(1), 1 => k.wrapping_sub(1), 2 => k ^ self.w, 3 => k ^ 1 << r.us(64), 4 => k.wrapping_add(self.w), _ => k ^ (self.w - 1) }
                        } else { crate::gen::key(&mut r, self.bits, self.depth, self.end) };
                        if k < self.end { self.get_check(&tg, k, a(3), false, class); }
                    }
                }
                if bad() { return; }
                if tg.slot && flags & 2 != 0 { self.kv_check(self.slot(u(0)).unwrap(), Class::Kv); }
                if !bad() && flags & 4 != 0 { self.iter_check(&tg, a(3), tg.class(Class::Iter, Class::VIter)); }
                if !bad() && flags & 8 != 0 { self.walk(&tg, a(2), tg.class(Class::Mask, Class::Hide)); }
                if tg.slot && flags & 16 != 0 {
                    let s = self.slot(u(0)).unwrap();
                    if s.tree.has_def() {
                        let keys: Vec<usize> = s.model.keys().copied().collect();
                        for i in 0..16 {
                            if bad() { return; }
                            let k = if i & 1 == 0 && !keys.is_empty() { *r.pick(&keys) } else { crate::gen::key(&mut r, self.bits, self.depth, self.end) };
                            self.gdef_check(s, k);
                        }
                    }
                }
                if STATES_ON.load(std::sync::atomic::Ordering::Relaxed) && tg.slot {
                    let h = tg.vm.keys.iter().fold(mix2(self.w as u64, self.depth as u64), |a, k| mix2(a, *k as u64));
                    host(|| unsafe { if let Some(s) = &mut *std::ptr::addr_of_mut!(STATES) { if s.len() < 1 << 18 { s.insert(h); } } });
                }
            }
            Sop::Def => {
                if let Some(vop) = st.vop {
                    let spec = self.spec(vop, a(1) != 0, a(2), a(3), a(4) != 0, st.a.get(5..).unwrap_or(&[]));
                    self.def(u(0), spec);
                }
            }
            Sop::Undef => {
                let v = u(0);
                if v >= MAXV || self.views[v].borrow().is_none() { return self.skip(); }
                for j in 0..MAXV {
                    let used = self.views[j].borrow().as_ref().map_or(false, |x| x.vdeps >> v & 1 == 1);
                    if used && self.view_busy[j].get() > 0 { return self.skip(); }
                }
                if self.view_busy[v].get() > 0 { return self.skip(); }
                self.free_view(v);
            }
            Sop::Mat => {
                if let Some(vop) = st.vop {
                    let spec = self.spec(vop, false, 0, a(1), a(2) != 0, st.a.get(3..).unwrap_or(&[]));
                    self.mat(u(0), spec);
                }
            }
            Sop::Oi | Sop::Oc => {
                let r = u(0) % MAXR;
                if self.reader_busy[r].get() > 0 { return self.skip(); }
                let tg = match self.target(u(1)) { Some(t) => t, None => return self.skip() };
                self.free_reader(r);
                let _b = self.busy(tg.deps, tg.vdeps);
                let n0 = calls_now();
                let kind = if st.op == Sop::Oi {
                    match self.out(tg.v().iter(), "iter") { Some(i) => Kind::It(i, Pos { lo: 0, hi: 0, ended: false }), None => return self.after_read_panic(&tg) }
                } else {
                    match self.out(tg.v().cur(), "cursor") { Some(c) => Kind::Cur(c, CurSt::default()), None => return self.after_read_panic(&tg) }
                };
                self.no_calls(n0, "opening of a reader");
                *self.readers[r].borrow_mut() = Some(Box::new(Reader { tg, kind, consume: a(2) }));
                let open = (0..MAXR).filter(|i| self.readers[*i].borrow().is_some()).count();
                if open > 1 { probe("readers_open_together"); }
            }
            Sop::St | Sop::Cw => {
                let r = u(0) % MAXR;
                if self.reader_busy[r].get() > 0 { return self.skip(); }
                self.free_held(r);
                let mut rd = match self.readers[r].borrow_mut().take() { Some(r) => r, None => return self.skip() };
                let tg = rd.tg.clone();
                let _b = self.busy(tg.deps, tg.vdeps);
                let consume = rd.consume;
                let mut keep = true;
                match &mut rd.kind {
                    Kind::It(it, pos) => {
                        let class = tg.class(Class::Iter, Class::VIter);
                        for _ in 0..a(1).min(1000) {
                            if !self.next_check(&tg, it, pos, u(2) % 100, consume, class) { keep = false; break; }
                            if pos.ended { break; }
                        }
                        if pos.lo > 0 && !pos.ended { probe("iterator_suspended"); }
                    }
                    Kind::Cur(c, cs) => {
                        let mut rng = Rng::new(a(2));
                        keep = self.cursor_moves(&tg, c, cs, &mut rng, a(1).min(1000) as usize, consume);
                    }
                    Kind::Held(..) => self.skip(),
                }
                if bad() { std::mem::forget(rd); return; }
                let free = self.readers[r].borrow().is_none();
                if keep && free { *self.readers[r].borrow_mut() = Some(rd); }
                else {
                    let r = rd.kind.free();
                    self.out(r, "drop of a reader");
                }
            }
            Sop::Hold => {
                let r = u(0) % MAXR;
                let tg = match self.target(u(1)) { Some(t) => t, None => return self.skip() };
                if self.reader_busy[r].get() > 0 { return self.skip(); }
                self.free_reader(r);
                let _b = self.busy(tg.deps, tg.vdeps);
                let k = key(2);
                let exp = tg.vm.get(k);
                let unchecked = a(3) != 0 && exp.is_some();
                let g = tg.v().hold(k, unchecked);
                let g = match self.out(g, "lookup") { Some(g) => g, None => return self.after_read_panic(&tg) };
                let class = tg.class(Class::Op, Class::VGet);
                self.hold(r, &tg, k, exp, g, None, class);
            }
            Sop::Hr => {
                let (r, from) = (u(0) % MAXR, u(1) % MAXR);
                if r == from || self.reader_busy[r].get() > 0 || self.reader_busy[from].get() > 0 { return self.skip(); }
                self.free_reader(r);
                self.free_held(from);
                let mut rd = match self.readers[from].borrow_mut().take() { Some(r) => r, None => return self.skip() };
                let tg = rd.tg.clone();
                let _b = self.busy(tg.deps, tg.vdeps);
                // a nested step must not put something else there
                self.reader_busy[from].set(1);
                let (mut keep, mut got) = (true, None);
                match &mut rd.kind {
                    Kind::It(it, pos) => {
                        let class = tg.class(Class::Iter, Class::VIter);
                        let g = it.hold_next();
                        match self.out(g, "next") {
                            None => if !bad() { keep = self.next_panicked(&tg, pos) },
                            Some(g) => {
                                let j = self.advance(&tg, pos, g.as_ref().map(|g| g.0), class);
                                got = match (g, j) { (Some((k, h)), Some(j)) => Some((k, Some(&tg.vm.vals[j]), Some(h), class)), _ => None };
                            }
                        }
                    }
                    Kind::Cur(c, cs) => {
                        let mut rng = Rng::new(a(2));
                        for _ in 0..12 {
                            if !keep || cs.sel == self.depth { break; }
                            keep = self.cursor_moves(&tg, c, cs, &mut rng, 1, rd.consume);
                        }
                        if keep && cs.sel == self.depth {
                            let bits = m4_bits(&cs.masks[self.depth - 1]);
                            let idx = if !bits.is_empty() && rng.chance(4, 5) { *rng.pick(&bits) } else { rng.us(self.w) };
                            let k = self.prefix(cs, self.depth) << self.bits | idx;
                            let exp = tg.vm.get(k);
                            let g = c.hold(idx, exp.is_some() && rng.chance(1, 2));
                            match self.out(g, "cursor data") {
                                None => if !bad() { self.after_read_panic(&tg); keep = !self.src_fault.get() && !bad(); },
                                Some(g) => got = Some((k, exp, g, Class::Data)),
                            }
                        }
                    }
                    Kind::Held(..) => self.skip(),
                }
                self.reader_busy[from].set(0);
                if bad() { std::mem::forget((rd, got)); return; }
                // (a nested action may have used the place)
                let free = self.readers[from].borrow().is_none();
                if keep && free {
                    *self.readers[from].borrow_mut() = Some(rd);
                    if let Some((k, exp, g, class)) = got { self.hold(r, &tg, k, exp, g, Some(from), class); }
                } else {
                    if let Some((_, _, Some(h), _)) = got { let x = h.free(); self.out(x, "drop of data"); }
                    let x = rd.kind.free();
                    self.out(x, "drop of a reader");
                }
            }
            Sop::Ht => {
                let r = u(0) % MAXR;
                if self.reader_busy[r].get() > 0 { return self.skip(); }
                let is = self.readers[r].borrow().as_ref().map_or(false, |r| matches!(r.kind, Kind::Held(..)));
                if !is { return self.skip(); }
                let mut rd = self.readers[r].borrow_mut().take().unwrap();
                let tg = rd.tg.clone();
                let _b = self.busy(tg.deps, tg.vdeps);
                let mut keep = true;
                if let Kind::Held(h, st) = &mut rd.kind {
                    if let Some(o) = st.of { let c = &self.reader_busy[o]; c.set(c.get() + 1); }
                    // steps, or jumps
                    let jump = if a(2) >= 5 { u(2) - 4 } else { 0 };
                    for i in 0..a(1).min(100) {
                        if st.ended { break; }
                        if !self.held_next(&tg, h, st, if i % 2 == 0 { jump % 33 } else { 0 }) { keep = false; break; }
                    }
                    if st.at > 0 && !st.ended { probe("data_suspended"); }
                    if let Some(o) = st.of { let c = &self.reader_busy[o]; c.set(c.get() - 1); }
                }
                let how = [None, Some(Rest::Fold), Some(Rest::Count), Some(Rest::Last), Some(Rest::Step(2))].get(u(2)).copied().flatten();
                if let (Some(how), true, false) = (how, keep, bad()) {
                    if let Kind::Held(h, st) = rd.kind {
                        if st.ended { let x = h.free(); self.out(x, "drop of data"); return; }
                        if let Some(o) = st.of { let c = &self.reader_busy[o]; c.set(c.get() + 1); }
                        self.held_rest(&tg, h, &st, how);
                        if let Some(o) = st.of { let c = &self.reader_busy[o]; c.set(c.get() - 1); }
                        return;
                    }
                }
                if bad() { std::mem::forget(rd); return; }
                let free = self.readers[r].borrow().is_none();
                if keep && free { *self.readers[r].borrow_mut() = Some(rd); }
                else {
                    let x = rd.kind.free();
                    self.out(x, "drop of data");
                }
            }
            Sop::Cl if self.reader_busy[u(0) % MAXR].get() > 0 => self.skip(),
            Sop::Cl => { if self.readers[u(0) % MAXR].borrow().is_some() { probe("reader_abandoned"); } self.free_reader(u(0) % MAXR) }
            Sop::Nest | Sop::Par => {}
            _ => self.bitsim.exec(self, st),
        }
    }
    fn gdef_check(&self, s: &Slot, k: usize) {
        let exp = s.model.get(&k).copied();
        let w0 = spent();
        let r = s.tree.gdef(k);
        self.work_check(w0, "get_or_default", s.model.len());
        let g = match self.out(r, "get_or_default") { Some(Some(g)) => g, _ => return };
        log(g);
        if s.tree.zst() || g == BAD { return; }
        match exp {
            Some(w) => if g != w { violate(Class::Def, || format!("get_or_default({k}) gave {}, the key holds {}", show(&Some(Res::One(g))), show(&Some(Res::One(w))))) },
            None => {
                let n = (g >> 32) as usize;
                let ok = g as u32 == DEFAULT_PAYLOAD && ledger().by_default[n] && s.dflt.get().map_or(true, |d| d == g) && !s.model.values().any(|w| *w == g);
                if !ok {
                    violate(Class::Def, || format!("get_or_default({k}) of an absent key gave {} (default was {})", show(&Some(Res::One(g))), show(&s.dflt.get().map(Res::One))));
                }
                s.dflt.set(Some(g));
                probe("default_lookup_miss");
            }
        }
    }

    // -------------------------------------------------------- running
    fn run_one(&self, i: usize) {
        let st = &self.plan.steps[i];
        if st.oom && !self.in_child.get() { self.oom(i); if bad() { return; } }
        begin_step(i);
        self.injected.set(false);
        self.src_fault.set(false);
        let e = env();
        if let Some((k, n)) = st.fault {
            e.armed = Some((k, n));
            e.tot_armed[k] += 1;
            self.src_fault.set(k == EV_CLONE || k == EV_NEXT);
        }
        if let Some((k, from, to)) = self.pending_nest.take() {
            self.nest_ran.set(false);
            let me = self as *const Exec;
            e.nest = Some((k, Box::new(move || {
                let me = unsafe { &*me };
                me.nest_ran.set(true);
                me.nested(from, to);
            })));
        }
        self.inter.set(mix2(self.inter.get(), (st.op as u64) << 8 | st.client as u64));
        if e.trace { println!("{i}: {}", Plan::line(st)); }
        if st.hop && self.all_sync() {
            probe("thread_hop");
            on_thread(|| self.exec(st));
        } else {
            self.exec(st);
        }
        let e = env();
        e.armed = None;
        e.nest = None;
        e.fired = false;
        self.steps_done.set(self.steps_done.get() + 1);
    }
    fn all_sync(&self) -> bool {
        (0..MAXS).all(|i| self.slot(i).map_or(true, |s| self.fam.sync_kind(s.kind)))
    }
    fn nested(&self, from: usize, to: usize) {
        probe("nested_actions");
        let (c, p) = unsafe { (CONSUME, PICK) };
        let (inj, sf) = (self.injected.get(), self.src_fault.get());
        self.inter.set(mix2(self.inter.get(), 0xBE57 ^ env().ev_seq as u64));
        for i in from..to {
            if bad() { break; }
            if matches!(self.plan.steps[i].op, Sop::Nest | Sop::Par) { continue; }
            self.run_one(i);
        }
        self.injected.set(inj);
        self.src_fault.set(sf);
        unsafe { CONSUME = c; PICK = p; }
    }
    fn parallel(&self, seed: u64, from: usize, to: usize) {
        let ids: Vec<usize> = (from..to).filter(|i| {
            let s = &self.plan.steps[*i];
            let read = matches!(s.op, Sop::Get | Sop::Getu | Sop::Gdef | Sop::Kv | Sop::Iter | Sop::Walk | Sop::Chk);
            read && self.target(s.us(0)).map_or(false, |t| t.sync)
        }).collect();
        begin_step(from);
        env().trace = env().trace;
        if ids.len() >= 2 {
            // models are prepared up front: only the library runs on the threads
            for i in &ids { let _ = self.target(self.plan.steps[*i].us(0)); }
            set_consume(0);
            self.in_par.set(true);
            let jobs: Vec<Box<dyn FnOnce() + '_>> = ids.iter().map(|i| {
                let st = &self.plan.steps[*i];
                Box::new(move || self.exec(st)) as Box<dyn FnOnce() + '_>
            }).collect();
            let (sw, tr) = run_threads(seed, jobs);
            self.in_par.set(false);
            self.inter.set(mix2(self.inter.get(), tr));
            log(sw);
            probe("parallel_sections");
            unsafe { *(*std::ptr::addr_of_mut!(PROBES)).entry("thread_switches").or_insert(0) += sw; }
            unsafe {
                let t = std::mem::take(&mut *std::ptr::addr_of_mut!(TOT_PRE));
                if t[1] > 0 {
                    *(*std::ptr::addr_of_mut!(PROBES)).entry("preemption_points_inside_of_reads").or_insert(0) += t[0];
                    *(*std::ptr::addr_of_mut!(PROBES)).entry("preemptions_inside_of_reads").or_insert(0) += t[1];
                }
            }
            self.steps_done.set(self.steps_done.get() + ids.len() as u64);
        }
        for i in from..to {
            if !ids.contains(&i) || ids.len() < 2 {
                if bad() { return; }
                if !matches!(self.plan.steps[i].op, Sop::Nest | Sop::Par) { self.run_one(i); }
            }
        }
    }
    pub fn run(&self) {
        let n = self.plan.steps.len();
        let mut i = 0;
        while i < n && !bad() {
            let st = &self.plan.steps[i];
            match st.op {
                Sop::Nest => {
                    let main = i + 1;
                    if main >= n { break; }
                    let to = (main + 1 + st.us(1)).min(n);
                    if matches!(self.plan.steps[main].op, Sop::Nest | Sop::Par) { i += 1; continue; }
                    self.pending_nest.set(Some((st.arg(0) as u32, main + 1, to)));
                    self.nest_ran.set(false);
                    self.run_one(main);
                    self.pending_nest.set(None);
                    i = if self.nest_ran.get() { to } else { main + 1 };
                }
                Sop::Par => {
                    let to = (i + 1 + st.us(1)).min(n);
                    self.parallel(st.arg(0), i + 1, to);
                    i = to;
                }
                _ => { self.run_one(i); i += 1; }
            }
        }
        if !bad() { self.finish(); }
    }
    fn finish(&self) {
        begin_step(self.plan.steps.len());
        self.bitsim.clear();
        for r in 0..MAXR { self.free_reader(r); }
        for v in 0..MAXV { self.free_view(v); }
        if !bad() { alloc::verify(); }
        for s in 0..MAXS {
            if bad() { return; }
            let s = self.slots[s].borrow_mut().take();
            if let Some(s) = s { self.destroy(s); }
        }
        if bad() { return; }
        alloc::verify();
        let l = ledger();
        if l.live != 0 {
            let n = l.st.iter().position(|s| *s == St::Live);
            violate(Class::Ledger, || format!("{} values were never dropped although all containers are gone (first: #{})", l.live, n.unwrap_or(0)));
        }
        if l.toks[0] != 0 { violate(Class::Func, || format!("{} functions or source iterators handed to the library were never dropped although all lazy trees are gone", l.toks[0])); }
        if l.zst_live != 0 { violate(Class::Ledger, || format!("{} zero-sized values were never dropped", l.zst_live)); }
        if alloc::st().live_bytes != 0 || alloc::st().live_blocks != 0 { violate(Class::Leak, alloc::leak_report); }
    }

    // -------------------------------------------------------- work
    /// Prefixes of the nodes of a tree, by level (without the root), as its sources imply them.
    fn node_sets(&self, t: usize) -> Vec<std::collections::HashSet<usize>> {
        let leaf = |m: &mut dyn Iterator<Item = usize>| {
            let mut v = vec![std::collections::HashSet::new(); self.depth - 1];
            for k in m { for l in 1..self.depth { v[l - 1].insert(k >> self.bits as usize * (self.depth - l)); } }
            v
        };
        if t < MAXS { return self.slot(t).map_or(vec![], |s| leaf(&mut s.model.keys().copied())); }
        let b = self.views[t - MAXS].borrow();
        match b.as_ref() { Some(v) => self.expr_nodes(&v.spec), None => vec![] }
    }
    fn expr_nodes(&self, spec: &Spec) -> Vec<std::collections::HashSet<usize>> {
        let mut parts: Vec<_> = spec.args.iter().map(|a| self.node_sets(if spec.op.over_trees() { *a } else { *a + MAXS })).collect();
        let and = matches!(spec.op, Op::I | Op::Di | Op::Dni | Op::MI | Op::Dmi | Op::Cmi);
        if parts.is_empty() { return vec![]; }
        let mut x = parts.remove(0);
        if let Some((inner, outer)) = spec.op.two() {
            for (p, and) in parts.into_iter().zip([inner, outer]) {
                for (a, b) in x.iter_mut().zip(p) { if and { a.retain(|k| b.contains(k)) } else { a.extend(b) } }
            }
            return x;
        }
        for p in parts {
            for (a, b) in x.iter_mut().zip(p) { if and { a.retain(|k| b.contains(k)) } else { a.extend(b) } }
        }
        x
    }
    fn tree_nodes(&self, t: usize) -> u64 { 1 + self.node_sets(t).iter().map(|s| s.len() as u64).sum::<u64>() }

    // -------------------------------------------------------- refused allocations
    /// Every allocation of the step is refused once, each in a forked copy of the simulation.
    fn oom(&self, i: usize) {
        let sh = shared();
        for n in 1..=64u64 {
            sh[0] = 0;
            let pid = unsafe { fork() };
            if pid < 0 { eprintln!("HARNESS: fork failed"); std::process::exit(2); }
            if pid == 0 {
                self.in_child.set(true);
                unsafe { OOM_EXEC = self; }
                alloc::st().refused = 0;
                alloc::st().fail_at = n;
                self.run_one(i);
                alloc::st().fail_at = 0;
                if alloc::st().refused > 0 {
                    let what = self.plan.steps[i].op.name();
                    let v = env().violation.take();
                    let m = v.map_or(String::new(), |v| format!(" ({}: {})", v.class.name(), v.msg));
                    child_report(Class::Oom, &format!("allocation {n} of step '{what}' was refused, and the operation went on{m}"));
                }
                if let Some(v) = env().violation.take() { child_report(v.class, &v.msg); }
                unsafe { _exit(78) }
            }
            let mut status = 0i32;
            unsafe { waitpid(pid, &mut status, 0); }
            let code = if status & 0x7f == 0 { status >> 8 & 0xff } else { -(status & 0x7f) };
            let e = env();
            match code {
                77 => { e.tot_refused += 1; probe("allocation_refused"); log(77) }
                78 => break,
                79 => {
                    let len = (sh[1] as usize) | (sh[2] as usize) << 8;
                    let m = String::from_utf8_lossy(&sh[3..3 + len]).to_string();
                    let class = CLASSES[sh[0] as usize].0;
                    e.step = i;
                    violate(class, || m);
                    return;
                }
                c => {
                    e.step = i;
                    violate(Class::Oom, || format!("allocation {n} of step '{}' was refused: the process died of {} instead of the allocation error handler being told", self.plan.steps[i].op.name(),
                        if c < 0 { format!("signal {}", -c) } else { format!("exit {c}") }));
                    return;
                }
            }
        }
    }
    /// Called from the allocation error handler: everything not being changed must be intact.
    fn oom_verify(&self) {
        alloc::st().fail_at = 0;
        let e = env();
        e.armed = None;
        e.nest = None;
        for i in 0..MAXS {
            if let Some(s) = self.slot(i) {
                self.full_check(s, Class::Other);
                if bad() { break; }
            }
        }
        if !bad() { alloc::verify(); }
    }
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
static mut SHARED: *mut u8 = std::ptr::null_mut();
fn shared() -> &'static mut [u8] {
    unsafe {
        if SHARED.is_null() { SHARED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0); }
        std::slice::from_raw_parts_mut(SHARED, 4096)
    }
}
fn child_report(class: Class, m: &str) -> ! {
    let sh = shared();
    let b = &m.as_bytes()[..m.len().min(4000)];
    sh[0] = CLASSES.iter().position(|c| c.0 == class).unwrap() as u8;
    sh[1] = b.len() as u8;
    sh[2] = (b.len() >> 8) as u8;
    sh[3..3 + b.len()].copy_from_slice(b);
    unsafe { _exit(79) }
}
static mut OOM_EXEC: *const Exec = std::ptr::null();
pub fn oom_hook(_: std::alloc::Layout) {
    unsafe {
        if OOM_EXEC.is_null() { return; }
        let ex = &*OOM_EXEC;
        host(|| {
            if alloc::st().refused == 0 { return; }
            ex.oom_verify();
            if let Some(v) = env().violation.take() { child_report(Class::Oom, &format!("when the refusal was reported: {}", v.msg)); }
            _exit(77)
        })
    }
}
pub static STATES_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

fn op_probe(op: Op) -> &'static str {
    match op {
        Op::Leaf => "view_leaf", Op::M => "view_map", Op::I => "view_and", Op::U => "view_or", Op::MI => "view_multi_and", Op::MU => "view_multi_or",
        Op::Cont => "view_container", Op::Di | Op::Dni => "view_plain_and", Op::Du | Op::Dnu => "view_plain_or",
        Op::Dmi | Op::Cmi => "view_plain_multi_and", Op::Dmu | Op::Cmu => "view_plain_multi_or", Op::Mumi => "view_multi_or_of_and", Op::Mimu => "view_multi_and_of_or",
        Op::Aa | Op::Oa | Op::Ao | Op::Oo => "view_two_in_one",
    }
}
