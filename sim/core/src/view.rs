//! Readers of any tree (container or lazy) behind an object-safe interface.
use std::ops::ControlFlow::{self, Break, Continue};
use hibit_tree::*;
use hibit_tree::const_utils::*;
use crate::env::*;
use crate::res::*;

pub type M4 = [u64; 4];
pub fn m4<M: BitBlock>(m: &M) -> M4 {
    let mut out = [0; 4];
    for (i, w) in m.as_array().as_ref().iter().enumerate() { out[i] = *w; }
    out
}

pub fn bounds(r: impl std::ops::RangeBounds<usize>) -> std::ops::Range<usize> {
    use std::ops::Bound::*;
    let a = match r.start_bound() { Included(x) => *x, Excluded(x) => *x + 1, Unbounded => 0 };
    let b = match r.end_bound() { Included(x) => x.saturating_add(1), Excluded(x) => *x, Unbounded => usize::MAX };
    a..b
}
pub trait View {
    fn get(&self, k: usize) -> Result<Option<Res>, Pan>;
    /// key must exist
    fn getu(&self, k: usize) -> Result<Res, Pan>;
    fn iter(&self) -> Result<Box<dyn RIter>, Pan>;
    fn cur(&self) -> Result<Box<dyn RCur>, Pan>;
    /// The data at `k`, to be looked at later. `unchecked`: the key must exist.
    fn hold(&self, k: usize, unchecked: bool) -> Result<Option<Box<dyn RHeld>>, Pan>;
    fn exact(&self) -> bool;
    fn range(&self) -> Result<std::ops::Range<usize>, Pan>;
    fn free(self: Box<Self>) -> Result<(), Pan>;
}
/// Data that was handed out and is consumed step by step. Must be gone before what it was taken from
/// is moved on or dropped.
pub trait RHeld {
    fn next(&mut self) -> Result<Option<Res>, Pan>;
    /// skips `n` items
    fn nth(&mut self, n: usize) -> Result<Option<Res>, Pan>;
    /// Consumes the rest at once; how many, where only that is asked for.
    fn rest(self: Box<Self>, how: Rest, f: &mut dyn FnMut(Res)) -> Result<usize, Pan>;
    /// least and most items to come, and whether these are promised to be the same
    fn hint(&self) -> Result<Option<(usize, Option<usize>, bool)>, Pan>;
    fn free(self: Box<Self>) -> Result<(), Pan>;
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rest { Fold, Count, Last, Step(usize) }
pub trait RIter {
    fn next(&mut self) -> Result<Option<(usize, Res)>, Pan>;
    /// skips `n` entries
    fn nth(&mut self, n: usize) -> Result<Option<(usize, Res)>, Pan>;
    /// least and most entries to come; only an ordinary iterator says
    fn hint(&self) -> Result<Option<(usize, Option<usize>)>, Pan>;
    /// Consumes the rest at once; `None` - not an ordinary iterator
    fn rest(self: Box<Self>, how: Rest, f: &mut dyn FnMut(usize, Res)) -> Option<Result<usize, Pan>>;
    fn hold_next(&mut self) -> Result<Option<(usize, Box<dyn RHeld>)>, Pan>;
    fn free(self: Box<Self>) -> Result<(), Pan>;
}
pub trait RCur {
    fn select(&mut self, level: usize, idx: usize, unchecked: bool) -> Result<M4, Pan>;
    fn data(&mut self, idx: usize, unchecked: bool) -> Result<Option<Res>, Pan>;
    fn hold(&mut self, idx: usize, unchecked: bool) -> Result<Option<Box<dyn RHeld>>, Pan>;
    fn free(self: Box<Self>) -> Result<(), Pan>;
}

struct RegHeld<D>(Option<D>);
impl<D: ToRes> RHeld for RegHeld<D> {
    fn next(&mut self) -> Result<Option<Res>, Pan> { let d = self.0.take(); sut(|| d.map(|d| d.to_res())) }
    fn nth(&mut self, n: usize) -> Result<Option<Res>, Pan> {
        let d = self.next();
        if n == 0 { d } else { d.map(|_| None) }
    }
    fn rest(mut self: Box<Self>, how: Rest, f: &mut dyn FnMut(Res)) -> Result<usize, Pan> {
        let d = self.next()?;
        let n = d.is_some() as usize;
        if let (Some(d), true) = (d, how != Rest::Count) { f(d) }
        Ok(n)
    }
    fn hint(&self) -> Result<Option<(usize, Option<usize>, bool)>, Pan> { Ok(None) }
    fn free(self: Box<Self>) -> Result<(), Pan> { Ok(()) }
}
struct MultiHeld<I, M> { it: Moving<I>, x: bool, m: std::marker::PhantomData<M> }
impl<I: Iterator<Item: ItemRes<M>>, M> RHeld for MultiHeld<I, M> {
    fn next(&mut self) -> Result<Option<Res>, Pan> {
        let it = self.it.go();
        sut(|| it.next().map(|x| { let mut out = ManyOut::default(); x.push(&mut out); out.res() }))
    }
    fn nth(&mut self, n: usize) -> Result<Option<Res>, Pan> {
        let it = self.it.go();
        sut(|| it.nth(n).map(|x| { let mut out = ManyOut::default(); x.push(&mut out); out.res() }))
    }
    fn rest(self: Box<Self>, how: Rest, f: &mut dyn FnMut(Res)) -> Result<usize, Pan> {
        let it = self.it.out();
        let mut give = |x: I::Item| { let mut out = ManyOut::default(); x.push(&mut out); let r = out.res(); host(|| f(r)) };
        sut(move || match how {
            Rest::Fold => { it.for_each(|x| give(x)); 0 }
            Rest::Step(n) => { it.step_by(n).for_each(|x| give(x)); 0 }
            Rest::Last => { if let Some(x) = it.last() { give(x) } 0 }
            Rest::Count => it.count(),
        })
    }
    fn hint(&self) -> Result<Option<(usize, Option<usize>, bool)>, Pan> {
        let (it, x) = (self.it.at(), self.x);
        sut(|| { let (l, h) = it.size_hint(); Some((l, h, x)) })
    }
    fn free(self: Box<Self>) -> Result<(), Pan> { let it = self.it.out(); sut(move || drop(it)) }
}
fn reg_held<D: ToRes + 'static>(d: D) -> Box<dyn RHeld> { host(|| Box::new(RegHeld(Some(d)))) }
fn multi_held<M: 'static, I: Iterator<Item: ItemRes<M>> + 'static>(it: I, x: bool) -> Box<dyn RHeld> { host(|| Box::new(MultiHeld::<I, M> { it: Moving::new(it), x, m: std::marker::PhantomData })) }
/// Something of the library's that its user moves about between uses: it never stays where it was, so that
/// whatever points into it (or was remembered about its address) is stale.
pub struct Moving<T> { p: Option<Box<T>>, n: u32 }
impl<T> Moving<T> {
    fn new(t: T) -> Self { Moving { p: Some(Box::new(t)), n: 0 } }
    fn at(&self) -> &T { self.p.as_ref().unwrap() }
    /// for a use before which it may be moved
    fn go(&mut self) -> &mut T {
        self.n += 1;
        if self.n % 3 != 0 {
            let old = Box::into_raw(self.p.take().unwrap());
            let mut new = Box::<T>::new_uninit();
            self.p = Some(unsafe {
                std::ptr::copy_nonoverlapping(old, new.as_mut_ptr(), 1);
                std::ptr::write_bytes(old as *mut u8, 0xDD, std::mem::size_of::<T>());
                drop(Box::from_raw(old as *mut std::mem::MaybeUninit<T>));
                new.assume_init()
            });
        }
        self.p.as_mut().unwrap()
    }
    fn out(self) -> T { *self.p.unwrap() }
}
/// The user of the result sees to it that it does not outlive what it points to.
unsafe fn forever<'a, T>(t: &'a T) -> &'static T { &*(t as *const T) }
unsafe fn forever_mut<'a, T>(t: &'a mut T) -> &'static mut T { &mut *(t as *mut T) }

struct Sel<'x, T: HibitTree + 'static> {
    c: &'x mut <T as HibitTreeTypes<'static>>::Cursor,
    t: &'static T,
    level: usize,
    idx: usize,
    unchecked: bool,
}
impl<'x, T: HibitTree + 'static> ConstIntVisitor for Sel<'x, T> {
    type Out = M4;
    fn visit<I: ConstInteger>(&mut self, i: I) -> ControlFlow<M4> {
        if I::VALUE == self.level {
            let m = unsafe {
                if self.unchecked { self.c.select_level_node_unchecked(self.t, i, self.idx) }
                else { self.c.select_level_node(self.t, i, self.idx) }
            };
            Break(m4(&m))
        } else { Continue(()) }
    }
}
pub fn select<T: HibitTree + 'static>(c: &mut <T as HibitTreeTypes<'static>>::Cursor, t: &'static T, level: usize, idx: usize, unchecked: bool) -> M4 {
    match const_for(ConstUsize::<0>, T::LevelCount::DEFAULT, Sel { c, t, level, idx, unchecked }) {
        Break(m) => m,
        Continue(()) => unreachable!(),
    }
}

/// A regular tree.
pub struct RegView<T: 'static> { own: Option<Box<T>>, t: &'static T, x: bool }
impl<T: 'static> RegView<T> {
    pub fn ptr(&self) -> *const T { self.t }
    pub fn borrowed(t: &'static T) -> Self where T: HibitTree { RegView { own: None, t, x: T::EXACT_HIERARCHY } }
    pub fn owned(t: T) -> Self where T: HibitTree { Self::owned_of(t, T::EXACT_HIERARCHY) }
    /// `x` - what is behind `t` declares its hierarchy exact
    pub fn owned_of(t: T, x: bool) -> Self {
        let b = Box::new(t);
        let t = unsafe { &*(&*b as *const T) };
        RegView { own: Some(b), t, x }
    }
}
pub struct RegIter<T: HibitTree + 'static> { it: Moving<Iter<'static, T>> }
pub struct RegCur<T: HibitTree + 'static> { c: Moving<<T as HibitTreeTypes<'static>>::Cursor>, t: &'static T }

impl<T> View for RegView<T>
where
    T: RegularHibitTree + 'static,
    for<'a> <T as HibitTreeTypes<'a>>::Data: ToRes,
    <T as HibitTreeTypes<'static>>::Data: 'static,
{
    fn hold(&self, k: usize, unchecked: bool) -> Result<Option<Box<dyn RHeld>>, Pan> {
        let t = self.t;
        sut(move || {
            let d: Option<<T as HibitTreeTypes<'static>>::Data> = if unchecked { Some(unsafe { t.get_unchecked(k) }) } else { t.get(k) };
            d.map(reg_held)
        })
    }
    fn get(&self, k: usize) -> Result<Option<Res>, Pan> {
        let t = self.t;
        sut(|| t.get(k).map(|d| d.to_res()))
    }
    fn getu(&self, k: usize) -> Result<Res, Pan> {
        let t = self.t;
        sut(|| unsafe { t.get_unchecked(k) }.to_res())
    }
    fn iter(&self) -> Result<Box<dyn RIter>, Pan> {
        let t = self.t;
        let it = sut(|| t.iter())?;
        Ok(Box::new(RegIter { it: Moving::new(it) }))
    }
    fn cur(&self) -> Result<Box<dyn RCur>, Pan> {
        let t = self.t;
        let c = sut(|| <T as HibitTreeTypes<'static>>::Cursor::new(t))?;
        Ok(Box::new(RegCur { c: Moving::new(c), t }))
    }
    fn exact(&self) -> bool { self.x }
    fn range(&self) -> Result<std::ops::Range<usize>, Pan> { sut(|| crate::view::bounds(T::index_range())) }
    fn free(self: Box<Self>) -> Result<(), Pan> {
        match self.own { Some(b) => { let v = *b; sut(move || drop(v)) } None => Ok(()) }
    }
}
impl<T> RIter for RegIter<T>
where
    T: RegularHibitTree + 'static,
    for<'a> <T as HibitTreeTypes<'a>>::Data: ToRes,
    <T as HibitTreeTypes<'static>>::Data: 'static,
{
    fn hold_next(&mut self) -> Result<Option<(usize, Box<dyn RHeld>)>, Pan> {
        let it = self.it.go();
        sut(|| { let d: Option<(usize, <T as HibitTreeTypes<'static>>::Data)> = Iterator::next(it); d.map(|(k, d)| (k, reg_held(d))) })
    }
    fn next(&mut self) -> Result<Option<(usize, Res)>, Pan> {
        let it = self.it.go();
        sut(|| Iterator::next(it).map(|(k, d)| (k, d.to_res())))
    }
    fn nth(&mut self, n: usize) -> Result<Option<(usize, Res)>, Pan> {
        let it = self.it.go();
        sut(|| Iterator::nth(it, n).map(|(k, d)| (k, d.to_res())))
    }
    fn hint(&self) -> Result<Option<(usize, Option<usize>)>, Pan> {
        let it = self.it.at();
        sut(|| Some(Iterator::size_hint(it)))
    }
    fn rest(self: Box<Self>, how: Rest, f: &mut dyn FnMut(usize, Res)) -> Option<Result<usize, Pan>> {
        let it = self.it.out();
        let mut give = |k, d: Res| host(|| f(k, d));
        Some(sut(move || match how {
            Rest::Fold => { Iterator::for_each(it, |(k, d)| give(k, d.to_res())); 0 }
            Rest::Step(n) => { Iterator::for_each(Iterator::step_by(it, n), |(k, d)| give(k, d.to_res())); 0 }
            Rest::Last => { if let Some((k, d)) = Iterator::last(it) { give(k, d.to_res()) } 0 }
            Rest::Count => Iterator::count(it),
        }))
    }
    fn free(self: Box<Self>) -> Result<(), Pan> { let it = self.it.out(); sut(move || drop(it)) }
}
impl<T> RCur for RegCur<T>
where
    T: RegularHibitTree + 'static,
    for<'a> <T as HibitTreeTypes<'a>>::Data: ToRes,
    <T as HibitTreeTypes<'static>>::Data: 'static,
{
    fn hold(&mut self, idx: usize, unchecked: bool) -> Result<Option<Box<dyn RHeld>>, Pan> {
        let (c, t) = (self.c.at(), self.t);
        sut(|| unsafe {
            let c = forever(c);
            let d: Option<<T as HibitTreeTypes<'static>>::Data> = if unchecked { Some(c.data_unchecked(t, idx)) } else { c.data(t, idx) };
            d.map(reg_held)
        })
    }
    fn select(&mut self, level: usize, idx: usize, unchecked: bool) -> Result<M4, Pan> {
        let (c, t) = (self.c.go(), self.t);
        sut(|| select(c, t, level, idx, unchecked))
    }
    fn data(&mut self, idx: usize, unchecked: bool) -> Result<Option<Res>, Pan> {
        let (c, t) = (self.c.at(), self.t);
        sut(|| unsafe {
            if unchecked { Some(c.data_unchecked(t, idx).to_res()) } else { c.data(t, idx).map(|d| d.to_res()) }
        })
    }
    fn free(self: Box<Self>) -> Result<(), Pan> { let c = self.c.out(); sut(move || drop(c)) }
}

/// How the items of multi data are consumed (decided per request by the plan).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Consume { Next, Fold, NextThenFold(u8), Partial(u8), Collect, Nth(u8), Step(u8), Last, Count }
pub static mut CONSUME: Consume = Consume::Next;
pub fn consume() -> Consume { unsafe { CONSUME } }
/// Which of the items were taken.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pick { All, Prefix, From(usize), Step(usize), Last, Count(usize) }
pub static mut PICK: Pick = Pick::All;

/// Takes items out of multi data; checks length information on the way.
pub fn drain<I: Iterator>(mut it: I, exact_len: bool, mut f: impl FnMut(I::Item)) {
    let (lo, hi) = it.size_hint();
    if exact_len && hi != Some(lo) {
        violate(Class::VLen, || format!("exact-size data says its length is {lo}..{hi:?}"));
    }
    let mut n = 0usize;
    match consume() {
        Consume::Next => {
            loop {
                let (l, h) = it.size_hint();
                match it.next() {
                    Some(x) => {
                        n += 1;
                        f(x);
                        if h == Some(0) { violate(Class::VLen, || format!("size_hint said 0 but an item followed ({n}th)")); }
                    }
                    None => {
                        if l > 0 { violate(Class::VLen, || format!("size_hint said at least {l} more but the items ended after {n}")); }
                        break;
                    }
                }
                if n > 64 { violate(Class::VLen, || "more than 64 items".into()); break; }
            }
        }
        Consume::Nth(k) => {
            unsafe { PICK = Pick::From(k as usize); }
            match it.nth(k as usize) {
                Some(x) => {
                    n = k as usize + 1;
                    f(x);
                    let (l, h) = it.size_hint();
                    let before = n;
                    it.for_each(|x| { n += 1; f(x) });
                    let rest = n - before;
                    if rest < l || h.map_or(false, |h| rest > h) {
                        violate(Class::VLen, || format!("size_hint said {l}..{h:?} more items after nth({k}), {rest} came"));
                    }
                }
                None => {
                    if lo > k as usize { violate(Class::VLen, || format!("size_hint said {lo}..{hi:?} items, nth({k}) found none")); }
                    return;
                }
            }
        }
        Consume::Step(s) => {
            unsafe { PICK = Pick::Step(s as usize); }
            it.step_by(s as usize).for_each(|x| f(x));
            return;
        }
        Consume::Last => {
            unsafe { PICK = Pick::Last; }
            if let Some(x) = it.last() { f(x) }
            return;
        }
        Consume::Count => {
            n = it.count();
            unsafe { PICK = Pick::Count(n); }
        }
        Consume::Fold => { it.fold((), |_, x| { n += 1; f(x) }); }
        Consume::Collect => { it.for_each(|x| { n += 1; f(x) }); }
        Consume::NextThenFold(k) => {
            let mut i = 0;
            let mut ended = false;
            while i < k {
                match it.next() { Some(x) => { n += 1; f(x) } None => { ended = true; break } }
                i += 1;
            }
            if !ended {
                let (l, h) = it.size_hint();
                let before = n;
                it.fold((), |_, x| { n += 1; f(x) });
                let rest = n - before;
                if rest < l || h.map_or(false, |h| rest > h) {
                    violate(Class::VLen, || format!("size_hint said {l}..{h:?} more items, {rest} came"));
                }
            }
        }
        Consume::Partial(k) => {
            for _ in 0..k {
                match it.next() { Some(x) => { n += 1; f(x) } None => break }
            }
            unsafe { PICK = Pick::Prefix; }
            if let Some(h) = hi { if n > h { violate(Class::VLen, || format!("size_hint said at most {h} items, {n} came")); } }
            return;
        }
    }
    if n < lo || hi.map_or(false, |h| n > h) {
        violate(Class::VLen, || format!("size_hint said {lo}..{hi:?} items, {n} came"));
    }
}

/// Items of a multi tree.
pub struct Flat;
pub struct Nested;
pub trait ItemRes<M> { fn push(self, out: &mut ManyOut); }
#[derive(Default)]
pub struct ManyOut { pub v: Vec<u64>, pub nest: Vec<Vec<u64>>, pub nested: bool }
impl ItemRes<Flat> for u64 { fn push(self, out: &mut ManyOut) { host(|| out.v.push(self)) } }
impl<'a, T: crate::val::SimVal> ItemRes<Flat> for &'a T { fn push(self, out: &mut ManyOut) { let w = self.look(); host(|| out.v.push(w)) } }
impl<I: Iterator<Item = u64>> ItemRes<Nested> for I {
    fn push(self, out: &mut ManyOut) {
        let mut v = host(|| Vec::with_capacity(40));
        self.for_each(|x| { host(|| v.push(x)) });
        out.nested = true;
        host(|| out.nest.push(v));
    }
}
impl ManyOut { pub fn res(self) -> Res { if self.nested { Res::Nest(self.nest) } else { Res::Many(self.v) } } }

fn many<M, I: Iterator>(it: I, exact_len: bool) -> Res where I::Item: ItemRes<M> {
    let mut out = ManyOut::default();
    drain(it, exact_len, |x| x.push(&mut out));
    out.res()
}

/// A multi tree.
pub struct MultiView<T: 'static, M = Flat> { m: std::marker::PhantomData<M>, own: Box<T>, t: &'static T, keep: Box<dyn std::any::Any>, x: bool }
impl<T: 'static, M> MultiView<T, M> {
    /// `keep` - what the tree borrows
    /// `x` - all data are `ExactSizeIterator`s
    pub fn new(t: T, keep: Box<dyn std::any::Any>, x: bool) -> Self {
        let own = Box::new(t);
        let t = unsafe { &*(&*own as *const T) };
        MultiView { m: std::marker::PhantomData, own, t, keep, x }
    }
}
pub struct MultiIter<T: HibitTree + 'static, M> { m: std::marker::PhantomData<M>, it: Moving<Iter<'static, T>>, x: bool }
pub struct MultiCur<T: HibitTree + 'static, M> { m: std::marker::PhantomData<M>, c: Moving<<T as HibitTreeTypes<'static>>::Cursor>, t: &'static T, x: bool }

impl<T, M: 'static> View for MultiView<T, M>
where
    T: HibitTree + 'static,
    for<'a> <T as HibitTreeTypes<'a>>::Data: Iterator<Item: ItemRes<M>>,
    for<'a> <T as HibitTreeTypes<'a>>::DataUnchecked: Iterator<Item: ItemRes<M>>,
    for<'a> <<T as HibitTreeTypes<'static>>::Cursor as HibitTreeCursorTypes<'a>>::Data: Iterator<Item: ItemRes<M>>,
    <T as HibitTreeTypes<'static>>::Data: 'static,
    <T as HibitTreeTypes<'static>>::DataUnchecked: 'static,
    <<T as HibitTreeTypes<'static>>::Cursor as HibitTreeCursorTypes<'static>>::Data: 'static,
{
    fn hold(&self, k: usize, unchecked: bool) -> Result<Option<Box<dyn RHeld>>, Pan> {
        let (t, x) = (self.t, self.x);
        sut(move || if unchecked {
            let d: <T as HibitTreeTypes<'static>>::DataUnchecked = unsafe { t.get_unchecked(k) };
            Some(multi_held::<M, _>(d, x))
        } else {
            let d: Option<<T as HibitTreeTypes<'static>>::Data> = t.get(k);
            d.map(|d| multi_held::<M, _>(d, x))
        })
    }
    fn get(&self, k: usize) -> Result<Option<Res>, Pan> {
        let (t, x) = (self.t, self.x);
        sut(|| t.get(k).map(|d| many::<M, _>(d, x)))
    }
    fn getu(&self, k: usize) -> Result<Res, Pan> {
        let (t, x) = (self.t, self.x);
        sut(|| many::<M, _>(unsafe { t.get_unchecked(k) }, x))
    }
    fn iter(&self) -> Result<Box<dyn RIter>, Pan> {
        let t = self.t;
        let it = sut(|| t.iter())?;
        Ok(Box::new(MultiIter { m: std::marker::PhantomData::<M>, it: Moving::new(it), x: self.x }))
    }
    fn cur(&self) -> Result<Box<dyn RCur>, Pan> {
        let t = self.t;
        let c = sut(|| <T as HibitTreeTypes<'static>>::Cursor::new(t))?;
        Ok(Box::new(MultiCur { m: std::marker::PhantomData::<M>, c: Moving::new(c), t, x: self.x }))
    }
    fn exact(&self) -> bool { T::EXACT_HIERARCHY }
    fn range(&self) -> Result<std::ops::Range<usize>, Pan> { sut(|| crate::view::bounds(T::index_range())) }
    fn free(self: Box<Self>) -> Result<(), Pan> {
        let t = *self.own;
        let r = sut(move || drop(t));
        drop(self.keep);
        r
    }
}
impl<T, M: 'static> RIter for MultiIter<T, M>
where
    T: HibitTree + 'static,
    for<'a> <<T as HibitTreeTypes<'static>>::Cursor as HibitTreeCursorTypes<'a>>::Data: Iterator<Item: ItemRes<M>>,
    <<T as HibitTreeTypes<'static>>::Cursor as HibitTreeCursorTypes<'static>>::Data: 'static,
{
    fn hold_next(&mut self) -> Result<Option<(usize, Box<dyn RHeld>)>, Pan> {
        let (it, x) = (unsafe { forever_mut(self.it.go()) }, self.x);
        sut(move || {
            let d: Option<(usize, <<T as HibitTreeTypes<'static>>::Cursor as HibitTreeCursorTypes<'static>>::Data)> = hibit_tree::utils::LendingIterator::next(it);
            d.map(|(k, d)| (k, multi_held::<M, _>(d, x)))
        })
    }
    fn next(&mut self) -> Result<Option<(usize, Res)>, Pan> {
        let (it, x) = (self.it.go(), self.x);
        sut(|| hibit_tree::utils::LendingIterator::next(it).map(|(k, d)| (k, many::<M, _>(d, x))))
    }
    fn nth(&mut self, n: usize) -> Result<Option<(usize, Res)>, Pan> {
        let (it, x) = (self.it.go(), self.x);
        sut(|| {
            for _ in 0..n { hibit_tree::utils::LendingIterator::next(it)?; }
            hibit_tree::utils::LendingIterator::next(it).map(|(k, d)| (k, many::<M, _>(d, x)))
        })
    }
    fn hint(&self) -> Result<Option<(usize, Option<usize>)>, Pan> { Ok(None) }
    fn rest(self: Box<Self>, _: Rest, _: &mut dyn FnMut(usize, Res)) -> Option<Result<usize, Pan>> { None }
    fn free(self: Box<Self>) -> Result<(), Pan> { let it = self.it.out(); sut(move || drop(it)) }
}
impl<T, M: 'static> RCur for MultiCur<T, M>
where
    T: HibitTree + 'static,
    for<'a> <<T as HibitTreeTypes<'static>>::Cursor as HibitTreeCursorTypes<'a>>::Data: Iterator<Item: ItemRes<M>>,
    <<T as HibitTreeTypes<'static>>::Cursor as HibitTreeCursorTypes<'static>>::Data: 'static,
{
    fn hold(&mut self, idx: usize, unchecked: bool) -> Result<Option<Box<dyn RHeld>>, Pan> {
        let (c, t, x) = (self.c.at(), self.t, self.x);
        sut(|| unsafe {
            let c = forever(c);
            let d: Option<<<T as HibitTreeTypes<'static>>::Cursor as HibitTreeCursorTypes<'static>>::Data> = if unchecked { Some(c.data_unchecked(t, idx)) } else { c.data(t, idx) };
            d.map(|d| multi_held::<M, _>(d, x))
        })
    }
    fn select(&mut self, level: usize, idx: usize, unchecked: bool) -> Result<M4, Pan> {
        let (c, t) = (self.c.go(), self.t);
        sut(|| select(c, t, level, idx, unchecked))
    }
    fn data(&mut self, idx: usize, unchecked: bool) -> Result<Option<Res>, Pan> {
        let (c, t, x) = (self.c.at(), self.t, self.x);
        sut(|| unsafe {
            if unchecked { Some(many::<M, _>(c.data_unchecked(t, idx), x)) } else { c.data(t, idx).map(|d| many::<M, _>(d, x)) }
        })
    }
    fn free(self: Box<Self>) -> Result<(), Pan> { let c = self.c.out(); sut(move || drop(c)) }
}
