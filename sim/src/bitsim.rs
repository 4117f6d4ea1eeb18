//! Clients of bit blocks and bit queues.
use std::cell::RefCell;
use std::collections::BTreeSet;
use crate::env::*;
use crate::exec::{probe, Exec};
use crate::plan::*;
use crate::rng::{mix2, Rng};
use sim_core::bits::*;

pub const MAXQ: usize = 16;
pub const MAXB: usize = 8;

struct Queue { q: Box<dyn Bq>, m: BTreeSet<usize>, low: usize, ended: bool }
struct Block { b: Box<dyn Bb>, m: BTreeSet<usize>, ty: usize }
pub struct Bits { qs: Vec<RefCell<Option<Queue>>>, bs: Vec<RefCell<Option<Block>>> }

/// Contents of `n` words.
pub fn fill(mode: u64, seed: u64) -> [u64; 8] {
    let mut r = Rng::new(seed);
    std::array::from_fn(|_| match mode {
        0 | 1 | 2 => r.next(),
        3 => if r.chance(1, 2) { 0 } else { r.next() },
        4 => 1u64 << r.us(64),
        5 => if r.chance(2, 3) { 0 } else { 1u64 << r.us(64) },
        6 => [0, !0, 1, 1 << 63, 1 | 1 << 63, 0x8080_8080_8080_8080, 0x0101_0101_0101_0101][r.us(7)],
        _ => r.next() & r.next() & r.next() & r.next(),
    })
}
fn set_of(v: &[usize]) -> BTreeSet<usize> { v.iter().copied().collect() }
fn words_of(m: &BTreeSet<usize>, width: usize) -> Vec<u64> {
    let mut w = vec![0; width / 64];
    for i in m { w[i / 64] |= 1 << (i % 64); }
    w
}

impl Bits {
    pub fn new() -> Bits { Bits { qs: (0..MAXQ).map(|_| RefCell::new(None)).collect(), bs: (0..MAXB).map(|_| RefCell::new(None)).collect() } }
    pub fn clear(&self) {
        for q in &self.qs { *q.borrow_mut() = None; }
        for b in &self.bs { *b.borrow_mut() = None; }
    }
    /// A consuming call must deliver the elements in order, up to where it was told to stop.
    fn drained(&self, what: &str, exp: &BTreeSet<usize>, stop: Option<usize>, got: &Drained) {
        let n = stop.map_or(exp.len(), |s| exp.len().min(s + 1));
        let want: Vec<usize> = exp.iter().copied().take(n).collect();
        log(got.0.iter().fold(0x41, |a, i| mix2(a, *i as u64)));
        if got.0 != want { violate(Class::Bits, || format!("{what} delivered {:?}, expected {want:?}", got.0)); }
        if let (Some(b), Some(s)) = (got.1, stop) {
            if b != (s < exp.len()) { violate(Class::Bits, || format!("{what} of {} bits stopped at the {}th said it was broken off: {b}", exp.len(), s + 1)); }
        }
    }
    fn queue_check(&self, ex: &Exec, q: &Queue) {
        let cap = q.q.cap();
        if let Some(c) = ex.out(q.q.current(), "current") {
            let hi = q.m.first().copied().unwrap_or(cap);
            let ok = if q.ended { c == cap } else { c >= q.low.min(cap) && c <= hi };
            log(mix2(0x43, (q.ended as u64) << 32 | q.m.len() as u64));
            if !ok { violate(Class::Bits, || format!("current() of a queue of {cap} bits is {c}; the next bit is {hi}, {} are gone, exhausted: {}", q.low, q.ended)); }
        }
        if let Some((lo, hi)) = ex.out(q.q.hint(), "size_hint") {
            if lo > q.m.len() || hi.map_or(false, |h| h < q.m.len()) { violate(Class::Bits, || format!("size_hint of a queue of {} bits is {lo}..{hi:?}", q.m.len())); }
        }
    }
    fn block_check(&self, ex: &Exec, b: &Block, seed: u64) {
        let w = b.b.width();
        let mut r = Rng::new(seed);
        for k in 0..8 {
            let i = if k < 4 && !b.m.is_empty() { let n = r.us(b.m.len()); *b.m.iter().nth(n).unwrap() } else { r.us(w) };
            if let Some(g) = ex.out(b.b.get(i), "get_bit") {
                if g != b.m.contains(&i) { violate(Class::Bits, || format!("bit {i} of a block of {w} reads {g}")); }
            }
        }
        if let Some(n) = ex.out(b.b.ones(), "count_ones") { if n != b.m.len() { violate(Class::Bits, || format!("count_ones() is {n}, {} bits are set", b.m.len())); } }
        if let Some(z) = ex.out(b.b.is_zero(), "is_zero") { if z != b.m.is_empty() { violate(Class::Bits, || format!("is_zero() is {z}, {} bits are set", b.m.len())); } }
        if let Some(ws) = ex.out(b.b.words(), "as_array") { if ws != words_of(&b.m, w) { violate(Class::Bits, || format!("as_array() is {ws:x?}, expected {:x?}", words_of(&b.m, w))); } }
    }
    pub fn exec(&self, ex: &Exec, st: &Step) {
        let (a, u) = (|i: usize| st.arg(i), |i: usize| st.us(i));
        let qi = u(0) % MAXQ;
        let bi = u(0) % MAXB;
        // nested steps do not see what is being changed
        macro_rules! queue { ($i:expr) => { match self.qs[$i].try_borrow_mut() { Ok(q) if q.is_some() => q, _ => return ex.skip() } } }
        macro_rules! block { ($i:expr) => { match self.bs[$i].try_borrow_mut() { Ok(b) if b.is_some() => b, _ => return ex.skip() } } }
        match st.op {
            Sop::QNew => {
                let mut s = match self.qs[qi].try_borrow_mut() { Ok(s) => s, _ => return ex.skip() };
                if let Some((q, v)) = ex.out(make_queue(u(1) % QUEUE_TYPES, a(2), &fill(a(2), a(3))), "creation of a queue") {
                    let n = Queue { q, m: set_of(&v), low: 0, ended: false };
                    self.queue_check(ex, &n);
                    *s = Some(n);
                }
            }
            Sop::QFrom => {
                let b = block!(u(1) % MAXB);
                let b = b.as_ref().unwrap();
                let mut s = match self.qs[qi].try_borrow_mut() { Ok(s) => s, _ => return ex.skip() };
                if let Some(q) = ex.out(b.b.queue(), "into_bits_iter") { *s = Some(Queue { q, m: b.m.clone(), low: 0, ended: false }); }
            }
            Sop::QDup => {
                if qi == u(1) % MAXQ { return ex.skip(); }
                let o = queue!(u(1) % MAXQ);
                let o = o.as_ref().unwrap();
                let mut s = match self.qs[qi].try_borrow_mut() { Ok(s) => s, _ => return ex.skip() };
                if let Some(q) = ex.out(o.q.dup(), "clone") {
                    *s = Some(Queue { q, m: o.m.clone(), low: o.low, ended: o.ended });
                    probe("queue_cloned");
                }
            }
            Sop::QNext => {
                let mut q = queue!(qi);
                let q = q.as_mut().unwrap();
                let mut more = 3;
                for _ in 0..a(1).min(600) {
                    if q.ended { more -= 1; }
                    if bad() || more == 0 { return; }
                    let got = match ex.out(q.q.next(), "next") { Some(g) => g, None => return };
                    let want = q.m.pop_first();
                    log(got.map_or(0x44, |x| x as u64));
                    if got != want { violate(Class::Bits, || format!("queue gave {got:?}, expected {want:?}")); }
                    match want { Some(i) => q.low = q.low.max(i + 1), None => { q.ended = true; probe("queue_exhausted"); } }
                    self.queue_check(ex, q);
                }
            }
            Sop::QTrim => {
                let mut q = queue!(qi);
                let q = q.as_mut().unwrap();
                let n = u(1);
                if ex.out(q.q.trim(n), "trim_to").is_none() { return; }
                q.m = q.m.split_off(&n);
                q.low = q.low.max(n);
                self.queue_check(ex, q);
            }
            Sop::QDrain => {
                let q = queue!(qi);
                let q = q.as_ref().unwrap();
                let (how, stop) = (a(1) % 7, u(2));
                let got = match ex.out(q.q.drain(how, stop), "a consuming call of a queue") { Some(g) => g, None => { self.queue_check(ex, q); return } };
                match how {
                    0 => self.drained("traverse", &q.m, Some(stop), &got),
                    3 => if got.0 != [q.m.len()] { violate(Class::Bits, || format!("count() of {} bits is {:?}", q.m.len(), got.0)); },
                    4 => if got.0.first() != q.m.last() { violate(Class::Bits, || format!("last() is {:?}, expected {:?}", got.0.first(), q.m.last())); },
                    5 => if got.0.first() != q.m.iter().nth(stop) { violate(Class::Bits, || format!("nth({stop}) is {:?}, expected {:?}", got.0.first(), q.m.iter().nth(stop))); },
                    1 => self.drained("for_each", &q.m, None, &got),
                    2 => self.drained("fold", &q.m, None, &got),
                    _ => self.drained("next", &q.m, None, &got),
                }
                self.queue_check(ex, q);
            }
            Sop::BNew => {
                let mut s = match self.bs[bi].try_borrow_mut() { Ok(s) => s, _ => return ex.skip() };
                let b = match ex.out(make_block(u(1)), "zero") { Some(b) => b, None => return };
                let mut n = Block { b, m: BTreeSet::new(), ty: u(1) % 3 };
                let w = n.b.width();
                if a(2) > 0 {
                    let f = fill(a(2), a(3));
                    for i in 0..w {
                        if f[i / 64] >> (i % 64) & 1 == 0 { continue; }
                        match ex.out(n.b.set(i, true), "set_bit") {
                            Some(old) => { if old { violate(Class::Bits, || format!("bit {i} of a new block was set")); } n.m.insert(i); }
                            None => return,
                        }
                    }
                }
                self.block_check(ex, &n, a(3));
                *s = Some(n);
            }
            Sop::BSet => {
                let mut b = block!(bi);
                let b = b.as_mut().unwrap();
                let (i, on) = (u(1) % b.b.width(), a(2) & 1 == 1);
                if let Some(old) = ex.out(b.b.set(i, on), "set_bit") {
                    log(old as u64);
                    if old != b.m.contains(&i) { violate(Class::Bits, || format!("set_bit({i}) said the bit was {old}")); }
                    if on { b.m.insert(i); } else { b.m.remove(&i); }
                    self.block_check(ex, b, a(3));
                }
            }
            Sop::BOp => {
                let oi = u(1) % MAXB;
                let o = {
                    let o = block!(oi);
                    let o = o.as_ref().unwrap();
                    match ex.out(o.b.dup(), "clone") { Some(b) => Block { b, m: o.m.clone(), ty: o.ty }, None => return }
                };
                let mut b = block!(bi);
                let b = b.as_mut().unwrap();
                if b.ty != o.ty { return ex.skip(); }
                match ex.out(b.b.same(&*o.b), "==") {
                    Some(Some(e)) => if e != (b.m == o.m) { violate(Class::Bits, || format!("blocks compare {e}: {:?} and {:?}", b.m, o.m)); },
                    _ => return,
                }
                let how = a(2) % 6;
                if ex.out(b.b.comb(&*o.b, how), "& or |").is_some() {
                    b.m = if how < 3 { b.m.intersection(&o.m).copied().collect() } else { b.m.union(&o.m).copied().collect() };
                    self.block_check(ex, b, a(3));
                    self.block_check(ex, &o, a(3));
                }
            }
            Sop::BTrav => {
                let b = block!(bi);
                let b = b.as_ref().unwrap();
                if let Some(g) = ex.out(b.b.traverse(u(1)), "traverse_bits") { self.drained("traverse_bits", &b.m, Some(u(1)), &g); }
                self.block_check(ex, b, a(2));
            }
            _ => {}
        }
    }
}
