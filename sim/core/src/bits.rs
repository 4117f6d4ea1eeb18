//! Bit blocks and bit queues behind object-safe adaptors.
use std::any::Any;
use std::ops::ControlFlow;
use hibit_tree::bit_queue::{ArrayBitQueue, BitQueue, EmptyBitQueue, PrimitiveBitQueue};
use hibit_tree::{config, BitBlock, HibitTree, SparseTree};
use hibit_tree::utils::Primitive;
use crate::env::{self, host, sut, Pan, EV_FOLD};

type Mask128 = <SparseTree<config::width_128::depth_1, u8> as HibitTree>::LevelMask;
type Mask256 = <SparseTree<config::width_256::depth_1, u8> as HibitTree>::LevelMask;

/// What a consuming call delivered, and whether it said it was broken off.
pub type Drained = (Vec<usize>, Option<bool>);

pub trait Bq {
    fn cap(&self) -> usize;
    fn next(&mut self) -> Result<Option<usize>, Pan>;
    fn trim(&mut self, n: usize) -> Result<(), Pan>;
    fn current(&self) -> Result<usize, Pan>;
    fn hint(&self) -> Result<(usize, Option<usize>), Pan>;
    fn dup(&self) -> Result<Box<dyn Bq>, Pan>;
    /// consumes a copy
    fn drain(&self, how: u64, stop: usize) -> Result<Drained, Pan>;
}
struct Q<T> { q: T, cap: usize }

fn item(v: &mut Vec<usize>, i: usize) {
    env::event(EV_FOLD, 0);
    host(|| v.push(i));
}

impl<T: BitQueue + 'static> Bq for Q<T> {
    fn cap(&self) -> usize { self.cap }
    fn next(&mut self) -> Result<Option<usize>, Pan> { let q = &mut self.q; sut(|| q.next()) }
    fn trim(&mut self, n: usize) -> Result<(), Pan> { let q = &mut self.q; sut(|| q.trim_to(n)) }
    fn current(&self) -> Result<usize, Pan> { sut(|| self.q.current()) }
    fn hint(&self) -> Result<(usize, Option<usize>), Pan> { sut(|| self.q.size_hint()) }
    fn dup(&self) -> Result<Box<dyn Bq>, Pan> {
        let q = sut(|| self.q.clone())?;
        Ok(Box::new(Q { q, cap: self.cap }))
    }
    fn drain(&self, how: u64, stop: usize) -> Result<Drained, Pan> {
        let mut v = vec![];
        let mut broken = None;
        sut(|| {
            let q = self.q.clone();
            match how {
                0 => {
                    let mut n = 0;
                    let r = q.traverse(|i| {
                        item(&mut v, i);
                        n += 1;
                        if n > stop { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
                    });
                    broken = Some(r.is_break());
                }
                1 => q.for_each(|i| item(&mut v, i)),
                2 => { q.fold((), |_, i| item(&mut v, i)); }
                3 => { let c = q.count(); host(|| v.push(c)); }
                4 => { if let Some(l) = q.last() { host(|| v.push(l)); } }
                5 => { let mut q = q; if let Some(l) = q.nth(stop) { host(|| v.push(l)); } }
                _ => { let mut q = q; while let Some(i) = q.next() { item(&mut v, i); } }
            }
        })?;
        Ok((v, broken))
    }
}

fn words<P: Primitive, const N: usize>(w: &[u64; 8]) -> [P; N] {
    // any distribution of the bits will do: the model reads them back by `bits_of`
    std::array::from_fn(|i| P::from_usize((w[i] & P::MAX.as_usize() as u64) as usize))
}
fn bits_of<P: Primitive>(a: &[P]) -> Vec<usize> {
    let n = std::mem::size_of::<P>() * 8;
    a.iter().enumerate().flat_map(|(i, p)| {
        let x = p.as_usize() as u64;
        (0..n).filter(move |b| x >> b & 1 == 1).map(move |b| i * n + b)
    }).collect()
}
pub const QUEUE_TYPES: usize = 14;
/// (queue, what it must hold)
pub fn make_queue(ty: usize, mode: u64, w: &[u64; 8]) -> Result<(Box<dyn Bq>, Vec<usize>), Pan> {
    fn wrap<T: BitQueue + 'static>(cap: usize, mode: u64, new: impl FnOnce() -> T, bits: Vec<usize>) -> Result<(Box<dyn Bq>, Vec<usize>), Pan> {
        let (q, bits) = match mode {
            1 => (sut(T::empty)?, vec![]),
            2 => (sut(T::filled)?, (0..cap).collect()),
            _ => (sut(new)?, bits),
        };
        Ok((Box::new(Q { q, cap }), bits))
    }
    macro_rules! prim { ($p:ty) => {{
        let a = words::<$p, 1>(w);
        wrap(std::mem::size_of::<$p>() * 8, mode, || PrimitiveBitQueue::new(a[0]), bits_of(&a))
    }} }
    macro_rules! arr { ($p:ty, $n:literal) => {{
        let a = words::<$p, $n>(w);
        wrap(std::mem::size_of::<$p>() * 8 * $n, mode, || ArrayBitQueue::new(a), bits_of(&a))
    }} }
    match ty {
        0 => prim!(u8), 1 => prim!(u16), 2 => prim!(u32), 3 => prim!(u64), 4 => prim!(usize),
        5 => arr!(u64, 1), 6 => arr!(u64, 2), 7 => arr!(u64, 3), 8 => arr!(u64, 4), 9 => arr!(u8, 5), 10 => arr!(u16, 3), 11 => arr!(u32, 2), 12 => arr!(usize, 8),
        _ => wrap(0, mode, EmptyBitQueue::empty, vec![]),
    }
}

pub trait Bb: Any {
    fn any(&self) -> &dyn Any;
    fn width(&self) -> usize;
    fn set(&mut self, i: usize, on: bool) -> Result<bool, Pan>;
    fn get(&self, i: usize) -> Result<bool, Pan>;
    fn ones(&self) -> Result<usize, Pan>;
    fn is_zero(&self) -> Result<bool, Pan>;
    fn words(&self) -> Result<Vec<u64>, Pan>;
    fn traverse(&self, stop: usize) -> Result<Drained, Pan>;
    fn queue(&self) -> Result<Box<dyn Bq>, Pan>;
    fn dup(&self) -> Result<Box<dyn Bb>, Pan>;
    /// None: not of one width
    fn same(&self, o: &dyn Bb) -> Result<Option<bool>, Pan>;
    /// how: 0-2 and, 3-5 or
    fn comb(&mut self, o: &dyn Bb, how: u64) -> Result<bool, Pan>;
}
struct B<T>(T);
impl<T: BitBlock> Bb for B<T> where T::BitsIter: 'static {
    fn any(&self) -> &dyn Any { self }
    fn width(&self) -> usize { T::SIZE }
    fn set(&mut self, i: usize, on: bool) -> Result<bool, Pan> {
        let b = &mut self.0;
        sut(|| if on { b.set_bit::<true>(i) } else { b.set_bit::<false>(i) })
    }
    fn get(&self, i: usize) -> Result<bool, Pan> { sut(|| self.0.get_bit(i)) }
    fn ones(&self) -> Result<usize, Pan> { sut(|| self.0.count_ones()) }
    fn is_zero(&self) -> Result<bool, Pan> { sut(|| self.0.is_zero()) }
    fn words(&self) -> Result<Vec<u64>, Pan> { Ok(sut(|| self.0.as_array())?.as_ref().to_vec()) }
    fn traverse(&self, stop: usize) -> Result<Drained, Pan> {
        let mut v = vec![];
        let mut n = 0;
        let r = sut(|| self.0.traverse_bits(|i| {
            item(&mut v, i);
            n += 1;
            if n > stop { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
        }))?;
        Ok((v, Some(r.is_break())))
    }
    fn queue(&self) -> Result<Box<dyn Bq>, Pan> {
        let q = sut(|| self.0.clone().into_bits_iter())?;
        Ok(Box::new(Q { q, cap: T::SIZE }))
    }
    fn dup(&self) -> Result<Box<dyn Bb>, Pan> { Ok(Box::new(B(sut(|| self.0.clone())?))) }
    fn same(&self, o: &dyn Bb) -> Result<Option<bool>, Pan> {
        match o.any().downcast_ref::<B<T>>() { Some(o) => Ok(Some(sut(|| self.0 == o.0)?)), None => Ok(None) }
    }
    fn comb(&mut self, o: &dyn Bb, how: u64) -> Result<bool, Pan> {
        let o = match o.any().downcast_ref::<B<T>>() { Some(o) => &o.0, None => return Ok(false) };
        let b = &mut self.0;
        sut(|| match how {
            0 => *b = b.clone() & o.clone(),
            1 => *b &= o.clone(),
            2 => *b &= o,
            3 => *b = b.clone() | o.clone(),
            4 => *b |= o.clone(),
            _ => *b |= o,
        })?;
        Ok(true)
    }
}
pub fn make_block(ty: usize) -> Result<Box<dyn Bb>, Pan> {
    Ok(match ty % 3 {
        0 => Box::new(B(sut(<u64 as BitBlock>::zero)?)),
        1 => Box::new(B(sut(Mask128::zero)?)),
        _ => Box::new(B(sut(Mask256::zero)?)),
    })
}
