//! Expression trees: a type-erased node that is itself a `RegularHibitTree`, so that every
//! operation of the library can be nested in every other one at run time.
use hibit_tree::*;
use hibit_tree::const_utils::*;
use hibit_tree::ops::*;
use hibit_tree::utils::*;
use crate::cont::*;
use crate::env::*;
use crate::rng::mix2;
use crate::val::*;

// ------------------------------------------------------------ callbacks
impl LeafFn { pub fn new(id: u64) -> Self { LeafFn { id, t: Tok::new(false) } } }
impl MapFn { pub fn new(id: u64, c: u64) -> Self { MapFn { id, c, t: Tok::new(false) } } }
impl InitFn { pub fn new(id: u64, c: u64) -> Self { InitFn { id, c, t: Tok::new(false) } } }
impl FoldFn { pub fn new(id: u64, c: u64) -> Self { FoldFn { id, c, t: Tok::new(false) } } }
impl MkFn { pub fn new(id: u64) -> Self { MkFn { id, t: Tok::new(true) } } }
impl MkInit { pub fn new(id: u64) -> Self { MkInit { id, t: Tok::new(true) } } }
impl MkFold { pub fn new(id: u64) -> Self { MkFold { id, t: Tok::new(true) } } }
/// Reads a stored value.
pub struct LeafFn { pub id: u64, t: Tok }
impl<'a> UnaryFunction<&'a Val> for LeafFn {
    type Output = u64;
    fn exec(&self, v: &'a Val) -> u64 { self.t.check(); event(EV_MAP, self.id); v.look() }
}
pub struct MapFn { pub id: u64, pub c: u64, t: Tok }
pub fn f_map(c: u64, v: u64) -> u64 { mix2(c ^ 0x11, v) }
pub fn f_pair(c: u64, a: u64, b: u64) -> u64 { mix2(mix2(c ^ 0x22, a), b) }
pub fn f_opt(c: u64, a: Option<u64>, b: Option<u64>) -> u64 {
    mix2(mix2(c ^ 0x33, a.map_or(1, |x| mix2(2, x))), b.map_or(3, |x| mix2(4, x)))
}
pub fn f_init(c: u64) -> u64 { mix2(c ^ 0x44, 0) }
pub fn f_fold(c: u64, acc: u64, v: u64) -> u64 { mix2(acc.wrapping_add(c), v) }
impl UnaryFunction<u64> for MapFn {
    type Output = u64;
    fn exec(&self, v: u64) -> u64 { self.t.check(); event(EV_MAP, self.id); f_map(self.c, v) }
}
impl UnaryFunction<(u64, u64)> for MapFn {
    type Output = u64;
    fn exec(&self, v: (u64, u64)) -> u64 { self.t.check(); event(EV_MAP, self.id); f_pair(self.c, v.0, v.1) }
}
impl UnaryFunction<(Option<u64>, Option<u64>)> for MapFn {
    type Output = u64;
    fn exec(&self, v: (Option<u64>, Option<u64>)) -> u64 { self.t.check(); event(EV_MAP, self.id); f_opt(self.c, v.0, v.1) }
}
pub struct InitFn { pub id: u64, pub c: u64, t: Tok }
impl NullaryFunction for InitFn {
    type Output = u64;
    fn exec(&self) -> u64 { self.t.check(); event(EV_INIT, self.id); f_init(self.c) }
}
pub struct FoldFn { pub id: u64, pub c: u64, t: Tok }
impl BinaryFunction<u64, u64> for FoldFn {
    type Output = u64;
    fn exec(&self, a: u64, b: u64) -> u64 { self.t.check(); event(EV_FOLD, self.id); f_fold(self.c, a, b) }
}
/// Makes a container value out of an element (materialization).
pub struct MkFn { pub id: u64, t: Tok }
pub fn f_mk(x: u64) -> u32 { x as u32 ^ (x >> 32) as u32 }
impl MkFn {
    fn mk(&self, x: u64) -> Val {
        self.t.check(); event(EV_MAP, self.id);
        Val::make_in_sut(f_mk(x))
    }
}
macro_rules! mk_impl {
    ($t:ty, $v:ident => $e:expr) => {
        impl UnaryFunction<$t> for MkFn {
            type Output = Val;
            fn exec(&self, $v: $t) -> Val { self.mk($e) }
        }
    };
}
mk_impl!(u64, v => v);
mk_impl!((u64, u64), v => f_pair(0, v.0, v.1));
mk_impl!((Option<u64>, Option<u64>), v => f_opt(0, v.0, v.1));
macro_rules! mk_two { ($($t:ty),*) => { $( mk_impl!($t, v => crate::res::ToRes::to_res(v).hash()); )* }; }
mk_two!(((u64, u64), u64), (u64, (u64, u64)), ((Option<u64>, Option<u64>), u64), (u64, (Option<u64>, Option<u64>)),
    (Option<(u64, u64)>, Option<u64>), (Option<u64>, Option<(u64, u64)>),
    (Option<(Option<u64>, Option<u64>)>, Option<u64>), (Option<u64>, Option<(Option<u64>, Option<u64>)>));
impl<'a> UnaryFunction<&'a Val> for MkFn {
    type Output = Val;
    fn exec(&self, v: &'a Val) -> Val { let w = v.look(); self.mk(w) }
}
/// init/fold that makes a value
pub struct MkInit { pub id: u64, t: Tok }
impl NullaryFunction for MkInit {
    type Output = Val;
    fn exec(&self) -> Val { self.t.check(); event(EV_INIT, self.id); Val::make_in_sut(0) }
}
pub struct MkFold { pub id: u64, t: Tok }
impl BinaryFunction<Val, u64> for MkFold {
    type Output = Val;
    fn exec(&self, mut a: Val, b: u64) -> Val {
        self.t.check(); event(EV_FOLD, self.id);
        let w = a.look();
        a.set(f_mkfold(w as u32, b));
        a
    }
}
pub fn f_mkfold(acc: u32, b: u64) -> u32 { f_mk(mix2(acc as u64, b)) }

// ------------------------------------------------------------ source iterator
pub struct SrcIter<T: 'static> { p: *const &'static T, n: usize, loose: bool, t: Tok }
impl<T> SrcIter<T> {
    /// `v` must outlive the iterator
    pub fn new(v: &Vec<&'static T>, loose: bool) -> Self { SrcIter { p: v.as_ptr(), n: v.len(), loose, t: Tok::new(false) } }
    /// that of a materialization
    pub fn mat(v: &Vec<&'static T>, loose: bool) -> Self { SrcIter { p: v.as_ptr(), n: v.len(), loose, t: Tok::new(true) } }
}
impl<T> Clone for SrcIter<T> {
    fn clone(&self) -> Self {
        event(EV_CLONE, 0);
        SrcIter { p: self.p, n: self.n, loose: self.loose, t: self.t.clone() }
    }
}
impl<T> Iterator for SrcIter<T> {
    type Item = &'static T;
    fn next(&mut self) -> Option<&'static T> {
        self.t.check();
        event(EV_NEXT, 0);
        if self.n == 0 { return None; }
        self.n -= 1;
        unsafe {
            let r = *self.p;
            self.p = self.p.add(1);
            Some(r)
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.loose { (0, None) } else { (self.n, Some(self.n)) }
    }
}

// ------------------------------------------------------------ families
/// Trees that may be combined: same node width and depth.
pub trait Fam: Sized + 'static {
    type Mask: BitBlock;
    type Count: ConstInteger;
    type A: Cont<T = Val> + for<'t> HibitTreeTypes<'t, Data = &'t Val, DataUnchecked = &'t Val> + HibitTree<LevelMask = Self::Mask, LevelCount = Self::Count>;
    type B: Cont<T = Val> + for<'t> HibitTreeTypes<'t, Data = &'t Val, DataUnchecked = &'t Val> + HibitTree<LevelMask = Self::Mask, LevelCount = Self::Count>;
    fn materialize<S>(_s: S) -> Option<Self::A>
    where
        S: LazyHibitTree<LevelMask = Self::Mask, LevelCount = Self::Count>,
        for<'a> S: HibitTreeTypes<'a, Cursor: for<'b> HibitTreeCursorTypes<'b, Data = Val>>;
    const CAN_MAT: bool;
}

pub type NR<F, const EX: bool> = &'static Node<F, EX>;
pub type Srcs<F, const EX: bool> = SrcIter<Node<F, EX>>;
pub type IMap<F, const EX: bool> = Map<Intersection<NR<F, EX>, NR<F, EX>>, MapFn>;
pub type UMap<F, const EX: bool> = Map<Union<NR<F, EX>, NR<F, EX>>, MapFn>;
pub type MIMap<F, const EX: bool> = MultiMapFold<MultiIntersection<Srcs<F, EX>>, InitFn, FoldFn>;
pub type MUMap<F, const EX: bool> = MultiMapFold<MultiUnion<Srcs<F, EX>>, InitFn, FoldFn>;
/// EX - value of EXACT_HIERARCHY of this node type.
pub enum Node<F: Fam, const EX: bool> {
    LA(Map<&'static F::A, LeafFn>),
    LB(Map<&'static F::B, LeafFn>),
    M(Map<NR<F, EX>, MapFn>),
    I(IMap<F, EX>),
    U(UMap<F, EX>),
    MI(MIMap<F, EX>, Vec<NR<F, EX>>),
    MU(MUMap<F, EX>, Vec<NR<F, EX>>),
}
type C<'s, T> = <T as HibitTreeTypes<'s>>::Cursor;
pub enum NodeCursor<'s, F: Fam, const EX: bool> {
    LA(C<'s, Map<&'static F::A, LeafFn>>),
    LB(C<'s, Map<&'static F::B, LeafFn>>),
    M(Box<C<'s, Map<NR<F, EX>, MapFn>>>),
    I(Box<C<'s, IMap<F, EX>>>),
    U(Box<C<'s, UMap<F, EX>>>),
    MI(Box<C<'s, MIMap<F, EX>>>),
    MU(Box<C<'s, MUMap<F, EX>>>),
}
impl<F: Fam, const EX: bool> Borrowable for Node<F, EX> { type Borrowed = Self; }
impl<'t, F: Fam, const EX: bool> HibitTreeTypes<'t> for Node<F, EX> {
    type Data = u64;
    type DataUnchecked = u64;
    type Cursor = NodeCursor<'t, F, EX>;
}
macro_rules! each {
    ($s:expr, $n:ident => $e:expr) => {
        match $s {
            Node::LA($n) => $e, Node::LB($n) => $e, Node::M($n) => $e, Node::I($n) => $e, Node::U($n) => $e,
            Node::MI($n, _) => $e, Node::MU($n, _) => $e,
        }
    };
}
macro_rules! each2 {
    ($c:expr, $s:expr, $c_:ident, $n:ident => $e:expr) => {
        match ($c, $s) {
            (NodeCursor::LA($c_), Node::LA($n)) => $e,
            (NodeCursor::LB($c_), Node::LB($n)) => $e,
            (NodeCursor::M($c_), Node::M($n)) => $e,
            (NodeCursor::I($c_), Node::I($n)) => $e,
            (NodeCursor::U($c_), Node::U($n)) => $e,
            (NodeCursor::MI($c_), Node::MI($n, _)) => $e,
            (NodeCursor::MU($c_), Node::MU($n, _)) => $e,
            _ => unreachable!(),
        }
    };
}
impl<F: Fam, const EX: bool> HibitTree for Node<F, EX> {
    const EXACT_HIERARCHY: bool = EX;
    type LevelCount = F::Count;
    type LevelMask = F::Mask;
    unsafe fn data(&self, index: usize, li: &[usize]) -> Option<u64> { each!(self, n => n.data(index, li)) }
    unsafe fn data_unchecked(&self, index: usize, li: &[usize]) -> u64 { each!(self, n => n.data_unchecked(index, li)) }
}
impl<'t, 's, F: Fam, const EX: bool> HibitTreeCursorTypes<'t> for NodeCursor<'s, F, EX> { type Data = u64; }
impl<'s, F: Fam, const EX: bool> HibitTreeCursor<'s> for NodeCursor<'s, F, EX> {
    type Src = Node<F, EX>;
    fn new(src: &'s Node<F, EX>) -> Self {
        match src {
            Node::LA(n) => NodeCursor::LA(HibitTreeCursor::new(n)),
            Node::LB(n) => NodeCursor::LB(HibitTreeCursor::new(n)),
            Node::M(n) => NodeCursor::M(Box::new(HibitTreeCursor::new(n))),
            Node::I(n) => NodeCursor::I(Box::new(HibitTreeCursor::new(n))),
            Node::U(n) => NodeCursor::U(Box::new(HibitTreeCursor::new(n))),
            Node::MI(n, _) => NodeCursor::MI(Box::new(HibitTreeCursor::new(n))),
            Node::MU(n, _) => NodeCursor::MU(Box::new(HibitTreeCursor::new(n))),
        }
    }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'s Node<F, EX>, n: N, i: usize) -> F::Mask {
        each2!(self, src, c, s => c.select_level_node(s, n, i))
    }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'s Node<F, EX>, n: N, i: usize) -> F::Mask {
        each2!(self, src, c, s => c.select_level_node_unchecked(s, n, i))
    }
    unsafe fn data<'a>(&'a self, src: &'s Node<F, EX>, i: usize) -> Option<u64> { each2!(self, src, c, s => c.data(s, i)) }
    unsafe fn data_unchecked<'a>(&'a self, src: &'s Node<F, EX>, i: usize) -> u64 { each2!(self, src, c, s => c.data_unchecked(s, i)) }
}
impl<'a> UnaryFunction<(&'a Val, &'a Val)> for MkFn {
    type Output = Val;
    fn exec(&self, v: (&'a Val, &'a Val)) -> Val { let (a, b) = (v.0.look(), v.1.look()); self.mk(f_pair(0, a, b)) }
}
impl<'a> UnaryFunction<(Option<&'a Val>, Option<&'a Val>)> for MkFn {
    type Output = Val;
    fn exec(&self, v: (Option<&'a Val>, Option<&'a Val>)) -> Val {
        let (a, b) = (v.0.map(|x| x.look()), v.1.map(|x| x.look()));
        self.mk(f_opt(0, a, b))
    }
}
