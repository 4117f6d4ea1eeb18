//! Tree families and construction of views (expression trees) over them.
use std::rc::Rc;
use std::collections::BTreeMap;
use hibit_tree::*;
use hibit_tree::const_utils::*;
use hibit_tree::ops;
use crate::cont::*;
use crate::env::*;
use crate::node::*;
use crate::res::*;
use crate::val::*;
use crate::view::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// node over a container
    Leaf,
    /// node operations
    M, I, U, MI, MU,
    /// the container itself
    Cont,
    /// operation directly over two containers
    Di, Du,
    /// intersection / union of two nodes, without mapping
    Dni, Dnu,
    /// multi operations over nodes / containers, without folding
    Dmi, Dmu, Cmi, Cmu,
    /// multi_union of multi_intersections and vice versa
    Mumi, Mimu,
    /// binary operations over binary operations, held by value: (a & b) & c, (a | b) & c, (a & b) | c, (a | b) | c
    Aa, Oa, Ao, Oo,
}
pub const OPS: &[(Op, &str)] = &[
    (Op::Leaf, "leaf"), (Op::M, "map"), (Op::I, "and"), (Op::U, "or"), (Op::MI, "mand"), (Op::MU, "mor"),
    (Op::Cont, "cont"), (Op::Di, "cand"), (Op::Du, "cor"), (Op::Dni, "and2"), (Op::Dnu, "or2"),
    (Op::Dmi, "mand2"), (Op::Dmu, "mor2"), (Op::Cmi, "cmand"), (Op::Cmu, "cmor"), (Op::Mumi, "mormand"), (Op::Mimu, "mandmor"),
    (Op::Aa, "andand"), (Op::Oa, "orand"), (Op::Ao, "andor"), (Op::Oo, "oror"),
];
impl Op {
    pub fn name(self) -> &'static str { OPS.iter().find(|o| o.0 == self).unwrap().1 }
    pub fn parse(s: &str) -> Option<Op> { OPS.iter().find(|o| o.1 == s).map(|o| o.0) }
    /// arguments are containers (else: nodes)
    pub fn over_trees(self) -> bool { matches!(self, Op::Leaf | Op::Cont | Op::Di | Op::Du | Op::Cmi | Op::Cmu) }
    pub fn is_node(self) -> bool { matches!(self, Op::Leaf | Op::M | Op::I | Op::U | Op::MI | Op::MU) }
    /// two operations in one: (the inner one is an intersection, the outer one is)
    pub fn two(self) -> Option<(bool, bool)> {
        match self { Op::Aa => Some((true, true)), Op::Oa => Some((false, true)), Op::Ao => Some((true, false)), Op::Oo => Some((false, false)), _ => None }
    }
    pub fn is_multi(self) -> bool { matches!(self, Op::MI | Op::MU | Op::Dmi | Op::Dmu | Op::Cmi | Op::Cmu | Op::Mumi | Op::Mimu) }
}

#[derive(Clone, Debug)]
pub struct Spec { pub op: Op, pub ex: bool, pub c: u64, pub id: u64, pub loose: bool, pub args: Vec<usize> }

pub type Model = BTreeMap<usize, u64>;
/// Entries of a view, ascending.
pub struct VModel { pub keys: Vec<usize>, pub vals: Vec<Res> }
impl VModel {
    pub fn get(&self, k: usize) -> Option<&Res> { self.keys.binary_search(&k).ok().map(|i| &self.vals[i]) }
}

pub struct Built { pub view: Box<dyn View>, pub node: Option<(*const u8, bool)> }

/// What a spec may refer to.
pub struct Args<'a> {
    pub trees: Vec<&'a dyn Tree>,
    pub nodes: Vec<(*const u8, bool)>,
}

pub trait FamDyn {
    fn name(&self) -> &'static str;
    fn width(&self) -> usize;
    fn depth(&self) -> usize;
    fn kinds(&self) -> usize;
    fn can_mat(&self) -> bool;
    fn views(&self) -> bool;
    /// kinds >= this one have values other than `Val`
    fn sync_kind(&self, kind: usize) -> bool;
    fn val_kind(&self, kind: usize) -> bool;
    fn mk(&self, kind: usize) -> Result<Box<dyn Tree>, Pan>;
    fn def(&self, s: &Spec, a: &Args) -> Result<Option<Built>, Pan>;
    fn mat(&self, s: &Spec, a: &Args) -> Result<Option<Box<dyn Tree>>, Pan>;
}

fn declared<T: HibitTree>(_: &T) -> bool { T::EXACT_HIERARCHY }
fn node_view<F: Fam, const EX: bool>(n: Node<F, EX>) -> Built {
    // what the tree inside of the node declares
    let x = match &n {
        Node::LA(t) => declared(t), Node::LB(t) => declared(t), Node::M(t) => declared(t), Node::I(t) => declared(t), Node::U(t) => declared(t),
        Node::MI(t, _) => declared(t), Node::MU(t, _) => declared(t),
    };
    let v = RegView::owned_of(n, x);
    let p = v.ptr() as *const u8;
    Built { view: Box::new(v), node: Some((p, EX)) }
}
fn nr<F: Fam, const EX: bool>(p: (*const u8, bool)) -> NR<F, EX> {
    assert_eq!(p.1, EX);
    unsafe { &*(p.0 as *const Node<F, EX>) }
}
fn cr<C: 'static>(t: &dyn Tree) -> &'static C { unsafe { &*(t.raw() as *const C) } }

fn def_node<F: Fam, const EX: bool>(s: &Spec, a: &Args) -> Option<Built> {
    let m = MapFn::new(s.id, s.c);
    let n = match s.op {
        Op::Leaf => {
            let l = LeafFn::new(s.id);
            let t = a.trees[0];
            match t.kind() {
                0 => Node::LA(map(cr::<F::A>(t), l)),
                1 => Node::LB(cr::<F::B>(t).map_ref(l)),
                _ => return None,
            }
        }
        Op::M => Node::M(map(nr::<F, EX>(a.nodes[0]), m)),
        Op::I => Node::I(map(intersection(nr::<F, EX>(a.nodes[0]), nr::<F, EX>(a.nodes[1])), m)),
        Op::U => Node::U(map(union(nr::<F, EX>(a.nodes[0]), nr::<F, EX>(a.nodes[1])), m)),
        Op::MI | Op::MU => {
            let v: Vec<NR<F, EX>> = a.nodes.iter().map(|p| nr(*p)).collect();
            let it = SrcIter::new(&v, s.loose);
            let (i, f) = (InitFn::new(s.id, s.c), FoldFn::new(s.id, s.c));
            if s.op == Op::MI { Node::MI(multi_map_fold(multi_intersection(it), i, f), v) }
            else { Node::MU(multi_union(it).map_fold(i, f), v) }
        }
        _ => unreachable!(),
    };
    Some(node_view(n))
}

fn def_over_containers<F: Fam>(s: &Spec, a: &Args) -> Option<Built> {
    macro_rules! reg { ($t:expr) => { Some(Built { view: Box::new(RegView::owned($t)), node: None }) }; }
    let kinds: Vec<usize> = a.trees.iter().map(|t| t.kind()).collect();
    match s.op {
        Op::Di | Op::Du => {
            let and = s.op == Op::Di;
            let (x, y) = (a.trees[0], a.trees[1]);
            match (kinds[0], kinds[1]) {
                (0, 0) if and => reg!(intersection(cr::<F::A>(x), cr::<F::A>(y))),
                (0, 1) if and => reg!(intersection(cr::<F::A>(x), cr::<F::B>(y))),
                (1, 0) if and => reg!(intersection(cr::<F::B>(x), cr::<F::A>(y))),
                (1, 1) if and => reg!(intersection(cr::<F::B>(x), cr::<F::B>(y))),
                (0, 0) => reg!(union(cr::<F::A>(x), cr::<F::A>(y))),
                (0, 1) => reg!(union(cr::<F::A>(x), cr::<F::B>(y))),
                (1, 0) => reg!(union(cr::<F::B>(x), cr::<F::A>(y))),
                (1, 1) => reg!(union(cr::<F::B>(x), cr::<F::B>(y))),
                _ => None,
            }
        }
        Op::Cmi | Op::Cmu => {
            fn go<T: Cont<T = Val>>(s: &Spec, a: &Args) -> Option<Built>
            where T: for<'t> HibitTreeTypes<'t, Data = &'t Val, DataUnchecked = &'t Val>
            {
                let v: Box<Vec<&'static T>> = Box::new(a.trees.iter().map(|t| cr::<T>(*t)).collect());
                let it = SrcIter::new(&v, s.loose);
                let view: Box<dyn View> = if s.op == Op::Cmi { Box::new(MultiView::<_, Flat>::new(multi_intersection(it), v, !s.loose)) }
                    else { Box::new(MultiView::<_, Flat>::new(multi_union(it), v, false)) };
                Some(Built { view, node: None })
            }
            if kinds.iter().all(|k| *k == 0) { go::<F::A>(s, a) }
            else if kinds.iter().all(|k| *k == 1) { go::<F::B>(s, a) }
            else { None }
        }
        _ => unreachable!(),
    }
}

type Mi<F> = ops::MultiIntersection<Srcs<F, false>>;
type Mu<F> = ops::MultiUnion<Srcs<F, false>>;
fn def_over_nodes<F: Fam>(s: &Spec, a: &Args) -> Option<Built> {
    macro_rules! reg { ($t:expr) => { Some(Built { view: Box::new(RegView::owned($t)), node: None }) }; }
    let n = &a.nodes;
    match s.op {
        Op::Dni => match (n[0].1, n[1].1) {
            (false, false) => reg!(intersection(nr::<F, false>(n[0]), nr::<F, false>(n[1]))),
            (true, true) => reg!(intersection(nr::<F, true>(n[0]), nr::<F, true>(n[1]))),
            _ => None,
        },
        Op::Dnu => match (n[0].1, n[1].1) {
            (false, false) => reg!(union(nr::<F, false>(n[0]), nr::<F, false>(n[1]))),
            (true, true) => reg!(union(nr::<F, true>(n[0]), nr::<F, true>(n[1]))),
            (true, false) => reg!(union(nr::<F, true>(n[0]), nr::<F, false>(n[1]))),
            (false, true) => reg!(union(nr::<F, false>(n[0]), nr::<F, true>(n[1]))),
        },
        Op::Aa | Op::Oa | Op::Ao | Op::Oo => {
            if n.iter().any(|x| x.1) { return None; }
            let (x, y, z) = (nr::<F, false>(n[0]), nr::<F, false>(n[1]), nr::<F, false>(n[2]));
            // `loose` - the inner operation is the second operand
            match (s.op, s.loose) {
                (Op::Aa, false) => reg!(intersection(intersection(x, y), z)),
                (Op::Aa, true) => reg!(intersection(z, intersection(x, y))),
                (Op::Oa, false) => reg!(intersection(union(x, y), z)),
                (Op::Oa, true) => reg!(intersection(z, union(x, y))),
                (Op::Ao, false) => reg!(union(intersection(x, y), z)),
                (Op::Ao, true) => reg!(union(z, intersection(x, y))),
                (Op::Oo, false) => reg!(union(union(x, y), z)),
                _ => reg!(union(z, union(x, y))),
            }
        }
        Op::Dmi | Op::Dmu => {
            fn go<F: Fam, const EX: bool>(s: &Spec, a: &Args) -> Option<Built> {
                let v: Box<Vec<NR<F, EX>>> = Box::new(a.nodes.iter().map(|p| nr(*p)).collect());
                let it = SrcIter::new(&v, s.loose);
                let view: Box<dyn View> = if s.op == Op::Dmi { Box::new(MultiView::<_, Flat>::new(multi_intersection(it), v, !s.loose)) }
                    else { Box::new(MultiView::<_, Flat>::new(multi_union(it), v, false)) };
                Some(Built { view, node: None })
            }
            if n.iter().all(|x| !x.1) { go::<F, false>(s, a) }
            else if n.iter().all(|x| x.1) { go::<F, true>(s, a) }
            else { None }
        }
        Op::Mumi | Op::Mimu => {
            if !n.iter().all(|x| !x.1) { return None; }
            // even positions - first inner tree, odd - second
            let mut lists: Vec<Box<Vec<NR<F, false>>>> = vec![Default::default(), Default::default()];
            for (i, x) in n.iter().enumerate() { lists[i & 1].push(nr(*x)); }
            if s.op == Op::Mumi {
                let inner: Box<Vec<Mi<F>>> = Box::new(lists.iter().map(|l| multi_intersection(SrcIter::new(l, s.loose))).collect());
                let refs: Box<Vec<&'static Mi<F>>> = Box::new(inner.iter().map(|x| unsafe { &*(x as *const _) }).collect());
                let it = SrcIter::new(&refs, s.loose);
                Some(Built { view: Box::new(MultiView::<_, Nested>::new(multi_union(it), Box::new((lists, inner, refs)), false)), node: None })
            } else {
                let inner: Box<Vec<Mu<F>>> = Box::new(lists.iter().map(|l| multi_union(SrcIter::new(l, s.loose))).collect());
                let refs: Box<Vec<&'static Mu<F>>> = Box::new(inner.iter().map(|x| unsafe { &*(x as *const _) }).collect());
                let it = SrcIter::new(&refs, s.loose);
                Some(Built { view: Box::new(MultiView::<_, Nested>::new(multi_intersection(it), Box::new((lists, inner, refs)), !s.loose)), node: None })
            }
        }
        _ => unreachable!(),
    }
}

pub fn def<F: Fam>(s: &Spec, a: &Args) -> Option<Built> {
    match s.op {
        Op::Cont => Some(Built { view: a.trees[0].view(), node: None }),
        op if op.is_node() => {
            if op != Op::Leaf && a.nodes.iter().any(|n| n.1 != s.ex) { return None; }
            if s.ex { def_node::<F, true>(s, a) } else { def_node::<F, false>(s, a) }
        }
        op if op.over_trees() => def_over_containers::<F>(s, a),
        _ => def_over_nodes::<F>(s, a),
    }
}

/// Materializes; the flag of the operation itself (exact or not) decides the algorithm.
pub fn mat<F: Fam>(s: &Spec, a: &Args) -> Result<Option<Box<dyn Tree>>, Pan> {
    if !F::CAN_MAT { return Ok(None); }
    let k = MkFn::new(s.id);
    let n = &a.nodes;
    macro_rules! go { ($e:expr) => { { let e = $e; sut(move || F::materialize(e))? } }; }
    let kinds: Vec<usize> = a.trees.iter().map(|t| t.kind()).collect();
    let r: Option<F::A> = match s.op {
        Op::Leaf | Op::Cont => match kinds[0] {
            0 => go!(map(cr::<F::A>(a.trees[0]), k)),
            1 => go!(map(cr::<F::B>(a.trees[0]), k)),
            _ => return Ok(None),
        },
        Op::M => if n[0].1 { go!(map(nr::<F, true>(n[0]), k)) } else { go!(map(nr::<F, false>(n[0]), k)) },
        Op::I | Op::Dni => match (n[0].1, n[1].1) {
            (false, false) => go!(map(intersection(nr::<F, false>(n[0]), nr::<F, false>(n[1])), k)),
            (true, true) => go!(map(intersection(nr::<F, true>(n[0]), nr::<F, true>(n[1])), k)),
            _ => return Ok(None),
        },
        Op::U | Op::Dnu => match (n[0].1, n[1].1) {
            (false, false) => go!(map(union(nr::<F, false>(n[0]), nr::<F, false>(n[1])), k)),
            (true, true) => go!(map(union(nr::<F, true>(n[0]), nr::<F, true>(n[1])), k)),
            (true, false) => go!(map(union(nr::<F, true>(n[0]), nr::<F, false>(n[1])), k)),
            (false, true) => go!(map(union(nr::<F, false>(n[0]), nr::<F, true>(n[1])), k)),
        },
        Op::Di => match (kinds[0], kinds[1]) {
            (0, 1) => go!(map(intersection(cr::<F::A>(a.trees[0]), cr::<F::B>(a.trees[1])), k)),
            (0, 0) => go!(map(intersection(cr::<F::A>(a.trees[0]), cr::<F::A>(a.trees[1])), k)),
            _ => return Ok(None),
        },
        Op::Du => match (kinds[0], kinds[1]) {
            (0, 1) => go!(map(union(cr::<F::A>(a.trees[0]), cr::<F::B>(a.trees[1])), k)),
            (1, 1) => go!(map(union(cr::<F::B>(a.trees[0]), cr::<F::B>(a.trees[1])), k)),
            _ => return Ok(None),
        },
        Op::Aa | Op::Oa | Op::Ao | Op::Oo => {
            macro_rules! two { ($ex:literal, $op:expr) => { {
                let (x, y, z) = (nr::<F, $ex>(n[0]), nr::<F, $ex>(n[1]), nr::<F, $ex>(n[2]));
                match ($op, s.loose) {
                    (Op::Aa, false) => go!(map(intersection(intersection(x, y), z), k)),
                    (Op::Aa, true) => go!(map(intersection(z, intersection(x, y)), k)),
                    (Op::Oa, false) => go!(map(intersection(union(x, y), z), k)),
                    (Op::Oa, true) => go!(map(intersection(z, union(x, y)), k)),
                    (Op::Ao, false) => go!(map(union(intersection(x, y), z), k)),
                    (Op::Ao, true) => go!(map(union(z, intersection(x, y)), k)),
                    (Op::Oo, false) => go!(map(union(union(x, y), z), k)),
                    _ => go!(map(union(z, union(x, y)), k)),
                }
            } }; }
            if n.iter().all(|x| !x.1) { two!(false, s.op) }
            else if n.iter().all(|x| x.1) { two!(true, s.op) }
            else { return Ok(None) }
        }
        Op::MI | Op::Dmi | Op::MU | Op::Dmu => {
            macro_rules! multi { ($ex:literal) => { {
                let v: Vec<NR<F, $ex>> = n.iter().map(|p| nr(*p)).collect();
                let it = SrcIter::mat(&v, s.loose);
                let (i, f) = (MkInit::new(s.id), MkFold::new(s.id));
                if matches!(s.op, Op::MI | Op::Dmi) { go!(multi_map_fold(multi_intersection(it), i, f)) }
                else { go!(multi_map_fold(multi_union(it), i, f)) }
            } }; }
            if n.iter().all(|x| !x.1) { multi!(false) }
            else if n.iter().all(|x| x.1) { multi!(true) }
            else { return Ok(None) }
        }
        _ => return Ok(None),
    };
    Ok(r.map(|c| TreeBox::<F::A>::wrap(c, 0)))
}

// ------------------------------------------------------------ models
fn word(r: &Res) -> u64 { match r { Res::One(x) => *x, _ => panic!("not a node model") } }

pub fn eval(s: &Spec, trees: &[&Model], nodes: &[Rc<VModel>]) -> VModel {
    let mut out: Vec<(usize, Res)> = vec![];
    let and2 = |f: &dyn Fn(u64, u64) -> Res, a: &dyn Fn(usize) -> Option<u64>, b: &[(usize, u64)]| -> Vec<(usize, Res)> {
        b.iter().filter_map(|(k, y)| a(*k).map(|x| (*k, f(x, *y)))).collect()
    };
    let keys_union = |ks: Vec<Vec<usize>>| -> Vec<usize> {
        let mut v: Vec<usize> = ks.into_iter().flatten().collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    // per source lookups in a uniform form
    enum Src<'a> { T(&'a Model), N(&'a VModel) }
    impl<'a> Src<'a> {
        fn get(&self, k: usize) -> Option<u64> {
            match self { Src::T(m) => m.get(&k).copied(), Src::N(m) => m.get(k).map(word) }
        }
        fn keys(&self) -> Vec<usize> {
            match self { Src::T(m) => m.keys().copied().collect(), Src::N(m) => m.keys.clone() }
        }
    }
    let srcs: Vec<Src> = if s.op.over_trees() { trees.iter().map(|m| Src::T(m)).collect() } else { nodes.iter().map(|m| Src::N(m)).collect() };
    let _ = and2;
    let all_keys = |srcs: &[&Src], and: bool| -> Vec<usize> {
        if srcs.is_empty() { return vec![]; }
        if and {
            srcs[0].keys().into_iter().filter(|k| srcs.iter().all(|s| s.get(*k).is_some())).collect()
        } else {
            keys_union(srcs.iter().map(|s| s.keys()).collect())
        }
    };
    let refs: Vec<&Src> = srcs.iter().collect();
    match s.op {
        Op::Leaf | Op::Cont => for k in srcs[0].keys() { out.push((k, Res::One(srcs[0].get(k).unwrap()))); },
        Op::M => for k in srcs[0].keys() { out.push((k, Res::One(f_map(s.c, srcs[0].get(k).unwrap())))); },
        Op::I | Op::Di | Op::Dni => for k in all_keys(&refs, true) {
            let (x, y) = (srcs[0].get(k).unwrap(), srcs[1].get(k).unwrap());
            out.push((k, if s.op == Op::I { Res::One(f_pair(s.c, x, y)) } else { Res::Pair(Some(x), Some(y)) }));
        },
        Op::U | Op::Du | Op::Dnu => for k in all_keys(&refs, false) {
            let (x, y) = (srcs[0].get(k), srcs[1].get(k));
            out.push((k, if s.op == Op::U { Res::One(f_opt(s.c, x, y)) } else { Res::Pair(x, y) }));
        },
        Op::MI | Op::MU | Op::Dmi | Op::Dmu | Op::Cmi | Op::Cmu => {
            let and = matches!(s.op, Op::MI | Op::Dmi | Op::Cmi);
            for k in all_keys(&refs, and) {
                let v: Vec<u64> = srcs.iter().filter_map(|s| s.get(k)).collect();
                out.push((k, if matches!(s.op, Op::MI | Op::MU) {
                    Res::One(v.iter().fold(f_init(s.c), |a, x| f_fold(s.c, a, *x)))
                } else { Res::Many(v) }));
            }
        }
        Op::Aa | Op::Oa | Op::Ao | Op::Oo => {
            let (inner, outer) = s.op.two().unwrap();
            for k in all_keys(&refs, false) {
                let (x, y, z) = (srcs[0].get(k), srcs[1].get(k), srcs[2].get(k));
                let g = if inner { x.is_some() && y.is_some() } else { x.is_some() || y.is_some() };
                if if outer { !g || z.is_none() } else { !g && z.is_none() } { continue; }
                out.push((k, three(if g { Some((x, y)) } else { None }, z, s.loose)));
            }
        }
        Op::Mumi | Op::Mimu => {
            let l: [Vec<&Src>; 2] = [refs.iter().step_by(2).copied().collect(), refs.iter().skip(1).step_by(2).copied().collect()];
            let inner_and = s.op == Op::Mumi;
            let inner = |l: &Vec<&Src>, k: usize| -> Option<Vec<u64>> {
                if l.is_empty() { return None; }
                let v: Vec<u64> = l.iter().filter_map(|s| s.get(k)).collect();
                if v.is_empty() || (inner_and && v.len() != l.len()) { None } else { Some(v) }
            };
            for k in all_keys(&refs, false) {
                let v: Vec<Vec<u64>> = l.iter().filter_map(|l| inner(l, k)).collect();
                if v.is_empty() || (!inner_and && v.len() != 2) { continue; }
                out.push((k, Res::Nest(v)));
            }
        }
    }
    let (keys, vals) = out.into_iter().unzip();
    VModel { keys, vals }
}

/// Payloads of the container made by `mat`.
pub fn eval_mat(s: &Spec, trees: &[&Model], nodes: &[Rc<VModel>]) -> (Vec<(usize, u32)>, u64, u64) {
    // evaluate without the mapping of the node, as `mat` does
    let (mut s2, mut folds) = (s.clone(), 0);
    s2.op = match s.op { Op::I => Op::Dni, Op::U => Op::Dnu, Op::MI => Op::Dmi, Op::MU => Op::Dmu, o => o };
    if s.op == Op::M {
        let m = &nodes[0];
        let v: Vec<(usize, u32)> = m.keys.iter().zip(&m.vals).map(|(k, r)| (*k, f_mk(word(r)))).collect();
        let n = v.len() as u64;
        return (v, n, 0);
    }
    let m = eval(&s2, trees, nodes);
    let v: Vec<(usize, u32)> = m.keys.iter().zip(&m.vals).map(|(k, r)| (*k, match r {
        Res::One(x) => f_mk(*x),
        Res::Pair(a, b) => if matches!(s2.op, Op::Di | Op::Dni) { f_mk(f_pair(0, a.unwrap(), b.unwrap())) } else { f_mk(f_opt(0, *a, *b)) },
        r @ Res::Two(_) => f_mk(r.hash()),
        Res::Many(v) => { folds += v.len() as u64; v.iter().fold(0u32, |acc, x| f_mkfold(acc, *x)) }
        _ => unreachable!(),
    })).collect();
    let n = v.len() as u64;
    (v, n, folds)
}

// ------------------------------------------------------------ the families
pub type Sp<L> = SparseTree<L, Val>;
pub type Sd<L> = SparseTree<L, Val, ReqDefault<true>>;

#[macro_export]
macro_rules! fam_types {
    ($name:ident, $a:ty, $b:ty, dense $d:literal) => {
        pub struct $name;
        impl Fam for $name {
            type Mask = <$a as HibitTree>::LevelMask;
            type Count = <$a as HibitTree>::LevelCount;
            type A = $a;
            type B = $b;
            const CAN_MAT: bool = true;
            fn materialize<S>(s: S) -> Option<$a>
            where
                S: LazyHibitTree<LevelMask = u64, LevelCount = ConstUsize<$d>>,
                for<'a> S: HibitTreeTypes<'a, Cursor: for<'b> HibitTreeCursorTypes<'b, Data = Val>>,
            { Some(s.materialize::<DenseTree<Val, $d>>()) }
        }
    };
    ($name:ident, $a:ty, $b:ty, sparse) => {
        pub struct $name;
        impl Fam for $name {
            type Mask = <$a as HibitTree>::LevelMask;
            type Count = <$a as HibitTree>::LevelCount;
            type A = $a;
            type B = $b;
            const CAN_MAT: bool = false;
            fn materialize<S>(_: S) -> Option<$a>
            where
                S: LazyHibitTree<LevelMask = Self::Mask, LevelCount = Self::Count>,
                for<'a> S: HibitTreeTypes<'a, Cursor: for<'b> HibitTreeCursorTypes<'b, Data = Val>>,
            { None }
        }
    };
}
#[macro_export]
macro_rules! fam_dyn {
    ($name:ident, $label:literal, $w:literal, $d:literal, views $v:tt, [$($kind:literal => $t:ty),*], val [$($vk:literal),*], sync [$($sk:literal),*]) => {
        impl FamDyn for $name {
            fn name(&self) -> &'static str { $label }
            fn width(&self) -> usize { $w }
            fn depth(&self) -> usize { $d }
            fn kinds(&self) -> usize { let mut n = 0; $( let _ = $kind; n += 1; )* n }
            fn can_mat(&self) -> bool { $crate::fam_dyn!(@canmat $name $v) }
            fn views(&self) -> bool { $crate::fam_dyn!(@hasv $v) }
            fn sync_kind(&self, kind: usize) -> bool { [$($sk as usize),*].contains(&kind) }
            fn val_kind(&self, kind: usize) -> bool { [$($vk as usize),*].contains(&kind) }
            fn mk(&self, kind: usize) -> Result<Box<dyn Tree>, Pan> {
                match kind { $( $kind => TreeBox::<$t>::create(kind), )* _ => unreachable!() }
            }
            fn def(&self, s: &Spec, a: &Args) -> Result<Option<Built>, Pan> { $crate::fam_dyn!(@def $name $v s a) }
            fn mat(&self, s: &Spec, a: &Args) -> Result<Option<Box<dyn Tree>>, Pan> { $crate::fam_dyn!(@mat $name $v s a) }
        }
    };
    (@canmat $name:ident yes) => { <$name as Fam>::CAN_MAT };
    (@canmat $name:ident no) => { false };
    (@hasv yes) => { true };
    (@hasv no) => { false };
    (@def $name:ident yes $s:ident $a:ident) => { { let r = $s; Ok(def::<$name>(r, $a)) } };
    (@def $name:ident no $s:ident $a:ident) => {
        Ok(match $s.op { Op::Cont => Some(Built { view: $a.trees[0].view(), node: None }), _ => None })
    };
    (@mat $name:ident yes $s:ident $a:ident) => { mat::<$name>($s, $a) };
    (@mat $name:ident no $s:ident $a:ident) => { { let _ = ($s, $a); Ok(None) } };
}

pub use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
#[macro_export]
macro_rules! fam64 {
    ($name:ident, $label:literal, $d:literal, $l:ty) => {
        $crate::fam_types!($name, DenseTree<Val, $d>, Sp<$l>, dense $d);
        $crate::fam_dyn!($name, $label, 64, $d, views yes,
            [0 => DenseTree<Val, $d>, 1 => Sp<$l>, 2 => Sd<$l>], val [0, 1, 2], sync [1, 2]);
    };
    ($name:ident, $label:literal, $d:literal, $l:ty, more) => {
        $crate::fam_types!($name, DenseTree<Val, $d>, Sp<$l>, dense $d);
        $crate::fam_dyn!($name, $label, 64, $d, views yes,
            [0 => DenseTree<Val, $d>, 1 => Sp<$l>, 2 => Sd<$l>,
             3 => DenseTree<Zst, $d>, 4 => SparseTree<$l, Zst>, 5 => SparseTree<$l, Zst, ReqDefault<true>>,
             6 => DenseTree<Big, $d>, 7 => SparseTree<$l, Big>, 8 => SparseTree<$l, Big, ReqDefault<true>>], val [0, 1, 2], sync [1, 2]);
    };
}
#[macro_export]
macro_rules! famw {
    ($name:ident, $label:literal, $w:literal, $d:literal, $l:ty) => {
        $crate::fam_types!($name, Sp<$l>, Sd<$l>, sparse);
        $crate::fam_dyn!($name, $label, $w, $d, views yes, [0 => Sp<$l>, 1 => Sd<$l>], val [0, 1], sync [0, 1]);
    };
}
#[macro_export]
macro_rules! lite64 {
    ($name:ident, $label:literal, $d:literal, $l:ty) => {
        pub struct $name;
        $crate::fam_dyn!($name, $label, 64, $d, views no, [0 => DenseTree<Val, $d>, 1 => Sp<$l>], val [0, 1], sync [1]);
    };
}
#[macro_export]
macro_rules! lite {
    ($name:ident, $label:literal, $w:literal, $d:literal, $l:ty) => {
        pub struct $name;
        $crate::fam_dyn!($name, $label, $w, $d, views no, [0 => Sp<$l>], val [0], sync [0]);
    };
}
