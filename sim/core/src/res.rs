//! Observed results in a uniform, comparable form.
use crate::val::SimVal;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    One(u64),
    Pair(Option<u64>, Option<u64>),
    Many(Vec<u64>),
    Nest(Vec<Vec<u64>>),
    /// of a binary operation over a binary operation
    Two(Vec<Vec<u64>>),
}
impl Res {
    pub fn hash(&self) -> u64 {
        use crate::rng::mix2;
        match self {
            Res::One(x) => mix2(1, *x),
            Res::Pair(a, b) => mix2(mix2(2, a.map_or(3, |x| mix2(4, x))), b.map_or(5, |x| mix2(6, x))),
            Res::Many(v) => v.iter().fold(7, |a, x| mix2(a, *x)),
            Res::Nest(v) | Res::Two(v) => v.iter().fold(8, |a, x| x.iter().fold(mix2(a, 9), |a, x| mix2(a, *x))),
        }
    }
}
pub fn show(r: &Option<Res>) -> String {
    fn one(x: u64) -> String { format!("#{}:{:x}", x >> 32, x as u32) }
    match r {
        None => "none".into(),
        Some(Res::One(x)) => one(*x),
        Some(Res::Pair(a, b)) => format!("({}, {})", a.map_or("-".into(), one), b.map_or("-".into(), one)),
        Some(Res::Many(v)) => format!("[{}]", v.iter().map(|x| one(*x)).collect::<Vec<_>>().join(", ")),
        Some(Res::Nest(v) | Res::Two(v)) => format!("{v:x?}"),
    }
}

/// Data of a regular tree.
pub trait ToRes { fn to_res(self) -> Res; }
pub trait ToWord { fn word(self) -> u64; }
impl ToWord for u64 { #[inline] fn word(self) -> u64 { self } }
impl<'a, T: SimVal> ToWord for &'a T { #[inline] fn word(self) -> u64 { self.look() } }
impl ToRes for u64 { fn to_res(self) -> Res { Res::One(self) } }
impl<'a, T: SimVal> ToRes for &'a T { fn to_res(self) -> Res { Res::One(self.look()) } }
impl<A: ToWord, B: ToWord> ToRes for (A, B) {
    fn to_res(self) -> Res { Res::Pair(Some(self.0.word()), Some(self.1.word())) }
}
impl<A: ToWord, B: ToWord> ToRes for (Option<A>, Option<B>) {
    fn to_res(self) -> Res { Res::Pair(self.0.map(|x| x.word()), self.1.map(|x| x.word())) }
}
/// Data of a binary operation over a binary operation; `swap` - the inner one is the second operand.
pub fn three(g: Option<(Option<u64>, Option<u64>)>, z: Option<u64>, swap: bool) -> Res {
    let one = |x: Option<u64>| x.into_iter().collect::<Vec<_>>();
    let (x, y) = g.unwrap_or((None, None));
    let mut v = vec![vec![g.is_some() as u64, swap as u64], one(x), one(y)];
    v.insert(if swap { 1 } else { 3 }, one(z));
    Res::Two(v)
}
macro_rules! three_res {
    ([$($p:ident),*] $t:ty, $s:ident => $g:expr, $z:expr, $swap:literal) => {
        impl<$($p: ToWord),*> ToRes for $t { fn to_res(self) -> Res { let $s = self; three($g, $z, $swap) } }
    };
}
three_res!([A, B, C] ((A, B), C), s => Some((Some(s.0.0.word()), Some(s.0.1.word()))), Some(s.1.word()), false);
three_res!([A, B, C] (C, (A, B)), s => Some((Some(s.1.0.word()), Some(s.1.1.word()))), Some(s.0.word()), true);
three_res!([A, B, C] ((Option<A>, Option<B>), C), s => Some((s.0.0.map(|x| x.word()), s.0.1.map(|x| x.word()))), Some(s.1.word()), false);
three_res!([A, B, C] (C, (Option<A>, Option<B>)), s => Some((s.1.0.map(|x| x.word()), s.1.1.map(|x| x.word()))), Some(s.0.word()), true);
three_res!([A, B, C] (Option<(A, B)>, Option<C>), s => s.0.map(|g| (Some(g.0.word()), Some(g.1.word()))), s.1.map(|x| x.word()), false);
three_res!([A, B, C] (Option<C>, Option<(A, B)>), s => s.1.map(|g| (Some(g.0.word()), Some(g.1.word()))), s.0.map(|x| x.word()), true);
three_res!([A, B, C] (Option<(Option<A>, Option<B>)>, Option<C>), s => s.0.map(|g| (g.0.map(|x| x.word()), g.1.map(|x| x.word()))), s.1.map(|x| x.word()), false);
three_res!([A, B, C] (Option<C>, Option<(Option<A>, Option<B>)>), s => s.1.map(|g| (g.0.map(|x| x.word()), g.1.map(|x| x.word()))), s.0.map(|x| x.word()), true);
