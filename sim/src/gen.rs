//! Seed -> plan. A plan is what the seeded scheduler decided: which client acts next, what it
//! does, which faults hit it.
use std::collections::BTreeSet;
use crate::alloc::Policy;
use crate::env::*;
use crate::fams::*;
use crate::plan::*;
use crate::rng::{mix2, Rng};

pub const MAXS: usize = 16;
const MAX_COST: usize = 150;

/// A key of any kind that is interesting for a tree of this shape.
pub fn key(r: &mut Rng, bits: u32, depth: usize, end: usize) -> usize {
    let w = 1usize << bits;
    let k = match r.us(8) {
        0 => r.us(3 * w),
        1 | 2 => border(r, bits, depth, end),
        3 => {
            let c = [0, 1, 2, w - 1, w, w + 1, end - 1, end - 2, end - w.min(end), end / 2, end / 2 - 1];
            *r.pick(&c)
        }
        4 => r.next() as usize,
        5 | 6 => digits(r, bits, depth),
        _ => r.us(w * w * 2),
    };
    if k < end { k } else { k % end }
}
fn border(r: &mut Rng, bits: u32, depth: usize, end: usize) -> usize {
    let j = r.us(depth) as u32;
    let unit = 1usize.checked_shl(bits * j).unwrap_or(1);
    let n = r.us(1 << (bits + 1));
    let k = unit.wrapping_mul(n).wrapping_add([0usize, 1, usize::MAX][r.us(3)]);
    if k < end { k } else { k % end }
}
fn digits(r: &mut Rng, bits: u32, depth: usize) -> usize {
    let w = 1usize << bits;
    let set = [0, 1, w / 2 - 1, w / 2, w - 2, w - 1, 63, 62];
    let mut k = 0usize;
    for _ in 0..depth { k = (k << bits) | (*r.pick(&set) & (w - 1)); }
    k
}

struct Keys { pool: Vec<usize>, mode: usize, base: usize, prefixes: Vec<usize> }

#[derive(Clone, Copy, PartialEq)]
enum RK { It, Cur, Held }
#[derive(Clone)]
struct VInfo { op: Op, node: bool, ex: bool, deps: u32, vdeps: u64, callbacks: bool, size: usize, cost: usize }

struct Client { weights: Vec<u32>, slots: Vec<usize>, readers: Vec<usize> }

struct G<'a> {
    prop: &'a str,
    r: Rng,
    w: usize,
    bits: u32,
    depth: usize,
    end: usize,
    fam: Box<dyn FamDyn>,
    kinds: Vec<usize>,
    alive: Vec<bool>,
    content: Vec<BTreeSet<usize>>,
    views: Vec<Option<VInfo>>,
    /// what is read; iterator, cursor or held data; the reader that lends the data
    readers: Vec<Option<(usize, RK, Option<usize>)>>,
    keys: Keys,
    steps: Vec<Step>,
    id: u64,
    vops: Vec<Op>,
    fault_kinds: Vec<usize>,
    fault_prob: u64, // per mille
    hop: bool,
    /// more entries than a 16-bit number can count
    big: bool,
    exmode: usize,
    client: u8,
    consume_mix: bool,
}

pub const PROPS: &[&str] = &["B01", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
    "L01", "L02", "L03", "L04", "L05", "L06", "L07", "N04", "R01"];

const NAMES: &[&str] = &["ins", "goi", "rem", "gmut", "gmutu", "kvset", "kvswap", "swap", "take", "move", "new", "bulk", "bulkrem", "clear",
    "oor", "get", "getu", "gdef", "kv", "iter", "walk", "chk", "def", "undef", "vget", "vgetu", "viter", "vwalk", "vchk", "mat",
    "oi", "oiv", "st", "cl", "oc", "ocv", "cw", "nest", "par", "hold", "holdv", "hr", "ht"];

fn weights(prop: &str) -> Vec<u32> {
    let base: &[(&str, u32)] = match prop {
        "C01" => &[("ins", 30), ("goi", 16), ("rem", 30), ("gmut", 6), ("gmutu", 4), ("kvset", 3), ("kvswap", 1), ("swap", 2), ("take", 1), ("move", 2), ("new", 1), ("bulk", 3),
            ("bulkrem", 2), ("clear", 2), ("oor", 2), ("get", 14), ("getu", 6), ("kv", 2), ("iter", 1), ("chk", 4), ("oi", 2), ("st", 3), ("cl", 1), ("oc", 1), ("cw", 2)],
        "C02" => &[("ins", 14), ("goi", 4), ("rem", 12), ("bulk", 3), ("bulkrem", 1), ("clear", 1), ("iter", 4), ("def", 6), ("viter", 3), ("oi", 12), ("oiv", 8), ("st", 40), ("cl", 3), ("get", 2), ("new", 1),
            ("oc", 1), ("cw", 2), ("move", 1), ("hr", 3), ("ht", 5)],
        "C03" => &[("ins", 26), ("goi", 12), ("rem", 30), ("kvset", 10), ("kvswap", 8), ("kv", 16), ("get", 8), ("chk", 4), ("iter", 2), ("bulk", 2), ("bulkrem", 2), ("clear", 2), ("swap", 1), ("take", 1), ("gmut", 3), ("new", 1)],
        "C04" => &[("ins", 24), ("goi", 14), ("rem", 24), ("new", 6), ("swap", 3), ("take", 4), ("move", 3), ("clear", 3), ("bulk", 3), ("bulkrem", 2), ("gmut", 2), ("kvset", 2), ("kvswap", 2), ("chk", 2),
            ("oi", 2), ("st", 3), ("cl", 1), ("def", 4), ("mat", 4), ("iter", 1), ("oor", 2), ("gdef", 2), ("vget", 2)],
        "C05" => &[("ins", 30), ("goi", 30), ("rem", 20), ("new", 4), ("take", 2), ("clear", 2), ("bulk", 3), ("get", 6), ("kv", 2), ("iter", 2), ("chk", 3), ("walk", 2), ("swap", 1), ("kvset", 1), ("gmut", 2)],
        "C06" => &[("ins", 26), ("goi", 14), ("rem", 28), ("bulk", 4), ("bulkrem", 3), ("clear", 3), ("new", 3), ("swap", 1), ("take", 2), ("move", 2), ("iter", 2), ("kv", 1), ("chk", 2), ("walk", 2),
            ("def", 5), ("vget", 4), ("viter", 3), ("vwalk", 2), ("mat", 5), ("oi", 2), ("st", 4), ("cl", 1), ("oc", 1), ("cw", 3), ("get", 3), ("gdef", 1), ("holdv", 2), ("hr", 2), ("ht", 4)],
        "C07" => &[("ins", 30), ("goi", 20), ("rem", 16), ("bulk", 2), ("new", 3), ("take", 2), ("mat", 8), ("def", 6), ("iter", 2), ("viter", 3), ("vget", 2), ("clear", 2), ("oi", 1), ("oc", 1), ("chk", 1)],
        "C08" => &[("ins", 26), ("goi", 12), ("rem", 24), ("bulk", 6), ("bulkrem", 4), ("clear", 2), ("oor", 14), ("get", 10), ("iter", 2), ("walk", 2), ("chk", 4), ("new", 1), ("def", 2), ("vget", 2), ("kv", 1), ("gdef", 2), ("gmut", 2)],
        "C09" => &[("ins", 1)],
        "C10" => &[("ins", 22), ("goi", 18), ("rem", 30), ("walk", 18), ("oc", 5), ("cw", 14), ("bulk", 3), ("bulkrem", 3), ("clear", 2), ("new", 2), ("mat", 6), ("def", 5), ("chk", 2), ("swap", 1), ("take", 1), ("move", 1)],
        "C11" => &[("ins", 22), ("goi", 14), ("rem", 26), ("gdef", 30), ("gmut", 3), ("kvset", 2), ("kvswap", 2), ("kv", 4), ("iter", 2), ("chk", 4), ("new", 3), ("swap", 2), ("take", 3), ("move", 2), ("clear", 3), ("bulk", 2), ("bulkrem", 1), ("oor", 1)],
        "L01" | "L02" | "L07" => &[("ins", 6), ("rem", 6), ("bulk", 1), ("clear", 1), ("def", 16), ("undef", 1), ("vget", 26), ("vgetu", 10), ("viter", 12), ("vwalk", 3), ("vchk", 8), ("oiv", 8), ("st", 20), ("cl", 2), ("ocv", 3), ("cw", 8), ("nest", 6), ("new", 1), ("chk", 1), ("holdv", 8), ("hr", 6), ("ht", 18)],
        "L03" => &[("ins", 5), ("rem", 5), ("def", 16), ("vget", 30), ("vgetu", 8), ("viter", 10), ("vchk", 5), ("oiv", 8), ("st", 20), ("cl", 1), ("ocv", 6), ("cw", 16), ("nest", 4), ("chk", 1), ("bulk", 1), ("mat", 4), ("holdv", 5), ("hr", 4), ("ht", 12)],
        "L04" => &[("ins", 8), ("rem", 8), ("bulk", 1), ("clear", 1), ("def", 14), ("walk", 8), ("vwalk", 16), ("oc", 8), ("ocv", 14), ("cw", 50), ("cl", 2), ("get", 3), ("vget", 3), ("nest", 4), ("new", 1), ("hr", 4), ("ht", 8)],
        "L05" => &[("ins", 20), ("goi", 8), ("rem", 24), ("def", 14), ("mat", 20), ("chk", 5), ("iter", 3), ("kv", 2), ("walk", 4), ("clear", 3), ("bulk", 3), ("bulkrem", 3), ("vget", 2), ("viter", 2), ("new", 1), ("move", 1), ("take", 1)],
        "L06" => &[("ins", 10), ("rem", 6), ("bulk", 3), ("def", 16), ("mat", 40), ("vget", 6), ("viter", 4), ("vchk", 2), ("chk", 4), ("nest", 3), ("new", 1), ("clear", 1)],
        "N04" => &[("ins", 14), ("goi", 10), ("rem", 20), ("gmut", 4), ("gmutu", 3), ("get", 12), ("getu", 6), ("gdef", 6), ("iter", 4), ("bulk", 2), ("bulkrem", 2), ("clear", 1), ("new", 1), ("swap", 1), ("take", 1),
            ("def", 12), ("vget", 16), ("vgetu", 5), ("viter", 10), ("mat", 4), ("oc", 2), ("ocv", 4), ("cw", 12)],
        "R01" => &[("ins", 5), ("rem", 5), ("def", 10), ("get", 8), ("iter", 4), ("walk", 3), ("vget", 12), ("viter", 8), ("vwalk", 4), ("vchk", 3), ("oi", 6), ("oiv", 6), ("st", 24), ("oc", 4), ("ocv", 4), ("cw", 16), ("cl", 2),
            ("nest", 18), ("par", 10), ("chk", 3), ("kv", 2), ("gdef", 2), ("getu", 2), ("mat", 2), ("hold", 3), ("holdv", 8), ("hr", 8), ("ht", 22)],
        _ => panic!("unknown property {prop}"),
    };
    NAMES.iter().map(|n| base.iter().find(|b| b.0 == *n).map_or(0, |b| b.1)).collect()
}

fn pick_fam(r: &mut Rng, prop: &str) -> &'static str {
    const VIEWS: &[(&str, u32)] = &[("64x1", 3), ("64x2", 7), ("64x3", 9), ("64x4", 4), ("64x8", 2), ("128x1", 2), ("128x2", 4), ("256x1", 2), ("256x2", 4), ("256x3", 3), ("256x4", 2)];
    const LITE: &[(&str, u32)] = &[("64x5", 2), ("64x6", 1), ("64x7", 1), ("64x9", 2), ("128x3", 1), ("128x4", 1), ("128x5", 1), ("128x6", 1), ("128x7", 1), ("128x8", 1), ("256x8", 1), ("256x5", 1), ("256x6", 1), ("256x7", 1)];
    const DENSE: &[(&str, u32)] = &[("64x1", 3), ("64x2", 5), ("64x3", 6), ("64x4", 3), ("64x8", 1)];
    let mut t = |l: &'static [(&'static str, u32)]| { let w: Vec<u32> = l.iter().map(|x| x.1).collect(); l[r.weighted(&w)].0 };
    match prop {
        "L05" | "L06" | "C07" => t(DENSE),
        "C01" | "C02" | "C03" | "C08" | "C09" | "C10" | "C06" | "C04" | "C05" => {
            let lite = { let mut r2 = r.clone(); let x = r2.chance(if prop == "C08" { 2 } else { 1 }, 5); *r = r2; x };
            let w: &'static [(&'static str, u32)] = if lite { LITE } else { VIEWS };
            let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
            w[r.weighted(&ws)].0
        }
        _ => t(VIEWS),
    }
}

fn policy(r: &mut Rng, guard: u64) -> Policy {
    let fill = r.us(5) as u8;
    Policy {
        fill,
        realloc: r.us(3) as u8,
        reuse: if fill == 4 { 1 + r.us(2) as u8 } else { r.us(3) as u8 },
        poison: fill != 4 && r.chance(3, 4),
        guard: r.chance(guard, 100),
        gap: r.us(4) as u8,
        seed: r.next() >> 1,
    }
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| mix2(a, b as u64));
    let s = mix2(mix2(base, p), i) >> 1;
    // a long run at a fixed rate
    if i % (if prop == "C08" { 100 } else { 4000 }) == 3 { s / GIANT * GIANT + 7 } else { s }
}
const GIANT: u64 = 6007;

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let huge = seed % GIANT == 7 && !matches!(prop, "B01" | "C07");
    let giant = prop == "C08" && huge && r.chance(2, 3);
    let big = huge && !giant;
    let fam_name = if prop == "B01" { "64x1" } else if giant { *r.pick(&["64x4", "128x4", "256x3", "256x4"]) }
        else { loop { let f = pick_fam(&mut r, prop); if !big || !matches!(f, "64x1" | "64x2" | "128x1" | "128x2" | "256x1" | "256x2") { break f; } } };
    let fam = find(fam_name).unwrap();
    let (w, depth) = (fam.width(), fam.depth());
    let bits = w.trailing_zeros();
    let end = if bits * depth as u32 >= 64 { usize::MAX } else { 1usize << (bits * depth as u32) };
    let view_prop = prop.starts_with('L') || prop == "R01";
    let nk = fam.kinds();
    let nslots = match prop {
        _ if big => 1 + r.us(2),
        "L02" => 3 + r.us(6),
        "N04" => 1 + r.us(3),
        "L07" | "R01" => 2 + r.us(4),
        _ if view_prop => 2 + r.us(3),
        "C09" => 1 + r.us(2),
        _ => 1 + r.us(4),
    };
    let mut kinds: Vec<usize> = (0..nslots).map(|_| {
        match prop {
            "C11" => if w == 64 { if nk > 3 && r.chance(1, 4) { [5, 8][r.us(2)] } else { 2 } } else { 1 },
            "R01" => if w == 64 { [1, 1, 1, 0, 2][r.us(5)] } else { r.us(2) },
            "L05" | "L06" => [0, 0, 1][r.us(3)],
            "C07" => [0, 0, 0, 1, 2][r.us(5)],
            _ if view_prop => r.us(nk.min(2)),
            // containers of ordinary values more often
            _ => if nk > 3 && r.chance(2, 3) { r.us(3) } else { r.us(nk) },
        }
    }).collect();
    if prop == "R01" && r.chance(1, 2) { for k in kinds.iter_mut() { if w == 64 && *k == 0 { *k = 1; } } }
    if giant { kinds = vec![if w == 64 { 1 } else { 0 }]; }
    // slots that results of materialization, take etc. go to
    for _ in 0..(if matches!(prop, "L05" | "L06" | "C04" | "C06" | "C07" | "C10" | "C11" | "R01" | "L03") { 2 } else { 0 }) {
        kinds.push(if prop == "C11" { kinds[0] } else { 0 });
    }
    let long = matches!(prop, "C09" | "N04") || huge;
    let pol = policy(&mut r, if long { 0 } else if prop == "C06" { 15 } else { 3 });
    let pol2 = if prop == "C06" && !big && r.chance(1, 2) { Some(policy(&mut r, 0)) } else { None };
    let pol2 = pol2.map(|mut p| { p.guard = false; p });
    let mut keys = Keys { pool: vec![], mode: r.us(8), base: r.next() as usize % end, prefixes: vec![] };
    keys.prefixes = (0..1 + r.us(4)).map(|_| key(&mut r, bits, depth, end) >> bits).collect();
    let mut g = G {
        prop, w, bits, depth, end, fam, alive: vec![false; kinds.len()], content: vec![BTreeSet::new(); kinds.len()], kinds,
        views: vec![None; 24], readers: vec![None; 12], keys, steps: vec![], id: 100, vops: vec![], fault_kinds: vec![], fault_prob: 0,
        hop: false, big, exmode: r.us(3), client: 0, consume_mix: matches!(prop, "L02" | "R01" | "L04" | "C02"), r,
    };
    let npool = match g.r.us(4) { 0 => 2 + g.r.us(6), 1 => 8 + g.r.us(24), 2 => 30 + g.r.us(90), _ => 6 + g.r.us(40) };
    for _ in 0..npool { let k = g.fresh_key(); g.keys.pool.push(k); }
    g.vops = match prop {
        "L01" => vec![Op::Di, Op::Du, Op::Dni, Op::Dnu, Op::I, Op::U, Op::I, Op::U, Op::Aa, Op::Oa, Op::Ao, Op::Oo],
        "L02" => vec![Op::Dmi, Op::Dmu, Op::Cmi, Op::Cmu, Op::MI, Op::MU, Op::Mumi, Op::Mimu],
        "L03" => vec![Op::M, Op::MI, Op::MU, Op::I, Op::U, Op::Leaf],
        "L07" => vec![Op::M, Op::I, Op::U, Op::MI, Op::MU, Op::I, Op::U, Op::MI, Op::MU, Op::Dni, Op::Dnu, Op::Dmi, Op::Dmu, Op::Mumi, Op::Mimu, Op::Aa, Op::Oa, Op::Ao, Op::Oo],
        "N04" => vec![Op::Leaf, Op::M, Op::I, Op::U, Op::MI, Op::MU, Op::Di, Op::Du, Op::Dni, Op::Dnu, Op::Dmi, Op::Dmu, Op::Cmi, Op::Cmu, Op::Di, Op::Cmi, Op::Aa, Op::Oa, Op::Ao, Op::Oo],
        _ => vec![Op::M, Op::I, Op::U, Op::MI, Op::MU, Op::Di, Op::Du, Op::Dni, Op::Dnu, Op::Dmi, Op::Dmu, Op::Cmi, Op::Cmu, Op::Mumi, Op::Mimu, Op::Leaf, Op::Cont, Op::Aa, Op::Oa, Op::Ao, Op::Oo],
    };
    let (fk, fp): (Vec<usize>, u64) = match prop {
        "B01" => (vec![EV_FOLD], 100),
        "C02" => (vec![EV_MAP, EV_INIT, EV_FOLD], 60),
        "C03" => (vec![EV_DEFAULT, EV_DROP], 15),
        "C04" => (vec![EV_DEFAULT, EV_DROP, EV_DROP, EV_MAP, EV_FOLD, EV_INIT], 120),
        "C05" => (vec![EV_DEFAULT, EV_DROP], 200),
        "C06" => (vec![EV_DEFAULT, EV_DROP, EV_MAP, EV_FOLD, EV_INIT, EV_CLONE, EV_NEXT], if g.r.chance(1, 2) { 0 } else { 60 }),
        "C10" => (vec![EV_DEFAULT, EV_DROP], 60),
        "C11" => (vec![EV_DEFAULT, EV_DROP], 60),
        "C01" => (vec![EV_DROP], 0),
        "L01" => (vec![EV_MAP, EV_FOLD, EV_INIT], 30),
        "L02" => (vec![EV_CLONE, EV_NEXT, EV_MAP, EV_FOLD, EV_INIT], 60),
        "L03" => (vec![EV_MAP, EV_INIT, EV_FOLD, EV_FOLD, EV_MAP, EV_CLONE, EV_NEXT], 180),
        "L04" => (vec![EV_MAP, EV_FOLD], 20),
        "L06" => (vec![EV_MAP, EV_INIT, EV_FOLD, EV_MAP, EV_CLONE, EV_NEXT], 30),
        "L07" => (vec![EV_MAP, EV_FOLD, EV_INIT], 15),
        "R01" => (vec![EV_MAP, EV_FOLD, EV_INIT], 30),
        _ => (vec![], 0),
    };
    g.fault_kinds = fk;
    g.fault_prob = if fp > 0 && g.r.chance(1, 8) { 0 } else { fp };
    g.hop = g.kinds.iter().all(|k| g.fam.sync_kind(*k)) && matches!(prop, "R01" | "C01" | "C04") && g.r.chance(1, 4);
    if prop == "B01" { g.kinds.clear(); g.bits_plan() } else if giant { g.giant() } else if prop == "C09" { g.churn_plan() } else { g.main_plan() }
    let mut steps = g.steps;
    for s in steps.iter_mut() { s.a.iter_mut().for_each(|_| ()); }
    Plan { prop: prop.into(), seed, fam: fam_name.into(), kinds: g.kinds, pol, pol2, steps }
}

impl<'a> G<'a> {
    fn fresh_key(&mut self) -> usize {
        let (bits, depth, end, w) = (self.bits, self.depth, self.end, self.w);
        let r = &mut self.r;
        let k = match self.keys.mode {
            0 => self.keys.base.wrapping_add(r.us(2 * w)),
            1 => border(r, bits, depth, end),
            2 => r.next() as usize,
            3 => { let p = *r.pick(&self.keys.prefixes); p << bits | r.us(w) }
            4 => digits(r, bits, depth),
            5 => r.us(4 * w),
            _ => key(r, bits, depth, end),
        };
        if k < end { k } else { k % end }
    }
    fn key(&mut self) -> usize {
        if self.r.chance(1, 12) { let k = self.fresh_key(); if self.r.chance(1, 2) { self.keys.pool.push(k); } return k; }
        let n = self.keys.pool.len();
        let i = self.r.us(n);
        self.keys.pool[i]
    }
    /// a key the slot probably holds
    fn held(&mut self, s: usize) -> usize {
        let n = self.content[s].len();
        if n == 0 || self.r.chance(1, 6) { return self.key(); }
        let i = self.r.us(n.min(64));
        let skip = if n > 64 { let m = n - 64; self.r.us(m) } else { 0 };
        *self.content[s].iter().nth(skip + i).unwrap()
    }
    fn push(&mut self, op: Sop, a: &[u64]) -> &mut Step {
        let mut s = Step::new(op, a);
        s.client = self.client;
        if self.hop && self.r.chance(1, 6) { s.hop = true; }
        self.steps.push(s);
        self.steps.last_mut().unwrap()
    }
    fn payload(&mut self) -> u64 { 1 + self.r.below(0xFFFF_FFF0) }
    fn maybe_fault(&mut self, prob: u64, size: usize) {
        if self.fault_kinds.is_empty() || !self.r.chance(prob, 1000) { return; }
        let k = *self.r.pick(&self.fault_kinds);
        let n = match self.r.us(4) { 0 | 1 => 1, 2 => 1 + self.r.us(6), _ => 1 + self.r.us(size.max(2)) };
        self.steps.last_mut().unwrap().fault = Some((k, n as u32));
    }
    /// views and readers of a changed slot are gone
    fn dirty(&mut self, s: usize) {
        for v in self.views.iter_mut() { if v.as_ref().map_or(false, |v| v.deps >> s & 1 == 1) { *v = None; } }
        for i in 0..self.readers.len() {
            if let Some((t, ..)) = self.readers[i] {
                let gone = if t < MAXS { t == s } else { self.views[t - MAXS].is_none() };
                if gone { self.readers[i] = None; }
            }
        }
    }
    fn main_plan(&mut self) {
        let n = self.kinds.len();
        let view_prop = self.prop.starts_with('L') || self.prop == "R01";
        for s in 0..n {
            self.push(Sop::New, &[s as u64]);
            self.alive[s] = true;
            let fp = self.fault_prob;
            if !view_prop { self.maybe_fault(fp / 2, 2); }
        }
        if self.prop == "N04" || self.big { self.big_contents(n); }
        // initial contents
        let fill = !self.big && (view_prop || self.r.chance(1, 3));
        if fill {
            for s in 0..n {
                let cnt = match self.r.us(5) { 0 => 0, 1 => self.r.us(4), 2 => self.r.us(80), _ => self.r.us(24) };
                for _ in 0..cnt { self.emit("ins", s, &[], false); }
                if self.r.chance(1, 6) { self.emit("bulk", s, &[], false); }
            }
        }
        let nclients = 1 + self.r.us(4);
        let mut base = weights(self.prop);
        if self.big {
            for (n, x) in NAMES.iter().zip(base.iter_mut()) { if matches!(*n, "par" | "new") { *x = 0; } }
        }
        if self.prop == "N04" && self.fam.views() && self.r.chance(2, 3) {
            // only reads
            for (n, x) in NAMES.iter().zip(base.iter_mut()) { if matches!(*n, "ins" | "goi" | "rem" | "gmut" | "gmutu" | "bulk" | "bulkrem" | "clear" | "new" | "swap" | "take" | "mat") { *x = 0; } }
        }
        let mut clients: Vec<Client> = vec![];
        for _ in 0..nclients {
            // swarm: every client leaves out some of the operations
            let swarm = self.r.chance(2, 3);
            let mut ws: Vec<u32> = base.iter().map(|x| if swarm && self.r.chance(1, 4) { 0 } else { *x * (1 + self.r.below(3) as u32) }).collect();
            if ws.iter().all(|x| *x == 0) { ws = base.clone(); }
            let mut slots: Vec<usize> = (0..n).filter(|_| self.r.chance(2, 3)).collect();
            if slots.is_empty() { slots = vec![self.r.us(n)]; }
            let nr = 1 + self.r.us(3);
            let readers = (0..nr).map(|_| self.r.us(12)).collect();
            clients.push(Client { weights: ws, slots, readers });
        }
        let nsteps = match (self.prop, self.r.us(10)) {
            _ if self.big => 8 + self.r.us(24),
            ("C07", _) => 10 + self.r.us(25),
            ("N04", _) => 20 + self.r.us(60),
            (_, 0) => 5 + self.r.us(20),
            (_, 1) => 250 + self.r.us(350),
            _ => 40 + self.r.us(140),
        };
        let stay = 1 + self.r.below(6);
        // a storm of panics somewhere in some of the runs
        let mut storm_once = !self.fault_kinds.is_empty() && self.fault_prob > 0 && !self.big && self.prop != "C07" && self.r.chance(1, 6);
        let storm = self.steps.len() + self.r.us(nsteps);
        let mut cur = 0;
        let mut guard = 0;
        while self.steps.len() < nsteps + n * 8 && guard < nsteps * 6 {
            guard += 1;
            if self.r.chance(1, stay) { cur = self.r.us(nclients); }
            self.client = cur as u8;
            let c = &clients[cur];
            let op = NAMES[self.r.weighted(&c.weights)];
            let s = *self.r.pick(&c.slots);
            let readers = c.readers.clone();
            if storm_once && self.steps.len() >= storm { storm_once = false; self.storm(s); }
            self.emit(op, s, &readers, true);
        }
        self.client = 9;
        if self.prop == "N04" { return; }
        for s in 0..n {
            let seed = self.r.next() >> 1;
            self.push(Sop::Chk, &[s as u64, 31, seed, 0]);
        }
        for v in 0..24 {
            if self.views[v].is_some() && self.r.chance(1, 2) {
                let seed = self.r.next() >> 1;
                self.push(Sop::Chk, &[(MAXS + v) as u64, 13, seed, 0]);
            }
        }
    }
    /// Many entries, spread in different ways over the nodes.
    fn big_contents(&mut self, n: usize) {
        let (w, end) = (self.w, self.end);
        let max = 1usize << (6 + self.r.us(9));
        let max = if self.big { 1 << 16 } else { max };
        // containers that share their upper levels only, or everything
        let apart = if self.depth > 1 && !self.big && self.r.chance(1, 2) { 1 + self.r.us(self.depth - 1) } else { 0 };
        let common = self.key();
        let mut last: Vec<(Sop, Vec<u64>)> = vec![];
        for s in 0..n {
            if self.big && !last.is_empty() && self.r.chance(1, 2) {
                // the same keys, some of them gone
                for (op, mut a) in last.clone() { a[0] = s as u64; self.push(op, &a); }
                self.content[s] = self.content[s - 1].clone();
                for _ in 0..self.r.us(30) { self.emit("rem", s, &[], false); }
                self.dirty(s);
                continue;
            }
            last.clear();
            let m = if self.r.chance(1, 6) && (!self.big || s > 0) { 1 + self.r.us(20) }
                else if self.big { max - 100 + self.r.us(4000) }
                else { max / 2 + self.r.us(max) };
            let span = if apart == 0 { end } else { 1usize << (self.bits * apart as u32) };
            let from = if apart == 0 { 0 } else {
                let up = if apart + 1 >= self.depth { 0 } else { common & !(span.saturating_mul(w) - 1) };
                up + self.r.us(w) * span
            };
            for _ in 0..1 + self.r.us(2) {
                let m = m.min(span);
                if self.r.chance(2, 5) {
                    let (x, mode) = (self.r.next() >> 1, self.r.below(4));
                    let local = if mode & 2 == 0 { span } else { (w * w).min(span) };
                    last.push((Sop::Rand, vec![s as u64, x, m as u64, mode, from as u64, local as u64]));
                    self.push(Sop::Rand, &last.last().unwrap().1.clone());
                    let mut r = Rng::new(x);
                    for _ in 0..m { let k = from + r.next() as usize % local; if k < end { self.content[s].insert(k); } }
                } else {
                    let unit = 1usize << (self.bits * self.r.us(self.depth) as u32);
                    let stride = match self.r.us(4) { 0 => 1, 1 => unit, 2 => unit.saturating_mul(3), _ => (span / m.max(1)).max(1) };
                    let base = from + self.key() % unit.saturating_mul(w).min(span).max(1);
                    let (ord, seed) = (self.r.below(3), self.payload());
                    last.push((Sop::Bulk, vec![s as u64, base as u64, stride as u64, m as u64, ord, seed]));
                    self.push(Sop::Bulk, &last.last().unwrap().1.clone());
                    for i in 0..m {
                        if let Some(k) = stride.checked_mul(i).and_then(|x| base.checked_add(x)) { if k < end { self.content[s].insert(k); } }
                    }
                }
            }
            self.dirty(s);
        }
    }
    fn slot_target(&mut self, s: usize) -> Option<u64> { if self.alive[s] { Some(s as u64) } else { None } }
    fn view_target(&mut self) -> Option<u64> {
        let v: Vec<usize> = (0..24).filter(|v| self.views[*v].is_some()).collect();
        if v.is_empty() { return None; }
        // the last ones are the deepest
        let i = if self.r.chance(1, 2) { v.len() - 1 - self.r.us(v.len().min(4)) } else { self.r.us(v.len()) };
        Some((MAXS + v[i]) as u64)
    }
    fn consume(&mut self) -> u64 {
        if !self.consume_mix && self.prop != "L07" { return [0, 1, 2][self.r.us(3)]; }
        match self.r.us(9) {
            0 => 1, 1 => 2, 2 => 10 + self.r.below(5), 3 => 30 + self.r.below(4),
            4 => 50 + self.r.below(10), 5 => [61, 62, 63, 65][self.r.us(4)], 6 => 70 + self.r.below(2), _ => 0
        }
    }
    /// How an iteration is driven, times 100.
    fn drive(&mut self) -> u64 { if self.r.chance(1, 3) { 100 * (1 + self.r.below(8)) } else { 0 } }
    fn vkey(&mut self, t: u64) -> u64 {
        if t < MAXS as u64 { return self.held(t as usize) as u64; }
        let deps = self.views[t as usize - MAXS].as_ref().map_or(0, |v| v.deps);
        let ds: Vec<usize> = (0..self.content.len()).filter(|i| deps >> i & 1 == 1).collect();
        if ds.is_empty() || self.r.chance(1, 8) { return self.key() as u64; }
        let s = *self.r.pick(&ds);
        self.held(s) as u64
    }
    fn nargs(&mut self) -> usize {
        match self.r.us(20) { 0 => 0, 1 | 2 => 1, 3..=11 => 2 + self.r.us(3), 12..=16 => 5 + self.r.us(8), 17 | 18 => 13 + self.r.us(19), _ => 32 }
    }
    fn node_views(&self, ex: Option<bool>) -> Vec<usize> {
        (0..24).filter(|i| self.views[*i].as_ref().map_or(false, |v| v.node && ex.map_or(true, |e| v.ex == e))).collect()
    }
    fn free_view(&mut self) -> usize {
        if let Some(i) = (0..24).find(|i| self.views[*i].is_none()) { return i; }
        self.r.us(24)
    }
    fn drop_view(&mut self, v: usize) {
        for j in 0..24 { if self.views[j].as_ref().map_or(false, |x| x.vdeps >> v & 1 == 1) { self.views[j] = None; } }
        for r in self.readers.iter_mut() {
            if let Some((t, ..)) = r { if *t >= MAXS && self.views[*t - MAXS].is_none() { *r = None; } }
        }
    }
    fn gone(&mut self, r: usize) { self.readers[r] = None; self.lent_gone(r); }
    fn lent_gone(&mut self, r: usize) {
        for x in self.readers.iter_mut() { if x.map_or(false, |x| x.2 == Some(r)) { *x = None; } }
    }
    fn leaf(&mut self, ex: bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.kinds.len()).filter(|s| self.alive[*s] && self.kinds[*s] < 2).collect();
        if c.is_empty() { return None; }
        let s = *self.r.pick(&c);
        let v = self.free_view();
        self.drop_view(v);
        self.id += 1;
        let (id, c) = (self.id, self.r.below(1 << 20));
        let st = self.push(Sop::Def, &[v as u64, ex as u64, c, id, 0, s as u64]);
        st.vop = Some(Op::Leaf);
        let size = self.content[s].len();
        self.views[v] = Some(VInfo { op: Op::Leaf, node: true, ex, deps: 1 << s, vdeps: 1 << v, callbacks: true, size, cost: 1 });
        Some(v)
    }
    /// arguments for an operation
    fn args(&mut self, op: Op, ex: Option<bool>) -> Option<Vec<usize>> {
        let n = match op {
            Op::Leaf | Op::M | Op::Cont => 1,
            Op::I | Op::U | Op::Di | Op::Du | Op::Dni | Op::Dnu => 2,
            Op::Aa | Op::Oa | Op::Ao | Op::Oo => 3,
            _ => self.nargs(),
        };
        if op.over_trees() {
            let two = self.r.us(2);
            let c: Vec<usize> = (0..self.kinds.len()).filter(|s| self.alive[*s] && match op {
                Op::Cmi | Op::Cmu => self.kinds[*s] == two,
                Op::Cont => true,
                _ => self.kinds[*s] < 2,
            }).collect();
            if c.is_empty() { return None; }
            Some((0..n).map(|_| *self.r.pick(&c)).collect())
        } else {
            let want = 1 + self.r.us(5);
            let mut c = self.node_views(ex);
            while c.len() < want { match self.leaf(ex.unwrap_or(false)) { Some(v) => { if c.contains(&v) { break; } c.push(v); c.retain(|x| self.views[*x].is_some()); } None => return None } }
            // deep expressions prefer recent nodes
            let recent = self.prop == "L07" && self.r.chance(2, 3);
            Some((0..n).map(|_| if recent && c.len() > 2 && self.r.chance(2, 3) { c[c.len() - 1 - self.r.us(2)] } else { *self.r.pick(&c) }).collect())
        }
    }
    fn def(&mut self) -> bool {
        let mut op = *self.r.pick(&self.vops);
        if !self.fam.views() { op = Op::Cont; }
        let ex = match self.exmode { 0 => false, 1 => true, _ => self.r.chance(1, 2) };
        let ex = ex && !matches!(op, Op::I | Op::MI | Op::Mumi | Op::Mimu) && op.two().is_none();
        let argex = match op { Op::Dni | Op::Dnu if self.r.chance(1, 3) => None, _ => Some(ex) };
        let mut args = match self.args(op, argex) { Some(a) => a, None => return false };
        if !op.over_trees() {
            // an expression is walked as a tree, however much is shared
            let mut left = MAX_COST;
            let costs: Vec<usize> = args.iter().map(|a| self.views[*a].as_ref().map_or(MAX_COST, |v| v.cost)).collect();
            let cheap = (0..args.len()).min_by_key(|i| costs[*i]).map(|i| (args[i], costs[i]));
            for (i, a) in args.iter_mut().enumerate() {
                let (ca, cc) = cheap.unwrap();
                if costs[i] + 32 * cc <= left { left -= costs[i]; } else { *a = ca; left = left.saturating_sub(cc); }
            }
        }
        let v = self.free_view();
        if !op.over_trees() && args.contains(&v) { return false; }
        self.drop_view(v);
        let (mut deps, mut vdeps, mut callbacks, mut size, mut cost) = (0u32, 1u64 << v, op.is_node(), 0, 1);
        for a in &args {
            if op.over_trees() { deps |= 1 << a; size += self.content[*a].len(); }
            else {
                let x = match &self.views[*a] { Some(x) => x.clone(), None => return false };
                deps |= x.deps;
                vdeps |= x.vdeps;
                callbacks |= x.callbacks;
                size += x.size;
                cost += x.cost;
            }
        }
        if cost > 2 * MAX_COST { return false; }
        self.id += 1;
        let (id, c, loose) = (self.id, self.r.below(1 << 20), self.r.chance(1, 3));
        let mut a = vec![v as u64, ex as u64, c, id, loose as u64];
        a.extend(args.iter().map(|x| *x as u64));
        let st = self.push(Sop::Def, &a);
        st.vop = Some(op);
        self.views[v] = Some(VInfo { op, node: op.is_node(), ex, deps, vdeps, callbacks, size, cost });
        true
    }
    fn mat(&mut self) -> bool {
        if !self.fam.can_mat() { return false; }
        let ops = [Op::Leaf, Op::M, Op::I, Op::U, Op::Dni, Op::Dnu, Op::Di, Op::Du, Op::MI, Op::MU, Op::Dmi, Op::Dmu, Op::Aa, Op::Oa, Op::Ao, Op::Oo];
        let op = *self.r.pick(&ops);
        let mixed = matches!(op, Op::U | Op::Dnu) && self.r.chance(1, 2);
        let args = if mixed {
            // one operand with exact bitmaps, one whose bitmaps may promise what is not there
            let x = match self.args(op, Some(true)) { Some(a) => a[0], None => return false };
            let y = match self.args(op, Some(false)) { Some(a) => a[1], None => return false };
            let inexact: Vec<usize> = self.node_views(Some(false)).into_iter()
                .filter(|v| self.views[*v].as_ref().map_or(false, |i| matches!(i.op, Op::I | Op::MI | Op::Mumi | Op::Mimu | Op::Dni))).collect();
            let y = if !inexact.is_empty() && self.r.chance(3, 4) { *self.r.pick(&inexact) } else { y };
            if self.views[x].is_none() || self.views[y].is_none() || x == y { return false; }
            if self.r.chance(1, 2) { vec![x, y] } else { vec![y, x] }
        } else {
            let ex = Some(self.r.chance(1, 2));
            let ex = if matches!(op, Op::M | Op::I | Op::Dni | Op::MI | Op::Dmi | Op::U | Op::Dnu | Op::MU | Op::Dmu | Op::Aa | Op::Oa | Op::Ao | Op::Oo) { ex } else { None };
            match self.args(op, ex) { Some(a) => a, None => return false }
        };
        // destination: preferably one that nothing depends on
        let d: Vec<usize> = (0..self.kinds.len()).filter(|s| self.kinds[*s] == 0).collect();
        if d.is_empty() { return false; }
        let free: Vec<usize> = d.iter().copied().filter(|s| !self.views.iter().flatten().any(|v| v.deps >> s & 1 == 1)).collect();
        let dest = if !free.is_empty() && self.r.chance(5, 6) { *free.last().unwrap() }
            else if self.r.chance(2, 3) { *d.last().unwrap() } else { *self.r.pick(&d) };
        self.id += 1;
        let mut size = 1;
        for a in &args {
            size += if op.over_trees() { self.content[*a].len() } else { self.views[*a].as_ref().map_or(0, |v| v.size) };
        }
        let mut a = vec![dest as u64, self.id, self.r.chance(1, 3) as u64];
        a.extend(args.iter().map(|x| *x as u64));
        // what the result will hold, roughly
        let mut all: BTreeSet<usize> = BTreeSet::new();
        for x in &args {
            let deps = if op.over_trees() { 1u32 << x } else { self.views[*x].as_ref().map_or(0, |v| v.deps) };
            for s in 0..self.content.len() { if deps >> s & 1 == 1 { all.extend(self.content[s].iter()); } }
        }
        self.push(Sop::Mat, &a).vop = Some(op);
        if self.prop == "L06" && self.r.chance(4, 5) {
            let kinds = [EV_MAP, EV_MAP, EV_INIT, EV_FOLD, EV_FOLD, EV_CLONE, EV_NEXT];
            let k = *self.r.pick(&kinds);
            let n = if self.r.chance(1, 3) { 1 + self.r.us(3) } else { 1 + self.r.us(size.min(120) * 2) };
            self.steps.last_mut().unwrap().fault = Some((k, n as u32));
        } else {
            let p = self.fault_prob;
            self.maybe_fault(p * 2, size);
        }
        if self.steps.last().unwrap().fault.is_none() {
            self.content[dest] = all;
            self.dirty(dest);
        }
        true
    }
    /// The same thing interrupted by a panic again and again, and used normally afterwards.
    fn storm(&mut self, s: usize) {
        let many = if self.r.chance(1, 6) { 240 } else { 50 };
        let n = 34 + self.r.us(many);
        let kind = *self.r.pick(&self.fault_kinds);
        let su = s as u64;
        let v: Vec<usize> = (0..24).filter(|v| self.views[*v].as_ref().map_or(false, |v| v.callbacks && v.size > 0)).collect();
        if v.is_empty() || !matches!(kind, EV_MAP | EV_FOLD | EV_INIT | EV_CLONE | EV_NEXT) {
            if !matches!(kind, EV_DEFAULT | EV_DROP) { return; }
            let which = self.r.us(5);
            let k0 = self.held(s);
            for _ in 0..n {
                let k = if self.r.chance(1, 2) { k0 } else { self.held(s) } as u64;
                let p = self.payload();
                match if which == 4 { self.r.us(4) } else { which } {
                    0 => { self.push(Sop::Ins, &[su, k, p]); self.content[s].insert(k as usize); }
                    1 => { self.push(Sop::Goi, &[su, k, p]); self.content[s].insert(k as usize); }
                    2 => { self.push(Sop::Rem, &[su, k]); }
                    _ => { self.push(Sop::Gmut, &[su, k, p]); }
                };
                self.steps.last_mut().unwrap().fault = Some((kind, 1));
            }
            self.dirty(s);
            let x = self.r.next() >> 1;
            self.push(Sop::Chk, &[su, 15, x, 0]);
            return;
        }
        let folds: Vec<usize> = v.iter().copied().filter(|v| matches!(self.views[*v].as_ref().unwrap().op, Op::MI | Op::MU)).collect();
        let v = if kind != EV_MAP && !folds.is_empty() { *self.r.pick(&folds) } else { *self.r.pick(&v) };
        let t = (MAXS + v) as u64;
        // keys that are there in what the view reads
        let deps = self.views[v].as_ref().unwrap().deps;
        let mut cnt: std::collections::BTreeMap<usize, usize> = Default::default();
        for s in 0..self.content.len() { if deps >> s & 1 == 1 { for k in self.content[s].iter().take(200) { *cnt.entry(*k).or_default() += 1; } } }
        if cnt.is_empty() { return; }
        let most = *cnt.values().max().unwrap();
        let keys: Vec<usize> = cnt.iter().filter(|x| *x.1 == most).map(|x| *x.0).collect();
        let k0 = *self.r.pick(&keys) as u64;
        let which = self.r.us(6);
        let mixed = self.r.chance(1, 3);
        for _ in 0..n {
            let k = if mixed { *self.r.pick(&keys) as u64 } else { k0 };
            let c = self.consume();
            let far = if self.r.chance(1, 4) { 3 } else { 1 };
            let at = 1 + self.r.us(far);
            let x = self.r.next() >> 1;
            match which {
                0 | 1 => self.push(Sop::Get, &[t, k, c]),
                2 => self.push(Sop::Getu, &[t, k, c]),
                3 => self.push(Sop::Iter, &[t, c]),
                4 => self.push(Sop::Chk, &[t, 5, x, c]),
                _ => match self.r.us(3) { 0 => self.push(Sop::Get, &[t, k, c]), 1 => self.push(Sop::Getu, &[t, k, c]), _ => self.push(Sop::Iter, &[t, c]) },
            }.fault = Some((kind, at as u32));
        }
        let (x, c) = (self.r.next() >> 1, self.consume());
        self.push(Sop::Get, &[t, k0, c]);
        self.push(Sop::Chk, &[t, 5, x, c]);
    }
    fn emit(&mut self, op: &str, s: usize, readers: &[usize], main: bool) -> bool {
        let n0 = self.steps.len();
        let ok = self.emit_inner(op, s, readers, main);
        if ok && main && self.steps.len() == n0 + 1 && self.steps[n0].fault.is_none() && !matches!(op, "nest" | "par" | "def" | "undef" | "mat" | "oor") {
            let p = self.fault_prob;
            // lookups of single keys are hit often, long steps need a larger count
            let size = self.content.get(s).map_or(1, |c| c.len());
            self.maybe_fault(p, if matches!(op, "new" | "viter" | "vchk" | "vwalk" | "st" | "ht" | "clear" | "bulk") { size + 2 } else { 3 });
        }
        if ok && self.prop == "C07" && main && self.steps.len() > n0 && self.r.chance(2, 3) {
            self.steps.last_mut().unwrap().oom = true;
        }
        ok
    }
    fn emit_inner(&mut self, op: &str, s: usize, readers: &[usize], main: bool) -> bool {
        let su = s as u64;
        match op {
            "ins" => { let k = self.key(); let p = self.payload(); self.push(Sop::Ins, &[su, k as u64, p]); self.content[s].insert(k); self.dirty(s); }
            "goi" => {
                let k = self.key();
                let p = if self.r.chance(1, 3) { 0 } else { self.payload() };
                self.push(Sop::Goi, &[su, k as u64, p]);
                self.content[s].insert(k);
                self.dirty(s);
            }
            "rem" => { let k = self.held(s); self.push(Sop::Rem, &[su, k as u64]); self.content[s].remove(&k); self.dirty(s); }
            "gmut" | "gmutu" => {
                let k = self.held(s);
                let p = if self.r.chance(1, 3) { 0 } else { self.payload() };
                self.push(if op == "gmut" { Sop::Gmut } else { Sop::Gmutu }, &[su, k as u64, p]);
                self.dirty(s);
            }
            "kvset" => { let (i, p) = (self.r.below(1 << 16), self.payload()); self.push(Sop::KvSet, &[su, i, p]); self.dirty(s); }
            "kvswap" => { let (i, j) = (self.r.below(1 << 16), self.r.below(1 << 16)); self.push(Sop::KvSwap, &[su, i, j]); self.dirty(s); }
            "swap" | "take" => {
                let o: Vec<usize> = (0..self.kinds.len()).filter(|x| *x != s && self.kinds[*x] == self.kinds[s]).collect();
                if o.is_empty() { return false; }
                let t = *self.r.pick(&o);
                if op == "swap" {
                    self.push(Sop::Swap, &[su, t as u64]);
                    self.content.swap(s, t);
                } else {
                    self.push(Sop::Take, &[su, t as u64]);
                    self.content[t] = std::mem::take(&mut self.content[s]);
                    self.alive[t] = true;
                }
                self.dirty(s);
                self.dirty(t);
            }
            "move" => { self.push(Sop::Move, &[su]); self.dirty(s); }
            "new" => { self.push(Sop::New, &[su]); self.content[s].clear(); self.dirty(s); }
            "bulk" | "bulkrem" => {
                let (w, end) = (self.w, self.end);
                let heavy = matches!(self.prop, "C08" | "C01" | "C10");
                let (base, stride, n) = match self.r.us(if heavy { 8 } else { 5 }) {
                    0 => (self.key(), 1, 1 + self.r.us(w)),
                    1 => (self.key() & !(w - 1), 1, w),
                    2 => (self.key(), w, 1 + self.r.us(40)),
                    3 => (self.key(), 1 + self.r.us(2 * w), 1 + self.r.us(60)),
                    4 => (end.saturating_sub(1 + self.r.us(40)), 1, 40),
                    5 => (self.key() & !(w - 1), w, w),
                    6 => (self.r.us(w), w, 200 + self.r.us(400)),
                    _ => { let j = self.r.us(self.depth) as u32; let unit = 1usize << (self.bits * j); let top = if j as usize + 1 == self.depth { 0 } else { self.key() & !((unit << self.bits) - 1) }; (top, unit, w) }
                };
                let rem = op == "bulkrem";
                let (ord, seed) = (self.r.below(3), self.payload());
                self.push(if rem { Sop::BulkRem } else { Sop::Bulk }, &[su, base as u64, stride as u64, n as u64, ord, seed]);
                for i in 0..n {
                    if let Some(k) = stride.checked_mul(i).and_then(|x| base.checked_add(x)) {
                        if k < end { if rem { self.content[s].remove(&k); } else { self.content[s].insert(k); } }
                    }
                }
                self.dirty(s);
            }
            "clear" => { let (o, x) = (self.r.below(3), self.r.below(1 << 30)); self.push(Sop::Clear, &[su, o, x]); self.content[s].clear(); self.dirty(s); }
            "oor" => {
                if self.end == usize::MAX && !self.r.chance(1, 4) { return false; }
                let end = self.end;
                let h = self.held(s);
                let k = match self.r.us(6) {
                    0 => end,
                    1 => usize::MAX,
                    2 => end.saturating_add(self.r.us(self.w)),
                    3 => end.saturating_add(h),
                    4 => end.saturating_mul(2).saturating_add(h),
                    _ => h | 1 << 63,
                };
                let t = if self.r.chance(1, 5) { self.view_target().unwrap_or(su) } else { su };
                let which = self.r.below(6);
                if k < end { return false; }
                self.push(Sop::Oor, &[t, k as u64, which]);
                if t == su && !matches!(which, 0 | 5) { self.dirty(s); }
            }
            "get" | "getu" => { let k = self.held(s); self.push(if op == "get" { Sop::Get } else { Sop::Getu }, &[su, k as u64, 0]); }
            "gdef" => { let k = if self.r.chance(1, 2) { self.key() } else { self.held(s) }; self.push(Sop::Gdef, &[su, k as u64]); }
            "kv" => { self.push(Sop::Kv, &[su]); }
            "iter" => { let d = self.drive(); self.push(Sop::Iter, &[su, d]); }
            "walk" => { let x = self.r.next() >> 1; self.push(Sop::Walk, &[su, x]); }
            "chk" => {
                let f = match self.prop { "C03" => 7, "C10" => 15, "C11" => 23, _ => 1 | (self.r.below(16) & 14) };
                let x = self.r.next() >> 1;
                self.push(Sop::Chk, &[su, f, x, 0]);
            }
            "def" => { return self.def(); }
            "undef" => {
                let v = match self.view_target() { Some(v) => v as usize - MAXS, None => return false };
                self.push(Sop::Undef, &[v as u64]);
                self.drop_view(v);
            }
            "vget" | "vgetu" => {
                let t = match self.view_target() { Some(t) => t, None => return false };
                let (k, c) = (self.vkey(t), self.consume());
                self.push(if op == "vget" { Sop::Get } else { Sop::Getu }, &[t, k, c]);
            }
            "viter" => { let t = match self.view_target() { Some(t) => t, None => return false }; let c = self.consume() + self.drive(); self.push(Sop::Iter, &[t, c]); }
            "vwalk" => { let t = match self.view_target() { Some(t) => t, None => return false }; let x = self.r.next() >> 1; self.push(Sop::Walk, &[t, x]); }
            "vchk" => { let t = match self.view_target() { Some(t) => t, None => return false }; let x = self.r.next() >> 1; let f = if self.prop == "L04" { 13 } else { 5 }; let c = self.consume(); self.push(Sop::Chk, &[t, f, x, c]); }
            "mat" => { return self.mat(); }
            "oi" | "oiv" | "oc" | "ocv" => {
                if readers.is_empty() { return false; }
                let t = if op.ends_with('v') { self.view_target() } else { self.slot_target(s) };
                let t = match t { Some(t) => t, None => return false };
                let (r, c) = (*self.r.pick(readers), self.consume());
                let it = op.starts_with("oi");
                self.push(if it { Sop::Oi } else { Sop::Oc }, &[r as u64, t, c]);
                self.gone(r);
                self.readers[r] = Some((t as usize, if it { RK::It } else { RK::Cur }, None));
            }
            "hold" | "holdv" => {
                if readers.is_empty() { return false; }
                let t = if op == "holdv" { self.view_target() } else { self.slot_target(s) };
                let t = match t { Some(t) => t, None => return false };
                let (r, k, u) = (*self.r.pick(readers), self.vkey(t), self.r.below(2));
                self.push(Sop::Hold, &[r as u64, t, k, u]);
                self.gone(r);
                self.readers[r] = Some((t as usize, RK::Held, None));
            }
            "hr" => {
                let c: Vec<usize> = (0..12).filter(|i| self.readers[*i].map_or(false, |x| x.1 != RK::Held)).collect();
                if c.is_empty() || readers.is_empty() { return false; }
                let from = *self.r.pick(&c);
                let r = if self.r.chance(1, 2) { self.r.us(12) } else { *self.r.pick(readers) };
                if r == from { return false; }
                let x = self.r.next() >> 1;
                self.push(Sop::Hr, &[r as u64, from as u64, x]);
                self.gone(r);
                self.lent_gone(from);
                self.readers[r] = self.readers[from].map(|x| (x.0, RK::Held, Some(from)));
            }
            "ht" => {
                let c: Vec<usize> = (0..12).filter(|i| self.readers[*i].map_or(false, |x| x.1 == RK::Held)).collect();
                if c.is_empty() { return false; }
                let (r, n) = (*self.r.pick(&c), if self.r.chance(3, 4) { 1 + self.r.below(3) } else { 40 });
                let how = match self.r.below(8) { 0 => 1 + self.r.below(4), 1 => 5 + self.r.below(4), _ => 0 };
                self.push(Sop::Ht, &[r as u64, n, how]);
                if (1..5).contains(&how) { self.gone(r); }
            }
            "st" | "cw" => {
                let it = op == "st";
                let kind = if it { RK::It } else { RK::Cur };
                let c: Vec<usize> = (0..12).filter(|i| self.readers[*i].map_or(false, |x| x.1 == kind)).collect();
                if c.is_empty() { return false; }
                let r = *self.r.pick(&c);
                self.lent_gone(r);
                if it {
                    let n = 1 + self.r.below(8);
                    let jump = if self.r.chance(1, 4) { [1, 2, 5, 64][self.r.us(4)] } else { 0 };
                    self.push(Sop::St, &[r as u64, n, jump]);
                }
                else { let (n, x) = (1 + self.r.below(16), self.r.next() >> 1); self.push(Sop::Cw, &[r as u64, n, x]); }
            }
            "cl" => {
                let c: Vec<usize> = (0..12).filter(|i| self.readers[*i].is_some()).collect();
                if c.is_empty() { return false; }
                let r = *self.r.pick(&c);
                self.push(Sop::Cl, &[r as u64]);
                self.gone(r);
            }
            "nest" => {
                if !main { return false; }
                // a read of something with callbacks, and what happens inside of one of them
                let v: Vec<usize> = (0..24).filter(|v| self.views[*v].as_ref().map_or(false, |v| v.callbacks && v.size > 0)).collect();
                if v.is_empty() { return self.def(); }
                let t = (MAXS + *self.r.pick(&v)) as u64;
                let m = 1 + self.r.us(3);
                let k = 1 + self.r.below(6);
                let at = self.steps.len();
                self.push(Sop::Nest, &[k, m as u64]);
                let (kk, c, x) = (self.vkey(t), self.consume(), self.r.next() >> 1);
                let open: Vec<usize> = (0..12).filter(|i| self.readers[*i].map_or(false, |x| x.0 >= MAXS)).collect();
                let n6 = if open.iter().any(|i| self.readers[*i].unwrap().1 == RK::Held) { 4 } else { 6 };
                match self.r.us(n6) {
                    0 if !open.is_empty() => {
                        let r = *self.r.pick(&open);
                        match self.readers[r].unwrap().1 {
                            RK::It => { self.lent_gone(r); self.push(Sop::St, &[r as u64, 3]); }
                            RK::Cur => { self.lent_gone(r); self.push(Sop::Cw, &[r as u64, 10, x]); }
                            RK::Held => { self.push(Sop::Ht, &[r as u64, 10]); }
                        }
                    }
                    0 | 1 | 2 => { self.push(Sop::Iter, &[t, c]); }
                    3 => { self.push(Sop::Chk, &[t, 5, x, c]); }
                    4 if self.prop == "L06" || self.prop == "R01" => { if !self.mat() { self.push(Sop::Get, &[t, kk, c]); } }
                    _ => { self.push(Sop::Get, &[t, kk, c]); }
                }
                // `mat` may have defined views first: keep the nest in front of the last step
                let last = self.steps.len() - 1;
                if last != at + 1 { let nst = self.steps.remove(at); self.steps.insert(last - 1, nst); }
                for _ in 0..m {
                    // any reading step, by any client, and sometimes a change of something unrelated
                    let ops = ["get", "getu", "iter", "kv", "vget", "viter", "vwalk", "walk", "st", "cw", "oi", "oiv", "ins", "rem", "hr", "ht", "ht", "holdv"];
                    let o = *self.r.pick(&ops);
                    let s2 = self.r.us(self.kinds.len());
                    let rd = [self.r.us(12)];
                    if !self.emit_inner(o, s2, &rd, false) { self.push(Sop::Get, &[s2 as u64, kk, 0]); }
                }
                for st in self.steps[at..].iter_mut() { st.hop = false; }
            }
            "par" => {
                if !main { return false; }
                let m = 2 + self.r.us(4);
                let x = self.r.next() >> 1;
                let at = self.steps.len();
                self.push(Sop::Par, &[x, m as u64]);
                for _ in 0..m {
                    let ops = ["get", "iter", "walk", "vget", "viter", "viter", "vwalk", "vchk", "chk", "vget"];
                    let o = *self.r.pick(&ops);
                    let s2 = self.r.us(self.kinds.len());
                    if !self.emit_inner(o, s2, &[], false) { self.push(Sop::Iter, &[s2 as u64, 0]); }
                }
                for st in self.steps[at..].iter_mut() { st.hop = false; }
            }
            _ => unreachable!(),
        }
        true
    }
    /// Histories of bit blocks and bit queues.
    fn bits_plan(&mut self) {
        let nclients = 1 + self.r.us(4);
        let n = 20 + self.r.us(140);
        let types: Vec<u64> = (0..1 + self.r.us(4)).map(|_| self.r.below(14)).collect();
        let blocks: Vec<u64> = (0..1 + self.r.us(3)).map(|_| self.r.below(3)).collect();
        let nest = self.r.chance(1, 2);
        let mut q: Vec<bool> = vec![false; 8];
        let mut b: Vec<bool> = vec![false; 5];
        while self.steps.len() < n {
            self.client = self.r.us(nclients) as u8;
            let at = self.steps.len();
            let inside = nest && self.r.chance(1, 10);
            if inside { let k = 1 + self.r.below(5); self.push(Sop::Nest, &[k, 1 + self.steps.len() as u64 % 2]); }
            for _ in 0..if inside { 3 } else { 1 } { self.bits_step(&types, &blocks, &mut q, &mut b, inside && self.steps.len() == at + 1); }
            if !inside && self.r.chance(1, 2) { let p = self.fault_prob; self.maybe_fault(p, 70); }
        }
        for i in 0..8 { self.push(Sop::QDrain, &[i, i % 3, 1000]); self.push(Sop::QNext, &[i, 600]); }
        for i in 0..5 { self.push(Sop::BTrav, &[i, 1000, i]); }
    }
    fn bits_step(&mut self, types: &[u64], blocks: &[u64], q: &mut [bool], b: &mut [bool], calls: bool) {
        let (i, j) = (self.r.us(8), self.r.us(8));
        let (x, y) = (self.r.us(5), self.r.us(5));
        let seed = self.r.next() >> 1;
        let near = match self.r.us(6) { 0 => self.r.below(600), 1 => self.r.below(9) * 64, 2 => self.r.below(9) * 64 + 63, 3 => self.r.below(40), _ => self.r.below(256) };
        let stop = match self.r.us(4) { 0 => self.r.below(4), 1 => 10_000, _ => self.r.below(80) };
        let pick = if calls { 40 + self.r.us(20) } else { self.r.us(100) };
        match pick {
            _ if !q[i] && !calls || pick < 4 => {
                let (t, mode) = (*self.r.pick(types), self.r.below(8));
                q[i] = true;
                self.push(Sop::QNew, &[i as u64, t, mode, seed]);
            }
            _ if !b[x] && !calls || pick < 7 => {
                let (t, mode) = (*self.r.pick(blocks), self.r.below(8));
                b[x] = true;
                self.push(Sop::BNew, &[x as u64, t, mode, seed]);
            }
            7..=24 => { let m = 1 + self.r.below(if seed & 1 == 0 { 4 } else { 70 }); self.push(Sop::QNext, &[i as u64, m]); }
            25..=34 => { self.push(Sop::QTrim, &[i as u64, if seed % 19 == 0 { u64::MAX >> (seed % 3) } else { near }]); }
            35..=39 => { q[i] = true; self.push(Sop::QDup, &[i as u64, j as u64]); }
            40..=54 => { let how = if calls { self.r.below(3) } else { self.r.below(7) }; self.push(Sop::QDrain, &[i as u64, how, stop]); }
            55..=60 => { self.push(Sop::BTrav, &[x as u64, stop, seed]); }
            61..=68 => { q[i] = true; self.push(Sop::QFrom, &[i as u64, x as u64]); }
            69..=86 => { self.push(Sop::BSet, &[x as u64, near, seed & 1, seed]); }
            _ => { let how = self.r.below(6); self.push(Sop::BOp, &[x as u64, y as u64, how, seed]); }
        }
    }
    fn churn_plan(&mut self) {
        let n = self.kinds.len();
        for s in 0..n {
            self.push(Sop::New, &[s as u64]);
            self.alive[s] = true;
        }
        if self.r.chance(1, 2) {
            for s in 0..n { let c = self.r.us(20); for _ in 0..c { self.emit("ins", s, &[], false); } }
        }
        if self.big {
            let (x, mode, k) = (self.r.next() >> 1, self.r.below(32), (1 << (16 + self.r.below(2))) - 100 + self.r.below(4000));
            self.push(Sop::Cyc, &[0, x, k, 10, mode]);
            self.push(Sop::Chk, &[0, 7, x, 0]);
            return;
        }
        for _ in 0..1 + self.r.us(2) {
            let s = self.r.us(n) as u64;
            let x = self.r.next() >> 1;
            if self.r.chance(1, 2) {
                let (k, mode) = (1 + self.r.below(if self.r.clone().chance(1, 4) { 150 } else { 24 }), self.r.below(32));
                self.push(Sop::Cyc, &[s, x, k, 60 + 300 / (1 + k / 12), mode]);
            } else {
                let (pop, ops, mode) = (1 + self.r.below(12), 1500 + self.r.below(5000), self.r.below(3));
                self.push(Sop::Churn, &[s, x, pop, ops, mode]);
            }
            self.push(Sop::Chk, &[s, 7, x, 0]);
        }
    }
    /// More nodes on one level than a 16-bit index can name.
    fn giant(&mut self) {
        let w = self.w as u64;
        self.push(Sop::New, &[0]);
        self.alive[0] = true;
        let (ord, seed) = (self.r.below(3), self.payload());
        let n = 65536 + self.r.below(3000);
        self.push(Sop::Bulk, &[0, self.w as u64 / 3, w, n, ord, seed]);
        let x = self.r.next() >> 1;
        self.push(Sop::Chk, &[0, 7, x, 0]);
        let (from, m) = (self.r.below(60000), 500 + self.r.below(3000));
        self.push(Sop::BulkRem, &[0, w / 3 + from * w, w, m, 2, seed]);
        self.push(Sop::Bulk, &[0, w / 3 + from * w + 1, w, m, 2, seed ^ 1]);
        self.push(Sop::Chk, &[0, 7, x ^ 5, 0]);
    }
}
