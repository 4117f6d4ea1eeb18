//! A plan is the complete, flat description of one execution: configuration, steps in the order
//! the scheduler chose, and the faults injected into them. One seed produces one plan; the plan is
//! also the replay file. Removing steps from it always leaves a valid plan.
use crate::alloc::Policy;
use crate::env::EV_NAMES;
use crate::fams::Op;

macro_rules! sops {
    ($($v:ident $n:literal),*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        pub enum Sop { $($v),* }
        pub const SOPS: &[(Sop, &str)] = &[$((Sop::$v, $n)),*];
    };
}
sops!(New "new", Ins "ins", Goi "goi", Rem "rem", Gmut "gmut", Gmutu "gmutu", KvSet "kvset", KvSwap "kvswap",
    Swap "swap", Take "take", Move "move", Bulk "bulk", Rand "rand", BulkRem "bulkrem", Clear "clear", Cyc "cyc", Churn "churn",
    Oor "oor", Get "get", Getu "getu", Gdef "gdef", Kv "kv", Iter "iter", Walk "walk", Chk "chk",
    Def "def", Undef "undef", Mat "mat", Oi "oi", St "st", Cl "cl", Oc "oc", Cw "cw", Hold "hold", Hr "hr", Ht "ht", Nest "nest", Par "par",
    QNew "qnew", QFrom "qfrom", QDup "qdup", QNext "qnext", QTrim "qtrim", QDrain "qdrain", BNew "bnew", BSet "bset", BOp "bop", BTrav "btrav");
impl Sop {
    pub fn name(self) -> &'static str { SOPS.iter().find(|s| s.0 == self).unwrap().1 }
    pub fn parse(s: &str) -> Option<Sop> { SOPS.iter().find(|o| o.1 == s).map(|o| o.0) }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub client: u8,
    pub op: Sop,
    pub vop: Option<Op>,
    pub a: Vec<u64>,
    /// the n-th call of this kind (1-based) made by the library during the step panics
    pub fault: Option<(usize, u32)>,
    /// on another thread
    pub hop: bool,
    /// every allocation made by the step is refused, one at a time, in forked copies
    pub oom: bool,
}
impl Step {
    pub fn new(op: Sop, a: &[u64]) -> Step {
        Step { client: 0, op, vop: None, a: a.to_vec(), fault: None, hop: false, oom: false }
    }
    pub fn arg(&self, i: usize) -> u64 { self.a.get(i).copied().unwrap_or(0) }
    pub fn us(&self, i: usize) -> usize { self.arg(i) as usize }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub fam: String,
    pub kinds: Vec<usize>,
    pub pol: Policy,
    /// the same plan is executed under this allocator too, and the observations are compared
    pub pol2: Option<Policy>,
    pub steps: Vec<Step>,
}

fn pol_str(p: &Policy) -> String {
    format!("fill={} realloc={} reuse={} poison={} guard={} gap={} seed={}", p.fill, p.realloc, p.reuse, p.poison as u8, p.guard as u8, p.gap, p.seed)
}
fn pol_parse(s: &str) -> Option<Policy> {
    let mut p = crate::alloc::PLAIN;
    for w in s.split_whitespace() {
        let (k, v) = w.split_once('=')?;
        let v: u64 = v.parse().ok()?;
        match k {
            "fill" => p.fill = v as u8, "realloc" => p.realloc = v as u8, "reuse" => p.reuse = v as u8,
            "poison" => p.poison = v != 0, "guard" => p.guard = v != 0, "gap" => p.gap = v as u8, "seed" => p.seed = v,
            _ => return None,
        }
    }
    Some(p)
}

impl Plan {
    pub fn print(&self) -> String {
        let mut s = String::from("hibit_sim plan 1\n");
        s += &format!("prop {}\nseed {}\nfam {}\n", self.prop, self.seed, self.fam);
        s += &format!("kinds {}\n", self.kinds.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" "));
        s += &format!("alloc {}\n", pol_str(&self.pol));
        if let Some(p) = &self.pol2 { s += &format!("alloc2 {}\n", pol_str(p)); }
        s += "steps\n";
        for st in &self.steps { s += &Self::line(st); s.push('\n'); }
        s
    }
    pub fn line(st: &Step) -> String {
        let mut s = format!("c{} {}", st.client, st.op.name());
        if let Some(v) = st.vop { s += " "; s += v.name(); }
        for x in &st.a { s += &format!(" {x}"); }
        if let Some((k, n)) = st.fault { s += &format!(" !{},{}", EV_NAMES[k], n); }
        if st.hop { s += " @"; }
        if st.oom { s += " ^"; }
        s
    }
    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut lines = text.lines().skip_while(|l| l.starts_with('#'));
        if lines.next() != Some("hibit_sim plan 1") { return Err("not a plan".into()); }
        let mut p = Plan { prop: String::new(), seed: 0, fam: String::new(), kinds: vec![], pol: crate::alloc::PLAIN, pol2: None, steps: vec![] };
        for l in lines.by_ref() {
            if l == "steps" { break; }
            if l.starts_with('#') { continue; }
            let (k, v) = l.split_once(' ').ok_or("bad header")?;
            match k {
                "prop" => p.prop = v.into(),
                "seed" => p.seed = v.parse().map_err(|_| "seed")?,
                "fam" => p.fam = v.into(),
                "kinds" => p.kinds = v.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
                "alloc" => p.pol = pol_parse(v).ok_or("alloc")?,
                "alloc2" => p.pol2 = Some(pol_parse(v).ok_or("alloc2")?),
                _ => return Err(format!("unknown header {k}")),
            }
        }
        for l in lines {
            if l.trim().is_empty() || l.starts_with('#') { continue; }
            let mut w = l.split_whitespace();
            let c = w.next().and_then(|c| c.strip_prefix('c')).and_then(|c| c.parse().ok()).ok_or("client")?;
            let op = w.next().and_then(Sop::parse).ok_or_else(|| format!("op in {l}"))?;
            let mut st = Step::new(op, &[]);
            st.client = c;
            for t in w {
                if let Some(f) = t.strip_prefix('!') {
                    let (k, n) = f.split_once(',').ok_or("fault")?;
                    let k = EV_NAMES.iter().position(|x| *x == k).ok_or("fault kind")?;
                    st.fault = Some((k, n.parse().map_err(|_| "fault n")?));
                } else if t == "@" { st.hop = true }
                else if t == "^" { st.oom = true }
                else if let Ok(x) = t.parse::<u64>() { st.a.push(x) }
                else if let Some(o) = Op::parse(t) { st.vop = Some(o) }
                else { return Err(format!("token {t}")) }
            }
            p.steps.push(st);
        }
        Ok(p)
    }
}
