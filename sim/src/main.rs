#![feature(alloc_error_hook, thread_local)]
#![allow(static_mut_refs)]
//! Deterministic simulation of hibit_tree. See /verif/DESIGN.md.
pub use sim_core::{rng, env, alloc, val, res, view, cont, node};
mod fams {
    pub use sim_core::fams::*;
    pub fn all() -> Vec<Box<dyn FamDyn>> {
        let mut v = vec![];
        v.extend(fam_a::all());
        v.extend(fam_b::all());
        v.extend(fam_c::all());
        v.extend(fam_d::all());
        v.extend(fam_e::all());
        v.extend(fam_f::all());
        v.extend(fam_g::all());
        v.extend(fam_h::all());
        v
    }
    pub fn find(name: &str) -> Option<Box<dyn FamDyn>> { all().into_iter().find(|f| f.name() == name) }
}
mod plan;
mod gen;
mod exec;
mod bitsim;

use std::collections::BTreeMap;
use env::*;
use plan::Plan;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

/// Classes of violations that are about the property.
fn accepted(prop: &str) -> &'static [Class] {
    use Class::*;
    match prop {
        "B01" => &[Bits, NoPanic, Panic],
        "C01" => &[Op, Other, Value, Panic],
        "C02" => &[Iter, VIter, Value, Panic],
        "C03" => &[Kv, Op, Other, Iter, Value, Panic],
        "C04" => &[Ledger, Value, NoPanic, Panic],
        "C05" => &[Atomic, Op, Other, Iter, Kv, Mask, Value, NoPanic, Panic],
        "C06" => &[Mem, Leak, Func, Value, Panic],
        "C07" => &[Oom],
        "C08" => &[Range, Op, Other, Iter, Kv, Mask, Value, Panic],
        "C09" => &[Grow, Panic],
        "C10" => &[Mask, Atomic, Panic],
        "C11" => &[Def, Op, Other, Kv, Iter, Value, Ledger, Panic],
        "L01" => &[VGet, VIter, VLen, Src, Data, Hide, Value, Panic],
        "L02" => &[VGet, VIter, VLen, Src, Data, Hide, Value, Panic],
        "L03" => &[Calls, Func, VGet, VIter, Data, NoPanic, Src, Value, Panic],
        "L04" => &[Hide, Mask, Data, VGet, Op, Value, Panic],
        "L05" => &[Mat, Calls, Func, Src, Op, Other, Iter, Kv, Mask, Value, Mem, Ledger, Leak, Panic],
        "L06" => &[Mat, Src, Func, Ledger, Leak, Mem, NoPanic, Value, VGet, VIter, Op, Other, Iter, Kv, Mask, Calls, Panic],
        "L07" => &[VGet, VIter, VLen, Src, Data, Hide, Value, Panic],
        "N04" => &[Work],
        "R01" => &[Op, Other, Iter, Kv, Mask, Hide, Data, Def, VGet, VIter, VLen, Src, Calls, Value, Mem, Ledger, Panic, Mat],
        _ => &[],
    }
}

struct Outcome { violation: Option<Violation>, log: u64, inter: u64, steps: u64, skipped: u64 }

fn accept_mask(prop: &str) -> u64 { accepted(prop).iter().fold(0, |a, c| a | 1 << *c as u32) }

fn run_once(plan: &Plan, pol: alloc::Policy) -> Outcome {
    alloc::reset(pol);
    val::ledger().reset();
    let e = env();
    e.violation = None;
    e.log = 0;
    e.nested = 0;
    e.foreign = 0;
    begin_step(0);
    let ex = match exec::Exec::new(plan.clone()) {
        Some(e) => e,
        None => { eprintln!("HARNESS: unknown family {}", plan.fam); std::process::exit(2) }
    };
    ex.run();
    let e = env();
    let o = Outcome { violation: e.violation.take(), log: e.log, inter: ex.inter.get(), steps: ex.steps_done.get(), skipped: ex.skipped.get() };
    if o.violation.is_some() { std::mem::forget(ex); }
    o
}
fn run_plan(plan: &Plan) -> Outcome {
    let mut o = run_once(plan, plan.pol);
    if let (Some(p2), None) = (plan.pol2, &o.violation) {
        let second = run_once(plan, p2);
        o.steps += second.steps;
        if second.violation.is_some() { o.violation = second.violation; }
        else if second.log != o.log {
            o.violation = Some(Violation { class: Class::Mem, step: plan.steps.len(), msg: "what operations return depends on the memory the allocator supplies (two allocators, two histories)".into() });
        }
        o.log = rng::mix2(o.log, second.log);
    }
    o
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) }
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mode = args.first().cloned().unwrap_or_default();
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut rest = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            opt.insert(k.into(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else { rest.push(args[i].clone()); i += 1; }
    }
    let num = |k: &str, d: u64| opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    alloc::init();
    alloc::reset(alloc::PLAIN);
    env::init();
    std::alloc::set_alloc_error_hook(exec::oom_hook);
    match mode.as_str() {
        "plan" => {
            let prop = &opt["prop"];
            let seed = if opt.contains_key("index") { gen::seed_of(num("base", 1), prop, num("index", 0)) } else { num("seed", 1) };
            print!("{}", gen::plan(prop, seed).print());
        }
        "replay" => {
            let text = std::fs::read_to_string(&rest[0]).unwrap_or_else(|e| { eprintln!("HARNESS: {e}"); std::process::exit(2) });
            let plan = Plan::parse(&text).unwrap_or_else(|e| { eprintln!("HARNESS: {e}"); std::process::exit(2) });
            env().trace = opt.contains_key("trace");
            env().accept = accept_mask(&plan.prop);
            let o = run_plan(&plan);
            println!("log {:016x} interleaving {:016x} steps {}", o.log, o.inter, o.steps);
            if let Some(v) = o.violation {
                let ok = accepted(&plan.prop).contains(&v.class);
                println!("violation class={} accepted={} step={} {}", v.class.name(), ok as u8, v.step, v.msg);
                std::process::exit(if ok { 1 } else { 3 });
            }
        }
        "run" => run(&opt["prop"], num("base", 1), num("from", 0), num("count", 100), num("stride", 1), num("ms", 0), opt.get("status"), opt.contains_key("all")),
        _ => { eprintln!("usage: run|plan|replay"); std::process::exit(2) }
    }
}

extern "C" { fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

fn run(prop: &str, base: u64, from: u64, count: u64, stride: u64, ms: u64, status: Option<&String>, all: bool) {
    // where we are, for whoever finds us dead
    let slot: *mut u64 = match status {
        Some(f) => {
            use std::os::fd::AsRawFd;
            let file = std::fs::OpenOptions::new().read(true).write(true).create(true).open(f).expect("status");
            file.set_len(4096).expect("status");
            let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, file.as_raw_fd(), 0) } as *mut u64;
            std::mem::forget(file);
            p
        }
        None => Box::leak(Box::new([0u64; 8])).as_mut_ptr(),
    };
    unsafe { exec::STATES = Some(Default::default()); }
    let t0 = std::time::Instant::now();
    let (mut runs, mut steps, mut skipped) = (0u64, 0u64, 0u64);
    let mut logs: std::collections::HashSet<u64> = Default::default();
    let mut inters: std::collections::HashSet<u64> = Default::default();
    let mut found = None;
    let mut alloc_tot = [0u64; 8];
    let mut loghash = 0u64;
    env().accept = if all { !0 } else { accept_mask(prop) };
    let mut i = from;
    let mut n = 0;
    while n < count {
        if ms > 0 && t0.elapsed().as_millis() as u64 > ms { break; }
        let seed = gen::seed_of(base, prop, i);
        unsafe { slot.write_volatile(i + 1); slot.add(1).write_volatile(seed); }
        let plan = gen::plan(prop, seed);
        let o = run_plan(&plan);
        runs += 1;
        steps += o.steps;
        skipped += o.skipped;
        loghash = loghash.wrapping_add(rng::mix2(i, o.log));
        if o.steps > 8 {
            if logs.len() < 1 << 20 { logs.insert(o.log); }
            if inters.len() < 1 << 20 { inters.insert(o.inter); }
        }
        let s = alloc::st();
        for (t, v) in alloc_tot.iter_mut().zip([s.allocs, s.reallocs, s.frees, s.moved, s.inplace, s.reused, s.stale, 0]) { *t = v; }
        if let Some(v) = o.violation {
            if env().accept >> v.class as u32 & 1 == 1 {
                found = Some((i, seed, v));
                break;
            }
        }
        i += stride;
        n += 1;
    }
    unsafe { slot.write_volatile(0); }
    let e = env();
    let list = |v: Vec<String>| v.join(",");
    let ev = |t: &[u64; EV_N]| list((0..EV_N).map(|k| format!("\"{}\":{}", EV_NAMES[k], t[k])).collect());
    let mut out = String::from("{");
    out += &format!("\"runs\":{runs},\"next\":{i},\"steps\":{steps},\"skipped\":{skipped},\"ms\":{},\"loghash\":\"{loghash:016x}\"", t0.elapsed().as_millis());
    out += &format!(",\"armed\":{{{}}},\"fired\":{{{}}},\"events\":{{{}}},\"refused\":{}", ev(&e.tot_armed), ev(&e.tot_fired), ev(&e.tot_events), e.tot_refused);
    out += &format!(",\"alloc\":{{\"allocs\":{},\"reallocs\":{},\"frees\":{},\"moved\":{},\"inplace\":{},\"reused\":{},\"stale\":{}}}", alloc_tot[0], alloc_tot[1], alloc_tot[2], alloc_tot[3], alloc_tot[4], alloc_tot[5], alloc_tot[6]);
    let probes = unsafe { &*std::ptr::addr_of!(exec::PROBES) };
    out += &format!(",\"probes\":{{{}}}", list(probes.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect()));
    let works = unsafe { &*std::ptr::addr_of!(exec::WORKS) };
    out += &format!(",\"work\":{{{}}}", list(works.iter().map(|(k, v)| format!("\"{k}\":{{\"operations\":{},\"work\":{},\"max_per_100_nodes\":{}}}", v.2, v.1, v.0)).collect()));
    out += &format!(",\"ignored\":{{{}}}", list(CLASSES.iter().filter(|c| e.tot_foreign[c.0 as usize] > 0).map(|c| format!("\"{}\":{}", c.1, e.tot_foreign[c.0 as usize])).collect()));
    if let Some((i, seed, v)) = &found {
        out += &format!(",\"violation\":{{\"index\":{i},\"seed\":{seed},\"class\":\"{}\",\"step\":{},\"msg\":\"{}\"}}", v.class.name(), v.step, esc(&v.msg));
    }
    if let Some(f) = status {
        // distinct executions, interleavings and container states, as raw words
        let mut b: Vec<u8> = vec![];
        for set in [&logs, &inters, unsafe { (*std::ptr::addr_of!(exec::STATES)).as_ref().unwrap() }] {
            b.extend((set.len() as u64).to_le_bytes());
            for x in set { b.extend(x.to_le_bytes()); }
        }
        let _ = std::fs::write(format!("{f}.sets"), b);
    }
    out += "}";
    println!("{out}");
    std::process::exit(if found.is_some() { 1 } else { 0 });
}
