//! Simulated allocator. Requests made by library code (IN_SUT) are served from an arena at a
//! fixed address under a per-run policy; everything else goes to the system allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use crate::env::{self, Class, IN_SUT, host};
use crate::rng::mix;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(a: *mut u8, len: usize, advice: i32) -> i32;
}
const PROT_RW: i32 = 3;
const PROT_NONE: i32 = 0;
const MAP_FIXED_ANON: i32 = 0x02 | 0x20 | 0x4000 | 0x10;

pub const BASE: usize = 0x1000_0000_0000;
const SIZE: usize = 1 << 36;
const META: usize = 0x2000_0000_0000;
const MAXB: usize = 1 << 23;
const RZ: usize = 32;
const RZ_BYTE: u8 = 0xFB;
const POISON: u8 = 0xDD;
const PAGE: usize = 4096;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Policy {
    /// 0: zero, 1: 0xFF, 2: 0xA5, 3: pseudo random, 4: stale (reused blocks keep their content)
    pub fill: u8,
    /// 0: realloc always moves, 1: in place whenever it fits, 2: mixed
    pub realloc: u8,
    /// 0: never reuse, 1: LIFO, 2: FIFO (after a delay)
    pub reuse: u8,
    /// freed blocks are overwritten
    pub poison: bool,
    /// each block ends at a protected page, freed blocks are unmapped
    pub guard: bool,
    /// random gap between blocks
    pub gap: u8,
    pub seed: u64,
}
pub const PLAIN: Policy = Policy { fill: 2, realloc: 0, reuse: 0, poison: true, guard: false, gap: 0, seed: 1 };

#[derive(Clone, Copy, PartialEq)]
#[repr(u8)]
enum BS { Live = 1, Freed = 2 }

#[derive(Clone, Copy)]
struct Blk {
    addr: usize,
    start: usize,
    cap: usize,
    size: usize,
    align: u32,
    st: BS,
    class: u8,
    poisoned: bool,
    next: u32,
}

pub struct St {
    cur: usize,
    n: usize,
    pol: Policy,
    heads: [u32; 48],
    tails: [u32; 48],
    counts: [u32; 48],
    rng: u64,
    inited: bool,
    pub live_bytes: usize,
    pub live_blocks: usize,
    pub peak: usize,
    pub allocs: u64,
    pub reallocs: u64,
    pub frees: u64,
    pub moved: u64,
    pub inplace: u64,
    pub reused: u64,
    pub stale: u64,
    /// bytes asked for so far, by allocations and reallocations
    pub requested: u64,
    pub fail_at: u64,
    pub refused: u64,
    guard_used: bool,
}
static mut ST: St = St {
    cur: 0, n: 0, pol: PLAIN, heads: [u32::MAX; 48], tails: [u32::MAX; 48], counts: [0; 48], rng: 0, inited: false,
    live_bytes: 0, live_blocks: 0, peak: 0, allocs: 0, reallocs: 0, frees: 0, moved: 0, inplace: 0, reused: 0, stale: 0, requested: 0,
    fail_at: 0, refused: 0, guard_used: false,
};
#[inline]
pub fn st() -> &'static mut St { unsafe { &mut *std::ptr::addr_of_mut!(ST) } }
#[inline]
fn blk(i: usize) -> &'static mut Blk { unsafe { &mut *(META as *mut Blk).add(i) } }

pub fn init() {
    unsafe {
        let a = mmap(BASE as *mut u8, SIZE, PROT_RW, MAP_FIXED_ANON, -1, 0);
        let b = mmap(META as *mut u8, MAXB * std::mem::size_of::<Blk>(), PROT_RW, MAP_FIXED_ANON, -1, 0);
        if a as usize != BASE || b as usize != META {
            eprintln!("cannot map the arena");
            std::process::exit(2);
        }
    }
    st().inited = true;
}

fn class_of(cap: usize) -> usize { (usize::BITS - (cap.max(16) - 1).leading_zeros()) as usize }
fn up(x: usize, a: usize) -> usize { (x + a - 1) & !(a - 1) }

fn report(class: Class, msg: impl FnOnce() -> String) { env::violate(class, msg) }

unsafe fn fill(p: *mut u8, n: usize, off: usize, pol: &Policy) {
    match pol.fill {
        0 => p.write_bytes(0, n),
        1 => p.write_bytes(0xFF, n),
        3 => {
            let mut i = 0;
            while i < n {
                let v = mix(pol.seed ^ ((off + i) as u64)) ;
                let k = (n - i).min(8);
                std::ptr::copy_nonoverlapping(&v as *const u64 as *const u8, p.add(i), k);
                i += k;
            }
        }
        _ => p.write_bytes(0xA5, n),
    }
}
fn rng() -> u64 {
    let s = st();
    s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15);
    mix(s.rng)
}

unsafe fn redzones(b: &Blk) {
    (b.start as *mut u8).write_bytes(RZ_BYTE, b.addr - b.start);
    let tail = rear_len(b);
    ((b.addr + b.size) as *mut u8).write_bytes(RZ_BYTE, tail);
}
fn rear_len(b: &Blk) -> usize {
    if b.class == 255 { b.cap - b.size } else { (b.cap - b.size + RZ).min(64) }
}
unsafe fn check_redzones(b: &Blk, when: &str) {
    let front = std::slice::from_raw_parts(b.start as *const u8, b.addr - b.start);
    if let Some(i) = front.iter().position(|x| *x != RZ_BYTE) {
        let d = front.len() - i;
        let sz = b.size;
        report(Class::Mem, || format!("memory {d} bytes before a block of {sz} bytes was written (seen at {when})"));
    }
    let rear = std::slice::from_raw_parts((b.addr + b.size) as *const u8, rear_len(b));
    if let Some(i) = rear.iter().position(|x| *x != RZ_BYTE) {
        let sz = b.size;
        report(Class::Mem, || format!("memory {i} bytes after the end of a block of {sz} bytes was written (seen at {when})"));
    }
}
unsafe fn check_poison(b: &Blk) {
    if !b.poisoned { return; }
    let n = b.size.min(1 << 14);
    let s = std::slice::from_raw_parts(b.addr as *const u8, n);
    if let Some(i) = s.iter().position(|x| *x != POISON) {
        let sz = b.size;
        report(Class::Mem, || format!("freed memory was written (offset {i} of a freed block of {sz} bytes)"));
    }
}

unsafe fn sim_alloc(layout: Layout, zero: bool) -> *mut u8 {
    let s = st();
    s.allocs += 1;
    s.requested += layout.size() as u64;
    if s.fail_at != 0 {
        s.fail_at -= 1;
        if s.fail_at == 0 {
            s.refused += 1;
            return std::ptr::null_mut();
        }
    }
    raw_alloc(layout, zero)
}

unsafe fn raw_alloc(layout: Layout, zero: bool) -> *mut u8 {
    let s = st();
    let pol = s.pol;
    let (size, align) = (layout.size(), layout.align());
    let class = class_of(size);
    let mut idx = usize::MAX;
    let mut was_reused = false;
    if !pol.guard && pol.reuse != 0 && class < 48 {
        let min = if pol.reuse == 2 { 4 } else { 0 };
        if s.counts[class] > min {
            let h = s.heads[class];
            let b = blk(h as usize);
            if b.addr % align == 0 {
                check_poison(b);
                s.heads[class] = b.next;
                if b.next == u32::MAX { s.tails[class] = u32::MAX; }
                s.counts[class] -= 1;
                idx = h as usize;
                was_reused = true;
                s.reused += 1;
            }
        }
    }
    if idx == usize::MAX {
        if s.n >= MAXB { fatal("too many blocks"); }
        idx = s.n;
        s.n += 1;
        let b = blk(idx);
        if pol.guard {
            s.guard_used = true;
            let body = up(size.max(1), align.max(1));
            let pages = up(body + 16, PAGE);
            let start = BASE + s.cur;
            if s.cur + pages + PAGE > SIZE { fatal("arena exhausted"); }
            let end = start + pages;
            s.cur += pages + PAGE;
            mprotect(end as *mut u8, PAGE, PROT_NONE);
            let addr = (end - size.max(1)) & !(align - 1);
            *b = Blk { addr, start, cap: end - addr, size, align: align as u32, st: BS::Live, class: 255, poisoned: false, next: u32::MAX };
        } else {
            let gap = if pol.gap != 0 { (rng() % (pol.gap as u64 * 64 + 1)) as usize & !15 } else { 0 };
            let start = BASE + s.cur + gap;
            let addr = up(start + RZ, align.max(16));
            let cap = 1usize << class;
            if addr + cap + RZ > BASE + SIZE { fatal("arena exhausted"); }
            s.cur = up(addr + cap + RZ, 16) - BASE;
            *b = Blk { addr, start: addr - RZ, cap, size, align: align as u32, st: BS::Live, class: class as u8, poisoned: false, next: u32::MAX };
        }
    }
    let b = blk(idx);
    b.size = size;
    b.align = align as u32;
    b.st = BS::Live;
    b.next = u32::MAX;
    b.poisoned = false;
    if zero {
        (b.addr as *mut u8).write_bytes(0, size);
    } else if was_reused && pol.fill == 4 {
        s.stale += 1;
    } else {
        fill(b.addr as *mut u8, size, b.addr - BASE, &pol);
    }
    redzones(b);
    s.live_bytes += size;
    s.live_blocks += 1;
    if s.live_bytes > s.peak { s.peak = s.live_bytes; }
    b.addr as *mut u8
}

fn fatal(m: &str) -> ! {
    host(|| eprintln!("HARNESS: {m}"));
    std::process::exit(4)
}

#[inline]
fn in_arena(p: *mut u8) -> bool { (p as usize).wrapping_sub(BASE) < SIZE }

/// index of the block that has this address
fn find(addr: usize) -> Option<usize> {
    let (mut lo, mut hi) = (0usize, st().n);
    while lo < hi {
        let m = (lo + hi) / 2;
        if blk(m).addr <= addr { lo = m + 1 } else { hi = m }
    }
    if lo == 0 { return None; }
    if blk(lo - 1).addr == addr { Some(lo - 1) } else { None }
}

unsafe fn release(i: usize) {
    let s = st();
    let b = blk(i);
    s.live_bytes -= b.size;
    s.live_blocks -= 1;
    b.st = BS::Freed;
    if b.class == 255 {
        mprotect(b.start as *mut u8, up(b.addr + b.size, PAGE) - b.start, PROT_NONE);
        return;
    }
    if s.pol.poison {
        (b.addr as *mut u8).write_bytes(POISON, b.size);
        b.poisoned = true;
    }
    if s.pol.reuse != 0 {
        let c = b.class as usize;
        if s.pol.reuse == 1 {
            b.next = s.heads[c];
            s.heads[c] = i as u32;
            if s.tails[c] == u32::MAX { s.tails[c] = i as u32; }
        } else {
            b.next = u32::MAX;
            if s.tails[c] == u32::MAX { s.heads[c] = i as u32; } else { blk(s.tails[c] as usize).next = i as u32; }
            s.tails[c] = i as u32;
        }
        s.counts[c] += 1;
    }
}

/// Finds live block, reports misuse.
fn live_block(ptr: *mut u8, layout: Layout, what: &str) -> Option<usize> {
    match find(ptr as usize) {
        None => {
            report(Class::Mem, || format!("{what} of a pointer that was never allocated"));
            None
        }
        Some(i) => {
            let b = blk(i);
            if b.st != BS::Live {
                let sz = b.size;
                report(Class::Mem, || format!("{what} of a block ({sz} bytes) that is already freed"));
                return None;
            }
            if b.size != layout.size() || b.align as usize != layout.align() {
                let (sz, al) = (b.size, b.align);
                report(Class::Mem, || format!("{what} with size {} align {} of a block allocated with size {sz} align {al}", layout.size(), layout.align()));
            }
            Some(i)
        }
    }
}

unsafe fn sim_dealloc(ptr: *mut u8, layout: Layout) {
    st().frees += 1;
    if let Some(i) = live_block(ptr, layout, "free") {
        check_redzones(blk(i), "free");
        release(i);
    }
}

unsafe fn sim_realloc(ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
    let s = st();
    s.reallocs += 1;
    s.requested += new as u64;
    if s.fail_at != 0 {
        s.fail_at -= 1;
        if s.fail_at == 0 {
            s.refused += 1;
            return std::ptr::null_mut();
        }
    }
    let i = match live_block(ptr, layout, "realloc") {
        Some(i) => i,
        None => return raw_alloc(Layout::from_size_align_unchecked(new, layout.align()), false),
    };
    check_redzones(blk(i), "realloc");
    let b = blk(i);
    let inplace = b.class != 255 && new <= b.cap && match s.pol.realloc { 0 => false, 1 => true, _ => rng() & 1 == 0 };
    if inplace {
        s.inplace += 1;
        let old = b.size;
        if new > old {
            fill((b.addr + old) as *mut u8, new - old, b.addr + old - BASE, &s.pol);
            s.live_bytes += new - old;
            if s.live_bytes > s.peak { s.peak = s.live_bytes; }
        } else {
            s.live_bytes -= old - new;
        }
        b.size = new;
        redzones(b);
        return ptr;
    }
    s.moved += 1;
    let old = b.size;
    let align = b.align as usize;
    let p = raw_alloc(Layout::from_size_align_unchecked(new, align), false);
    std::ptr::copy_nonoverlapping(ptr, p, old.min(new));
    release(i);
    p
}

/// All integrity checks over all blocks of this run.
pub fn verify() {
    let s = st();
    for i in 0..s.n {
        let b = blk(i);
        unsafe {
            if b.st == BS::Live { check_redzones(b, "check"); } else if b.class != 255 { check_poison(b); }
        }
        if env::bad() { return; }
    }
}
pub fn leak_report() -> String {
    let s = st();
    let mut v = vec![];
    for i in 0..s.n {
        let b = blk(i);
        if b.st == BS::Live && v.len() < 6 { v.push(format!("block {} of {} bytes", i, b.size)); }
    }
    format!("{} bytes in {} blocks were never returned ({}, ...)", s.live_bytes, s.live_blocks, v.join(", "))
}

pub fn reset(pol: Policy) {
    let s = st();
    unsafe {
        if s.guard_used {
            mmap(BASE as *mut u8, up(s.cur, PAGE) + PAGE, PROT_RW, MAP_FIXED_ANON, -1, 0);
        } else if s.cur > (1 << 20) {
            madvise(BASE as *mut u8, up(s.cur, PAGE), 4);
        }
        if s.n > 1 << 16 {
            madvise(META as *mut u8, up(s.n * std::mem::size_of::<Blk>(), PAGE), 4);
        }
    }
    s.guard_used = false;
    s.cur = 0;
    s.n = 0;
    s.pol = pol;
    s.rng = pol.seed;
    s.heads = [u32::MAX; 48];
    s.tails = [u32::MAX; 48];
    s.counts = [0; 48];
    s.live_bytes = 0;
    s.live_blocks = 0;
    s.peak = 0;
    s.fail_at = 0;
    s.refused = 0;
}

pub struct SimAlloc;
/// (the allocator itself is not interrupted)
#[inline]
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let old = IN_SUT.replace(false);
    let r = f();
    IN_SUT.set(old);
    r
}
unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN_SUT.get() { quiet(|| sim_alloc(l, false)) } else { System.alloc(l) }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if IN_SUT.get() { quiet(|| sim_alloc(l, true)) } else { System.alloc_zeroed(l) }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) { quiet(|| sim_dealloc(p, l)) } else { System.dealloc(p, l) }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p) { quiet(|| sim_realloc(p, l, n)) } else { System.realloc(p, l, n) }
    }
}
