//! Values stored in containers, and the ledger that follows each of them.
use crate::env::{self, *};

pub trait SimVal: Default + 'static {
    /// created by the harness (not inside the library)
    fn make(payload: u32) -> Self;
    /// serial<<32 | payload ; checks that this is a live value
    fn look(&self) -> u64;
    fn set(&mut self, payload: u32);
    const ZST: bool = false;
}

pub const DEFAULT_PAYLOAD: u32 = 0x00DEF417;
pub const BAD: u64 = 0xBAD0_BAD0_BAD0_BAD0;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum St { Live, Dropped }

pub struct Ledger {
    pub st: Vec<St>,
    pub by_default: Vec<bool>,
    pub live: i64,
    pub zst_made: i64,
    pub zst_live: i64,
    /// callbacks and source iterators handed to the library: all, and those of `materialize`
    pub toks: [i64; 2],
}
pub static mut LEDGER: Ledger = Ledger { st: vec![], by_default: vec![], live: 0, zst_made: 0, zst_live: 0, toks: [0; 2] };
pub fn ledger() -> &'static mut Ledger { unsafe { &mut *std::ptr::addr_of_mut!(LEDGER) } }

impl Ledger {
    pub fn reset(&mut self) {
        self.st.clear();
        self.by_default.clear();
        self.live = 0;
        self.zst_made = 0;
        self.zst_live = 0;
        self.toks = [0; 2];
    }
    fn create(&mut self, by_default: bool) -> u32 {
        host(|| {
            self.st.push(St::Live);
            self.by_default.push(by_default);
            self.live += 1;
            (self.st.len() - 1) as u32
        })
    }
    pub fn mark(&self) -> u32 { self.st.len() as u32 }
    pub fn is_live(&self, serial: u32) -> bool {
        (serial as usize) < self.st.len() && self.st[serial as usize] == St::Live
    }
    fn drop_one(&mut self, serial: u32, what: &str) {
        match self.st.get(serial as usize) {
            None => violate(Class::Ledger, || format!("drop of a {what} that was never created (serial {serial})")),
            Some(St::Dropped) => violate(Class::Ledger, || format!("{what} #{serial} dropped twice")),
            Some(St::Live) => {
                self.st[serial as usize] = St::Dropped;
                self.live -= 1;
            }
        }
    }
}

fn look_impl(magic: u32, want: u32, serial: u32, payload: u32) -> u64 {
    if magic != want || !ledger().is_live(serial) {
        violate(Class::Value, || {
            if magic != want {
                format!("bytes read as a value are not one (magic {magic:#x}, serial {serial:#x}, payload {payload:#x})")
            } else {
                format!("value #{serial} was read after it was dropped")
            }
        });
        return BAD;
    }
    (serial as u64) << 32 | payload as u64
}

const MAGIC: u32 = 0x5A1E_0001;
/// The ordinary value.
#[repr(C)]
pub struct Val { magic: u32, serial: u32, payload: u32 }
impl Val {
    pub fn make_in_sut(payload: u32) -> Self {
        Val { magic: MAGIC, serial: ledger().create(false), payload }
    }
}
impl Default for Val {
    fn default() -> Self {
        env::event(EV_DEFAULT, 0);
        Val { magic: MAGIC, serial: ledger().create(true), payload: DEFAULT_PAYLOAD }
    }
}
impl SimVal for Val {
    fn make(payload: u32) -> Self { Self::make_in_sut(payload) }
    fn look(&self) -> u64 { look_impl(self.magic, MAGIC, self.serial, self.payload) }
    fn set(&mut self, payload: u32) { self.payload = payload; }
}
impl Drop for Val {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            let (m, s) = (self.magic, self.serial);
            violate(Class::Ledger, || format!("drop of bytes that were never a value (magic {m:#x}, serial {s:#x})"));
            return;
        }
        ledger().drop_one(self.serial, "value");
        env::event(EV_DROP, 0);
    }
}

const MAGIC_B: u64 = 0x5A1E_B16B_16B1_6000;
/// Big, over-aligned value.
#[repr(C, align(64))]
pub struct Big { magic: u64, serial: u32, payload: u32, body: [u64; 14] }
impl Big {
    fn new(payload: u32, d: bool) -> Self {
        let serial = ledger().create(d);
        Big { magic: MAGIC_B, serial, payload, body: [serial as u64 ^ 0x77; 14] }
    }
    fn check(&self) -> bool {
        self.magic == MAGIC_B && self.body.iter().all(|x| *x == self.serial as u64 ^ 0x77)
            && (self as *const _ as usize) % 64 == 0
    }
}
impl Default for Big {
    fn default() -> Self { env::event(EV_DEFAULT, 0); Big::new(DEFAULT_PAYLOAD, true) }
}
impl SimVal for Big {
    fn make(payload: u32) -> Self { Big::new(payload, false) }
    fn look(&self) -> u64 {
        look_impl(if self.check() { 1 } else { 0 }, 1, self.serial, self.payload)
    }
    fn set(&mut self, payload: u32) { self.payload = payload; }
}
impl Drop for Big {
    fn drop(&mut self) {
        if !self.check() {
            violate(Class::Ledger, || "drop of bytes that were never a (big) value, or misaligned".to_string());
            return;
        }
        ledger().drop_one(self.serial, "big value");
        env::event(EV_DROP, 0);
    }
}

/// Zero-sized value: only counted.
pub struct Zst(());
impl Default for Zst {
    fn default() -> Self {
        env::event(EV_DEFAULT, 0);
        ledger().zst_made += 1;
        ledger().zst_live += 1;
        Zst(())
    }
}
impl SimVal for Zst {
    fn make(_: u32) -> Self {
        ledger().zst_made += 1;
        ledger().zst_live += 1;
        Zst(())
    }
    fn look(&self) -> u64 { 0 }
    fn set(&mut self, _: u32) {}
    const ZST: bool = true;
}
impl Drop for Zst {
    fn drop(&mut self) {
        let l = ledger();
        l.zst_live -= 1;
        if l.zst_live < 0 {
            violate(Class::Ledger, || "a zero-sized value was dropped that was never created".to_string());
        }
        env::event(EV_DROP, 0);
    }
}

const MAGIC_T: u64 = 0x5A1E_70CE_0CA1_1BAC;
/// What every callback and source iterator handed to the library owns: it has to be there whenever the
/// callback is called, and to be dropped once.
pub struct Tok { magic: u64, mat: bool }
impl Tok {
    pub fn new(mat: bool) -> Self {
        let t = &mut ledger().toks;
        t[0] += 1;
        t[1] += mat as i64;
        Tok { magic: MAGIC_T, mat }
    }
    #[inline]
    pub fn check(&self) {
        if self.magic != MAGIC_T {
            let m = self.magic;
            violate(Class::Func, || format!("a function or source iterator that was dropped, or never existed, is used (magic {m:#x})"));
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self { self.check(); Tok::new(self.mat) }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.magic != MAGIC_T {
            let m = self.magic;
            violate(Class::Func, || format!("a function or source iterator was dropped twice, or never existed (magic {m:#x})"));
            return;
        }
        unsafe { std::ptr::write_volatile(&mut self.magic, 0xDEAD_70CE); }
        let t = &mut ledger().toks;
        t[0] -= 1;
        t[1] -= self.mat as i64;
    }
}
