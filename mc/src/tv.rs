//! Element values whose every instance is registered, so that double drops, leaks, uses of dropped or
//! uninitialised instances and unexpected clones are noticed.

use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;

const MAGIC: u32 = 0x5eed_ba5e;

#[derive(Default)]
struct Reg {
    alive: Vec<bool>,
    live: usize,
    err: Option<String>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    /// counts down callback-ish events (clone, compare, drop); panics when it reaches zero
    static FUSE: Cell<(u8, u32)> = const { Cell::new((0, 0)) };
    static LEAKS: Cell<bool> = const { Cell::new(false) };
    static CMP_COUNT: Cell<u64> = const { Cell::new(0) };
}

pub const FUSE_CLONE: u8 = 1;
pub const FUSE_CMP: u8 = 2;
pub const FUSE_DROP: u8 = 4;
pub const FUSE_CALL: u8 = 8;

pub struct FusePanic;

/// Arms the fuse: the `n`-th event (from 1) of one of the kinds in `mask` panics. `n == 0` disarms.
pub fn arm(mask: u8, n: u32) {
    FUSE.with(|f| f.set((mask, n)));
}

/// Remaining count (0 means it fired or was never armed)
pub fn fuse_left() -> u32 {
    FUSE.with(|f| f.get().1)
}

/// An event of kind `kind`
pub fn event(kind: u8) {
    FUSE.with(|f| {
        let (m, n) = f.get();
        if (m & kind) != 0 && n != 0 {
            f.set((m, n - 1));
            if n == 1 {
                std::panic::panic_any(FusePanic);
            }
        }
    })
}

/// From here on it is not an error if instances or memory are leaked
pub fn allow_leaks() {
    LEAKS.with(|l| l.set(true));
}
pub fn leaks_allowed() -> bool {
    LEAKS.with(|l| l.get())
}

pub fn reset() {
    arm(0, 0);
    LEAKS.with(|l| l.set(false));
    let _ = REG.try_with(|r| {
        let mut r = r.borrow_mut();
        r.alive.clear();
        if r.alive.capacity() < 16384 {
            r.alive.reserve(16384);
        }
        r.live = 0;
        r.err = None;
    });
}

pub fn live() -> usize {
    REG.with(|r| r.borrow().live)
}

pub fn take_err() -> Option<String> {
    REG.with(|r| r.borrow_mut().err.take())
}

pub fn set_err(e: String) {
    let _ = REG.try_with(|r| {
        if let Ok(mut r) = r.try_borrow_mut() {
            if r.err.is_none() {
                r.err = Some(e);
            }
        }
    });
}

/// Checks that exactly `expect` instances are alive and nothing bad was recorded
pub fn check_live(expect: usize) -> Result<(), String> {
    if let Some(e) = take_err() {
        return Err(e);
    }
    let l = live();
    if l != expect && !(l > expect && leaks_allowed()) {
        return Err(format!(
            "element instances alive: {l}, expected {expect} ({})",
            if l > expect { "leaked or duplicated" } else { "dropped too early" }
        ));
    }
    Ok(())
}

pub fn cmp_count() -> u64 {
    CMP_COUNT.with(|c| c.get())
}
pub fn cmp_reset() {
    CMP_COUNT.with(|c| c.set(0));
}

/// A key comparison happens
pub fn cmp_event() {
    CMP_COUNT.with(|c| c.set(c.get() + 1));
    event(FUSE_CMP);
}

fn new_serial() -> u32 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.alive.push(true);
        r.live += 1;
        (r.alive.len() - 1) as u32
    })
}

/// A tracked value. `N` pads it to different sizes.
#[repr(C)]
pub struct Tv<const N: usize = 0> {
    magic: u32,
    serial: u32,
    pub id: u32,
    pad: [u8; N],
}

impl<const N: usize> Tv<N> {
    pub fn new(id: u32) -> Self {
        let serial = new_serial();
        Tv { magic: MAGIC, serial, id, pad: [(serial as u8) ^ 0x5a; N] }
    }

    pub fn ok(&self) -> bool {
        let ser = self.serial;
        self.magic == MAGIC
            && self.pad.iter().all(|b| *b == (ser as u8) ^ 0x5a)
            && REG
                .try_with(|r| match r.try_borrow() {
                    Ok(r) => r.alive.get(ser as usize).copied().unwrap_or(false),
                    Err(_) => true,
                })
                .unwrap_or(true)
    }

    /// The identity, with the instance checked
    pub fn id(&self) -> u32 {
        if !self.ok() {
            set_err(format!(
                "an element reference leads to a dropped or garbage instance (magic {:x} serial {})",
                self.magic, self.serial
            ));
        }
        self.id
    }
}

impl<const N: usize> Drop for Tv<N> {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            set_err(format!("a garbage element was dropped (magic {:x})", self.magic));
            return;
        }
        let ser = self.serial as usize;
        let _ = REG.try_with(|r| {
            let mut r = match r.try_borrow_mut() {
                Ok(r) => r,
                Err(_) => return,
            };
            match r.alive.get_mut(ser) {
                Some(a) if *a => {
                    *a = false;
                    r.live -= 1;
                }
                Some(_) => {
                    if r.err.is_none() {
                        r.err = Some(format!("element instance {ser} was dropped twice"));
                    }
                }
                None => {
                    if r.err.is_none() {
                        r.err = Some("an unknown element instance was dropped".to_string());
                    }
                }
            }
        });
        if !std::thread::panicking() {
            event(FUSE_DROP);
        }
    }
}

impl<const N: usize> Clone for Tv<N> {
    fn clone(&self) -> Self {
        event(FUSE_CLONE);
        Self::new(self.id())
    }
}

impl<const N: usize> fmt::Debug for Tv<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}

impl<const N: usize> PartialEq for Tv<N> {
    fn eq(&self, other: &Self) -> bool {
        self.id() == other.id()
    }
}
impl<const N: usize> Eq for Tv<N> {}
impl<const N: usize> PartialOrd for Tv<N> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl<const N: usize> Ord for Tv<N> {
    fn cmp(&self, other: &Self) -> Ordering {
        cmp_event();
        self.id().cmp(&other.id())
    }
}
