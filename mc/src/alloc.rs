//! A checking allocator: every block carries its layout and canaries, is poisoned when handed out and
//! when released; frees with the wrong layout, overruns, double frees and runaway allocation are noticed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct CheckAlloc;

const LIVE: u64 = 0x11ce_b10c_a110_c8ed;
const DEAD: u64 = 0xdead_b10c_f4ee_d000;
const CANARY: u8 = 0xC3;
const TAIL: usize = 16;
/// a single explored transition allocating more than this (net) is a runaway
const RUNAWAY: isize = 700 << 20;

thread_local! {
    static NET: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<isize> = const { Cell::new(0) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
}

/// 0: none, 1: bad layout, 2: overrun, 3: double or foreign free, 4: underrun
static ERR: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn _exit(code: i32) -> !;
}

pub fn net() -> (isize, isize) {
    (NET.with(|n| n.get()), COUNT.with(|n| n.get()))
}

/// Starts runaway supervision for this thread
pub fn guard_on() {
    NET.with(|n| n.set(0));
    COUNT.with(|n| n.set(0));
    GUARD.with(|n| n.set(true));
}
pub fn guard_off() {
    GUARD.with(|n| n.set(false));
}

pub fn take_error() -> Option<String> {
    match ERR.swap(0, Ordering::Relaxed) {
        0 => None,
        1 => Some("memory was released with a layout different from the one it was allocated with".into()),
        2 => Some("memory was written past the end of an allocation".into()),
        3 => Some("memory was released twice or was never allocated".into()),
        _ => Some("memory was written before the start of an allocation".into()),
    }
}

#[inline]
fn head(align: usize) -> usize {
    // room for size, align, magic, and a front canary, keeping alignment
    let a = align.max(16);
    (48 + a - 1) / a * a
}

unsafe fn stamp(base: *mut u8, layout: Layout) -> *mut u8 {
    let h = head(layout.align());
    let p = base.add(h);
    (p.sub(24) as *mut u64).write_unaligned(layout.size() as u64);
    (p.sub(32) as *mut u64).write_unaligned(layout.align() as u64);
    (p.sub(40) as *mut u64).write_unaligned(LIVE);
    std::ptr::write_bytes(p.sub(16), CANARY, 16);
    std::ptr::write_bytes(p.add(layout.size()), CANARY, TAIL);
    p
}

unsafe fn check(p: *mut u8, layout: Layout) {
    if (p.sub(40) as *const u64).read_unaligned() != LIVE {
        ERR.store(3, Ordering::Relaxed);
        // the block cannot be trusted at all
        return;
    }
    if (p.sub(24) as *const u64).read_unaligned() != layout.size() as u64
        || (p.sub(32) as *const u64).read_unaligned() != layout.align() as u64
    {
        ERR.store(1, Ordering::Relaxed);
    }
    for i in 0..16 {
        if *p.sub(16).add(i) != CANARY {
            ERR.store(4, Ordering::Relaxed);
        }
    }
    let size = (p.sub(24) as *const u64).read_unaligned() as usize;
    for i in 0..TAIL {
        if *p.add(size).add(i) != CANARY {
            ERR.store(2, Ordering::Relaxed);
        }
    }
}

fn account(d: isize, c: isize) {
    let _ = NET.try_with(|n| {
        let x = n.get() + d;
        n.set(x);
        if x > RUNAWAY && GUARD.try_with(|g| g.get()).unwrap_or(false) {
            crate::engine::slot_flag_runaway();
            unsafe { _exit(77) }
        }
    });
    let _ = COUNT.try_with(|n| n.set(n.get() + c));
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        account(layout.size() as isize, 1);
        let h = head(layout.align());
        let full = match layout.size().checked_add(h + TAIL) {
            Some(x) if x < isize::MAX as usize => x,
            _ => {
                account(-(layout.size() as isize), -1);
                return std::ptr::null_mut();
            }
        };
        let base = System.alloc(Layout::from_size_align_unchecked(full, layout.align().max(16)));
        if base.is_null() {
            account(-(layout.size() as isize), -1);
            return base;
        }
        let p = stamp(base, layout);
        std::ptr::write_bytes(p, 0xA7, layout.size().min(1 << 16));
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        check(p, layout);
        if (p.sub(40) as *const u64).read_unaligned() != LIVE {
            return;
        }
        let size = (p.sub(24) as *const u64).read_unaligned() as usize;
        let align = (p.sub(32) as *const u64).read_unaligned() as usize;
        account(-(size as isize), -1);
        std::ptr::write_bytes(p, 0xD9, size.min(1 << 16));
        (p.sub(40) as *mut u64).write_unaligned(DEAD);
        let h = head(align);
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(size + h + TAIL, align.max(16)));
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        // always moves
        let new_layout = Layout::from_size_align_unchecked(new_size, layout.align());
        let q = self.alloc(new_layout);
        if !q.is_null() {
            // copy what the block really holds so that a wrong layout is reported and not a crash
            let real = if (p.sub(40) as *const u64).read_unaligned() == LIVE {
                (p.sub(24) as *const u64).read_unaligned() as usize
            } else {
                0
            };
            std::ptr::copy_nonoverlapping(p, q, real.min(new_size));
            self.dealloc(p, layout);
        }
        q
    }
}

#[global_allocator]
static GLOBAL: CheckAlloc = CheckAlloc;
