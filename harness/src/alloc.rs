//! Checking global allocator.
//!
//! Every block carries a header in front and a red zone behind. Verified on release: the block is live,
//! it was allocated here, and size and alignment equal those of the allocation. Requests of zero bytes
//! are recorded. New memory is poisoned, so reads of memory that was never written become visible to
//! the value monitors; released memory is poisoned and kept in a quarantine for a while.
//! Blocks requested while code under test runs are counted apart (`SUT`), so what the code under test
//! still holds after it was dropped is its leak, and allocations of it can be made to fail on purpose.
//!
//! Faults found here are recorded in static atomics, because reporting allocates.

use core::cell::Cell;
use core::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Checking;

const LIVE: u64 = 0x4C49_5645_B10C_600D;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const RED: u8 = 0xB7;
const RED_LEN: usize = 32;

#[repr(C)]
#[derive(Clone, Copy)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    sut: u64,
}
const HEAD: usize = core::mem::size_of::<Header>();

pub static SUT_LIVE_BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static SUT_LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
pub static SUT_REQUESTS: AtomicU64 = AtomicU64::new(0);
pub static SUT_REQUESTED: AtomicU64 = AtomicU64::new(0);
pub static SUT_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static SUT_DEALLOCS: AtomicU64 = AtomicU64::new(0);
pub static SUT_REALLOCS: AtomicU64 = AtomicU64::new(0);
/// Page that survives the process, for the layout of the request that was made to fail.
pub static FAIL_PAGE: AtomicU64 = AtomicU64::new(0);
pub static VERIFIED: AtomicU64 = AtomicU64::new(0);

/// Kinds of allocator misuse, with the arguments of the first occurrence.
pub static FAULTS: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];
pub static FAULT_ARGS: [[AtomicUsize; 4]; 6] =
    [const { [const { AtomicUsize::new(0) }; 4] }; 6];
pub const FAULT_NAMES: [&str; 6] = [
    "zero-sized request",
    "layout of release differs from allocation",
    "release of a block that is not live",
    "write past the end of a block",
    "write in front of a block",
    "write into a released block",
];

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    /// Counts down on allocations of the code under test; the allocation that reaches zero fails.
    static FAIL_IN: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static FAILED_SIZE: Cell<usize> = const { Cell::new(0) };
    static FAILED_ALIGN: Cell<usize> = const { Cell::new(0) };
}

/// Runs code under test.
#[inline]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    scope(true, f)
}

/// Runs monitor code that is called from code under test.
#[inline]
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    scope(false, f)
}

#[inline]
fn scope<R>(value: bool, f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            let v = self.0;
            let _ = IN_SUT.try_with(|c| c.set(v));
        }
    }
    let _r = Reset(IN_SUT.with(|c| c.replace(value)));
    f()
}

pub fn fail_in(n: u64) {
    FAIL_IN.with(|c| c.set(n));
}
pub fn failed() -> u64 {
    FAILED.with(|c| c.get())
}
pub fn failed_layout() -> (usize, usize) {
    (FAILED_SIZE.with(|c| c.get()), FAILED_ALIGN.with(|c| c.get()))
}
pub fn reset_failed() {
    FAILED.with(|c| c.set(0));
    FAIL_IN.with(|c| c.set(0));
}

fn is_sut() -> bool {
    IN_SUT.try_with(|c| c.get()).unwrap_or(false)
}

fn should_fail(size: usize, align: usize) -> bool {
    if !is_sut() || std::thread::panicking() {
        return false;
    }
    FAIL_IN
        .try_with(|c| {
            let n = c.get();
            if n == 0 {
                return false;
            }
            let last = n == 1;
            c.set(n - 1);
            if last {
                let page = FAIL_PAGE.load(Relaxed) as *mut u64;
                if !page.is_null() && FAILED.with(|c| c.get()) == 0 {
                    unsafe {
                        *page = size as u64;
                        *page.add(1) = align as u64;
                    }
                }
                FAILED.with(|c| c.set(c.get() + 1));
                FAILED_SIZE.with(|c| c.set(size));
                FAILED_ALIGN.with(|c| c.set(align));
                return true;
            }
            false
        })
        .unwrap_or(false)
}

#[cold]
fn fault(kind: usize, a: usize, b: usize, c: usize, d: usize) {
    if FAULTS[kind].fetch_add(1, Relaxed) == 0 {
        for (s, v) in FAULT_ARGS[kind].iter().zip([a, b, c, d]) {
            s.store(v, Relaxed);
        }
    }
}

/// Describes and clears the recorded misuse.
pub fn take_faults() -> Vec<String> {
    let mut out = Vec::new();
    for (i, f) in FAULTS.iter().enumerate() {
        let n = f.swap(0, Relaxed);
        if n > 0 {
            let a: Vec<usize> = FAULT_ARGS[i].iter().map(|a| a.load(Relaxed)).collect();
            out.push(format!(
                "{} ({} times; first: size {} align {}, recorded size {} align {})",
                FAULT_NAMES[i], n, a[0], a[1], a[2], a[3]
            ));
        }
    }
    out
}

fn offset_for(align: usize) -> usize {
    (HEAD + align - 1) / align * align
}

fn real_layout(size: usize, align: usize) -> Option<Layout> {
    let a = align.max(core::mem::align_of::<Header>());
    Layout::from_size_align(size.checked_add(offset_for(a))?.checked_add(RED_LEN)?, a).ok()
}

unsafe fn poison(ptr: *mut u8, len: usize, value: u8) {
    // Large blocks are poisoned in part, to keep million-row worlds fast.
    if len <= 1 << 17 {
        core::ptr::write_bytes(ptr, value, len);
    } else {
        core::ptr::write_bytes(ptr, value, 1 << 14);
        core::ptr::write_bytes(ptr.add(len - (1 << 14)), value, 1 << 14);
    }
}

const Q: usize = 256;
const Q_MAX: usize = 4096;
struct Quarantine {
    lock: AtomicBool,
    slots: core::cell::UnsafeCell<[(*mut u8, usize, usize); Q]>,
    next: AtomicUsize,
}
unsafe impl Sync for Quarantine {}
static QUARANTINE: Quarantine = Quarantine {
    lock: AtomicBool::new(false),
    slots: core::cell::UnsafeCell::new([(core::ptr::null_mut(), 0, 0); Q]),
    next: AtomicUsize::new(0),
};

/// Puts a block into quarantine, returns the one that has to leave.
unsafe fn quarantine(block: (*mut u8, usize, usize)) -> (*mut u8, usize, usize) {
    while QUARANTINE
        .lock
        .compare_exchange_weak(false, true, core::sync::atomic::Ordering::Acquire, Relaxed)
        .is_err()
    {
        core::hint::spin_loop();
    }
    let i = QUARANTINE.next.load(Relaxed);
    QUARANTINE.next.store((i + 1) % Q, Relaxed);
    let slot = &mut (*QUARANTINE.slots.get())[i];
    let old = *slot;
    *slot = block;
    QUARANTINE.lock.store(false, core::sync::atomic::Ordering::Release);
    old
}

unsafe fn release(block: (*mut u8, usize, usize)) {
    let (ptr, size, align) = block;
    if ptr.is_null() {
        return;
    }
    let a = align.max(core::mem::align_of::<Header>());
    let user = ptr.add(offset_for(a));
    let n = size.min(256);
    for i in 0..n {
        if *user.add(i) != 0xDD {
            fault(5, size, align, i, 0);
            break;
        }
    }
    System.dealloc(ptr, real_layout(size, align).unwrap_unchecked());
}

impl Checking {
    unsafe fn get(&self, size: usize, align: usize, zeroed: bool) -> *mut u8 {
        let sut = is_sut();
        if size == 0 && sut {
            fault(0, 0, align, 0, 0);
        }
        if should_fail(size, align) {
            return core::ptr::null_mut();
        }
        let layout = match real_layout(size, align) {
            Some(v) => v,
            None => return core::ptr::null_mut(),
        };
        let off = offset_for(layout.align());
        let base = if zeroed { System.alloc_zeroed(layout) } else { System.alloc(layout) };
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        *(user.sub(HEAD) as *mut Header) = Header { magic: LIVE, size, align, sut: sut as u64 };
        if !zeroed {
            poison(user, size, 0xA5);
        }
        core::ptr::write_bytes(user.add(size), RED, RED_LEN);
        if sut {
            SUT_ALLOCS.fetch_add(1, Relaxed);
            SUT_LIVE_BLOCKS.fetch_add(1, Relaxed);
            SUT_LIVE_BYTES.fetch_add(size as u64, Relaxed);
            SUT_REQUESTS.fetch_add(1, Relaxed);
            SUT_REQUESTED.fetch_add(size as u64, Relaxed);
        }
        user
    }

    /// Verifies a block that is about to be released. None: leave it alone.
    unsafe fn verify(&self, ptr: *mut u8, layout: Layout) -> Option<Header> {
        let header = ptr.sub(HEAD) as *mut Header;
        let h = *header;
        VERIFIED.fetch_add(1, Relaxed);
        if h.magic != LIVE {
            fault(
                if h.magic == DEAD { 2 } else { 4 },
                layout.size(),
                layout.align(),
                if h.magic == DEAD { h.size } else { 0 },
                if h.magic == DEAD { h.align } else { 0 },
            );
            return None;
        }
        if h.size != layout.size() || h.align != layout.align() {
            fault(1, layout.size(), layout.align(), h.size, h.align);
        }
        for i in 0..RED_LEN {
            if *ptr.add(h.size + i) != RED {
                fault(3, layout.size(), layout.align(), h.size, i);
                break;
            }
        }
        Some(h)
    }
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if cfg!(plain_alloc) {
            return plain_alloc(layout);
        }
        self.get(layout.size(), layout.align(), false)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if cfg!(plain_alloc) {
            return System.alloc_zeroed(layout);
        }
        self.get(layout.size(), layout.align(), true)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if cfg!(plain_alloc) {
            return System.dealloc(ptr, layout);
        }
        let h = match self.verify(ptr, layout) {
            Some(h) => h,
            None => return,
        };
        if h.sut != 0 {
            SUT_DEALLOCS.fetch_add(1, Relaxed);
            SUT_LIVE_BLOCKS.fetch_sub(1, Relaxed);
            SUT_LIVE_BYTES.fetch_sub(h.size as u64, Relaxed);
        }
        poison(ptr, h.size, 0xDD);
        (*(ptr.sub(HEAD) as *mut Header)).magic = DEAD;
        let a = h.align.max(core::mem::align_of::<Header>());
        let base = ptr.sub(offset_for(a));
        if h.sut != 0 && h.size <= Q_MAX {
            release(quarantine((base, h.size, h.align)));
        } else {
            System.dealloc(base, real_layout(h.size, h.align).unwrap_unchecked());
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if cfg!(plain_alloc) {
            if new_size == 0 {
                fault(0, 0, layout.align(), layout.size(), 0);
            }
            return System.realloc(ptr, layout, new_size);
        }
        if is_sut() {
            SUT_REALLOCS.fetch_add(1, Relaxed);
            if new_size == 0 {
                fault(0, 0, layout.align(), layout.size(), layout.align());
            }
        }
        let h = *(ptr.sub(HEAD) as *mut Header);
        let new = self.get(new_size, layout.align(), false);
        if new.is_null() {
            return new;
        }
        let keep = if h.magic == LIVE { h.size } else { layout.size() };
        core::ptr::copy_nonoverlapping(ptr, new, keep.min(new_size));
        self.dealloc(ptr, layout);
        new
    }
}

unsafe fn plain_alloc(layout: Layout) -> *mut u8 {
    if layout.size() == 0 && is_sut() {
        fault(0, 0, layout.align(), 0, 0);
    }
    System.alloc(layout)
}

/// Snapshot of what the code under test holds.
pub fn sut_live() -> (u64, u64) {
    (SUT_LIVE_BLOCKS.load(Relaxed), SUT_LIVE_BYTES.load(Relaxed))
}

/// Requests the code under test has made so far, and the bytes it asked for.
pub fn sut_requested() -> (u64, u64) {
    (SUT_REQUESTS.load(Relaxed), SUT_REQUESTED.load(Relaxed))
}
