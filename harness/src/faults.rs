//! Fault enumeration. At an operation under test the process forks once per fault point; the child runs
//! the operation with that one fault, goes on with a random tail of operations under full monitoring, drops the
//! registry, and reports. The parent never sees the fault (or takes one of its own, see `Mode::Panic`).

use crate::alloc;
use crate::episode::{self, Op, Profile};
use crate::ledger;
use crate::prng::{mix, Rng};
use crate::progress;
use crate::report::{self, p};
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Off,
    /// A destructor panics.
    Panic,
    /// A storage allocation fails.
    Alloc,
}

#[derive(Default, Clone)]
pub struct FaultCounts {
    pub forks: u64,
    pub injected: u64,
    pub panics_in_destroy: u64,
    pub panics_in_drop: u64,
    pub failed_allocations: u64,
    pub unwound: u64,
    pub tails: u64,
    pub infallible: u64,
    pub reached_end: u64,
}

pub struct Faults {
    pub mode: Mode,
    pub profile: Option<Rc<Profile>>,
    pub seed: u64,
    pub serial: u64,
    pub child: bool,
    pub budget: u64,
    pub c: FaultCounts,
    /// First violation found in a child.
    pub found: Option<(u32, String)>,
}

impl Faults {
    pub fn off() -> Faults {
        Faults { mode: Mode::Off, profile: None, seed: 0, serial: 0, child: false, budget: 0, c: FaultCounts::default(), found: None }
    }
    pub fn active(&self, m: Mode) -> bool {
        self.mode == m && !self.child && self.budget > 0 && self.found.is_none()
    }
}

const OK: i32 = 0;
const VIOLATION: i32 = 10;
const NOT_REACHED: i32 = 11;
const SKIPPED: i32 = 12;

/// Page shared with children: words 0.. as below, text from byte 64.
static SHARED: AtomicU64 = AtomicU64::new(0);
const PAGE: usize = 1 << 14;

fn shared() -> *mut u64 {
    let v = SHARED.load(Relaxed);
    if v != 0 {
        return v as *mut u64;
    }
    let m = unsafe { mmap(core::ptr::null_mut(), PAGE, 3, 0x21, -1, 0) };
    assert!(m as isize != -1);
    SHARED.store(m as u64, Relaxed);
    alloc::FAIL_PAGE.store(m as u64, Relaxed);
    m as *mut u64
}

fn put_text(props: u32, text: &str) {
    unsafe {
        let s = shared();
        *s.add(2) = props as u64;
        let n = text.len().min(PAGE - 128);
        *s.add(3) = n as u64;
        core::ptr::copy_nonoverlapping(text.as_ptr(), (s as *mut u8).add(64), n);
    }
}

fn get_text() -> (u32, String) {
    unsafe {
        let s = shared();
        let n = (*s.add(3) as usize).min(PAGE - 128);
        (*s.add(2) as u32, String::from_utf8_lossy(core::slice::from_raw_parts((s as *const u8).add(64), n)).into_owned())
    }
}

enum End {
    Exit(i32),
    Signal(i32),
}

impl World {
    /// Runs `f` in a child. `f` performs the faulty operation and returns whether to go on with the tail.
    fn fork_fault(&mut self, tag: u32, serial: u64, f: &mut dyn FnMut(&mut World) -> i32) -> End {
        self.faults.c.forks += 1;
        let s = shared();
        unsafe {
            *s = 0;
            *s.add(1) = 0;
            *s.add(2) = 0;
            *s.add(3) = 0;
        }
        let pid = unsafe { fork() };
        if pid < 0 {
            // Out of processes: no verdict about this fault point.
            return End::Exit(SKIPPED);
        }
        if pid == 0 {
            self.faults.child = true;
            let code = self.child(tag, serial, f);
            unsafe { _exit(code) };
        }
        let mut status = 0;
        unsafe { waitpid(pid, &mut status, 0) };
        if status & 0x7f == 0 {
            End::Exit(status >> 8 & 0xff)
        } else {
            End::Signal(status & 0x7f)
        }
    }

    fn child(&mut self, tag: u32, serial: u64, f: &mut dyn FnMut(&mut World) -> i32) -> i32 {
        progress::sub(serial);
        let done = catch_unwind(AssertUnwindSafe(|| f(self)));
        let code = match done {
            Ok(c) => c,
            Err(e) => {
                report::violation(tag, format!("operation under a fault panicked unexpectedly: {}", episode::panic_text(&e)));
                VIOLATION
            }
        };
        if code == NOT_REACHED || code == SKIPPED {
            return code;
        }
        report::set_sticky(tag);
        if !report::any() {
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| self.tail(serial))) {
                report::violation(tag, format!("after the fault, an operation panicked: {}", episode::panic_text(&e)));
            }
        }
        let v = report::take();
        if let Some(v) = v.first() {
            put_text(v.props, &v.msg);
            return VIOLATION;
        }
        OK
    }

    /// Life after a fault: monitors, some operations, monitors, drop.
    fn tail(&mut self, serial: u64) {
        let pr = match self.faults.profile.clone() {
            Some(v) => v,
            None => return,
        };
        let mut r = Rng::new(mix(self.faults.seed ^ serial));
        episode::monitor(self, &pr, 7, &mut r, true, &[]);
        let n = r.below(8);
        for _ in 0..n {
            if report::any() {
                return;
            }
            let op = Op::random(&mut r, &pr);
            episode::apply(self, &pr, op);
        }
        if !report::any() {
            episode::monitor(self, &pr, 7, &mut r, true, &[]);
        }
        if !report::any() {
            self.finish(true);
        }
    }

    fn fault_result(&mut self, end: End, tag: u32, what: String) -> bool {
        match end {
            End::Exit(OK) => {
                self.faults.c.tails += 1;
            }
            End::Exit(NOT_REACHED) | End::Exit(SKIPPED) => {}
            End::Exit(VIOLATION) => {
                let (props, text) = get_text();
                self.faults.found = Some((props | tag, format!("{}: {}", what, text)));
                return false;
            }
            End::Exit(c) => {
                self.faults.found = Some((0, format!("{}: child ended with {}", what, c)));
                return false;
            }
            End::Signal(s) => {
                self.faults.found = Some((progress_tags() | tag, format!("{}: process died with signal {}", what, s)));
                return false;
            }
        }
        true
    }

    // ------------------------------------------------------------- panics

    /// Every destructor that destroying this entity runs panics once, each in its own child.
    pub fn enumerate_panics_in_destroy(&mut self, raw: u32) {
        let set = self.ents[&raw].set;
        let t = self.t;
        let droppable: Vec<usize> = set_kinds(set).filter(|k| t.kinds[*k].drops).collect();
        for k in 1..=droppable.len() as u64 {
            if self.faults.budget == 0 || self.faults.found.is_some() {
                return;
            }
            self.faults.serial += 1;
            let serial = self.faults.serial;
            self.faults.budget -= 1;
            let end = self.fork_fault(p(12), serial, &mut |w| {
                w.destroy_panicking(raw, k);
                OK
            });
            self.faults.c.panics_in_destroy += 1;
            self.faults.c.injected += 1;
            let last = self.order.last() == Some(&raw);
            self.sig(0x1200 | (droppable.len() as u64) << 16 | k << 24 | (last as u64) << 32 | (set as u64) << 33);
            if !self.fault_result(end, p(12), format!("fault point {}: destructor {} of {} panics while {:#x} ({}) is destroyed", serial, k, droppable.len(), raw, set_name(t, set))) {
                return;
            }
        }
    }

    /// Destroys an entity while its k-th destructor panics.
    pub fn destroy_panicking(&mut self, raw: u32, k: u64) {
        report::set_sticky(p(12));
        progress::ctx(p(12));
        let before = ledger::panicked();
        ledger::panic_in(k);
        let res = catch_unwind(AssertUnwindSafe(|| alloc::sut(|| self.reg.as_mut().unwrap().destroy_entity(ent(raw)))));
        ledger::panic_in(0);
        self.c.ops += 1;
        self.c.evals += 1;
        if ledger::panicked() == before {
            // Fewer destructors ran than the entity has; the drop ledger decides about that elsewhere.
        }
        if let Ok(false) = res {
            report::violation(p(12), format!("destroying live {:#x} reported false", raw));
        }
        if res.is_err() {
            self.faults.c.unwound += 1;
        }
        let e = self.model_remove(raw);
        self.tolerate_partial(&e);
        self.check_refused(raw, &mut Rng::new(k));
    }

    /// Accepts that some of an entity's values were dropped and the others forgotten; nothing else.
    fn tolerate_partial(&mut self, e: &Ent) {
        let t = self.t;
        let mut got = ledger::take_log();
        let mut rest: Vec<(u8, u64)> = set_kinds(e.set)
            .filter(|k| t.kinds[*k].drops)
            .map(|k| (k as u8, if t.kinds[k].mask == 0 { 0 } else { e.token(k).unwrap() }))
            .collect();
        self.c.drops += got.len() as u64;
        got.sort_unstable();
        for g in got {
            match rest.iter().position(|r| *r == g) {
                Some(i) => {
                    rest.swap_remove(i);
                }
                None => report::violation(p(12) | p(3), format!("destructor of kind {} token {} ran, which the destroyed entity did not own or had dropped already", t.kinds[g.0 as usize].tag, g.1)),
            }
        }
        for r in rest {
            if t.kinds[r.0 as usize].mask == 0 {
                self.forgotten_zst[r.0 as usize] += 1;
            } else {
                self.forgotten += 1;
                self.forgotten_tokens.push(r);
            }
        }
        for e in ledger::take_errors() {
            report::violation(p(12) | p(3), e);
        }
    }

    /// Every destructor that dropping the registry runs panics once, each in its own child.
    pub fn enumerate_panics_in_drop(&mut self, cap: u64) {
        let t = self.t;
        let n: u64 = self.ents.values().map(|e| set_kinds(e.set).filter(|k| t.kinds[*k].drops).count() as u64).sum();
        if n == 0 {
            return;
        }
        let mut points: Vec<u64> = (1..=n).collect();
        if n > cap {
            let mut r = Rng::new(self.faults.seed);
            r.shuffle(&mut points);
            points.truncate(cap as usize);
        }
        for k in points {
            if self.faults.budget == 0 || self.faults.found.is_some() {
                return;
            }
            self.faults.serial += 1;
            let serial = self.faults.serial;
            self.faults.budget -= 1;
            let end = self.fork_fault(p(12), serial, &mut |w| {
                w.drop_panicking(k);
                OK
            });
            self.faults.c.panics_in_drop += 1;
            self.faults.c.injected += 1;
            self.sig(0x1300 | n.min(255) << 16 | k.min(255) << 24 | (self.sets.len() as u64) << 32);
            if !self.fault_result(end, p(12), format!("fault point {}: destructor {} of {} panics while the registry is dropped", serial, k, n)) {
                return;
            }
        }
    }

    /// Drops the registry while one destructor panics, and puts an empty one in its place.
    pub fn drop_panicking(&mut self, k: u64) {
        report::set_sticky(p(12));
        progress::ctx(p(12));
        ledger::take_log();
        ledger::panic_in(k);
        let reg = self.reg.take();
        let res = catch_unwind(AssertUnwindSafe(|| alloc::sut(|| drop(reg))));
        ledger::panic_in(0);
        if res.is_err() {
            self.faults.c.unwound += 1;
        }
        self.c.evals += 1;
        let mut all: Vec<(u8, u64)> = Vec::new();
        for e in self.ents.values() {
            for k in set_kinds(e.set).filter(|k| self.t.kinds[*k].drops) {
                all.push((k as u8, if self.t.kinds[k].mask == 0 { 0 } else { e.token(k).unwrap() }));
            }
        }
        all.extend(self.forgotten_tokens.iter().copied());
        all.sort_unstable();
        let mut got = ledger::take_log();
        got.sort_unstable();
        self.c.drops += got.len() as u64;
        let mut j = 0;
        for g in &got {
            while j < all.len() && all[j] < *g {
                j += 1;
            }
            if j < all.len() && all[j] == *g {
                j += 1;
            } else if self.t.kinds[g.0 as usize].mask == 0 && self.forgotten_zst[g.0 as usize] > 0 {
                self.forgotten_zst[g.0 as usize] -= 1;
            } else {
                report::violation(p(12) | p(3), format!("dropping the registry with a panicking destructor dropped {} token {}, which it did not own", self.t.kinds[g.0 as usize].tag, g.1));
            }
        }
        for e in ledger::take_errors() {
            report::violation(p(12) | p(3), e);
        }
        for f in alloc::take_faults() {
            report::violation(p(12) | p(7), format!("allocator misuse: {}", f));
        }
        // The rest of the child's life: an independent registry on the same thread.
        self.ents.clear();
        self.order.clear();
        self.dead.clear();
        self.sets.clear();
        self.issued.clear();
        self.retired.clear();
        self.lost_everything = true;
        self.reg = Some(alloc::sut(Default::default));
    }

    // ------------------------------------------------------------- allocation failures

    /// Whether a failed request could be for component storage: a whole number of rows of one of the zoo's
    /// kinds, of a size or an alignment that no growing list of small entries has. Requests of the crate's own
    /// bookkeeping (growing a `Vec`) end the process, and are nobody's property.
    fn storage_like(&self, size: usize, align: usize, set: u32) -> bool {
        set_kinds(set).any(|k| {
            let v = &self.t.kinds[k];
            v.size > 0
                && v.align == align
                && size % v.size == 0
                && size / v.size >= 64
                && (v.align > 8 || v.size >> v.size.trailing_zeros() > 32)
        })
    }

    /// Every allocation of an operation fails once, each in its own child. `op` performs the operation in the
    /// child; it must unwind and change nothing. `tokens`: what the operation consumes; `set`: what it would
    /// make room for.
    pub fn enumerate_failures(&mut self, what: &str, set: u32, tokens: &[(usize, u64)], op: &mut dyn FnMut(&mut World)) {
        for n in 1..64u64 {
            if self.faults.budget == 0 || self.faults.found.is_some() {
                return;
            }
            self.faults.serial += 1;
            let serial = self.faults.serial;
            let end = self.fork_fault(p(13), serial, &mut |w| {
                progress::ctx(p(13));
                report::set_sticky(p(13));
                alloc::reset_failed();
                alloc::fail_in(n);
                let res = catch_unwind(AssertUnwindSafe(|| op(w)));
                let failed = alloc::failed();
                let layout = alloc::failed_layout();
                alloc::reset_failed();
                if failed == 0 {
                    return NOT_REACHED;
                }
                match res {
                    Err(_) => {
                        for (k, tok) in tokens {
                            w.dropped(*k, *tok);
                        }
                        w.settle(p(13), "operation whose allocation failed");
                        OK
                    }
                    Ok(()) if w.storage_like(layout.0, layout.1, set) => {
                        report::violation(p(13), format!("a request of {} bytes align {} failed, but the operation returned", layout.0, layout.1));
                        VIOLATION
                    }
                    Ok(()) => SKIPPED,
                }
            });
            let (size, align) = unsafe { (*shared() as usize, *shared().add(1) as usize) };
            match &end {
                End::Exit(NOT_REACHED) => {
                    self.faults.c.reached_end += 1;
                    return;
                }
                End::Exit(OK) => {
                    self.faults.c.unwound += 1;
                }
                End::Signal(6) if !self.storage_like(size, align, set) => {
                    self.faults.c.infallible += 1;
                    self.faults.budget -= 1;
                    continue;
                }
                _ => {}
            }
            self.faults.budget -= 1;
            self.faults.c.injected += 1;
            self.faults.c.failed_allocations += 1;
            let rows = *self.sets.get(&set).unwrap_or(&0) as u64;
            self.sig(0x1400 | n << 16 | bucket(rows) << 24 | (self.sets.contains_key(&set) as u64) << 32 | (set as u64) << 33 ^ (what.len() as u64) << 60);
            if !self.fault_result(end, p(13), format!("fault point {}: allocation {} ({} bytes align {}) of {} fails", serial, n, size, align, what)) {
                return;
            }
        }
    }

    /// Whether an operation that puts a row into this set is worth trying faults on.
    pub fn may_allocate(&mut self, set: u32) -> bool {
        if !self.faults.active(Mode::Alloc) {
            return false;
        }
        match self.sets.get(&set) {
            None => true,
            Some(n) => *n == 0 || (*n >= 32 && n.is_power_of_two()) || mix(self.c.ops ^ self.faults.seed) % 24 == 0,
        }
    }
}

fn progress_tags() -> u32 {
    progress::page_tags()
}
