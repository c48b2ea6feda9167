//! Ledger of component values: which were made, which were dropped, and when.

use crate::alloc::host;
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Unknown,
    Alive,
    Dropped,
}

#[derive(Default)]
struct Ledger {
    /// State per token, for kinds with a destructor.
    state: Vec<u8>,
    /// Drops since the log was last taken: (kind, token). Zero-sized kinds have token 0.
    log: Vec<(u8, u64)>,
    /// Values of zero-sized kinds made minus dropped.
    zst: [i64; 32],
    next: u64,
    alive: i64,
    drops: u64,
    made: u64,
    /// Counts down on drops, at zero the destructor panics.
    panic_in: u64,
    panicked: u64,
    errors: Vec<String>,
}

thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
}

fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    host(|| L.with(|l| f(&mut l.borrow_mut())))
}

/// Issues a fresh token.
pub fn fresh() -> u64 {
    with(|l| {
        l.next += 1;
        l.next
    })
}

pub fn reset() {
    with(|l| *l = Ledger::default())
}

pub fn made(kind: usize, token: u64, zst: bool) {
    with(|l| {
        l.made += 1;
        if zst {
            l.zst[kind] += 1;
            return;
        }
        let t = token as usize;
        if l.state.len() <= t {
            l.state.resize(t + 1, 0);
        }
        l.state[t] = 1;
        l.alive += 1;
    })
}

/// Called by destructors. Returns true if the destructor has to panic.
pub fn dropped(kind: usize, token: Result<u64, String>, zst: bool) -> bool {
    with(|l| {
        l.drops += 1;
        match token {
            Err(e) => {
                if l.errors.len() < 20 {
                    l.errors.push(format!("destructor ran on a corrupt value: {}", e));
                }
            }
            Ok(_) if zst => {
                l.zst[kind] -= 1;
                l.log.push((kind as u8, 0));
                if l.zst[kind] < 0 && l.errors.len() < 20 {
                    l.errors.push(format!("zero-sized kind {} dropped more often than made", kind));
                }
            }
            Ok(t) => {
                l.log.push((kind as u8, t));
                match l.state.get(t as usize) {
                    Some(1) => {
                        l.state[t as usize] = 2;
                        l.alive -= 1;
                    }
                    Some(2) => {
                        if l.errors.len() < 20 {
                            l.errors.push(format!("value {} of kind {} dropped twice", t, kind))
                        }
                    }
                    _ => {
                        if l.errors.len() < 20 {
                            l.errors.push(format!("value {} of kind {} dropped, never made", t, kind))
                        }
                    }
                }
            }
        }
        if l.panic_in > 0 && !std::thread::panicking() {
            l.panic_in -= 1;
            if l.panic_in == 0 {
                l.panicked += 1;
                return true;
            }
        }
        false
    })
}

/// A value was replaced in place, which drops nothing.
pub fn replaced(kind: usize, old: u64, new: u64) {
    with(|l| {
        let _ = kind;
        if let Some(s) = l.state.get_mut(old as usize) {
            if *s == 1 {
                *s = 2;
                l.alive -= 1;
            }
        }
    });
    made(kind, new, false);
    with(|l| l.made -= 1);
}

pub fn take_log() -> Vec<(u8, u64)> {
    with(|l| core::mem::take(&mut l.log))
}

pub fn take_errors() -> Vec<String> {
    with(|l| core::mem::take(&mut l.errors))
}

pub fn state(token: u64) -> State {
    with(|l| match l.state.get(token as usize) {
        Some(1) => State::Alive,
        Some(2) => State::Dropped,
        _ => State::Unknown,
    })
}

pub fn alive() -> i64 {
    with(|l| l.alive)
}

pub fn zst_alive(kind: usize) -> i64 {
    with(|l| l.zst[kind])
}

pub fn totals() -> (u64, u64) {
    with(|l| (l.made, l.drops))
}

pub fn panic_in(n: u64) {
    with(|l| l.panic_in = n)
}

pub fn panicked() -> u64 {
    with(|l| l.panicked)
}

pub fn restore_log(log: Vec<(u8, u64)>) {
    with(|l| l.log = log)
}
