//! Violations: what a monitor observed, and the properties whose statement it contradicts.

use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: u32,
    pub msg: String,
}

thread_local! {
    static PENDING: RefCell<Vec<Violation>> = const { RefCell::new(Vec::new()) };
    static STICKY: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Bit set of property numbers: p(1) is C01.
pub const fn p(n: u32) -> u32 {
    1 << (n - 1)
}

pub const ALL: u32 = (1 << 29) - 1;

pub fn prop_name(n: u32) -> String {
    format!("C{:02}", n)
}

pub fn props_string(props: u32) -> String {
    (1..=29)
        .filter(|n| props & p(*n) != 0)
        .map(prop_name)
        .collect::<Vec<_>>()
        .join(",")
}

/// From here on, every divergence also contradicts these properties: a fault was injected before.
pub fn set_sticky(props: u32) {
    STICKY.with(|s| s.set(props))
}
pub fn sticky() -> u32 {
    STICKY.with(|s| s.get())
}

#[cold]
pub fn violation(props: u32, msg: String) {
    let props = props | sticky();
    crate::alloc::host(|| {
        PENDING.with(|v| {
            let mut v = v.borrow_mut();
            if v.len() < 200 {
                v.push(Violation { props, msg });
            }
        })
    })
}

pub fn take() -> Vec<Violation> {
    PENDING.with(|v| core::mem::take(&mut *v.borrow_mut()))
}

pub fn any() -> bool {
    PENDING.with(|v| !v.borrow().is_empty())
}
