//! Where a run is, kept in a file-backed page so that it survives a crash of the process.

use core::cell::Cell;

thread_local! {
    static TAGS: Cell<u32> = const { Cell::new(0) };
}

static mut PAGE: *mut u64 = core::ptr::null_mut();

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Words: 0 episode seed, 1 operation number, 2 property tags of the current call, 3 operation code, 4 sub-case.
pub fn open(path: &str) {
    if cfg!(miri) {
        return;
    }
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(4096).unwrap();
    unsafe {
        let p = mmap(core::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0);
        if p as isize != -1 {
            PAGE = p as *mut u64;
        }
    }
}

#[inline]
fn put(i: usize, v: u64) {
    unsafe {
        if !PAGE.is_null() {
            core::ptr::write_volatile(PAGE.add(i), v);
        }
    }
}

#[inline]
pub fn episode(seed: u64) {
    put(0, seed);
    put(1, 0);
}
#[inline]
pub fn op(number: u64, code: u64) {
    put(1, number);
    put(3, code);
}
/// Names the properties that a panic or crash from here on contradicts.
#[inline]
pub fn ctx(tags: u32) {
    let tags = tags | crate::report::sticky();
    TAGS.with(|t| t.set(tags));
    put(2, tags as u64);
}
#[inline]
pub fn sub(v: u64) {
    put(4, v);
}
/// Tags that a child of this process left behind.
pub fn page_tags() -> u32 {
    unsafe {
        if PAGE.is_null() {
            current()
        } else {
            core::ptr::read_volatile(PAGE.add(2)) as u32
        }
    }
}
pub fn current() -> u32 {
    TAGS.with(|t| t.get())
}
