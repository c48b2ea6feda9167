//! The component zoo. Every value carries a token and an integrity pattern over its whole size,
//! so a read identifies the write it observed and shows torn, shifted or never written data.

use crate::ledger;
use crate::prng::mix;
use core::mem::ManuallyDrop;
use shard_ecs::{Component, ComponentTypeId};

/// Observation of a value that fails its integrity check.
pub const CORRUPT: u64 = u64::MAX;

pub trait Kind: Component {
    const IDX: usize;
    const TAG: &'static str;
    /// Bits of the token that the value can hold, 0 if it holds none.
    const MASK: u64;
    const DROPS: bool;
    fn make(token: u64) -> Self;
    /// Token held, or why the value is corrupt.
    fn read(&self) -> Result<u64, String>;
    /// Replaces the token without running a destructor.
    fn rewrite(&mut self, token: u64);
    fn obs(&self) -> u64 {
        self.read().unwrap_or(CORRUPT)
    }
}

fn mask_for(size: usize) -> u64 {
    if size == 0 {
        0
    } else if size >= 8 {
        (1 << 56) - 1
    } else {
        (1 << (8 * size)) - 1
    }
}

/// The words of the pattern: all of them, or the outer ones only where each step is expensive
/// (the interpreter tracks initialisation of every byte by itself).
fn sampled(len: usize) -> impl Iterator<Item = core::ops::Range<usize>> {
    let words = len.div_ceil(8);
    (0..words).filter(move |w| !cfg!(miri) || *w < 3 || *w + 2 > words).map(move |w| w * 8..(w * 8 + 8).min(len))
}

/// Fills bytes with the token followed by a pattern derived from it.
fn fill(b: &mut [u8], token: u64, salt: u64) {
    let t = (token & mask_for(b.len())).to_le_bytes();
    let n = b.len().min(8);
    b[..n].copy_from_slice(&t[..n]);
    let mut x = mix(token ^ salt);
    for c in sampled(b.len() - n) {
        let c = &mut b[n + c.start..n + c.end];
        c.copy_from_slice(&x.to_le_bytes()[..c.len()]);
        x = x.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(salt | 1);
    }
}

fn verify(b: &[u8], salt: u64, tag: &str) -> Result<u64, String> {
    let n = b.len().min(8);
    let mut t = [0u8; 8];
    t[..n].copy_from_slice(&b[..n]);
    let token = u64::from_le_bytes(t);
    if token & !mask_for(b.len()) != 0 {
        return Err(format!("{}: token bytes {:#x}", tag, token));
    }
    let mut x = mix(token ^ salt);
    for at in sampled(b.len() - n) {
        let c = &b[n + at.start..n + at.end];
        if c != &x.to_le_bytes()[..c.len()] {
            return Err(format!("{}: token {} but pattern broken at byte {}", tag, token, n + at.start));
        }
        x = x.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(salt | 1);
    }
    Ok(token)
}

macro_rules! component_impl {
    ($name:ident, $tag:expr, hash) => {
        impl Component for $name {
            const NAME: &'static str = $tag;
        }
    };
    ($name:ident, $tag:expr, $id:expr) => {
        impl Component for $name {
            const NAME: &'static str = $tag;
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
    };
}

macro_rules! plain {
    ($name:ident, $idx:expr, $id:tt, $size:expr, $align:expr) => {
        #[repr(C, align($align))]
        pub struct $name([u8; $size]);
        component_impl!($name, stringify!($name), $id);
        impl Kind for $name {
            const IDX: usize = $idx;
            const TAG: &'static str = stringify!($name);
            const MASK: u64 = if $size == 0 {
                0
            } else if $size >= 8 {
                (1 << 56) - 1
            } else {
                (1 << (8 * ($size % 8))) - 1
            };
            const DROPS: bool = false;
            fn make(token: u64) -> Self {
                let mut v = $name([0; $size]);
                fill(&mut v.0, token, $idx);
                v
            }
            fn read(&self) -> Result<u64, String> {
                verify(&self.0, $idx, stringify!($name))
            }
            fn rewrite(&mut self, token: u64) {
                fill(&mut self.0, token, $idx);
            }
        }
    };
}

macro_rules! dropping {
    ($name:ident, $idx:expr, $id:tt, $size:expr, $align:expr) => {
        #[repr(C, align($align))]
        pub struct $name([u8; $size]);
        component_impl!($name, stringify!($name), $id);
        impl Kind for $name {
            const IDX: usize = $idx;
            const TAG: &'static str = stringify!($name);
            const MASK: u64 = if $size == 0 { 0 } else { (1 << 56) - 1 };
            const DROPS: bool = true;
            fn make(token: u64) -> Self {
                let mut v = $name([0; $size]);
                fill(&mut v.0, token, $idx);
                ledger::made($idx, token, $size == 0);
                v
            }
            fn read(&self) -> Result<u64, String> {
                verify(&self.0, $idx, stringify!($name))
            }
            fn rewrite(&mut self, token: u64) {
                if $size != 0 {
                    let old = self.obs();
                    ledger::replaced($idx, old, token);
                    fill(&mut self.0, token, $idx);
                }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let token = self.read();
                let boom = ledger::dropped($idx, token, $size == 0);
                for b in self.0.iter_mut().take(16) {
                    unsafe { core::ptr::write_volatile(b, 0xEE) };
                }
                if boom {
                    panic!("injected destructor panic");
                }
            }
        }
    };
}

const HEAP_SALT: u64 = 0x4845_4150;

macro_rules! heap {
    ($name:ident, $idx:expr, $id:tt, $inner:ty, $new:expr, $get:expr) => {
        pub struct $name {
            token: u64,
            check: u64,
            inner: ManuallyDrop<$inner>,
        }
        component_impl!($name, stringify!($name), $id);
        impl Kind for $name {
            const IDX: usize = $idx;
            const TAG: &'static str = stringify!($name);
            const MASK: u64 = (1 << 56) - 1;
            const DROPS: bool = true;
            fn make(token: u64) -> Self {
                ledger::made($idx, token, false);
                let new: fn(u64) -> $inner = $new;
                $name {
                    token,
                    check: mix(token ^ HEAP_SALT ^ $idx),
                    inner: ManuallyDrop::new(new(token)),
                }
            }
            fn read(&self) -> Result<u64, String> {
                if self.check != mix(self.token ^ HEAP_SALT ^ $idx) {
                    return Err(format!("{}: token {} check {:#x}", stringify!($name), self.token, self.check));
                }
                let get: fn(&$inner) -> u64 = $get;
                let v = get(&self.inner);
                if v != self.token {
                    return Err(format!("{}: token {} but heap holds {}", stringify!($name), self.token, v));
                }
                Ok(self.token)
            }
            fn rewrite(&mut self, token: u64) {
                if self.read().is_err() {
                    return;
                }
                ledger::replaced($idx, self.token, token);
                let new: fn(u64) -> $inner = $new;
                self.token = token;
                self.check = mix(token ^ HEAP_SALT ^ $idx);
                *self.inner = new(token);
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                // A value that was dropped before must not be followed into the heap again.
                let token = if self.check != mix(self.token ^ HEAP_SALT ^ $idx) {
                    Err(format!("{}: token {} check {:#x}", stringify!($name), self.token, self.check))
                } else if ledger::state(self.token) == ledger::State::Alive {
                    self.read()
                } else {
                    Ok(self.token)
                };
                let alive = matches!(&token, Ok(t) if ledger::state(*t) == ledger::State::Alive);
                let boom = ledger::dropped($idx, token, false);
                if alive {
                    unsafe { ManuallyDrop::drop(&mut self.inner) };
                }
                unsafe { core::ptr::write_volatile(&mut self.check, 0xEEEE) };
                if boom {
                    panic!("injected destructor panic");
                }
            }
        }
    };
}

plain!(ByteC, 0, 0x0001, 1, 1);
plain!(HalfC, 1, 0xFFFE, 2, 2);
plain!(WordC, 2, 0x0000, 8, 8);
dropping!(DropC, 3, 0x8000, 16, 8);
heap!(BoxC, 4, 0x7FFF, Box<[u64; 2]>, |t| Box::new([t, !t]), |b| if b[1] == !b[0] { b[0] } else { CORRUPT });
heap!(StringC, 5, hash, String, |t| format!("{}", t), |s| s.parse().unwrap_or(CORRUPT));
plain!(MarkC, 6, 0x0100, 0, 1);
dropping!(MarkDropC, 7, 0x00FF, 0, 1);
dropping!(MarkAlignC, 8, 0x4242, 0, 64);
dropping!(Align64C, 9, 0x1234, 64, 64);
plain!(Align256C, 10, hash, 256, 256);

/// A value with padding between and behind its fields.
#[repr(C)]
pub struct PaddedC {
    a: u8,
    b: u64,
    c: u16,
}
component_impl!(PaddedC, "PaddedC", 0x2000);
impl Kind for PaddedC {
    const IDX: usize = 11;
    const TAG: &'static str = "PaddedC";
    const MASK: u64 = (1 << 56) - 1;
    const DROPS: bool = false;
    fn make(token: u64) -> Self {
        PaddedC { a: mix(token) as u8, b: token, c: mix(token ^ 1) as u16 }
    }
    fn read(&self) -> Result<u64, String> {
        if self.a == mix(self.b) as u8 && self.c == mix(self.b ^ 1) as u16 {
            Ok(self.b)
        } else {
            Err(format!("PaddedC: fields {} {} {} do not belong together", self.a, self.b, self.c))
        }
    }
    fn rewrite(&mut self, token: u64) {
        *self = Self::make(token);
    }
}

dropping!(Big300C, 12, hash, 300, 4);
dropping!(Big40kC, 13, 0x9000, 40_000, 8);
plain!(TwelveC, 14, 0xC000, 12, 4);
plain!(ThreeC, 15, 0x0101, 3, 1);
plain!(SevenC, 16, 0x5555, 7, 1);
heap!(VecC, 17, hash, Vec<u64>, |t| (0..1 + t % 5).map(|i| t ^ i).collect(), |v| {
    if !v.is_empty() && v.iter().enumerate().all(|(i, x)| *x == v[0] ^ i as u64) { v[0] } else { CORRUPT }
});
heap!(ArcC, 18, 0xABCD, std::sync::Arc<u64>, |t| std::sync::Arc::new(t), |a| **a);
plain!(Align4096C, 19, hash, 4096, 4096);
dropping!(TokenC, 20, hash, 8, 8);
plain!(PairC, 21, hash, 16, 8);
dropping!(QuadC, 22, 0x0002, 32, 16);
plain!(MarkWideC, 23, 0xF00F, 0, 4096);
plain!(HugeC, 24, hash, 65_535, 1);
plain!(Align32kC, 25, 0x0F0F, 32_768, 32_768);

pub const NK: usize = 26;

#[macro_export]
macro_rules! for_all_kinds {
    ($m:ident) => {
        $m!(
            ByteC, HalfC, WordC, DropC, BoxC, StringC, MarkC, MarkDropC, MarkAlignC, Align64C,
            Align256C, PaddedC, Big300C, Big40kC, TwelveC, ThreeC, SevenC, VecC, ArcC, Align4096C,
            TokenC, PairC, QuadC, MarkWideC, HugeC, Align32kC
        )
    };
}
