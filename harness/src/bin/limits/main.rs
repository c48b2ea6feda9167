//! Monitors at the capacity limits: C09 entities, C10 component sets, C27 and C28 long lives, C29 twins, any other: columns of gigabytes.
use harness::runner;

mod bytes;
mod entities;
mod marathon;
mod sets;
mod twins;

fn main() {
    runner::main(&|c, r| match c.prop {
        9 => entities::run(c, r),
        10 => sets::run(c, r),
        27 | 28 => marathon::run(c, r),
        29 => twins::run(c, r),
        _ => bytes::run(c, r),
    });
}
