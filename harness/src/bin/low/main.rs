//! Monitors of the public low-level modules: C15 descriptors, C16 entity store, C17 raw storage,
//! C18 storage lookup, C19 identifiers.
use harness::runner;

mod hash;
mod rows;
mod sets;
mod store;

fn main() {
    runner::main(&|c, r| match c.prop {
        15 => sets::algebra(c, r),
        16 => store::run(c, r),
        17 => rows::run(c, r),
        18 => sets::storages(c, r),
        19 => hash::run(c, r),
        7 => match r.below(3) {
            0 => sets::storages(c, r),
            _ => rows::run(c, r),
        },
        n => panic!("no monitor of C{}", n),
    });
}
