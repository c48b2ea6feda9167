//! Monitors for shard-ecs: instrumented components, type-erased access, ledger, allocator.

pub mod alloc;
pub mod episode;
pub mod faults;
pub mod groups;
pub mod kinds;
pub mod lean;
pub mod ledger;
pub mod prng;
pub mod progress;
pub mod report;
pub mod runner;
pub mod table;
pub mod vt;
pub mod world;

macro_rules! kind_list {
    ($($k:ident),*) => { vec![$(vt::kind_vt::<kinds::$k>()),*] };
}

pub fn kinds_table() -> Vec<vt::KindVt> {
    let v: Vec<vt::KindVt> = for_all_kinds!(kind_list);
    for (i, k) in v.iter().enumerate() {
        assert_eq!(k.idx, i);
        assert!(v.iter().filter(|o| o.id == k.id).count() == 1, "ids of the zoo must be distinct");
    }
    v
}

#[global_allocator]
static GLOBAL: alloc::Checking = alloc::Checking;
