//! C30: one scenario, to be run under an instruction counter: a world of `n` entities (or sets), then `k` operations.
//! What `k` operations cost is the difference between two runs, with and without them.
use shard_ecs::*;
use std::hint::black_box;

/// An allocator whose own work never depends on what was allocated before: it takes from the end of large chunks, and
/// forgets what is given back.
struct Bump(std::sync::atomic::AtomicUsize, std::sync::atomic::AtomicUsize);
#[global_allocator]
static BUMP: Bump = Bump(std::sync::atomic::AtomicUsize::new(0), std::sync::atomic::AtomicUsize::new(0));
unsafe impl std::alloc::GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        use std::sync::atomic::Ordering::Relaxed;
        let mut at = (self.0.load(Relaxed) + l.align() - 1) & !(l.align() - 1);
        if at + l.size() > self.1.load(Relaxed) {
            let n = l.size() + l.align() + (64 << 20);
            at = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align())) as usize;
            self.1.store(at + n, Relaxed);
        }
        self.0.store(at + l.size(), Relaxed);
        at as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: std::alloc::Layout) {}
}

macro_rules! parts {
    ($($t:ident: $inner:ty, $name:literal;)*) => {
        $(
            struct $t(#[allow(dead_code)] $inner);
            impl Component for $t {
                const NAME: &'static str = $name;
            }
        )*
    };
}
parts! {
    A: u64, "cost::A"; B: Box<u32>, "cost::B"; C: [u8; 3], "cost::C"; D: (), "cost::D"; X: u32, "cost::X";
    S0: u8, "cost::S0"; S1: u16, "cost::S1"; S2: u32, "cost::S2"; S3: u64, "cost::S3"; S4: u8, "cost::S4"; S5: u8, "cost::S5";
    S6: u8, "cost::S6"; S7: u8, "cost::S7"; S8: u8, "cost::S8"; S9: u8, "cost::S9"; Sa: u8, "cost::Sa"; Sb: u8, "cost::Sb";
}

struct World {
    r: Registry,
    /// Handles of the entities of the set that matters.
    e: Vec<Entity>,
    dead: Vec<Entity>,
    x: u64,
    k: u64,
    pick: u8,
}

impl World {
    fn below(&mut self, n: usize) -> usize {
        self.x ^= self.x << 13;
        self.x ^= self.x >> 7;
        self.x ^= self.x << 17;
        (self.x >> 11) as usize % n
    }
    /// An entity that stays.
    fn one(&mut self) -> Entity {
        let i = match self.pick {
            b'f' => 0,
            b'l' => self.e.len() - 1,
            _ => self.below(self.e.len()),
        };
        self.e[i]
    }
    /// An entity that leaves the set that matters: the oldest, the newest, or any.
    fn take(&mut self) -> Entity {
        let i = match self.pick {
            b'f' => 0,
            b'l' => return self.e.pop().unwrap(),
            _ => self.below(self.e.len()),
        };
        self.e.swap_remove(i)
    }
    fn bury(&mut self) {
        let e = self.take();
        assert!(self.r.destroy_entity(e));
        self.dead.push(e);
    }
}

fn ab(n: u64) -> (A, B) {
    (A(n), B(Box::new(n as u32)))
}

const MEMBERS: usize = 12;
type Add = fn(&mut Registry, Entity) -> bool;
const ADD: [Add; MEMBERS] = [
    |r, e| r.add_component(e, S0(0)).is_ok(), |r, e| r.add_component(e, S1(0)).is_ok(), |r, e| r.add_component(e, S2(0)).is_ok(),
    |r, e| r.add_component(e, S3(0)).is_ok(), |r, e| r.add_component(e, S4(0)).is_ok(), |r, e| r.add_component(e, S5(0)).is_ok(),
    |r, e| r.add_component(e, S6(0)).is_ok(), |r, e| r.add_component(e, S7(0)).is_ok(), |r, e| r.add_component(e, S8(0)).is_ok(),
    |r, e| r.add_component(e, S9(0)).is_ok(), |r, e| r.add_component(e, Sa(0)).is_ok(), |r, e| r.add_component(e, Sb(0)).is_ok(),
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let n: usize = args[3].parse().unwrap();
    let k: u64 = args[4].parse().unwrap();
    let seed: u64 = args[5].parse().unwrap();
    let mut w = World { r: Registry::default(), e: Vec::with_capacity(1 << 18), dead: Vec::with_capacity(1 << 18), x: seed * 0x9E37_79B9_7F4A_7C15 | 1, k, pick: args[2].as_bytes()[0] };
    let op = args[1].as_str();
    let (world, op) = op.split_once('/').unwrap();
    match world {
        // One set of n entities.
        "rows" => {
            for i in 0..n {
                w.e.push(w.r.create_entity(ab(i as u64)).ok().unwrap());
            }
        }
        // The same, and as many in another set they may move to and from.
        "wide" => {
            for i in 0..n {
                w.e.push(w.r.create_entity(ab(i as u64)).ok().unwrap());
                w.r.create_entity((A(0), B(Box::new(1)), C([1; 3]))).ok().unwrap();
                w.r.create_entity(B(Box::new(1))).ok().unwrap();
            }
        }
        // n entities live, n have died.
        "graves" => {
            for i in 0..2 * n {
                w.e.push(w.r.create_entity(ab(i as u64)).ok().unwrap());
            }
            let pick = std::mem::replace(&mut w.pick, b'r');
            for _ in 0..n {
                w.bury();
            }
            w.pick = pick;
        }
        // n entities, in sets of all kinds; those that matter are few and have a set of their own.
        "sets" => {
            let mut mask = 0usize;
            while mask < n {
                mask += 1;
                let e = w.r.create_entity(X(1)).ok().unwrap();
                for (i, add) in ADD.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        assert!(add(&mut w.r, e));
                    }
                }
            }
            for i in 0..4 * 1024 {
                w.e.push(w.r.create_entity(ab(i)).ok().unwrap());
            }
        }
        // n entities in a set that does not matter, some in one that does.
        "aside" => {
            for i in 0..n {
                let e = w.r.create_entity(ab(i as u64)).ok().unwrap();
                if i % 2 == 0 {
                    w.e.push(e);
                }
            }
            for i in 0..20 {
                w.r.create_entity((X(i), C([1; 3]))).ok().unwrap();
            }
        }
        "life" => {}
        _ => panic!("no such world"),
    }
    for i in 0..k {
        match op {
            "create" => {
                let e = w.r.create_entity(ab(i)).ok().unwrap();
                w.e.push(e);
            }
            "create_other" => {
                black_box(w.r.create_entity((A(i), D(()))).ok().unwrap());
            }
            "destroy" => w.bury(),
            "churn" => {
                w.bury();
                let e = w.r.create_entity(ab(i)).ok().unwrap();
                w.e.push(e);
            }
            "remove_entity" => {
                let e = w.take();
                black_box(w.r.remove_entity::<(B, A)>(e).unwrap());
            }
            "remove_entity_refused" => {
                let e = w.one();
                assert!(w.r.remove_entity::<(B, C)>(e).is_none());
            }
            "add" => {
                let e = w.take();
                assert!(w.r.add_component(e, C([2; 3])).is_ok());
            }
            "add_refused" => {
                let e = w.one();
                assert!(w.r.add_component(e, A(2)).is_err());
            }
            "remove" => {
                let e = w.take();
                assert!(w.r.remove_component::<A>(e).is_ok());
            }
            "remove_refused" => {
                let e = w.one();
                assert!(w.r.remove_component::<C>(e).is_err());
            }
            "there_and_back" => {
                let e = w.one();
                assert!(w.r.add_component(e, X(2)).is_ok());
                assert!(w.r.remove_component::<X>(e).is_ok());
            }
            "get" => {
                let e = w.one();
                black_box(w.r.get_component::<B>(e).unwrap());
                assert!(w.r.get_component::<C>(e).is_none());
            }
            "get_group" => {
                let e = w.one();
                black_box(w.r.get_components::<(B, A)>(e).unwrap());
                assert!(w.r.get_components::<(B, C)>(e).is_none());
            }
            "get_mut" => {
                let e = w.one();
                w.r.get_component_mut::<A>(e).unwrap().0 = i;
                assert!(w.r.get_component_mut::<C>(e).is_none());
            }
            "get_group_mut" => {
                let e = w.one();
                w.r.get_components_mut::<(B, A)>(e).unwrap().1 .0 = i;
                assert!(w.r.get_components_mut::<(B, C)>(e).is_none());
            }
            "has" => {
                let e = w.one();
                assert!(w.r.has_component::<A>(e) && !w.r.has_component::<C>(e));
                assert!(w.r.has_components::<(B, A)>(e) && !w.r.has_components::<(A, C)>(e));
            }
            // Everything that a dead entity refuses.
            "stale" => {
                let j = w.below(w.dead.len());
                let e = w.dead[j];
                assert!(w.r.get_component::<A>(e).is_none() && w.r.get_components_mut::<(A, B)>(e).is_none() && !w.r.has_component::<A>(e));
                assert!(!w.r.destroy_entity(e) && w.r.remove_entity::<(A, B)>(e).is_none());
                assert!(w.r.add_component(e, X(1)).is_err() && w.r.remove_component::<A>(e).is_err());
            }
            "none" => {
                let e = Entity::INVALID;
                assert!(w.r.get_component::<A>(e).is_none() && w.r.get_components_mut::<(A, B)>(e).is_none() && !w.r.has_component::<A>(e));
                assert!(!w.r.destroy_entity(e) && w.r.remove_entity::<(A, B)>(e).is_none());
                assert!(w.r.add_component(e, X(1)).is_err() && w.r.remove_component::<A>(e).is_err());
            }
            // Iterations that have no use for the many.
            "iterate" => assert_eq!(w.r.iter_components_matching::<X>().map(|x| x.len()).sum::<usize>(), 20),
            "iterate_mut" => assert_eq!(w.r.iter_components_matching_mut::<(X, C)>().map(|x| x.0.len()).sum::<usize>(), 20),
            "iterate_entities" => assert_eq!(w.r.iter_entity_components_matching::<C>().map(|x| x.0.len()).sum::<usize>(), 20),
            "iterate_entities_mut" => assert_eq!(w.r.iter_entity_components_matching_mut::<C>().map(|x| x.0.len()).sum::<usize>(), 20),
            "iterate_filtered" => assert_eq!(w.r.iter_filtered_components_matching::<X, _>(|_| true).map(|x| x.len()).sum::<usize>(), 20),
            "iterate_filtered_out" => assert_eq!(w.r.iter_filtered_components_matching_mut::<A, _>(|_| false).count(), 0),
            "iterate_exact" => assert_eq!(w.r.iter_components_exact::<(C, X)>().1.len(), 20),
            "iterate_exact_mut" => assert_eq!(w.r.iter_entity_components_exact_mut::<(C, X)>().0.len(), 20),
            "iterate_nothing" => assert_eq!(w.r.iter_components_matching::<(A, X)>().count() + w.r.iter_components_exact::<A>().len(), 0),
            // Whole lives of n = k entities.
            "grow" => {
                let e = w.r.create_entity(ab(i)).ok().unwrap();
                w.e.push(e);
                if i + 1 == w.k {
                    let mut n = 0;
                    for x in w.r.iter_entity_components_matching_mut::<(A, B)>() {
                        n += x.1 .1.len().min(x.0.len());
                    }
                    assert_eq!((n as u64, w.r.iter_entities().count() as u64), (w.k, w.k));
                }
            }
            "live" => {
                let e = w.r.create_entity(ab(i)).ok().unwrap();
                w.e.push(e);
                if i % 3 == 1 {
                    let e = w.one();
                    if w.r.add_component(e, C([1; 3])).is_err() {
                        assert!(w.r.remove_component::<C>(e).is_ok());
                    }
                }
                if i % 4 == 1 {
                    w.bury();
                }
                if i + 1 == w.k {
                    let n = w.r.iter_entities().count();
                    assert_eq!(n, w.e.len());
                    while !w.e.is_empty() {
                        w.bury();
                    }
                }
            }
            _ => panic!("no such operation"),
        }
    }
    black_box(&w);
}
