//! Long lives. C27: what a registry holds must not creep. C28: nor must it ask for memory over and over.
use harness::alloc;
use harness::prng::{mix, Rng};
use harness::report::{self, p};
use harness::runner::{Ctx, Scale};
use shard_ecs::{Component, Entity, Registry};

macro_rules! kind {
    ($n:ident, $t:ty, $name:literal) => {
        #[allow(dead_code)]
        pub struct $n(pub $t);
        impl Component for $n {
            const NAME: &'static str = $name;
        }
    };
}
kind!(A, u32, "marathon::A");
kind!(B, [u64; 3], "marathon::B");
kind!(D, u8, "marathon::D");
kind!(Z, (), "marathon::Z");
kind!(H, Box<u64>, "marathon::H");
const ROW: [u64; 5] = [4, 24, 1, 0, 8];
const KINDS: usize = ROW.len();

fn a() -> A {
    A(1)
}
fn b() -> B {
    B([2; 3])
}
fn d() -> D {
    D(3)
}
fn h() -> H {
    alloc::host(|| H(Box::new(4)))
}

struct Life {
    reg: Registry,
    before: u64,
    /// Requests made before this life, and bytes requested.
    asked: (u64, u64),
    ents: Vec<(Entity, u8)>,
    dead: Vec<Entity>,
    rows: [u64; 1 << KINDS],
    peak: [u64; 1 << KINDS],
    most: u64,
    ops: u64,
    refused: u64,
}

/// A disagreement about an outcome is not about memory.
fn outcome(ok: bool, what: &str) -> bool {
    if !ok {
        report::violation(p(1) | p(2) | p(8), format!("a long-lived registry: {}", what));
    }
    ok
}

impl Life {
    fn enter(&mut self, set: u8) {
        let s = set as usize;
        self.rows[s] += 1;
        self.peak[s] = self.peak[s].max(self.rows[s]);
    }

    fn allowed(&self) -> u64 {
        let mut sum = 48 << 10;
        for (s, peak) in self.peak.iter().enumerate() {
            if *peak > 0 {
                let row: u64 = 4 + (0..KINDS).filter(|k| s >> k & 1 == 1).map(|k| ROW[k]).sum::<u64>();
                sum += 2048 + row * 4 * (*peak).max(128);
            }
        }
        sum + 32 * self.most.max(64)
    }

    /// Compares what is held with what the largest population justifies.
    fn thrift(&self, c: &mut Ctx, what: &str) -> bool {
        let held = alloc::sut_live().1 - self.before;
        let allowed = self.allowed();
        c.max("memory_held_per_mille_of_allowance", held * 1000 / allowed);
        c.max("operations_in_one_life", self.ops);
        let sig = mix(64 - self.ops.leading_zeros() as u64) ^ mix(64 - held.leading_zeros() as u64) ^ mix(self.most);
        c.expect(held <= allowed, sig, || {
            format!("{}: after {} operations ({} of them refused) a registry that never had more than {} entities holds {} bytes; {} at the most are justified",
                what, self.ops, self.refused, self.most, held, allowed)
        })
    }

    /// Compares what was requested in total with what growth to the largest population justifies.
    fn traffic(&self, c: &mut Ctx, what: &str) -> bool {
        let now = alloc::sut_requested();
        let (requests, bytes) = (now.0 - self.asked.0, now.1 - self.asked.1);
        let sets = self.peak.iter().filter(|p| **p > 0).count() as u64;
        // Twice the final size for storages that double; some words for whatever an operation may want to note down.
        let bytes_allowed = 2 * self.allowed() + 256 * self.ops;
        let requests_allowed = 64 + 2 * self.ops + sets * (KINDS as u64 + 1) * (64 - self.most.leading_zeros() as u64);
        c.max("bytes_requested_per_mille_of_allowance", bytes * 1000 / bytes_allowed);
        c.max("bytes_requested_in_one_life", bytes);
        c.max("operations_in_one_life", self.ops);
        let sig = mix(64 - self.ops.leading_zeros() as u64) ^ mix(64 - bytes.leading_zeros() as u64) ^ mix(self.most) ^ 28;
        c.expect(bytes <= bytes_allowed && requests <= requests_allowed, sig, || {
            format!("{}: within {} operations on at most {} entities in {} sets, {} bytes were requested in {} requests; {} in {} are justified",
                what, self.ops, self.most, sets, bytes, requests, bytes_allowed, requests_allowed)
        })
    }

    fn justified(&self, c: &mut Ctx, what: &str) -> bool {
        if c.prop == 28 {
            self.traffic(c, what)
        } else {
            self.thrift(c, what)
        }
    }

    fn create(&mut self, c: &mut Ctx, form: u64) -> bool {
        let reg = &mut self.reg;
        let (e, set) = match form % 8 {
            0 => (alloc::sut(|| reg.create_entity(a()).ok()), 1),
            1 => (alloc::sut(|| reg.create_entity(b()).ok()), 2),
            2 => (alloc::sut(|| reg.create_entity((b(), a())).ok()), 3),
            3 => (alloc::sut(|| reg.create_entity((a(), d())).ok()), 5),
            4 => (alloc::sut(|| reg.create_entity(Z(())).ok()), 8),
            5 => (alloc::sut(|| reg.create_entity((Z(()), a(), b(), d())).ok()), 15),
            6 => (alloc::sut(|| reg.create_entity((h(), Z(()))).ok()), 24),
            _ => (alloc::sut(|| reg.create_entity((d(), h(), b())).ok()), 22),
        };
        let Some(e) = e else { return outcome(false, "an entity could not be created") };
        self.enter(set);
        self.most = self.most.max(self.ents.len() as u64 + 1);
        let most = self.most;
        let ok = c.prop == 28 || c.expect((e.index() as u64) < 2 * most + 64, mix(most), || {
            format!("a new entity was given slot {}, although there were never more than {} entities at a time", e.index(), most)
        });
        self.ents.push((e, set));
        ok
    }

    fn destroy(&mut self, at: usize, way: u64) -> bool {
        let (e, set) = self.ents.swap_remove(at);
        self.rows[set as usize] -= 1;
        let reg = &mut self.reg;
        // remove_entity wants the exact set.
        let ok = match (way, set) {
            (0, 1) => alloc::sut(|| reg.remove_entity::<A>(e).is_some()),
            (0, 3) => alloc::sut(|| reg.remove_entity::<(A, B)>(e).is_some()),
            (0, 24) => alloc::sut(|| reg.remove_entity::<(Z, H)>(e).is_some()),
            _ => alloc::sut(|| reg.destroy_entity(e)),
        };
        if self.dead.len() < 64 {
            self.dead.push(e);
        } else {
            self.dead[e.index() as usize % 64] = e;
        }
        outcome(ok, "an entity could not be destroyed")
    }

    fn change(&mut self, at: usize, kind: usize) -> bool {
        let (e, set) = self.ents[at];
        let reg = &mut self.reg;
        let bit = 1u8 << kind;
        let has = set & bit != 0;
        let ok = alloc::sut(|| match (has, kind) {
            (false, 0) => reg.add_component(e, a()).is_ok(),
            (false, 1) => reg.add_component(e, b()).is_ok(),
            (false, 2) => reg.add_component(e, d()).is_ok(),
            (false, 3) => reg.add_component(e, Z(())).is_ok(),
            (false, _) => reg.add_component(e, h()).is_ok(),
            (true, 0) => reg.remove_component::<A>(e).is_ok(),
            (true, 1) => reg.remove_component::<B>(e).is_ok(),
            (true, 2) => reg.remove_component::<D>(e).is_ok(),
            (true, 3) => reg.remove_component::<Z>(e).is_ok(),
            (true, _) => reg.remove_component::<H>(e).is_ok(),
        });
        // The last component stays.
        let want = set != bit;
        if ok && want {
            self.rows[set as usize] -= 1;
            self.ents[at].1 = set ^ bit;
            self.enter(set ^ bit);
        } else {
            self.refused += 1;
        }
        outcome(ok == want, "a component could not be added or removed, or the last one could")
    }

    fn refuse(&mut self, r: &mut Rng) -> bool {
        self.refused += 1;
        let reg = &mut self.reg;
        let dead = if self.dead.is_empty() { Entity::INVALID } else { self.dead[r.index(self.dead.len())] };
        // A slot's version may have come round.
        if self.ents.iter().any(|x| x.0 == dead) {
            return true;
        }
        let live = if self.ents.is_empty() { (dead, 0) } else { self.ents[r.index(self.ents.len())] };
        let ok = alloc::sut(|| match r.below(8) {
            0 => !reg.destroy_entity(dead),
            1 => reg.add_component(dead, b()).is_err(),
            2 => reg.remove_component::<A>(dead).is_err(),
            3 => reg.create_entity((a(), A(5))).is_err(),
            4 => reg.remove_entity::<(A, B)>(dead).is_none(),
            5 => live.1 & 1 == 0 || reg.add_component(live.0, a()).is_err(),
            6 => live.1 & 4 != 0 || reg.remove_component::<D>(live.0).is_err(),
            _ => live.1 == 15 || reg.remove_entity::<(A, B, D, Z)>(live.0).is_none(),
        });
        outcome(ok, "an operation that has to be refused was not")
    }
}

pub fn run(c: &mut Ctx, r: &mut Rng) {
    let before = alloc::sut_live().1;
    let asked = alloc::sut_requested();
    let mut w = Life {
        reg: Registry::default(),
        before,
        asked,
        ents: Vec::new(),
        dead: Vec::new(),
        rows: [0; 1 << KINDS],
        peak: [0; 1 << KINDS],
        most: 0,
        ops: 0,
        refused: 0,
    };
    if !life(c, r, &mut w) {
        std::mem::forget(w.reg);
        return;
    }
    let (ops, refused) = (w.ops, w.refused);
    alloc::sut(|| drop(w.reg));
    c.count("operations", ops);
    c.count("operations_refused", refused);
    c.count("lives", 1);
    let left = alloc::sut_live().1 - before;
    c.expect(left == 0 || c.prop == 28, mix(77), || format!("a registry that is dropped after {} operations leaves {} bytes behind", ops, left));
}

fn life(c: &mut Ctx, r: &mut Rng, w: &mut Life) -> bool {
    // Slots are lost one per so many operations at the least, so lives are long.
    let length: u64 = match (c.scale, r.below(3)) {
        (Scale::Thorough, 0) => 20_000_000,
        (_, 0) => 2_000_000,
        (_, 1) => 600_000,
        _ => 150_000,
    } / if cfg!(debug_assertions) { 4 } else { 1 };
    let biggest = if c.prop == 28 {
        [1, 128, 129, 257, 2000, 4097, 9000, 40_000, 300_000][r.index(9)]
    } else {
        [1usize, 1, 2, 3, 17, 60, 127, 128, 129, 300, 1500][r.index(11)]
    };
    // Where storages of doubling size are exactly full, or half full, is where they might change their minds.
    let hover = c.prop == 28 && r.chance(2, 3);
    let mut around = 0;
    // Which entity goes: the youngest, the oldest, any.
    let victim = r.below(3);
    // Few sets, or all of them.
    let forms = match r.below(2) {
        _ if hover => 0o1111 * r.below(8),
        0 => r.next(),
        _ => u64::MAX,
    };
    let flipped = r.index(KINDS);
    // Of a hundred operations, how many change or are refused.
    let changes = [0, 5, 40][r.index(3)];
    let refusals = [0, 2, 50][r.index(3)];
    // Either the population stays near its maximum or it comes and goes.
    let breathe = r.chance(1, 2);
    c.log(|| format!("{} operations, at most {} entities, victims {}, {}% changes, {}% refused, breathing {}", length, biggest, victim, changes, refusals, breathe));
    let (mut growing, mut next) = (true, 0u64);
    while w.ops < length {
        w.ops += 1;
        if w.ops % 4096 == 1 {
            c.op(1);
        }
        if w.ops % 64 == 0 && !w.justified(c, "a long life") {
            return false;
        }
        let n = w.ents.len();
        let roll = r.below(100);
        if roll < changes && n > 0 {
            let (at, kind) = if hover { (r.index(n.min(3)), flipped) } else { (r.index(n), r.index(KINDS)) };
            if !w.change(at, kind) {
                return false;
            }
            continue;
        }
        if roll < changes + refusals {
            if !w.refuse(r) {
                return false;
            }
            continue;
        }
        if n == 0 {
            growing = true;
        } else if n >= biggest {
            growing = false;
        } else if !breathe {
            growing = r.chance(1, 2);
        }
        if hover {
            if around == 0 || r.chance(1, 50_000) {
                around = (64usize << r.index(14)).min(biggest) + r.index(2);
            }
            growing = n <= around;
        }
        if growing {
            next += 1;
            let form = if forms == u64::MAX { r.below(8) } else { forms >> (next % 4 * 3) & 7 };
            if !w.create(c, form) {
                return false;
            }
        } else {
            let at = match victim {
                0 => n - 1,
                1 => 0,
                _ => r.index(n),
            };
            let way = r.below(2);
            if !w.destroy(at, way) {
                return false;
            }
        }
    }
    w.justified(c, "the end of a long life")
}
