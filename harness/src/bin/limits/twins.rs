//! Equal histories: what a registry does depends on nothing but the changes made to it.
use super::marathon::{A, B, D, H, Z};
use harness::alloc;
use harness::prng::{mix, Rng};
use harness::report::{self, p};
use harness::runner::{Ctx, Scale};
use shard_ecs::{Entity, Registry};

type Op = [u64; 4];
const MANY: usize = 1 << 14;

fn id(e: Entity) -> u64 {
    e.index() as u64 | (e.version() as u64) << 32
}

fn hb(v: u64) -> H {
    H(Box::new(v))
}

/// One registry, and what its history gave it.
struct Side {
    reg: Registry,
    live: Vec<(Entity, u8)>,
    dead: Vec<Entity>,
}

impl Side {
    fn new() -> Side {
        Side { reg: Registry::default(), live: Vec::new(), dead: Vec::new() }
    }

    /// A change; what it returned.
    fn step(&mut self, op: Op, limit: usize) -> u64 {
        let [what, x, y, v] = op;
        let n = self.live.len();
        let reg = &mut self.reg;
        let what = if n == 0 { 0 } else if n >= limit && what < 40 { 40 } else { what };
        match what {
            // Many of one set.
            38 => {
                let mut sum = 0;
                for i in 0..(y % 256).min((limit - n.min(limit)) as u64) {
                    sum = mix(sum) ^ self.step([0, x, y, v + i], limit);
                }
                sum
            }
            0..=39 => {
                let w = v as u32;
                let (e, set) = match x % 9 {
                    0 => (reg.create_entity(A(w)).ok(), 1u8),
                    1 => (reg.create_entity(B([v, x, y])).ok(), 2),
                    2 => (reg.create_entity((B([v, x, y]), A(w))).ok(), 3),
                    3 => (reg.create_entity((A(w), D(w as u8))).ok(), 5),
                    4 => (reg.create_entity(Z(())).ok(), 8),
                    5 => (reg.create_entity((Z(()), A(w), B([v, x, y]), D(w as u8))).ok(), 15),
                    6 => (reg.create_entity((hb(v), Z(()))).ok(), 24),
                    7 => (reg.create_entity((D(w as u8), hb(v), B([v, x, y]))).ok(), 22),
                    _ => (reg.create_entity((A(w), B([v, x, y]), D(w as u8), Z(()), hb(v))).ok(), 31),
                };
                match e {
                    Some(e) => {
                        self.live.push((e, set));
                        id(e)
                    }
                    None => 1 << 60,
                }
            }
            40..=59 => {
                let (e, _) = self.live.swap_remove(x as usize % n);
                if self.dead.len() < 50 {
                    self.dead.push(e);
                }
                reg.destroy_entity(e) as u64
            }
            60..=64 => {
                let at = x as usize % n;
                let (e, set) = self.live[at];
                let got = match set {
                    1 => reg.remove_entity::<A>(e).map(|a| a.0 as u64),
                    3 => reg.remove_entity::<(A, B)>(e).map(|(a, b)| a.0 as u64 ^ mix(b.0[0])),
                    24 => reg.remove_entity::<(Z, H)>(e).map(|(_, h)| *h.0),
                    _ => None,
                };
                if got.is_some() {
                    self.live.swap_remove(at);
                    if self.dead.len() < 50 {
                        self.dead.push(e);
                    }
                }
                got.map_or(2 << 60, mix)
            }
            65..=84 => {
                let at = x as usize % n;
                let (e, set) = self.live[at];
                let bit = 1u8 << (y % 5);
                let got = match (set & bit != 0, y % 5) {
                    (false, 0) => reg.add_component(e, A(v as u32)).is_ok() as u64,
                    (false, 1) => reg.add_component(e, B([v, x, y])).is_ok() as u64,
                    (false, 2) => reg.add_component(e, D(v as u8)).is_ok() as u64,
                    (false, 3) => reg.add_component(e, Z(())).is_ok() as u64,
                    (false, _) => reg.add_component(e, hb(v)).is_ok() as u64,
                    (true, 0) => reg.remove_component::<A>(e).map_or(9, |a| mix(a.0 as u64)),
                    (true, 1) => reg.remove_component::<B>(e).map_or(9, |b| mix(b.0[0] ^ mix(b.0[2]))),
                    (true, 2) => reg.remove_component::<D>(e).map_or(9, |d| mix(d.0 as u64)),
                    (true, 3) => reg.remove_component::<Z>(e).map_or(9, |_| 7),
                    (true, _) => reg.remove_component::<H>(e).map_or(9, |h| mix(*h.0)),
                };
                if got != 9 && got != 0 {
                    self.live[at].1 = set ^ bit;
                }
                got
            }
            85..=94 => {
                let e = self.live[x as usize % n].0;
                match y % 3 {
                    0 => reg.get_component_mut::<A>(e).map_or(3, |a| core::mem::replace(&mut a.0, v as u32) as u64),
                    1 => reg.get_components_mut::<(D, B)>(e).map_or(3, |(d, b)| {
                        b.0[1] = v;
                        core::mem::replace(&mut d.0, v as u8) as u64
                    }),
                    _ => reg.get_component_mut::<H>(e).map_or(3, |h| core::mem::replace(&mut *h.0, v)),
                }
            }
            // Numbers everything in the order of an iteration, so that the order is kept in the values.
            95..=97 => {
                let mut k = v;
                match y % 3 {
                    0 => reg.iter_components_matching_mut::<A>().for_each(|s| s.iter_mut().for_each(|a| (k, a.0) = (k + 1, k as u32))),
                    1 => reg.iter_filtered_components_matching_mut::<(B, D), _>(|d| d.has_component::<A>()).for_each(|s| s.0.iter_mut().for_each(|b| (k, b.0[2]) = (k + 1, k))),
                    _ => reg.iter_components_exact_mut::<(Z, H)>().1.iter_mut().for_each(|h| (k, *h.0) = (k + 1, k)),
                }
                k
            }
            _ => {
                // Many go at once.
                let mut sum = 0;
                for _ in 0..(if y % 6 == 0 { x % 256 } else { x % 8 }).min(n as u64) {
                    let e = self.live.pop().unwrap().0;
                    sum = mix(sum) ^ reg.destroy_entity(e) as u64;
                }
                sum
            }
        }
    }

    /// Everything there is to see, in the order in which it is shown.
    fn observe(&self) -> Vec<u64> {
        let mut out = Vec::new();
        let r = &self.reg;
        out.extend(r.iter_entities().map(id));
        out.push(u64::MAX);
        r.iter_entity_components_matching::<A>().for_each(|(e, a)| out.extend(e.iter().zip(a).map(|(e, a)| id(*e) ^ mix(a.0 as u64))));
        out.push(u64::MAX);
        r.iter_entity_components_matching::<(B, D)>().for_each(|(e, (b, d))| out.extend((0..e.len()).map(|i| id(e[i]) ^ mix(b[i].0[0] ^ mix(b[i].0[1]) ^ mix(b[i].0[2] + 1)) ^ mix(d[i].0 as u64))));
        out.push(u64::MAX);
        r.iter_filtered_entity_components_matching::<H, _>(|d| !d.has_component::<A>()).for_each(|(e, h)| out.extend(e.iter().zip(h).map(|(e, h)| id(*e) ^ mix(*h.0))));
        out.push(u64::MAX);
        r.iter_components_matching::<(Z, B)>().for_each(|(_, b)| out.extend(b.iter().map(|b| b.0[0])));
        out.push(u64::MAX);
        let (e, (_, h)) = r.iter_entity_components_exact::<(Z, H)>();
        out.extend(e.iter().zip(h).map(|(e, h)| id(*e) ^ mix(*h.0)));
        out
    }

    /// What must not matter: reads, refused operations, moves of the registry itself.
    fn noise(&mut self, r: &mut Rng, shelf: &mut Vec<Vec<u8>>) -> u64 {
        let n = self.live.len();
        let some = (n > 0).then(|| self.live[r.index(n.max(1))]);
        let dead = if self.dead.is_empty() { Entity::INVALID } else { self.dead[r.index(self.dead.len())] };
        // Handles come round after 256 lives of a slot.
        let dead = if self.live.iter().any(|l| l.0 == dead) { Entity::INVALID } else { dead };
        let reg = &mut self.reg;
        let kind = if r.chance(1, 3) { 1 } else { r.below(12) };
        match kind {
            0 => drop(reg.get_component::<A>(dead)),
            1 => drop(some.map(|(e, _)| match r.below(8) {
                0 => reg.get_components::<(D, A)>(e).is_some(),
                1 => reg.has_components::<(A, Z)>(e) ^ reg.has_component::<H>(e),
                2 => reg.get_component_mut::<A>(e).is_some(),
                3 => reg.get_component_mut::<B>(e).is_some(),
                4 => reg.get_component_mut::<H>(e).is_some(),
                5 => reg.get_components_mut::<(Z, A)>(e).is_some(),
                6 => reg.get_components_mut::<(H, B, D)>(e).is_some(),
                _ => reg.get_component::<Z>(e).is_some(),
            })),
            2 => drop(reg.create_entity((A(1), B([1; 3]), A(2)))),
            3 => drop((reg.destroy_entity(dead), reg.add_component(dead, A(3)), reg.remove_component::<Z>(dead).is_ok())),
            4 => drop(some.map(|(e, s)| match s & 1 {
                1 => reg.add_component(e, A(5)).is_ok(),
                _ => reg.remove_component::<A>(e).is_ok(),
            })),
            5 => drop(some.filter(|s| s.1 != 15 && s.1 != 3).map(|(e, _)| (reg.remove_entity::<(A, B, D, Z)>(e).is_some(), reg.remove_entity::<(B, A)>(e).is_some()))),
            6 => drop((reg.iter_components_matching_mut::<(H, A)>().count(), reg.iter_filtered_components_matching::<(D, D), _>(|_| true).count(), reg.iter_components_exact_mut::<(H, B)>().0.len())),
            // Abandoned half way.
            7 => {
                drop(reg.iter_components_matching_mut::<B>().next());
                drop(reg.iter_entities().nth(1));
                drop(reg.iter_filtered_entity_components_matching_mut::<Z, _>(|d| d.len() > 1).next());
            }
            8 => {
                // The registry goes elsewhere in memory.
                let boxed = Box::new([core::mem::take(reg), Registry::default()]);
                let [a, b] = *boxed;
                drop(b);
                *reg = a;
            }
            // Starting threads is slow.
            9 if r.chance(1, 30) => {
                let moved = core::mem::take(reg);
                *reg = std::thread::spawn(move || moved).join().unwrap();
            }
            9 | 10 => {
                // Another registry lives and dies.
                let mut other = Registry::default();
                let e: Vec<_> = (0..r.below(90)).filter_map(|i| other.create_entity((B([i; 3]), Z(()))).ok()).collect();
                for e in e.iter().step_by(2) {
                    other.add_component(*e, A(1)).ok();
                    other.destroy_entity(*e);
                }
            }
            _ => {
                // The heap looks different.
                if shelf.len() < 40 {
                    shelf.push(vec![0xA5; 1 + r.index(9000)]);
                } else {
                    let at = r.index(shelf.len());
                    shelf.swap_remove(at);
                }
            }
        }
        kind
    }
}

pub fn run(c: &mut Ctx, r: &mut Rng) {
    let limit = [2, 8, 40, 200, 1000, 3000][r.index(6)];
    let steps = if c.scale == Scale::Thorough { 40_000 } else { 4000 };
    // Few sets with many entities, or many sets.
    let forms: Vec<u64> = (0..[1, 2, 9][r.index(3)]).map(|_| r.below(9)).collect();
    let few = |r: &mut Rng| r.below(1 << 40) * 9 + forms[r.index(forms.len())];
    let ops: Vec<Op> = (0..steps).map(|_| [r.below(100), few(r), r.next(), r.next() >> 8]).collect();
    let every = 1 + r.index(if limit > 500 { 900 } else { 120 });
    let later = r.chance(1, 2);
    let density = [1u64, 10, 60][r.index(3)];
    let mut noise = Rng::new(r.next());
    c.log(|| format!("{} operations on at most {} entities, observed every {}; the twin lives {}, disturbed {} times per 10 operations", steps, limit, every, if later { "later, on another thread" } else { "beside it" }, density));
    let play = |w: &mut Side, i: usize| -> (u64, Option<Vec<u64>>) {
        let got = alloc::sut(|| w.step(ops[i], limit));
        (got, (i % every == every - 1 || i + 1 == ops.len()).then(|| w.observe()))
    };
    let mut first = Side::new();
    let mut disturbed = 0;
    let mut kinds = 0u64;
    let check = |c: &mut Ctx, i: usize, a: (u64, Option<Vec<u64>>), b: (u64, Option<Vec<u64>>)| -> bool {
        let sig = mix(ops[i][0]) ^ mix(64 - a.0.leading_zeros() as u64) ^ mix(a.1.as_ref().map_or(0, |v| 64 - (v.len() as u64).leading_zeros() as u64 + 1));
        if let Some(v) = &a.1 {
            c.count("observations", 1);
            c.count("things_observed", v.len() as u64);
            c.max("things_observed_at_once", v.len() as u64);
        }
        c.expect(a == b, sig, || {
            let at = a.1.iter().flatten().zip(b.1.iter().flatten()).position(|(x, y)| x != y);
            format!("operation {} {:?}: one registry returns {:#x}, its twin with the same history {:#x}; what they show differs at {:?} (of {:?} and {:?})",
                i, ops[i], a.0, b.0, at, a.1.as_ref().map(Vec::len), b.1.as_ref().map(Vec::len))
        })
    };
    let mut disturb = |w: &mut Side, noise: &mut Rng, shelf: &mut Vec<Vec<u8>>| {
        let times = density / 10 + (noise.below(10) < density % 10) as u64;
        for _ in 0..times {
            kinds |= 1 << w.noise(noise, shelf);
            disturbed += 1;
        }
    };
    if later {
        let record: Vec<_> = (0..ops.len()).map(|i| play(&mut first, i)).collect();
        drop(first);
        let (play, disturb) = (&play, &mut disturb);
        let replay = std::thread::scope(|s| {
            s.spawn(move || {
                let mut second = Side::new();
                let mut shelf = vec![vec![1u8; 777]; 30];
                let out: Vec<_> = (0..record.len()).map(|i| {
                    disturb(&mut second, &mut noise, &mut shelf);
                    play(&mut second, i)
                }).collect();
                (record, out)
            }).join()
        });
        match replay {
            Ok((record, replay)) => {
                for (i, (a, b)) in record.into_iter().zip(replay).enumerate() {
                    if !check(c, i, a, b) {
                        return;
                    }
                    if i % MANY == 0 {
                        c.op(1);
                    }
                }
            }
            Err(e) => report::violation(p(29), format!("the twin panics: {}", harness::runner::panic_text(&e))),
        }
    } else {
        let mut second = Side::new();
        let mut shelf = Vec::new();
        for i in 0..ops.len() {
            if i % 500 == 0 {
                c.op(2);
            }
            let a = play(&mut first, i);
            disturb(&mut second, &mut noise, &mut shelf);
            let b = play(&mut second, i);
            if !check(c, i, a, b) {
                std::mem::forget((first, second));
                return;
            }
        }
    }
    c.count("twins", 1);
    c.count("disturbances", disturbed);
    c.max("kinds_of_disturbance", kinds.count_ones() as u64);
}
