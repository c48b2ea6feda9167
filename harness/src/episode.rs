//! Episodes: a random profile, a history of operations as plain data, and the monitoring in between.

use crate::faults::{FaultCounts, Mode};
use crate::kinds::NK;
use crate::ledger;
use crate::prng::{mix, Rng};
use crate::progress;
use crate::report::{self, p, props_string, Violation};
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub code: u8,
    pub x: u64,
    pub y: u64,
    pub z: u64,
}

pub const OPS: [&str; 14] = [
    "create",
    "destroy",
    "remove",
    "add",
    "remove component",
    "write single",
    "write group",
    "write iteration",
    "exchange in iteration",
    "batch create",
    "batch destroy",
    "malformed",
    "probe dead",
    "route",
];

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub kinds: Vec<usize>,
    pub groups: Vec<usize>,
    pub weights: [u32; 14],
    pub ops: usize,
    pub max_live: usize,
    pub batch: u64,
    pub dead: u64,
    pub full_every: usize,
    pub worlds: usize,
}

pub const PROFILES: [&str; 11] = [
    "dense", "nested", "wide", "sets", "growth", "churn", "layout", "boundary", "two", "lean", "deep",
];

pub const HEAVY: [usize; 4] = [13, 19, 24, 25];

/// Which profiles a property's check draws from, and how often.
fn profile_weights(prop: u32, scale: Scale) -> [u32; 11] {
    if scale == Scale::Tiny {
        return [4, 3, 3, 0, 0, 0, 2, 0, 1, 3, 0];
    }
    //  dense nested wide sets growth churn layout boundary two lean deep
    match prop {
        1 => [6, 4, 3, 2, 1, 1, 3, 3, 1, 3, 2],
        2 => [4, 2, 1, 1, 1, 8, 0, 2, 4, 3, 1],
        3 => [8, 4, 3, 1, 1, 2, 3, 3, 2, 3, 2],
        4 | 5 | 6 => [6, 6, 3, 4, 1, 1, 1, 3, 1, 3, 2],
        7 => [5, 3, 3, 1, 1, 1, 6, 4, 1, 3, 2],
        8 => [8, 6, 3, 1, 0, 1, 2, 2, 1, 3, 1],
        11 => [2, 3, 14, 3, 0, 0, 3, 1, 1, 1, 2],
        21 => [8, 5, 6, 1, 0, 2, 2, 2, 2, 3, 1],
        22 => [8, 6, 3, 1, 1, 1, 3, 3, 1, 3, 2],
        24 => [5, 2, 2, 2, 1, 6, 0, 2, 3, 3, 2],
        26 => [4, 10, 6, 1, 0, 0, 4, 2, 0, 2, 2],
        27 => [2, 1, 1, 4, 4, 8, 1, 3, 1, 1, 4],
        12 => [7, 3, 2, 0, 0, 2, 1, 3, 0, 5, 1],
        13 => [5, 3, 3, 0, 0, 0, 2, 8, 0, 4, 1],
        _ => [7, 4, 3, 2, 1, 2, 2, 3, 2, 3, 2],
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scale {
    Tiny,
    Quick,
    Thorough,
}

const CHAIN: [usize; 14] = [20, 4, 21, 7, 5, 0, 22, 1, 17, 11, 12, 2, 18, 6];

fn weighted(r: &mut Rng, w: &[u32]) -> usize {
    let total: u64 = w.iter().map(|v| *v as u64).sum();
    let mut v = r.below(total);
    for (i, x) in w.iter().enumerate() {
        if v < *x as u64 {
            return i;
        }
        v -= *x as u64;
    }
    0
}

pub fn profile(r: &mut Rng, t: &Tables, prop: u32, scale: Scale) -> Profile {
    let kind = weighted(r, &profile_weights(prop, scale));
    let name = PROFILES[kind];
    let light: Vec<usize> = (0..NK).filter(|k| !HEAVY.contains(k)).collect();
    let sample = |r: &mut Rng, from: &[usize], n: usize| {
        let mut v = from.to_vec();
        r.shuffle(&mut v);
        v.truncate(n);
        v
    };
    let big = if scale == Scale::Thorough { 3 } else { 1 };
    let mut pr = Profile {
        name,
        kinds: light.clone(),
        groups: vec![],
        //        cre des rem add rmc ws wg wi sw bc bd mal prb route
        weights: [14, 7, 6, 14, 12, 6, 5, 3, 2, 2, 2, 3, 3, 3],
        ops: 160,
        max_live: 40,
        batch: 4,
        dead: 12,
        full_every: 1,
        worlds: 1,
    };
    match name {
        "dense" => {
            let n = 2 + r.index(6);
            pr.kinds = sample(r, &light, n);
        }
        "nested" => {
            let n = 3 + r.index(12);
            pr.kinds = CHAIN[..n.min(14)].to_vec();
        }
        "wide" => {
            pr.max_live = 14;
            pr.weights = [8, 3, 4, 30, 20, 4, 4, 2, 1, 0, 0, 2, 2, 10];
            if r.chance(1, 2) {
                let n = 14 + r.index(5);
                pr.kinds = sample(r, &light, n);
            }
        }
        "sets" => {
            pr.ops = 2500 * big;
            pr.max_live = 500;
            pr.full_every = 120;
            pr.weights = [14, 3, 2, 50, 20, 2, 2, 1, 1, 0, 0, 1, 1, 6];
        }
        "growth" => {
            let n = 1 + r.index(3);
            let small = [0, 1, 2, 3, 6, 7, 14, 15, 16, 20, 21, 22];
            pr.kinds = sample(r, &small, n + 1);
            pr.ops = 60;
            pr.max_live = if scale == Scale::Thorough { 400_000 } else { 90_000 };
            pr.batch = pr.max_live as u64;
            pr.full_every = 12;
            pr.weights = [5, 5, 5, 10, 10, 5, 5, 1, 1, 20, 6, 1, 1, 0];
        }
        "churn" => {
            let n = 1 + r.index(3);
            pr.kinds = sample(r, &light, n);
            pr.max_live = 1 + r.index(8);
            pr.ops = 4000 * big;
            pr.full_every = 40;
            pr.dead = 10;
            pr.weights = [40, 36, 10, 6, 6, 1, 1, 0, 0, 2, 4, 1, 4, 0];
        }
        "layout" => {
            pr.kinds = sample(r, &HEAVY, 2);
            pr.kinds.extend(sample(r, &[7, 8, 9, 10, 11, 12, 18, 22, 23], 4));
            pr.ops = 70;
            pr.max_live = 140;
            pr.batch = 140;
            pr.full_every = 6;
        }
        "boundary" => {
            let n = 2 + r.index(4);
            pr.kinds = sample(r, &light, n);
            pr.ops = 220;
            pr.max_live = 600;
            pr.batch = 300;
            pr.full_every = 10;
            pr.weights = [14, 8, 6, 12, 12, 4, 4, 2, 1, 10, 6, 1, 1, 2];
        }
        "two" => {
            let n = 2 + r.index(4);
            pr.kinds = sample(r, &light, n);
            pr.worlds = 2;
            pr.max_live = 20;
        }
        "lean" => {
            // Very few components and entities: deep in repetition, exhaustive in relations.
            let n = 1 + r.index(3);
            pr.kinds = sample(r, &light, n);
            pr.max_live = 1 + r.index(6);
            pr.ops = 120;
        }
        _ => {
            // "deep": long history of a medium world, checked now and then.
            let n = 4 + r.index(8);
            pr.kinds = sample(r, &light, n);
            pr.ops = 3000 * big;
            pr.max_live = 300;
            pr.full_every = 60;
            pr.batch = 40;
        }
    }
    if scale == Scale::Tiny {
        pr.ops = pr.ops.min(10);
        pr.max_live = pr.max_live.min(5);
        pr.batch = pr.batch.min(3);
        pr.kinds.retain(|k| !HEAVY.contains(k));
        pr.worlds = 1;
        if pr.kinds.is_empty() {
            pr.kinds.push(20);
        }
    }
    // Swarm: switch some operations off.
    if r.chance(1, 3) {
        for i in 1..14 {
            if r.chance(1, 4) {
                pr.weights[i] = 0;
            }
        }
    }
    match prop {
        8 => pr.weights[11] += 25,
        21 => {
            pr.weights[11] += 8;
            pr.weights[12] += 10;
            pr.dead += 10;
        }
        22 => {
            for i in 5..9 {
                pr.weights[i] += 6;
            }
        }
        25 => pr.weights[2] += 25,
        26 => {
            pr.weights[6] += 8;
            pr.weights[2] += 8;
        }
        2 => pr.weights[12] += 6,
        12 => {
            pr.ops = pr.ops.min(400);
            pr.weights[1] += 20;
            if r.chance(1, 2) {
                let n = 1 + r.index(4);
                let extra = sample(r, &[3, 4, 5, 7, 8, 9, 12, 17, 18, 20, 22], n);
                pr.kinds.extend(extra);
                pr.kinds.sort_unstable();
                pr.kinds.dedup();
            }
        }
        13 => {
            pr.ops = pr.ops.min(200);
            pr.max_live = 600;
            pr.batch = 300;
            pr.weights[9] += 8;
            pr.weights[3] += 8;
            pr.weights[4] += 8;
            if r.chance(2, 3) {
                let n = 1 + r.index(3);
                let extra = sample(r, &[9, 10, 12, 15, 16, 22], n);
                pr.kinds.extend(extra);
                pr.kinds.sort_unstable();
                pr.kinds.dedup();
            }
        }
        11 => pr.weights[13] += 10,
        _ => {}
    }
    let mask: u32 = pr.kinds.iter().fold(0, |m, k| m | 1 << k);
    pr.groups = (0..t.groups.len()).filter(|g| t.groups[*g].valid && t.groups[*g].set & !mask == 0).collect();
    if name != "growth" && name != "layout" && scale != Scale::Tiny && r.chance(1, 3) {
        // Some foreign groups, for relations that overlap only in part.
        for _ in 0..4 {
            let g = r.index(t.groups.len());
            if t.groups[g].valid && t.groups[g].kinds.iter().all(|k| !HEAVY.contains(&(*k as usize))) {
                pr.groups.push(g);
            }
        }
    }
    pr
}

impl Op {
    pub fn random(r: &mut Rng, pr: &Profile) -> Op {
        Op { code: weighted(r, &pr.weights) as u8, x: r.next(), y: r.next(), z: r.next() }
    }
}

/// Handles that were never issued, and odd ones.
fn forged(w: &World, v: u64) -> u32 {
    let some = if w.order.is_empty() { 0 } else { w.order[(v >> 8) as usize % w.order.len()] };
    match v % 8 {
        0 => u32::MAX,
        1 => (v >> 16) as u32,
        2 => some ^ (1 << ((v >> 40) % 32)),
        3 => some.wrapping_add(1),
        4 => some.wrapping_sub(1),
        5 => some.wrapping_add(256),
        6 => 0xFFFF_FF00 | (v >> 50) as u32 & 0xFF,
        _ => ((v >> 20) as u32 % 300) << 8 | (v >> 50) as u32 & 0xFF,
    }
}

fn pick_handle(w: &World, pr: &Profile, x: u64) -> u32 {
    let class = x % 100;
    let v = mix(x);
    if class < pr.dead / 2 && !w.dead.is_empty() {
        return w.dead[v as usize % w.dead.len()];
    }
    if class < pr.dead {
        return forged(w, v);
    }
    if w.order.is_empty() {
        return forged(w, v);
    }
    // Favour the first and last entities, whose rows are the corner cases.
    match v % 8 {
        0 => w.order[0],
        1 => w.order[w.order.len() - 1],
        _ => w.order[(v >> 8) as usize % w.order.len()],
    }
}

fn pick<T: Copy>(v: &[T], x: u64) -> T {
    v[x as usize % v.len()]
}

/// Fills sets up to where their storage is exactly full (or one row off), where growth and bounds are decided.
fn level(w: &mut World, pr: &Profile, choice: u64, budget: usize) {
    let t = w.t;
    let mut sets: Vec<(u32, u32)> = w.sets.iter().map(|(s, n)| (*s, *n)).filter(|x| x.1 > 0).collect();
    sets.sort_unstable_by_key(|x| mix(x.0 as u64 ^ choice));
    let mut budget = budget;
    for (set, rows) in sets {
        let g = match t.by_set.get(&set) {
            Some(v) if !HEAVY.iter().any(|k| set >> k & 1 == 1) => pick(v, choice >> 8),
            _ => continue,
        };
        let off = match mix(set as u64 ^ choice) % 8 {
            0 => -1i64,
            1 => 1,
            _ => 0,
        };
        let mut goal = 128i64;
        while goal + off < rows as i64 {
            goal *= 2;
        }
        let missing = (goal + off - rows as i64) as usize;
        if missing > budget || w.order.len() + missing > pr.max_live.max(600) {
            continue;
        }
        budget -= missing;
        w.c.levelled += 1;
        for _ in 0..missing {
            w.create(g);
            if report::any() {
                return;
            }
        }
        if off == 0 {
            overflow(w, g, set, mix(choice ^ set as u64 ^ 77));
            if report::any() {
                return;
            }
        }
    }
}

/// Creates hundreds of component sets of one size.
fn fan(w: &mut World, pr: &Profile, choice: u64, scale: Scale) {
    let t = w.t;
    let mut r = Rng::new(choice);
    let size = (2 + r.index(3)).min(pr.kinds.len());
    let most = if scale == Scale::Thorough { 3000 } else { 700 };
    let sets = 257 + r.index(most - 257);
    w.c.fans += 1;
    for _ in 0..sets {
        let mut kinds = pr.kinds.clone();
        r.shuffle(&mut kinds);
        kinds.truncate(size);
        let g = match t.by_set.get(&(1 << kinds[0])) {
            Some(v) => pick(v, r.next()),
            None => continue,
        };
        if let Some(h) = w.create(g) {
            for k in &kinds[1..] {
                w.add(h, *k);
            }
        }
        if report::any() {
            return;
        }
    }
}

/// Makes a full storage grow, by whichever operation.
fn overflow(w: &mut World, g: usize, set: u32, choice: u64) {
    let adds = match choice % 8 {
        0 => {
            w.create(g);
            return;
        }
        1 => return,
        n => n % 2 == 0,
    };
    let bits = set.count_ones() as usize;
    if if adds { bits < 2 } else { bits > 13 } {
        return;
    }
    let kinds: Vec<usize> = (0..NK).filter(|k| (set >> k & 1 == 1) == adds && !HEAVY.contains(k)).collect();
    if kinds.is_empty() {
        return;
    }
    let k = pick(&kinds, choice >> 3);
    let mut some: Vec<u32> = w.order.iter().copied().filter(|h| w.ents[h].set == set).collect();
    let n = 1 + (choice >> 20) as usize % 3;
    for i in 0..n.min(some.len()) {
        let j = i + (mix(choice ^ i as u64) as usize) % (some.len() - i);
        some.swap(i, j);
    }
    some.truncate(n);
    let step = |w: &mut World, h: u32, add: bool| if add { w.add(h, k) } else { w.remove_component(h, k) };
    for h in &some {
        step(w, *h, !adds);
        if report::any() {
            return;
        }
    }
    for _ in 0..some.len() {
        w.create(g);
        if report::any() {
            return;
        }
    }
    // The storage is full again, and these come back.
    for h in &some {
        step(w, *h, adds);
        if report::any() {
            return;
        }
    }
}

pub fn apply(w: &mut World, pr: &Profile, op: Op) {
    let t = w.t;
    let handle = pick_handle(w, pr, op.x);
    let group = |y: u64| pick(&pr.groups, y >> 3);
    let kind = |w: &World, y: u64, present: bool| {
        // Half of the time one that the entity has, or lacks.
        let set = w.ents.get(&handle).map(|e| e.set).unwrap_or(0);
        if y % 4 != 0 {
            let c: Vec<usize> = if present {
                set_kinds(set).collect()
            } else {
                pr.kinds.iter().copied().filter(|k| set >> k & 1 == 0).collect()
            };
            if !c.is_empty() {
                return pick(&c, y >> 2);
            }
        }
        pick(&pr.kinds, y >> 2)
    };
    match op.code {
        0 => {
            if w.order.len() < pr.max_live {
                w.create(group(op.y));
            } else {
                w.destroy(handle);
            }
        }
        1 => w.destroy(handle),
        2 => {
            // Mostly a group with exactly the entity's components, else any relation.
            let set = w.ents.get(&handle).map(|e| e.set).unwrap_or(0);
            let exact = t.by_set.get(&set).filter(|_| op.z % 8 < 4);
            let g = match exact {
                Some(v) => pick(v, op.y),
                None => related(t, pr, set, op.y),
            };
            w.remove_entity(handle, g);
        }
        3 => {
            let k = kind(w, op.y, false);
            w.add(handle, k);
        }
        4 => {
            let k = kind(w, op.y, true);
            w.remove_component(handle, k);
        }
        5 => {
            let k = kind(w, op.y, true);
            w.write_single(handle, k, op.z % 2 == 0);
        }
        6 => {
            let set = w.ents.get(&handle).map(|e| e.set).unwrap_or(0);
            let g = if op.z % 4 == 0 { group(op.y) } else { subset(t, pr, set, op.y) };
            w.write_group(handle, g, op.z % 8 < 4);
        }
        7 | 8 => {
            let form = (op.x >> 20) as usize % 6;
            let exact = form >= 4;
            let set = w.ents.get(&handle).map(|e| e.set).unwrap_or(0);
            let g = match t.by_set.get(&set).filter(|_| exact && op.z % 4 != 0) {
                Some(v) => pick(v, op.y),
                None => subset(t, pr, set, op.y),
            };
            let n = w.order.len() as u64 + 1;
            let density = 1 + ((op.z >> 8) % 1000) * 60.min(n) / n;
            let mut r = Rng::new(op.z);
            let pred = Pred::random(&mut r, t);
            w.write_iter(g, form, op.y, density, op.z % 2 == 0, op.code == 8, pred);
        }
        9 => {
            let room = pr.max_live.saturating_sub(w.order.len()) as u64;
            if room > 0 {
                let mut r = Rng::new(op.z);
                let n = r.log(pr.batch.min(room));
                let g = group(op.y);
                for _ in 0..n {
                    if w.create(g).is_none() || report::any() {
                        break;
                    }
                }
            }
        }
        10 => {
            let mut r = Rng::new(op.z);
            let n = r.log((w.order.len() as u64).max(1)).min(pr.batch.max(2) * 2);
            let order = r.below(3);
            for _ in 0..n {
                if w.order.is_empty() || report::any() {
                    break;
                }
                let i = match order {
                    0 => 0,
                    1 => w.order.len() - 1,
                    _ => r.index(w.order.len()),
                };
                let h = w.order[i];
                w.destroy(h);
            }
        }
        11 => {
            let g = pick(&t.bad, op.y);
            match op.z % 4 {
                0 => {
                    w.create(g);
                }
                1 => w.remove_entity(handle, g),
                2 => w.write_group(handle, g, true),
                _ => w.write_iter(g, (op.z >> 8) as usize % 6, op.y, 500, true, false, Pred::All),
            }
            w.blame |= p(8) | p(21);
        }
        12 => {
            let mut r = Rng::new(op.z);
            let v = r.next();
            let h = if op.y % 2 == 0 && !w.dead.is_empty() { pick(&w.dead, v) } else { forged(w, v) };
            w.check_refused(h, &mut r);
        }
        _ => {
            // Grow an entity to a random set, one component at a time, in random order; or shrink it.
            if w.order.is_empty() {
                w.create(group(op.y));
                return;
            }
            let h = w.order[op.x as usize % w.order.len()];
            let mut r = Rng::new(op.z);
            let set = w.ents[&h].set;
            if r.chance(1, 2) {
                let mut ks: Vec<usize> = pr.kinds.iter().copied().filter(|k| set >> k & 1 == 0).collect();
                r.shuffle(&mut ks);
                let n = r.index(ks.len() + 1);
                for k in ks.into_iter().take(n.min(15)) {
                    w.add(h, k);
                    if report::any() {
                        return;
                    }
                }
            } else {
                let mut ks: Vec<usize> = set_kinds(set).collect();
                r.shuffle(&mut ks);
                let n = 1 + r.index(ks.len());
                for k in ks.into_iter().take(n) {
                    w.remove_component(h, k);
                    if report::any() {
                        return;
                    }
                }
            }
        }
    }
}

/// A valid group contained in a set, if there is one.
fn subset(t: &Tables, pr: &Profile, set: u32, y: u64) -> usize {
    let n = t.groups.len();
    let start = y as usize % n;
    for i in 0..n {
        let g = (start + i) % n;
        if t.groups[g].valid && t.groups[g].set & set == t.groups[g].set {
            return g;
        }
    }
    pick(&pr.groups, y >> 8)
}

/// A group that relates to a set in a random way: sub-, superset, overlapping, disjoint, same size.
fn related(t: &Tables, pr: &Profile, set: u32, y: u64) -> usize {
    let n = t.groups.len();
    let start = (y >> 8) as usize % n;
    for i in 0..n {
        let g = (start + i) % n;
        let s = t.groups[g].set;
        let hit = t.groups[g].valid
            && match y % 5 {
                0 => s & set == s && s != set,
                1 => s & set == set && s != set,
                2 => s & set != 0 && s & set != s && s & set != set,
                3 => s.count_ones() == set.count_ones() && s != set,
                _ => s & set == 0,
            };
        if hit {
            return g;
        }
    }
    pick(&pr.groups, y >> 8)
}

// -------------------------------------------------------------------- monitoring

pub fn monitor(w: &mut World, pr: &Profile, prop: u32, r: &mut Rng, full: bool, touched: &[u32]) {
    let n = w.order.len();
    let small = n <= 48;
    let stop = || report::any();
    let mut who: Vec<u32> = touched.iter().copied().filter(|h| w.ents.contains_key(h)).collect();
    if full && small {
        who = w.order.clone();
    } else if n > 0 {
        for _ in 0..(if full { 40 } else { 3 }) {
            who.push(w.order[r.index(n)]);
        }
    }
    let t = w.t;
    let singles = matches!(prop, 1 | 2 | 7 | 11 | 21 | 22 | 23 | 3 | 25 | 8);
    let groups = matches!(prop, 1 | 7 | 21 | 22 | 23 | 26 | 8);
    let (iters, forms): (usize, &[usize]) = match prop {
        4 => (if full { 30 } else { 6 }, &[0, 1]),
        5 => (if full { 30 } else { 6 }, &[2, 3]),
        6 => (if full { 30 } else { 6 }, &[4, 5]),
        22 | 26 | 23 => (if full { 14 } else { 3 }, &[0, 1, 2, 3, 4, 5]),
        7 | 8 | 21 => (if full { 10 } else { 2 }, &[0, 1, 2, 3, 4, 5]),
        24 => (if full { 4 } else { 1 }, &[1, 3, 5]),
        _ => (if full { 2 } else { 0 }, &[0, 1, 2, 3, 4, 5]),
    };
    let iters = if n > 3000 { iters.min(3) } else { iters };
    if matches!(prop, 24 | 2) || full && matches!(prop, 7 | 21 | 1 | 8) {
        w.check_entities();
    }
    if singles && !stop() {
        for h in &who {
            let set = match w.ents.get(h) {
                Some(e) => e.set,
                None => continue,
            };
            for k in set_kinds(set) {
                w.check_single(*h, k);
            }
            for _ in 0..2 {
                w.check_single(*h, r.index(NK));
            }
            if stop() {
                return;
            }
        }
    }
    if groups && !stop() {
        for h in &who {
            let set = match w.ents.get(h) {
                Some(e) => e.set,
                None => continue,
            };
            for i in 0..4 {
                let y = r.next();
                let g = match i {
                    0 => match t.by_set.get(&set) {
                        Some(v) => *r.pick(v),
                        None => subset(t, pr, set, y),
                    },
                    1 => subset(t, pr, set, y),
                    2 => related(t, pr, set, y),
                    _ => {
                        if prop == 8 || r.chance(1, 4) {
                            *r.pick(&t.bad)
                        } else {
                            r.index(t.groups.len())
                        }
                    }
                };
                w.check_group(*h, g);
            }
            if stop() {
                return;
            }
        }
    }
    if matches!(prop, 2 | 21 | 23) && !stop() {
        for _ in 0..(if full { 4 } else { 1 }) {
            let v = r.next();
            let h = if r.chance(1, 2) && !w.dead.is_empty() { pick(&w.dead, v) } else { forged(w, v) };
            if w.ents.contains_key(&h) {
                continue;
            }
            let b = w.blame;
            if prop == 23 {
                w.check_single(h, r.index(NK));
                w.check_group(h, r.index(t.groups.len()));
            } else {
                w.check_refused(h, r);
            }
            w.blame = b;
        }
    }
    for _ in 0..iters {
        if stop() {
            return;
        }
        let form = *r.pick(forms);
        let y = r.next();
        // Groups that some entity matches, that match exactly, or any.
        let set = if n == 0 { 0 } else { let h = w.order[r.index(n)]; w.ents[&h].set };
        let g = match r.below(8) {
            0 => {
                if prop == 8 || r.chance(1, 3) {
                    *r.pick(&t.bad)
                } else {
                    r.index(t.groups.len())
                }
            }
            1 => *r.pick(&pr.groups),
            2 | 3 if t.by_set.contains_key(&set) => *r.pick(&t.by_set[&set]),
            _ if form >= 4 => match t.by_set.get(&set) {
                Some(v) => *r.pick(v),
                None => subset(t, pr, set, y),
            },
            _ => subset(t, pr, set, y),
        };
        let pred = Pred::random(r, t);
        w.check_iter(g, form, r.chance(1, 2), pred);
    }
}

pub struct Outcome {
    pub faults: FaultCounts,
    pub violations: Vec<Violation>,
    pub counts: Counts,
    pub sigs: Set<u64>,
    pub profile: &'static str,
    pub at: usize,
    pub history: Vec<String>,
    pub desc: String,
}

pub fn describe(op: &Op) -> String {
    format!("{}({:#x},{:#x},{:#x})", OPS[op.code as usize], op.x, op.y, op.z)
}

/// Runs one episode. `keep` restricts the history to some of its operations.
pub fn run(t: &'static Tables, prop: u32, seed: u64, scale: Scale, keep: Option<&[usize]>, verbose: bool) -> Outcome {
    let mode = match prop {
        12 => Mode::Panic,
        13 => Mode::Alloc,
        _ => Mode::Off,
    };
    run_with(t, prop, mode, seed, scale, keep, verbose)
}

pub fn run_with(t: &'static Tables, prop: u32, mode: Mode, seed: u64, scale: Scale, keep: Option<&[usize]>, verbose: bool) -> Outcome {
    report::set_sticky(0);
    let mut r = Rng::new(seed);
    let pr = profile(&mut r, t, prop, scale);
    let ops: Vec<Op> = (0..pr.ops).map(|_| Op::random(&mut r, &pr)).collect();
    let mut check_rng = Rng::new(seed ^ 0xC0FFEE);
    ledger::reset();
    report::take();
    crate::alloc::take_faults();
    progress::episode(seed);
    let mut worlds: Vec<World> = (0..pr.worlds).map(|_| World::new(t)).collect();
    let base = worlds[0].base_live;
    for w in &mut worlds {
        w.base_live = base;
        w.faults.mode = mode;
        w.faults.seed = seed;
        w.faults.budget = if cfg!(miri) { 0 } else if scale == Scale::Thorough { 1500 } else { 400 };
        if mode != Mode::Off {
            w.faults.profile = Some(std::rc::Rc::new(pr.clone()));
        }
    }
    let mut violations = Vec::new();
    let mut at = 0;
    let mut history = Vec::new();
    let mut done = false;
    for (i, op) in ops.iter().enumerate() {
        if keep.map(|k| !k.contains(&i)).unwrap_or(false) {
            // The monitors' random choices stay aligned with the operation.
            continue;
        }
        at = i;
        progress::op(i as u64, op.code as u64);
        let wi = if pr.worlds > 1 { (op.z >> 60) as usize % pr.worlds } else { 0 };
        let mut cr = Rng::new(mix(seed ^ i as u64));
        let full = i % pr.full_every == 0 || (i + 1) == ops.len();
        let outcome = catch_unwind(AssertUnwindSafe(|| {
            let touched = [pick_handle(&worlds[wi], &pr, op.x), worlds[wi].order.last().copied().unwrap_or(0)];
            apply(&mut worlds[wi], &pr, *op);
            worlds[wi].thrift(OPS[op.code as usize]);
            let last_op = i + 1 == ops.len();
            let choice = mix(seed ^ 0x1E7E1 ^ (i as u64) << 20);
            let often = match mode {
                Mode::Off => 256,
                Mode::Alloc => 24,
                Mode::Panic => 400,
            };
            if scale != Scale::Tiny && !cfg!(miri) && !report::any() && (choice % often == 0 || last_op && mode == Mode::Off && choice % 2 == 0) {
                level(&mut worlds[wi], &pr, choice >> 8, if last_op { 1500 } else { 300 });
                worlds[wi].thrift("filling storages");
            }
            if pr.name == "sets" && mode == Mode::Off && !cfg!(miri) && !report::any() && choice >> 30 & 1 == 0 && i == (mix(seed ^ 0xFA4) as usize) % ops.len() {
                fan(&mut worlds[wi], &pr, choice >> 8, scale);
                worlds[wi].thrift("creating component sets");
            }
            if !report::any() || prop == 0 {
                monitor(&mut worlds[wi], &pr, prop, &mut cr, full, &touched);
            } else {
                // Something diverged: let this property's own monitors have a look before the episode ends.
                let first = report::take();
                monitor(&mut worlds[wi], &pr, prop, &mut cr, true, &touched);
                let mut more = report::take();
                let mut all = first;
                all.append(&mut more);
                for v in all {
                    report::violation(v.props, v.msg);
                }
            }
            if pr.worlds > 1 {
                let o = 1 - wi;
                let b = worlds[o].blame;
                worlds[o].blame = p(14) | p(1);
                if check_rng.chance(1, 4) {
                    monitor(&mut worlds[o], &pr, prop, &mut cr, false, &[]);
                    // Handles of the other registry are foreign here, unless they happen to be equal.
                    let (a, b) = if wi == 0 { let (x, y) = worlds.split_at_mut(1); (&mut x[0], &mut y[0]) } else { let (x, y) = worlds.split_at_mut(1); (&mut y[0], &mut x[0]) };
                    if let Some(h) = b.order.last().copied() {
                        if !a.ents.contains_key(&h) {
                            a.check_refused(h, &mut cr);
                        }
                    }
                }
                worlds[o].blame = b;
            }
        }));
        if verbose {
            history.push(format!("{}: {} -> {} live", i, describe(op), worlds[wi].order.len()));
        }
        if let Err(e) = outcome {
            let msg = panic_text(&e);
            report::violation(progress::current(), format!("{} panicked: {}", OPS[op.code as usize], msg));
        }
        for w in &mut worlds {
            if let Some((props, text)) = w.faults.found.clone() {
                report::violation(props, text);
            }
        }
        if report::any() {
            violations = report::take();
            done = true;
            break;
        }
    }
    let mut counts = Counts::default();
    let mut sigs = Set::default();
    let nw = worlds.len();
    for (i, w) in worlds.iter_mut().enumerate() {
        if done {
            w.abandon();
        } else {
            let last = i + 1 == nw;
            if mode == Mode::Panic && !cfg!(miri) {
                let cap = if scale == Scale::Thorough { 200 } else { 40 };
                w.faults.budget += cap;
                w.enumerate_panics_in_drop(cap);
                if let Some((props, text)) = w.faults.found.clone() {
                    report::violation(props, text);
                    w.abandon();
                    continue;
                }
            }
            if mode == Mode::Panic && !w.order.is_empty() && mix(seed) % 3 == 0 {
                w.drop_panicking(1 + mix(seed ^ 5) % (w.order.len() as u64));
                add_counts(&mut counts, &w.c);
                sigs.extend(w.sigs.drain());
                w.abandon();
                continue;
            }
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| w.finish(last))) {
                report::violation(p(3) | p(7), format!("dropping the registry panicked: {}", panic_text(&e)));
                w.abandon();
            }
        }
        add_counts(&mut counts, &w.c);
        sigs.extend(w.sigs.drain());
    }
    let mut faults = FaultCounts::default();
    for w in &worlds {
        let (a, b) = (&mut faults, &w.faults.c);
        a.forks += b.forks;
        a.injected += b.injected;
        a.panics_in_destroy += b.panics_in_destroy;
        a.panics_in_drop += b.panics_in_drop;
        a.failed_allocations += b.failed_allocations;
        a.unwound += b.unwound;
        a.tails += b.tails;
        a.infallible += b.infallible;
        a.reached_end += b.reached_end;
    }
    report::set_sticky(0);
    violations.append(&mut report::take());
    Outcome { faults, violations, counts, sigs, profile: pr.name, at, history, desc: format!("{:?}", pr) }
}

pub fn add_counts(a: &mut Counts, b: &Counts) {
    a.ops += b.ops;
    a.refused += b.refused;
    a.evals += b.evals;
    a.rows += b.rows;
    a.reads += b.reads;
    a.created += b.created;
    a.destroyed += b.destroyed;
    a.moves += b.moves;
    a.writes += b.writes;
    a.drops += b.drops;
    a.wraps += b.wraps;
    a.levelled += b.levelled;
    a.filter_panics += b.filter_panics;
    a.max_live = a.max_live.max(b.max_live);
    a.max_sets = a.max_sets.max(b.max_sets);
    a.max_rows = a.max_rows.max(b.max_rows);
    a.fans += b.fans;
    a.thrift = a.thrift.max(b.thrift);
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Smallest set of operations found that still contradicts the property.
pub fn shrink(t: &'static Tables, prop: u32, seed: u64, scale: Scale, upto: usize, budget: usize) -> (Vec<usize>, Option<Outcome>) {
    let fails = |keep: &[usize]| {
        let o = run(t, prop, seed, scale, Some(keep), false);
        let bad = o.violations.iter().any(|v| v.props & p(prop) != 0);
        if bad { Some(o) } else { None }
    };
    let mut keep: Vec<usize> = (0..=upto).collect();
    let mut best = fails(&keep);
    if best.is_none() {
        return (keep, None);
    }
    let mut runs = 1;
    let mut chunk = (keep.len() / 2).max(1);
    while runs < budget {
        let mut i = 0;
        let mut progress = false;
        while i < keep.len() && runs < budget {
            let mut c = keep.clone();
            c.drain(i..(i + chunk).min(keep.len()));
            runs += 1;
            if let Some(o) = fails(&c) {
                keep = c;
                best = Some(o);
                progress = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !progress {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    (keep, best)
}

pub fn explain(v: &Violation) -> String {
    format!("[{}] {}", props_string(v.props), v.msg)
}
