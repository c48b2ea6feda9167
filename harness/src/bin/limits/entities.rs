//! C09: worlds of 16,777,215 entities.
use harness::prng::{mix, Rng};
use harness::report::{p, violation};
use harness::runner::{self, Ctx, Scale};
use shard_ecs::{Component, ComponentTypeId, Entity, Registry};
use std::sync::atomic::{AtomicI64, Ordering};

pub const LIMIT: usize = 16_777_215;

/// Every value is a function of the entity's ordinal and the kind.
fn value(ord: u32, kind: u64) -> u32 {
    mix(ord as u64 | kind << 40) as u32
}

macro_rules! component {
    ($n:ident, $id:expr) => {
        impl Component for $n {
            const NAME: &'static str = stringify!($n);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
    };
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub struct V(u32);
component!(V, 0x7001);
#[derive(PartialEq, Debug, Clone, Copy)]
pub struct W(u16);
component!(W, 0x0102);
#[derive(PartialEq, Debug)]
pub struct Z;
component!(Z, 0xEE00);
#[derive(PartialEq, Debug, Clone, Copy)]
pub struct T([u8; 3]);
component!(T, 0x7000);

static ZS: AtomicI64 = AtomicI64::new(0);

impl Z {
    fn new() -> Z {
        ZS.fetch_add(1, Ordering::Relaxed);
        Z
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        ZS.fetch_sub(1, Ordering::Relaxed);
    }
}

const VB: u8 = 1;
const WB: u8 = 2;
const ZB: u8 = 4;
const TB: u8 = 8;

fn v(o: u32) -> V {
    V(value(o, 0))
}
fn w(o: u32) -> W {
    W(value(o, 1) as u16)
}
fn t(o: u32) -> T {
    let x = value(o, 3).to_le_bytes();
    T([x[0], x[1], x[2]])
}

/// Creation with exactly the components of `mask`. Err: whether the right values came back.
fn create(r: &mut Registry, mask: u8, o: u32) -> Result<Entity, bool> {
    match mask {
        1 => r.create_entity(v(o)).map_err(|g| g == v(o)),
        3 => r.create_entity((v(o), w(o))).map_err(|g| g == (v(o), w(o))),
        5 => r.create_entity((Z::new(), v(o))).map_err(|g| g.1 == v(o)),
        7 => r.create_entity((w(o), v(o), Z::new())).map_err(|g| g.0 == w(o) && g.1 == v(o)),
        9 => r.create_entity((t(o), v(o))).map_err(|g| g == (t(o), v(o))),
        11 => r.create_entity((v(o), t(o), w(o))).map_err(|g| g == (v(o), t(o), w(o))),
        13 => r.create_entity((v(o), t(o), Z::new())).map_err(|g| g.0 == v(o) && g.1 == t(o)),
        _ => r.create_entity((Z::new(), v(o), t(o), w(o))).map_err(|g| g.1 == v(o) && g.2 == t(o) && g.3 == w(o)),
    }
}

fn remove(r: &mut Registry, mask: u8, e: Entity, o: u32) -> Option<bool> {
    match mask {
        1 => r.remove_entity::<V>(e).map(|g| g == v(o)),
        3 => r.remove_entity::<(W, V)>(e).map(|g| g == (w(o), v(o))),
        5 => r.remove_entity::<(V, Z)>(e).map(|g| g.0 == v(o)),
        7 => r.remove_entity::<(Z, V, W)>(e).map(|g| g.1 == v(o) && g.2 == w(o)),
        9 => r.remove_entity::<(V, T)>(e).map(|g| g == (v(o), t(o))),
        11 => r.remove_entity::<(W, T, V)>(e).map(|g| g == (w(o), t(o), v(o))),
        13 => r.remove_entity::<(T, V, Z)>(e).map(|g| g.0 == t(o) && g.1 == v(o)),
        _ => r.remove_entity::<(W, V, Z, T)>(e).map(|g| g.0 == w(o) && g.1 == v(o) && g.3 == t(o)),
    }
}

const DEAD: u8 = 0;

struct World {
    reg: Registry,
    /// Per slot: component set (0 dead), version of the latest handle, ordinal.
    mask: Vec<u8>,
    version: Vec<u8>,
    ord: Vec<u32>,
    live: usize,
    with_z: i64,
    next: u32,
    z0: i64,
    used: usize,
}

impl World {
    fn handle(&self, slot: usize) -> Entity {
        unsafe { Entity::new_unchecked(slot as u32, self.version[slot]) }
    }

    fn create(&mut self, c: &mut Ctx, mask: u8) -> bool {
        let o = self.next;
        self.next += 1;
        match create(&mut self.reg, mask, o) {
            Ok(e) => {
                let s = e.index() as usize;
                let fresh = s < LIMIT && self.mask[s] == DEAD && (self.ord[s] == 0 || self.version[s] != e.version());
                if !c.expect(fresh && self.live < LIMIT, mix(1) ^ mask as u64, || format!("creation number {} with {} alive issued {:?}, slot held set {}", o, self.live, e, self.mask.get(s).copied().unwrap_or(0))) {
                    return false;
                }
                self.mask[s] = mask;
                self.version[s] = e.version();
                self.ord[s] = o;
                self.used = self.used.max(s + 1);
                self.live += 1;
                if mask & ZB != 0 {
                    self.with_z += 1;
                }
                true
            }
            Err(same) => c.expect(self.live == LIMIT && same, mix(2) ^ mask as u64, || {
                format!("creation of set {} with {} entities alive refused, values handed back intact: {}", mask, self.live, same)
            }),
        }
    }

    fn forget(&mut self, s: usize) {
        if self.mask[s] & ZB != 0 {
            self.with_z -= 1;
        }
        self.mask[s] = DEAD;
        self.live -= 1;
    }

    fn some_slot(&self, r: &mut Rng) -> usize {
        match r.below(6) {
            0 => r.index(self.used.min(300)),
            1 => self.used - 1 - r.index(self.used.min(300)),
            // Near rows where storage grew.
            2 => ((1usize << (7 + r.index(17))) + r.index(5)).saturating_sub(2) % self.used,
            _ => r.index(self.used),
        }
    }

    fn destroy(&mut self, c: &mut Ctx, s: usize) -> bool {
        let e = self.handle(s);
        let alive = self.mask[s] != DEAD;
        let got = self.reg.destroy_entity(e);
        if alive {
            self.forget(s);
        }
        c.expect(got == alive, mix(3) ^ alive as u64, || format!("destroying {:?} returns {}, alive: {}", e, got, alive))
    }

    fn remove(&mut self, c: &mut Ctx, s: usize, as_mask: u8) -> bool {
        let e = self.handle(s);
        let want = self.mask[s] != DEAD && self.mask[s] == as_mask;
        let got = remove(&mut self.reg, as_mask, e, self.ord[s]);
        if want {
            self.forget(s);
        }
        c.expect(got == want.then_some(true), mix(4) ^ want as u64 ^ (as_mask as u64) << 8, || format!("removing {:?} of set {} as {}: {:?}", e, if want { as_mask } else { self.mask[s] }, as_mask, got))
    }

    fn toggle(&mut self, c: &mut Ctx, s: usize, bit: u8) -> bool {
        let e = self.handle(s);
        let m = self.mask[s];
        let o = self.ord[s];
        let alive = m != DEAD;
        if m & bit == 0 {
            let got = match bit {
                WB => self.reg.add_component(e, w(o)).map_err(|x| x == w(o)),
                ZB => self.reg.add_component(e, Z::new()).map_err(|_| true),
                _ => self.reg.add_component(e, t(o)).map_err(|x| x == t(o)),
            };
            if alive {
                self.mask[s] |= bit;
                self.with_z += (bit == ZB) as i64;
            }
            c.expect(got == if alive { Ok(()) } else { Err(true) }, mix(5) ^ m as u64 ^ (bit as u64) << 8, || format!("adding {} to {:?} of set {} with {} alive: {:?}", bit, e, m, self.live, got))
        } else {
            let got = match bit {
                WB => self.reg.remove_component::<W>(e).map(|x| x == w(o)),
                ZB => self.reg.remove_component::<Z>(e).map(|_| true),
                _ => self.reg.remove_component::<T>(e).map(|x| x == t(o)),
            };
            self.mask[s] &= !bit;
            self.with_z -= (bit == ZB) as i64;
            c.expect(got == Ok(true), mix(6) ^ m as u64 ^ (bit as u64) << 8, || format!("removing {} of {:?} of set {} with {} alive: {:?}", bit, e, m, self.live, got))
        }
    }

    fn read(&mut self, c: &mut Ctx, s: usize) -> bool {
        let e = self.handle(s);
        let (m, o) = (self.mask[s], self.ord[s]);
        let got = (
            self.reg.get_component::<V>(e).copied(),
            self.reg.get_component::<W>(e).copied(),
            self.reg.has_component::<Z>(e),
            self.reg.get_components::<(T, V)>(e).map(|x| (*x.0, *x.1)),
        );
        let want = (
            (m & VB != 0).then(|| v(o)),
            (m & WB != 0).then(|| w(o)),
            m & ZB != 0,
            (m & TB != 0).then(|| (t(o), v(o))),
        );
        c.expect(got == want, mix(7) ^ m as u64, || format!("{:?} of set {} reads {:?} instead of {:?}", e, m, got, want))
    }

    /// Every entity, its handle and its values, once.
    fn check(&mut self, c: &mut Ctx) -> bool {
        let mut seen = vec![0u64; LIMIT / 64 + 1];
        let mut rows = 0usize;
        let mut bad = None;
        let mut row = |world: &World, e: Entity, val: &V, need: u8, more: Option<bool>| {
            let s = e.index() as usize;
            rows += 1;
            let ok = s < LIMIT
                && world.mask[s] & need == need
                && world.mask[s] != DEAD
                && world.version[s] == e.version()
                && *val == v(world.ord[s])
                && more != Some(false)
                && seen[s / 64] >> (s % 64) & 1 == 0;
            if s < LIMIT {
                seen[s / 64] |= 1 << (s % 64);
            }
            if !ok && bad.is_none() {
                bad = Some(format!("iteration yields {:?} with {:?} (other values intact: {:?}) where the model has set {} version {}", e, val, more, world.mask.get(s).copied().unwrap_or(0), world.version.get(s).copied().unwrap_or(0)));
            }
        };
        for (es, vs) in self.reg.iter_entity_components_matching::<V>() {
            if es.len() != vs.len() {
                violation(p(c.prop), format!("slices of lengths {} and {}", es.len(), vs.len()));
                return false;
            }
            for (e, x) in es.iter().zip(vs) {
                row(self, *e, x, VB, None);
            }
        }
        let n = rows;
        c.evals += n as u64;
        if !c.expect(bad.is_none() && n == self.live, mix(8) ^ (n as u64) >> 16, || bad.clone().unwrap_or_else(|| format!("iteration yields {} rows of {}", n, self.live))) {
            return false;
        }
        // The other columns.
        let mut bad = None;
        let (mut nw, mut nt) = (0, 0);
        for (es, (ws, vs)) in self.reg.iter_entity_components_matching::<(W, V)>() {
            for i in 0..es.len() {
                let s = es[i].index() as usize;
                nw += 1;
                if (ws[i], vs[i]) != (w(self.ord[s]), v(self.ord[s])) && bad.is_none() {
                    bad = Some(format!("{:?} reads {:?} {:?}", es[i], ws[i], vs[i]));
                }
            }
        }
        for (es, ts) in self.reg.iter_entity_components_matching::<T>() {
            for i in 0..es.len() {
                nt += 1;
                if ts[i] != t(self.ord[es[i].index() as usize]) && bad.is_none() {
                    bad = Some(format!("{:?} reads {:?}", es[i], ts[i]));
                }
            }
        }
        let (mw, mt) = self.mask[..self.used].iter().fold((0, 0), |(a, b), m| (a + (m & WB != 0) as usize, b + (m & TB != 0) as usize));
        c.evals += (nw + nt) as u64;
        if !c.expect(bad.is_none() && nw == mw && nt == mt, mix(9), || bad.clone().unwrap_or_else(|| format!("{} and {} rows instead of {} and {}", nw, nt, mw, mt))) {
            return false;
        }
        let n = self.reg.iter_entities().filter(|e| self.mask[e.index() as usize] != DEAD && self.version[e.index() as usize] == e.version()).count();
        let all = self.reg.iter_entities().count();
        if !c.expect(n == self.live && all == n, mix(10), || format!("enumeration yields {} handles, {} of them live, instead of {}", all, n, self.live)) {
            return false;
        }
        let z = ZS.load(Ordering::Relaxed) - self.z0;
        c.expect(z == self.with_z, mix(11), || format!("{} zero-sized values exist, {} entities have one", z, self.with_z))
    }

    fn fill(&mut self, c: &mut Ctx, r: &mut Rng, to: usize, sets: &[(u8, u64)]) -> bool {
        while self.live < to {
            let mut x = r.below(sets.iter().map(|s| s.1).sum());
            let mask = sets.iter().find(|s| {
                let hit = x < s.1;
                x = x.wrapping_sub(s.1);
                hit
            });
            // Runs of one set, so columns grow at different times.
            for _ in 0..1 + r.below(4096) {
                if self.live >= to {
                    break;
                }
                if !self.create(c, mask.unwrap().0) {
                    return false;
                }
            }
        }
        true
    }

    fn refusals(&mut self, c: &mut Ctx) -> bool {
        let full = self.live == LIMIT;
        !full || [1, 3, 5, 7, 9, 11, 13, 15].into_iter().all(|m| self.create(c, m))
    }
}

/// A life before the limit is approached: slots recycled often and in several orders, refused operations.
fn churn(c: &mut Ctx, r: &mut Rng, wd: &mut World, sets: &[(u8, u64)]) -> bool {
    for part in 0..1 + r.index(4) {
        let style = r.below(6);
        let n = match r.below(3) {
            0 => 1 + r.index(10),
            1 => 1 + r.index(3000),
            _ => 1 + r.index(200_000),
        };
        c.log(|| format!("churn style {} over {}", style, n));
        c.op(40 + style * 8 + part as u64);
        match style {
            // Slots recycled past the version's wrap-around.
            0 | 1 => {
                let width = if style == 0 { 1 } else { 1 + r.index(40) };
                if !wd.fill(c, r, wd.live + width, sets) {
                    return false;
                }
                for _ in 0..r.index(700) {
                    let picked: Vec<usize> = (0..width).map(|_| r.index(wd.used.min(width * 2))).collect();
                    for s in picked {
                        if !wd.destroy(c, s) {
                            return false;
                        }
                    }
                    let more = 1 + r.index(width);
                    if !wd.fill(c, r, wd.live + more, sets) {
                        return false;
                    }
                }
            }
            // Everything, or much, destroyed upwards, downwards or scattered; handles used twice.
            2..=4 => {
                if !wd.fill(c, r, wd.live + n, sets) {
                    return false;
                }
                let keep = r.below(3);
                for i in 0..wd.used {
                    let s = match style {
                        2 => i,
                        3 => wd.used - 1 - i,
                        _ => r.index(wd.used),
                    };
                    if keep != 0 && r.below(4) < keep {
                        continue;
                    }
                    let m = wd.mask[s];
                    let ok = if m != DEAD && r.chance(1, 5) { wd.remove(c, s, m) } else { wd.destroy(c, s) };
                    if !ok || r.chance(1, 50) && !wd.destroy(c, s) {
                        return false;
                    }
                }
            }
            // Refused creations and additions; nothing may be used up by them.
            _ => {
                for i in 0..n.min(5000) as u32 {
                    let twice = wd.reg.create_entity((v(i), v(i + 1)));
                    if !c.expect(twice == Err((v(i), v(i + 1))), mix(13), || format!("creation with a component twice: {:?}", twice)) {
                        return false;
                    }
                    let back = wd.reg.create_entity((t(i), w(i), t(i + 1)));
                    if !c.expect(back == Err((t(i), w(i), t(i + 1))), mix(14), || format!("creation with a component twice: {:?}", back)) {
                        return false;
                    }
                    if wd.used > 0 {
                        let s = wd.some_slot(r);
                        if wd.mask[s] == DEAD {
                            let got = wd.reg.add_component(wd.handle(s), w(i));
                            if !c.expect(got == Err(w(i)), mix(15), || format!("adding to a dead entity: {:?}", got)) {
                                return false;
                            }
                        }
                    }
                }
                c.count("refused_before_the_limit", 2 * n.min(5000) as u64);
            }
        }
    }
    c.count("destroyed_before_the_limit", (wd.next as usize - 1 - wd.live) as u64);
    true
}

const MASKS: [u8; 8] = [1, 3, 5, 7, 9, 11, 13, 15];

pub fn run(c: &mut Ctx, r: &mut Rng) {
    let mut wd = World {
        reg: Registry::default(),
        mask: vec![DEAD; LIMIT],
        version: vec![0; LIMIT],
        ord: vec![0; LIMIT],
        live: 0,
        with_z: 0,
        next: 1,
        z0: ZS.load(Ordering::Relaxed),
        used: 0,
    };
    let mode = match runner::num("--mode", 9) {
        9 => r.below(4),
        m => m,
    };
    let deep = c.scale == Scale::Thorough;
    scenario(c, r, &mut wd, mode, deep);
    let left = wd.with_z;
    drop(wd.reg);
    let z = ZS.load(Ordering::Relaxed) - wd.z0;
    c.expect(z == 0 || harness::report::any(), mix(12), || format!("{} of {} zero-sized values are left after dropping the registry", z, left));
    ZS.store(0, Ordering::Relaxed);
}

fn scenario(c: &mut Ctx, r: &mut Rng, wd: &mut World, mode: u64, deep: bool) -> bool {
    let sets: Vec<(u8, u64)> = match mode {
        0 => vec![(MASKS[r.index(8)], 1)],
        1 => vec![(1, 1)],
        2 => (0..2 + r.index(3)).map(|_| (MASKS[r.index(8)], 1 + r.below(20))).collect(),
        _ => MASKS.iter().map(|m| (*m, 1 + r.log(1000))).collect(),
    };
    if !churn(c, r, wd, &sets) {
        return false;
    }
    c.log(|| format!("fill with sets {:?}", sets));
    if !wd.fill(c, r, LIMIT, &sets) || !wd.refusals(c) {
        return false;
    }
    c.op(1);
    c.max("max_live", wd.live as u64);
    if !wd.check(c) {
        return false;
    }
    if mode == 1 {
        // The second set reaches the limit by migration, the first is emptied.
        let bit = [WB, ZB, TB][r.index(3)];
        c.log(|| format!("migrate all by adding {}", bit));
        let reverse = r.chance(1, 2);
        for i in 0..LIMIT {
            let s = if reverse { LIMIT - 1 - i } else { i };
            if !wd.toggle(c, s, bit) {
                return false;
            }
        }
        c.op(2);
        c.count("migrated", LIMIT as u64);
        if !wd.refusals(c) || !wd.check(c) {
            return false;
        }
        // And some back again.
        for _ in 0..LIMIT / 8 {
            let s = r.index(LIMIT);
            if wd.mask[s] & bit != 0 && !wd.toggle(c, s, bit) {
                return false;
            }
        }
    }
    // Random operations at the limit.
    let rounds = if deep { 12 } else { 4 };
    for round in 0..rounds {
        let n = match r.below(4) {
            0 => 1 + r.index(3),
            1 => 1 + r.index(5000),
            2 => 1 + r.index(300_000),
            _ => if deep || round == 0 { LIMIT / 2 + r.index(LIMIT / 2) } else { 1 + r.index(100_000) },
        };
        let n = n.min(LIMIT);
        c.log(|| format!("destroy {}", n));
        c.op(10 + round);
        let (mut done, stride) = (0, (r.next() as usize % LIMIT) | 1);
        let (mut s, style) = (wd.some_slot(r), r.below(3));
        while done < n {
            s = match style {
                0 => wd.some_slot(r),
                1 => (s + 1) % LIMIT,
                _ => (s + stride) % LIMIT,
            };
            if wd.mask[s] == DEAD {
                if style == 0 || r.chance(1, 64) {
                    // Dead handles are refused at the limit as well.
                    let ok = wd.destroy(c, s);
                    if !ok {
                        return false;
                    }
                    s = r.index(LIMIT);
                }
                // Strides over a mostly dead field end here.
                if n > LIMIT / 2 && r.chance(1, 8) {
                    done += 1;
                }
                continue;
            }
            let ok = if r.chance(1, 4) { let m = wd.mask[s]; wd.remove(c, s, m) } else { wd.destroy(c, s) };
            if !ok {
                return false;
            }
            done += 1;
        }
        let gone = LIMIT - wd.live;
        c.count("destroyed_at_limit", gone as u64);
        for _ in 0..20_000 {
            let s = wd.some_slot(r);
            let ok = match r.below(5) {
                0 => wd.toggle(c, s, WB),
                1 => wd.toggle(c, s, ZB),
                2 => wd.toggle(c, s, TB),
                3 => wd.remove(c, s, MASKS[round as usize % 8]),
                _ => wd.read(c, s),
            };
            if !ok {
                return false;
            }
        }
        let sets: Vec<(u8, u64)> = MASKS.iter().map(|m| (*m, 1 + r.log(100))).collect();
        let gone = LIMIT - wd.live;
        if !wd.fill(c, r, LIMIT, &sets) || !wd.refusals(c) {
            return false;
        }
        c.count("recreated_at_limit", gone as u64);
        for _ in 0..50_000 {
            let s = wd.some_slot(r);
            let ok = match r.below(5) {
                0 => wd.toggle(c, s, WB),
                1 => wd.toggle(c, s, ZB),
                2 => wd.toggle(c, s, TB),
                _ => wd.read(c, s),
            };
            if !ok {
                return false;
            }
        }
        if !wd.refusals(c) || ((round % 2 == 1 || n > 1_000_000) && !wd.check(c)) {
            return false;
        }
    }
    // A change through mutable iteration reaches every row.
    let by = r.next() as u32;
    for vs in wd.reg.iter_components_matching_mut::<V>() {
        vs.iter_mut().for_each(|x| x.0 ^= by);
    }
    for vs in wd.reg.iter_components_matching_mut::<V>() {
        vs.iter_mut().for_each(|x| x.0 ^= by);
    }
    wd.check(c)
}
