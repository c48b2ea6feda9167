//! C10: registries with 65,534 component sets.
use harness::prng::{mix, Rng};
use harness::runner::{Ctx, Scale};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::{Component, ComponentDescriptor, ComponentTypeId, Entity, Registry};
use std::collections::{HashMap, HashSet};

pub const LIMIT: usize = 65_534;
const NK: usize = 18;

/// Small components, so tens of thousands of storages fit.
pub struct K<const I: usize>(u8);

impl<const I: usize> Component for K<I> {
    const NAME: &'static str = "K";
    // Neighbours differ in the high and the low byte, some collide in either.
    const ID: ComponentTypeId = ComponentTypeId::from_u16(((I * 7919 + 77) % 65_521) as u16);
}

struct Ops {
    add: fn(&mut Registry, Entity, u8) -> Result<(), u8>,
    remove: fn(&mut Registry, Entity) -> Option<u8>,
    get: fn(&Registry, Entity) -> Option<u8>,
    create: fn(&mut Registry, u8) -> Result<Entity, u8>,
    desc: fn() -> ComponentDescriptor,
    /// Rows of all entities with the component: handle, value.
    rows: fn(&Registry) -> Vec<(u32, u8)>,
}

fn ops<const I: usize>() -> Ops {
    Ops {
        add: |r, e, v| r.add_component(e, K::<I>(v)).map_err(|k| k.0),
        remove: |r, e| r.remove_component::<K<I>>(e).ok().map(|k| k.0),
        get: |r, e| r.get_component::<K<I>>(e).map(|k| k.0),
        create: |r, v| r.create_entity(K::<I>(v)).map_err(|k| k.0),
        desc: || <K<I> as Component>::DESCRIPTOR,
        rows: |r| r.iter_entity_components_matching::<K<I>>().flat_map(|(e, k)| e.iter().zip(k).map(|(e, k)| (e.raw(), k.0)).collect::<Vec<_>>()).collect(),
    }
}

fn table() -> Vec<Ops> {
    macro_rules! t { ($($i:literal)*) => { vec![$(ops::<$i>()),*] } }
    t!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)
}

type Pair = (K<5>, K<2>);
type Quad = (K<11>, K<0>, K<16>, K<3>);
const PAIR: u32 = 1 << 5 | 1 << 2;
const QUAD: u32 = 1 << 11 | 1 | 1 << 16 | 1 << 3;

struct Ent {
    e: Entity,
    set: u32,
    v: [u8; NK],
}

struct World {
    reg: Registry,
    t: Vec<Ops>,
    ents: Vec<Ent>,
    sets: HashSet<u32>,
    order: Vec<u32>,
}

impl World {
    fn seen(&mut self, set: u32) {
        if self.sets.insert(set) {
            self.order.push(set);
        }
    }

    /// A step that needs `to`; whether the model allows it.
    fn allowed(&self, to: u32) -> bool {
        to != 0 && to.count_ones() <= 14 && (self.sets.contains(&to) || self.sets.len() < LIMIT)
    }

    fn toggle(&mut self, c: &mut Ctx, i: usize, k: usize, v: u8) -> bool {
        let (e, set) = (self.ents[i].e, self.ents[i].set);
        let to = set ^ 1 << k;
        let ok = self.allowed(to);
        let full = self.sets.len() == LIMIT;
        let sig = mix(set.count_ones() as u64) ^ (ok as u64) << 1 ^ (full as u64) << 2 ^ (self.sets.contains(&to) as u64) << 3;
        if set >> k & 1 == 0 {
            let got = (self.t[k].add)(&mut self.reg, e, v);
            if ok {
                self.ents[i].set = to;
                self.ents[i].v[k] = v;
                self.seen(to);
            }
            c.expect(got == if ok { Ok(()) } else { Err(v) }, sig, || format!("adding component {} to set {:#x} with {} sets in use: {:?}", k, set, self.sets.len(), got))
        } else {
            let want = ok.then_some(self.ents[i].v[k]);
            let got = (self.t[k].remove)(&mut self.reg, e);
            if ok {
                self.ents[i].set = to;
                self.seen(to);
            }
            c.expect(got == want, sig ^ 16, || format!("removing component {} of set {:#x} with {} sets in use: {:?} instead of {:?}", k, set, self.sets.len(), got, want))
        }
    }

    fn create(&mut self, c: &mut Ctx, r: &mut Rng) -> bool {
        let k = r.index(NK);
        let mut v = [0u8; NK];
        v.iter_mut().for_each(|x| *x = r.next() as u8);
        let (set, got) = match r.below(4) {
            0 => (PAIR, self.reg.create_entity::<Pair>((K(v[5]), K(v[2]))).map_err(|g| g.0 .0 == v[5] && g.1 .0 == v[2])),
            1 => (QUAD, self.reg.create_entity::<Quad>((K(v[11]), K(v[0]), K(v[16]), K(v[3]))).map_err(|g| g.0 .0 == v[11] && g.1 .0 == v[0] && g.2 .0 == v[16] && g.3 .0 == v[3])),
            _ => (1 << k, (self.t[k].create)(&mut self.reg, v[k]).map_err(|x| x == v[k])),
        };
        let ok = self.allowed(set);
        let good = match &got {
            Ok(e) => {
                self.ents.push(Ent { e: *e, set, v });
                self.seen(set);
                ok
            }
            Err(same) => *same && !ok,
        };
        c.expect(good, mix(0x77) ^ ok as u64 ^ set as u64, || format!("creating set {:#x} with {} sets in use: {:?}", set, self.sets.len(), got))
    }

    fn check_one(&self, c: &mut Ctx, i: usize) -> bool {
        let x = &self.ents[i];
        (0..NK).all(|k| {
            let want = (x.set >> k & 1 == 1).then_some(x.v[k]);
            let got = (self.t[k].get)(&self.reg, x.e);
            c.expect(got == want, mix(0x99) ^ k as u64, || format!("component {} of {:?} of set {:#x} reads {:?} instead of {:?} with {} sets in use", k, x.e, x.set, got, want, self.sets.len()))
        })
    }

    fn check(&mut self, c: &mut Ctx, r: &mut Rng, kinds: usize) -> bool {
        for i in 0..self.ents.len() {
            if !self.check_one(c, i) {
                return false;
            }
        }
        for _ in 0..kinds {
            let k = r.index(NK);
            let mut got = (self.t[k].rows)(&self.reg);
            let mut want: Vec<(u32, u8)> = self.ents.iter().filter(|x| x.set >> k & 1 == 1).map(|x| (x.e.raw(), x.v[k])).collect();
            got.sort_unstable();
            want.sort_unstable();
            c.evals += want.len() as u64;
            if !c.expect(got == want, mix(0xAA) ^ k as u64, || format!("iterating component {} with {} sets in use yields {} rows, not the {} expected", k, self.sets.len(), got.len(), want.len())) {
                return false;
            }
        }
        // Groups: matching, filtered and exact.
        let limit = 1 + r.index(14);
        let mut pair: Vec<(u32, u8, u8)> = Vec::new();
        for (e, (a, b)) in self.reg.iter_filtered_entity_components_matching::<Pair, _>(|d: &ArchetypeDescriptor| d.len() as usize <= limit) {
            pair.extend((0..e.len()).map(|i| (e[i].raw(), a[i].0, b[i].0)));
        }
        let mut want: Vec<_> = self.ents.iter().filter(|x| x.set & PAIR == PAIR && x.set.count_ones() as usize <= limit).map(|x| (x.e.raw(), x.v[5], x.v[2])).collect();
        pair.sort_unstable();
        want.sort_unstable();
        c.evals += want.len() as u64;
        if !c.expect(pair == want, mix(0xBB) ^ limit as u64, || format!("filtered iteration of a pair with {} sets in use yields {} rows, not the {} expected", self.sets.len(), pair.len(), want.len())) {
            return false;
        }
        let (e, (a, b, d, f)) = self.reg.iter_entity_components_exact::<Quad>();
        let mut got: Vec<_> = (0..e.len()).map(|i| (e[i].raw(), a[i].0, b[i].0, d[i].0, f[i].0)).collect();
        let mut want: Vec<_> = self.ents.iter().filter(|x| x.set == QUAD).map(|x| (x.e.raw(), x.v[11], x.v[0], x.v[16], x.v[3])).collect();
        got.sort_unstable();
        want.sort_unstable();
        if !c.expect(got == want, mix(0xCC), || format!("exact iteration with {} sets in use yields {:?} instead of {:?}", self.sets.len(), got, want)) {
            return false;
        }
        let mut got: Vec<u32> = self.reg.iter_entities().map(|e| e.raw()).collect();
        let mut want: Vec<u32> = self.ents.iter().map(|x| x.e.raw()).collect();
        got.sort_unstable();
        want.sort_unstable();
        c.expect(got == want, mix(0xDD), || format!("enumeration yields {} handles instead of {}", got.len(), want.len()))
    }
}

/// The registry reaches the limit through entities.
fn by_entities(c: &mut Ctx, r: &mut Rng) -> bool {
    let mut w = World { reg: Registry::default(), t: table(), ents: Vec::new(), sets: HashSet::new(), order: Vec::new() };
    // Whether the groups used for creation exist when the limit is reached varies.
    let pool = 50 + r.index(3000);
    let seed_groups = r.chance(1, 2);
    c.log(|| format!("{} entities walk through all sets", pool));
    while w.ents.len() < pool {
        if seed_groups {
            if !w.create(c, r) {
                return false;
            }
        } else {
            let k = r.index(NK);
            match (w.t[k].create)(&mut w.reg, 9) {
                Ok(e) => {
                    w.ents.push(Ent { e, set: 1 << k, v: [9; NK] });
                    w.seen(1 << k);
                }
                Err(_) => return c.expect(false, 0, || "creation refused far from the limit".into()),
            }
        }
    }
    let mut next_check = 1000;
    let mut stuck = 0;
    while w.sets.len() < LIMIT {
        let i = r.index(w.ents.len());
        // Prefer a neighbour that is new.
        let mut k = r.index(NK);
        for _ in 0..6 {
            let to = w.ents[i].set ^ 1 << k;
            if w.allowed(to) && !w.sets.contains(&to) {
                break;
            }
            k = r.index(NK);
        }
        let before = w.sets.len();
        if !w.toggle(c, i, k, r.next() as u8) {
            return false;
        }
        stuck = if w.sets.len() > before { 0 } else { stuck + 1 };
        if stuck > 2_000_000 {
            return true;
        }
        if w.sets.len() >= next_check {
            c.op(w.sets.len() as u64);
            next_check = w.sets.len() * 2;
            if !w.check(c, r, 3) {
                return false;
            }
        }
        if r.chance(1, 4000) {
            let i = r.index(w.ents.len());
            let x = w.ents.swap_remove(i);
            if !c.expect(w.reg.destroy_entity(x.e), mix(0xEE), || format!("{:?} could not be destroyed", x.e)) {
                return false;
            }
            if w.ents.is_empty() && !w.create(c, r) {
                return false;
            }
        }
    }
    c.op(70_000);
    c.max("max_sets", w.sets.len() as u64);
    if !w.check(c, r, NK) {
        return false;
    }
    let (mut refused, mut moved) = (0u64, 0u64);
    for step in 0..if c.scale == Scale::Thorough { 400_000 } else { 60_000 } {
        let i = r.index(w.ents.len());
        let ok = match r.below(10) {
            0 => w.create(c, r),
            1 if w.ents.len() > 20 => {
                let x = w.ents.swap_remove(i);
                let ok = w.reg.destroy_entity(x.e);
                c.expect(ok, mix(0xEF), || format!("{:?} could not be destroyed at the limit", x.e))
            }
            _ => {
                let k = r.index(NK);
                let to = w.ents[i].set ^ 1 << k;
                if w.allowed(to) {
                    moved += 1
                } else {
                    refused += 1
                }
                w.toggle(c, i, k, r.next() as u8) && w.check_one(c, i)
            }
        };
        if !ok || (step % 20_000 == 19_999 && !w.check(c, r, 4)) {
            return false;
        }
    }
    c.count("refused_at_limit", refused);
    c.count("moved_at_limit", moved);
    w.check(c, r, NK)
}

/// The storage lookup reaches the limit by itself.
fn by_lookup(c: &mut Ctx, r: &mut Rng) -> bool {
    let t = table();
    let descs: Vec<ComponentDescriptor> = t.iter().map(|o| (o.desc)()).collect();
    let build = |set: u32| {
        let mut d: Option<ArchetypeDescriptor> = None;
        for k in (0..NK).filter(|k| set >> k & 1 == 1) {
            d = match d {
                None => Some(single(k)),
                Some(d) => d.add_component(&descs[k]),
            };
            d.as_ref()?;
        }
        d
    };
    let mut all: Vec<u32> = (1..1u32 << NK).filter(|s| s.count_ones() <= 14).collect();
    r.shuffle(&mut all);
    let mut reg = ArchetypeRegistry::default();
    let mut index: HashMap<u32, u16> = HashMap::new();
    let mut used: HashSet<u16> = HashSet::new();
    c.log(|| "storages are created one by one".into());
    for (n, set) in all.iter().enumerate() {
        let full = index.len() == LIMIT;
        let already = index.get(set).copied();
        if n > LIMIT + 3000 {
            break;
        }
        let Some(d) = build(*set) else { return c.expect(false, 1, || format!("set {:#x} has no descriptor", set)) };
        let got = reg.find_or_create_archetype(&d).map(|(i, a)| (i, a.descriptor().len() as u32, a.len()));
        let good = match got {
            Some((i, len, rows)) => (if already.is_some() { already == Some(i) } else { !full && used.insert(i) }) && len == set.count_ones() && rows == 0,
            None => full && already.is_none(),
        };
        if !c.expect(good, mix(0x101) ^ full as u64 ^ (set.count_ones() as u64) << 4, || format!("storage number {} for set {:#x}: {:?}", n, set, got)) {
            return false;
        }
        if let Some((i, ..)) = got {
            index.insert(*set, i);
        }
        // Known sets are found, also at the limit; unknown ones are not.
        if n % 3 == 0 || full {
            let known = all[r.index(n + 1)];
            let d = build(known).unwrap();
            let want = index.get(&known).copied();
            let got = reg.find_or_create_archetype(&d).map(|v| v.0);
            // Sets passed before the limit exist, those passed after it do not.
            if !c.expect(got == want, mix(0x102) ^ full as u64, || format!("set {:#x} with storage {:?} is found as {:?} among {}", known, want, got, index.len())) {
                return false;
            }
            let unknown = all[all.len() - 1 - r.index(2000)];
            let has = index.contains_key(&unknown);
            let found = reg.find_archetype(&build(unknown).unwrap()).is_some();
            if !c.expect(found == has, mix(0x103) ^ full as u64, || format!("set {:#x} found: {}, exists: {}", unknown, found, has)) {
                return false;
            }
            // By adding to or removing from a known one.
            let k = r.index(NK);
            let from = all[r.index(n + 1)];
            let Some(fi) = index.get(&from).copied() else { continue };
            let to = from ^ 1 << k;
            let ok = to != 0 && to.count_ones() <= 14 && (index.contains_key(&to) || index.len() < LIMIT);
            let got = if from >> k & 1 == 0 {
                reg.find_or_create_archetype_adding_component(fi, &descs[k]).map(|v| v.1)
            } else {
                reg.find_or_create_archetype_removing_component(fi, &descs[k]).map(|v| v.1)
            };
            let good = match (got, index.get(&to)) {
                (Some(a), Some(b)) => ok && a == *b,
                (Some(a), None) => ok && used.insert(a),
                (None, _) => !ok,
            };
            if !c.expect(good, mix(0x104) ^ full as u64 ^ (ok as u64) << 1, || format!("from set {:#x} to {:#x} among {}: {:?}, expected {:?}", from, to, index.len(), got, index.get(&to))) {
                return false;
            }
            if let Some(a) = got {
                index.insert(to, a);
            }
        }
        if n % 1000 == 0 {
            c.op(n as u64);
        }
    }
    c.max("max_storages", index.len() as u64);
    // Every index still leads to its own set.
    for (set, i) in &index {
        let d = unsafe { reg.get_unchecked(*i) }.descriptor();
        let same = d.len() as u32 == set.count_ones() && (0..NK).all(|k| d.components().iter().any(|x| x.component_type_id == descs[k].component_type_id) == (set >> k & 1 == 1));
        if !c.expect(same, mix(0x105) ^ set.count_ones() as u64, || format!("storage {} no longer is that of set {:#x}", i, set)) {
            return false;
        }
    }
    c.expect(index.len() == LIMIT, mix(0x106), || format!("{} sets", index.len()))
}

fn single(k: usize) -> ArchetypeDescriptor {
    macro_rules! t { ($($i:literal)*) => { match k { $($i => <K<$i> as ComponentGroup>::DESCRIPTOR.archetype().clone(),)* _ => unreachable!() } } }
    t!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)
}

pub fn run(c: &mut Ctx, r: &mut Rng) {
    match harness::runner::num("--mode", 9) {
        0 => by_entities(c, r),
        1 => by_lookup(c, r),
        _ => match r.below(3) {
            0 => by_lookup(c, r),
            _ => by_entities(c, r),
        },
    };
}
