//! C15: descriptors against bit sets. C18: one storage per set.

use harness::prng::Rng;
use harness::report;
use harness::runner::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component_descriptor::ComponentDescriptor;
use shard_ecs::component_group_descriptor::ComponentGroupDescriptor;
use shard_ecs::{ComponentTypeId, Entity};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

unsafe fn nothing0(_: *mut u8, _: usize) {}
unsafe fn nothing1(_: *mut u8, n: usize) {
    std::hint::black_box(n);
}

/// A set of components of the reference: identifiers in ascending order.
pub type Ids = Vec<u16>;

fn shape(id: u16) -> (u16, u16) {
    let a = 1u16 << (id % 5);
    ((id / 7 % 4) * a, a)
}

/// Descriptor of the artificial component with this identifier.
pub fn comp(id: u16) -> ComponentDescriptor {
    let (size, align) = shape(id);
    ComponentDescriptor::new(ComponentTypeId::from_u16(id), size, align, if id % 3 == 0 { nothing0 } else { nothing1 })
}

fn ids_of(d: &ArchetypeDescriptor) -> Ids {
    d.components().iter().map(|c| c.component_type_id().into_u16()).collect()
}

fn group_of(ids: &[u16]) -> ComponentGroupDescriptor {
    macro_rules! by_len {
        ($($n:literal)*) => {
            match ids.len() {
                $($n => {
                    let v: [ComponentDescriptor; $n] = std::array::from_fn(|i| comp(ids[i]));
                    ComponentGroupDescriptor::new(&v)
                })*
                _ => panic!("no group of this length"),
            }
        };
    }
    by_len!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16)
}

/// Sets whose identity hashes to the reserved value, or to zero. Found by search over the current hash function.
pub const SPECIAL: &[&[u16]] = &[
    &[0x7684, 0x8237, 0xa1f5, 0xfa15],
    &[0x3345, 0x6064, 0x825e, 0x9f27],
    &[0x551c, 0x8546, 0xa411, 0xd18d],
    &[0x4de0, 0xcb9f],
    &[0x4c9e, 0x5cd6, 0x74c1],
    &[0x8379, 0x96ac, 0xd067],
    &[0x24cc, 0xc431],
];

/// Descriptor of a set, reached on a random route. None: the code under test refused a legal step.
pub fn describe(c: &mut Ctx, r: &mut Rng, set: &[u16], universe: &[u16]) -> Option<(ArchetypeDescriptor, u64)> {
    let mut order = set.to_vec();
    r.shuffle(&mut order);
    match r.below(4) {
        0 if set.len() <= 14 => {
            let g = group_of(&order);
            if !c.expect(g.is_valid(), 0x100 | set.len() as u64, || format!("the group {:x?} is reported invalid", order)) {
                return None;
            }
            check_order(c, &g, &order);
            Some((g.archetype().clone(), 0))
        }
        1 => {
            let mut extra: Ids = universe.iter().copied().filter(|i| !set.contains(i)).collect();
            r.shuffle(&mut extra);
            extra.truncate((14 - set.len()).min(r.index(6)));
            let n = extra.len();
            let mut all = order;
            all.extend(extra.iter());
            r.shuffle(&mut all);
            let mut d = add_all(c, &all)?;
            r.shuffle(&mut extra);
            for e in extra {
                d = match d.remove_component(ComponentTypeId::from_u16(e)) {
                    Some(d) => d,
                    None => {
                        c.expect(false, 0x101, || format!("removing {:#x} from {:x?} was refused", e, ids_of(&d)));
                        return None;
                    }
                };
            }
            Some((d, 1 + n as u64))
        }
        2 => {
            // Part of it as a group, the rest added.
            let n = 1 + r.index(set.len());
            let g = group_of(&order[..n]);
            if !c.expect(g.is_valid(), 0x102 | n as u64, || format!("the group {:x?} is reported invalid", &order[..n])) {
                return None;
            }
            check_order(c, &g, &order[..n]);
            let mut d = g.archetype().clone();
            for e in &order[n..] {
                d = d.add_component(&comp(*e))?;
            }
            Some((d, 8))
        }
        _ => Some((add_all(c, &order)?, 9)),
    }
}

fn add_all(c: &mut Ctx, order: &[u16]) -> Option<ArchetypeDescriptor> {
    let mut d: ArchetypeDescriptor = if order[0] % 2 == 0 { (&comp(order[0])).into() } else { comp(order[0]).into() };
    for (i, e) in order[1..].iter().enumerate() {
        let next = d.add_component(&comp(*e));
        let len = d.len();
        match next {
            Some(n) => {
                c.eval(0x103 << 16 | i as u64);
                d = n
            }
            None => {
                c.expect(false, 0x103, || format!("adding {:#x} to {:x?} (length {}) was refused", e, ids_of(&d), len));
                return None;
            }
        }
    }
    Some(d)
}

fn universe(r: &mut Rng) -> Ids {
    let mut u: BTreeSet<u16> = BTreeSet::new();
    let edge = [0u16, 1, 2, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFD, 0x00FF, 0x0100, 0x0101, 0xFF00];
    let n = 15 + r.index(10);
    let dense = r.chance(1, 4);
    let base = r.below(60_000) as u16;
    while u.len() < n {
        let id = match r.below(4) {
            0 => *r.pick(&edge),
            _ if dense => base + r.below(40) as u16,
            1 => (r.below(16) << r.below(13)) as u16,
            _ => r.below(65_535) as u16,
        };
        if id != 0xFFFF {
            u.insert(id);
        }
    }
    u.into_iter().collect()
}

fn subset(r: &mut Rng, u: &[u16], max: usize) -> Ids {
    let n = 1 + r.index(max.min(u.len()));
    let mut v = u.to_vec();
    r.shuffle(&mut v);
    v.truncate(n);
    v.sort();
    v
}

fn rel(a: &[u16], b: &[u16]) -> u64 {
    let common = a.iter().filter(|x| b.contains(x)).count();
    (common == 0) as u64 | ((common == a.len()) as u64) << 1 | ((common == b.len()) as u64) << 2
}

/// A group knows where its members are in the list of its set, and the other way round.
fn check_order(c: &mut Ctx, g: &ComponentGroupDescriptor, order: &[u16]) {
    let n = order.len() as u64;
    let list = ids_of(g.archetype());
    c.expect(g.len() as usize == order.len(), 0x250 << 32 | n, || format!("the group {:x?} says its length is {}", order, g.len()));
    if list.len() != order.len() {
        return;
    }
    for i in 0..order.len() {
        let j = g.unsorted_to_sorted(i as u8);
        c.expect(list.get(j as usize) == Some(&order[i]), 0x251 << 32 | n << 16 | (i as u64) << 8 | j as u64, || {
            format!("group {:x?}: member {} is said to be at position {} of {:x?}", order, i, j, list)
        });
        let j = g.sorted_to_unsorted(i as u8);
        c.expect(order.get(j as usize) == Some(&list[i]), 0x252 << 32 | n << 16 | (i as u64) << 8 | j as u64, || {
            format!("group {:x?}: position {} of {:x?} is said to be member {}", order, i, list, j)
        });
    }
}

/// Everything a descriptor says about itself, against its set.
fn check_one(c: &mut Ctx, d: &ArchetypeDescriptor, set: &[u16], route: u64) {
    let n = set.len() as u64;
    c.expect(d.is_valid(), 0x200 << 16 | n << 8 | route, || format!("the descriptor of {:x?} says it is invalid", set));
    c.expect(d.len() as usize == set.len(), 0x201 << 16 | n << 8 | route, || format!("the descriptor of {:x?} says its length is {}", set, d.len()));
    let mut got = ids_of(d);
    got.sort();
    c.expect(got == set, 0x202 << 16 | n << 8 | route, || format!("the descriptor of {:x?} (route {}) lists {:x?}", set, route, got));
    let id = ArchetypeDescriptor::compute_archetype_id(d.components());
    c.expect(id == d.archetype_id(), 0x204 << 16 | n << 8 | route, || format!("the descriptor of {:x?} (route {}) has identity {:?}, its components have {:?}", set, route, d.archetype_id(), id));
    for k in d.components() {
        let id = k.component_type_id().into_u16();
        c.expect(*k == comp(id), 0x203 << 16 | n << 8 | route, || format!("the descriptor of {:x?} lists {:?} for {:#x}", set, k, id));
    }
}

fn check_pair(c: &mut Ctx, a: &ArchetypeDescriptor, sa: &[u16], b: &ArchetypeDescriptor, sb: &[u16]) {
    let sig = (sa.len() as u64) << 8 | sb.len() as u64 | rel(sa, sb) << 16;
    let inc = sb.iter().all(|x| sa.contains(x));
    let exc = sb.iter().all(|x| !sa.contains(x));
    let g = a.contains_subset(b);
    c.expect(g == inc, sig | 0x210 << 32, || format!("{:x?} contains {:x?}: {}", sa, sb, g));
    let g = a.excludes_subset(b);
    c.expect(g == exc, sig | 0x211 << 32, || format!("{:x?} excludes {:x?}: {}", sa, sb, g));
    if sa == sb {
        c.expect(a.archetype_id() == b.archetype_id(), sig | 0x212 << 32, || format!("two descriptors of {:x?} have identities {:?} and {:?}", sa, a.archetype_id(), b.archetype_id()));
    }
}

pub fn algebra(c: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 3) {
        return zoo(c, r);
    }
    let u = universe(r);
    let mut all: Vec<(ArchetypeDescriptor, Ids, u64)> = Vec::new();
    let n = if c.scale == Scale::Tiny { 5 } else { 14 };
    for i in 0..n {
        c.op(10);
        let set = match r.below(5) {
            // Related to an earlier one.
            0 | 1 if i > 0 => {
                let mut s = all[r.index(all.len())].1.clone();
                for _ in 0..r.below(3) {
                    let e = *r.pick(&u);
                    match s.binary_search(&e) {
                        Ok(k) if s.len() > 1 => {
                            s.remove(k);
                        }
                        Err(k) if s.len() < 14 => s.insert(k, e),
                        _ => {}
                    }
                }
                s
            }
            2 if !SPECIAL.is_empty() && r.chance(1, 3) => r.pick(SPECIAL).to_vec(),
            3 => subset(r, &u, 3),
            _ => subset(r, &u, 14),
        };
        let (d, route) = match describe(c, r, &set, &u) {
            Some(v) => v,
            None => return,
        };
        c.log(|| format!("{:x?} by route {}", set, route));
        check_one(c, &d, &set, route);
        all.push((d, set, route));
        if report::any() {
            return;
        }
    }
    c.count("descriptors", all.len() as u64);
    for (a, sa, ra) in &all {
        for (b, sb, _) in &all {
            check_pair(c, a, sa, b, sb);
        }
        // One step in every direction.
        c.op(11);
        for e in &u {
            let n = a.add_component(&comp(*e));
            let legal = !sa.contains(e) && sa.len() < 14;
            let pos = sa.partition_point(|x| x < e) as u64;
            c.expect(n.is_some() == legal, 0x220 << 32 | (sa.len() as u64) << 8 | pos << 4 | legal as u64, || {
                format!("adding {:#x} to {:x?}: {}", e, sa, if n.is_some() { "accepted" } else { "refused" })
            });
            if let Some(n) = n {
                let mut s = sa.clone();
                s.push(*e);
                s.sort();
                check_one(c, &n, &s, 20);
                check_pair(c, &n, &s, a, sa);
                // And back.
                match n.remove_component(ComponentTypeId::from_u16(*e)) {
                    Some(back) => {
                        check_one(c, &back, sa, 21);
                        check_pair(c, &back, sa, a, sa);
                    }
                    None => {
                        c.expect(false, 0x221, || format!("removing {:#x} from {:x?} again was refused", e, s));
                    }
                }
            }
            let n = a.remove_component(ComponentTypeId::from_u16(*e));
            let legal = sa.contains(e) && sa.len() > 1;
            c.expect(n.is_some() == legal, 0x222 << 32 | (sa.len() as u64) << 8 | pos << 4 | legal as u64, || {
                format!("removing {:#x} from {:x?}: {}", e, sa, if n.is_some() { "accepted" } else { "refused" })
            });
            if let Some(n) = n {
                let s: Ids = sa.iter().copied().filter(|x| x != e).collect();
                check_one(c, &n, &s, 22);
                check_pair(c, a, sa, &n, &s);
            }
        }
        check_one(c, a, sa, *ra);
        if report::any() {
            return;
        }
    }
    // Malformed groups are no sets.
    c.op(12);
    let mut bad = subset(r, &u, 14);
    let twin = *r.pick(&bad);
    let at = r.index(bad.len() + 1);
    bad.insert(at, twin);
    let g = group_of(&bad);
    c.expect(!g.is_valid() && !g.archetype().is_valid(), 0x230 << 32 | bad.len() as u64, || format!("the group {:x?}, which names {:#x} twice, is reported valid", bad, twin));
    no_sets(c, r, &u);
}

/// Too few components, too many, and sets without a name: all of them are the invalid descriptor, which is empty.
fn no_sets(c: &mut Ctx, r: &mut Rng, u: &Ids) {
    const MAX: usize = shard_ecs::MAX_COMPONENTS_PER_ENTITY;
    let mut order = u.clone();
    r.shuffle(&mut order);
    for n in [0, MAX + 1, MAX + 2] {
        if n > order.len() || n > 16 {
            continue;
        }
        let g = group_of(&order[..n]);
        c.expect(!g.is_valid() && !g.archetype().is_valid() && g.len() == 0, 0x231 << 32 | n as u64, || format!("the group of the {} components {:x?} is reported valid", n, &order[..n]));
    }
    let mut slots: [ComponentDescriptor; MAX] = std::array::from_fn(|_| ComponentDescriptor::INVALID);
    let n = 1 + r.index(MAX);
    order.truncate(n);
    order.sort();
    for (i, id) in order.iter().enumerate() {
        slots[i] = comp(*id);
    }
    let id = ArchetypeDescriptor::compute_archetype_id(&slots[..n]);
    c.expect(id.is_valid(), 0x232 << 32 | n as u64, || format!("{:x?} is given the invalid identity", order));
    let none = ArchetypeDescriptor::compute_archetype_id(&[]);
    c.expect(!none.is_valid(), 0x233 << 32, || format!("no components at all have the valid identity {:?}", none));
    let good = ArchetypeDescriptor::new(id, n as u8, slots.clone());
    check_one(c, &good, &order, 30);
    let mut bad = vec![
        ("the invalid descriptor", ArchetypeDescriptor::INVALID.clone()),
        ("a descriptor of no components", ArchetypeDescriptor::new(id, 0, slots.clone())),
        ("a descriptor without an identity", ArchetypeDescriptor::new(shard_ecs::ArchetypeId::INVALID, n as u8, slots)),
    ];
    bad.push(("the archetype of the invalid group", ComponentGroupDescriptor::INVALID.archetype().clone()));
    for (i, (what, d)) in bad.iter().enumerate() {
        let sig = 0x234 << 32 | (i as u64) << 8 | n as u64;
        c.expect(!d.is_valid() && !d.archetype_id().is_valid(), sig, || format!("{} (made of {:x?}) is reported valid", what, order));
        c.expect(d.len() == 0 && d.components().is_empty(), sig | 1 << 31, || format!("{} (made of {:x?}) has {} components", what, order, d.len()));
        let e = comp(*r.pick(u));
        c.expect(d.remove_component(e.component_type_id()).is_none(), sig | 1 << 30, || format!("{} (made of {:x?}) loses {:?}", what, order, e));
    }
}

macro_rules! zoo_from {
    ($($k:ident),*) => {
        [$(|d: &ArchetypeDescriptor| d.add_component_from::<harness::kinds::$k>()),*]
    };
}

/// The same with real component types and typed groups.
fn zoo(c: &mut Ctx, r: &mut Rng) {
    use harness::kinds::*;
    let from: [fn(&ArchetypeDescriptor) -> Option<ArchetypeDescriptor>; NK] = harness::for_all_kinds!(zoo_from);
    static K: OnceLock<(Vec<harness::vt::KindVt>, Vec<(harness::vt::GroupVt, ArchetypeDescriptor)>)> = OnceLock::new();
    macro_rules! archetypes {
        ($(($g:ty, $n:expr)),*) => {
            vec![$(<$g as shard_ecs::component_group::ComponentGroup>::DESCRIPTOR.archetype().clone()),*]
        };
    }
    let (kinds, groups) = K.get_or_init(|| {
        let d: Vec<ArchetypeDescriptor> = harness::for_all_groups!(archetypes);
        (harness::kinds_table(), harness::table::groups().into_iter().zip(d).collect())
    });
    let list = |m: u32| -> Vec<usize> { (0..NK).filter(|k| m >> k & 1 == 1).collect() };
    // A walk through the subsets.
    let start = loop {
        let g = r.pick(groups);
        if g.0.valid {
            break g;
        }
    };
    let (mut d, mut set) = (start.1.clone(), start.0.set);
    c.log(|| format!("typed walk from {}", start.0.name));
    for step in 0..if c.scale == Scale::Tiny { 8 } else { 60 } {
        c.op(13);
        let n = set.count_ones() as u64;
        for (k, vt) in kinds.iter().enumerate() {
            let has = (vt.desc_has)(&d);
            c.expect(has == (set >> k & 1 == 1), 0x240 << 32 | n << 8 | k as u64, || format!("descriptor of {:?} has {}: {}", list(set), vt.tag, has));
        }
        for (g, gd) in groups {
            if !g.valid {
                c.expect(!gd.is_valid(), 0x241 << 32, || format!("malformed group {} is reported valid", g.name));
                continue;
            }
            let sig = n << 8 | g.set.count_ones() as u64 | ((g.set & set == g.set) as u64) << 16 | ((g.set & set == 0) as u64) << 17 | ((set & g.set == set) as u64) << 18;
            let v = (g.desc_contains)(&d);
            c.expect(v == (g.set & set == g.set), sig | 0x242 << 32, || format!("{:?} contains group {}: {}", list(set), g.name, v));
            let v = (g.desc_excludes)(&d);
            c.expect(v == (g.set & set == 0), sig | 0x243 << 32, || format!("{:?} excludes group {}: {}", list(set), g.name, v));
            let v = gd.contains_subset(&d);
            c.expect(v == (g.set & set == set), sig | 0x244 << 32, || format!("group {} contains {:?}: {}", g.name, list(set), v));
            if g.set == set {
                c.expect(gd.archetype_id() == d.archetype_id(), sig | 0x245 << 32, || {
                    format!("descriptor of {:?} reached after {} steps has identity {:?}, the group {} has {:?}", list(set), step, d.archetype_id(), g.name, gd.archetype_id())
                });
            }
        }
        for k in d.components() {
            let i = kinds.iter().position(|v| v.id == k.component_type_id().into_u16());
            c.expect(i.map_or(false, |i| set >> i & 1 == 1 && kinds[i].size == k.size() as usize && kinds[i].align == k.align() as usize), 0x246 << 32 | n, || {
                format!("descriptor of {:?} lists {:?}", list(set), k)
            });
        }
        c.expect(d.len() as u32 == set.count_ones(), 0x247 << 32 | n, || format!("descriptor of {:?} says its length is {}", list(set), d.len()));
        if report::any() {
            return;
        }
        let k = r.index(NK);
        let present = set >> k & 1 == 1;
        let add = if r.chance(1, 4) { present } else { !present };
        if add {
            let v = from[k](&d);
            let legal = !present && n < 14;
            c.expect(v.is_some() == legal, 0x248 << 32 | n << 8 | k as u64, || format!("adding {} to {:?}: {}", kinds[k].tag, list(set), if v.is_some() { "accepted" } else { "refused" }));
            if let Some(v) = v {
                d = v;
                set |= 1 << k;
            }
        } else {
            let v = d.remove_component(ComponentTypeId::from_u16(kinds[k].id));
            let legal = present && n > 1;
            c.expect(v.is_some() == legal, 0x249 << 32 | n << 8 | k as u64, || format!("removing {} from {:?}: {}", kinds[k].tag, list(set), if v.is_some() { "accepted" } else { "refused" }));
            if let Some(v) = v {
                d = v;
                set &= !(1 << k);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C18

/// Different sets with equal identities, found by searching random sets. The oracle does not know the hash.
fn collisions(c: &mut Ctx) -> &'static Vec<(Ids, Ids)> {
    static V: OnceLock<Vec<(Ids, Ids)>> = OnceLock::new();
    let scale = c.scale;
    let seed = c.seed;
    let mut searched = 0;
    let v = V.get_or_init(|| {
        let mut r = Rng::new(seed ^ 0xC011);
        let mut out: Vec<(Ids, Ids)> = Vec::new();
        let per = match scale {
            Scale::Tiny => 0,
            Scale::Quick => 150_000,
            Scale::Thorough => 600_000,
        };
        let mut any: HashMap<u32, Ids> = HashMap::new();
        for len in [2usize, 3] {
            let mut same: HashMap<u32, Ids> = HashMap::with_capacity(per);
            for _ in 0..per {
                let mut s: BTreeSet<u16> = BTreeSet::new();
                while s.len() < len {
                    s.insert(r.below(65_535) as u16);
                }
                let s: Ids = s.into_iter().collect();
                let mut d: ArchetypeDescriptor = comp(s[0]).into();
                for e in &s[1..] {
                    match d.add_component(&comp(*e)) {
                        Some(n) => d = n,
                        None => return out,
                    }
                }
                searched += 1;
                let id = d.archetype_id().into_u32();
                // Identity of a single component.
                if id < 65_535 {
                    out.push((vec![id as u16], s.clone()));
                }
                if let Some(o) = any.get(&id) {
                    if *o != s {
                        out.push((o.clone(), s.clone()));
                    }
                }
                if let Some(o) = same.insert(id, s.clone()) {
                    if o != s {
                        out.push((o, s));
                    }
                }
            }
            any.extend(same);
        }
        out
    });
    c.count("sets_searched_for_collisions", searched);
    v
}

struct Store {
    reg: ArchetypeRegistry,
    /// Set to index, as handed out.
    map: BTreeMap<Ids, u16>,
    list: Vec<Ids>,
}

fn mark(index: u16) -> u32 {
    (index as u32 + 1) << 8 | 0x5A
}

impl Store {
    /// A storage was found for `set`: it has to be the known one, or a fresh one.
    fn found(&mut self, c: &mut Ctx, set: &Ids, index: u16, what: &str) {
        let sig = (set.len() as u64) << 8 | (64 - (self.list.len() as u64).leading_zeros() as u64);
        let marker = unsafe { self.reg.get_unchecked(index) }.entities().first().map(|e| e.raw());
        match self.map.get(set) {
            Some(i) => {
                c.expect(*i == index, 0x301 << 32 | sig, || format!("{}: {:x?} has storage {}, now it is {}", what, set, i, index));
                c.expect(marker == Some(mark(*i)), 0x302 << 32 | sig, || format!("{}: the storage of {:x?} ({}) does not hold its row, it holds {:x?}", what, set, i, marker));
            }
            None => {
                let twin = self.map.iter().find(|(_, i)| **i == index).map(|(s, _)| s.clone());
                c.expect(twin.is_none(), 0x303 << 32 | sig, || format!("{}: new set {:x?} was given the storage of {:x?}", what, set, twin));
                c.expect(marker.is_none(), 0x304 << 32 | sig, || format!("{}: the new storage of {:x?} holds {:x?}", what, set, marker));
                if report::any() {
                    return;
                }
                let a = unsafe { self.reg.get_unchecked_mut(index) };
                unsafe {
                    a.push_uninitialized_entity();
                    a.entities_mut()[0] = Entity::from_raw(mark(index));
                }
                self.map.insert(set.clone(), index);
                self.list.push(set.clone());
            }
        }
        self.check_index(c, set, what);
    }

    fn check_index(&mut self, c: &mut Ctx, set: &Ids, what: &str) {
        let index = match self.map.get(set) {
            Some(i) => *i,
            None => return,
        };
        let sig = (set.len() as u64) << 8;
        let a = &self.reg[index];
        let mut got = ids_of(a.descriptor());
        got.sort();
        c.expect(got == *set, 0x305 << 32 | sig, || format!("{}: storage {} is given to {:x?} but describes {:x?}", what, index, set, got));
        c.expect(a.len() == 1 && a.entities()[0].raw() == mark(index), 0x306 << 32 | sig, || {
            format!("{}: storage {} of {:x?} holds {:x?}", what, index, set, a.entities().iter().map(|e| e.raw()).collect::<Vec<_>>())
        });
        let seen = [self.reg[index].entities_mut().first().map(|e| e.raw()), unsafe { self.reg.get_unchecked_mut(index) }.entities_mut().first().map(|e| e.raw())];
        c.expect(seen == [Some(mark(index)); 2], 0x307 << 32 | sig, || format!("{}: storage {} of {:x?}, accessed mutably, holds {:x?}", what, index, set, seen));
    }

    fn lookup(&mut self, c: &mut Ctx, d: &ArchetypeDescriptor, set: &Ids) {
        let known = self.map.get(set).copied();
        let sig = (set.len() as u64) << 8 | known.is_some() as u64 | 64 - (self.list.len() as u64).leading_zeros() as u64;
        let got = self.reg.find_archetype(d).map(|a| (a.entities().first().map(|e| e.raw()), { let mut v = ids_of(a.descriptor()); v.sort(); v }));
        let want = known.map(|i| (Some(mark(i)), set.clone()));
        c.expect(got == want, 0x310 << 32 | sig, || format!("looking up {:x?} found {:x?}, not {:x?}", set, got, want));
        let got = self.reg.find_archetype_mut(d).map(|a| (a.entities_mut().first().map(|e| e.raw()), { let mut v = ids_of(a.descriptor()); v.sort(); v }));
        c.expect(got == want, 0x311 << 32 | sig, || format!("looking up {:x?} mutably found {:x?}, not {:x?}", set, got, want));
        let again = self.reg.find_archetype(d).is_some();
        c.expect(again == want.is_some(), 0x312 << 32 | sig, || format!("looking up {:x?} again: {}", set, again));
    }
}

pub fn storages(c: &mut Ctx, r: &mut Rng) {
    let pairs = collisions(c);
    let u = universe(r);
    let mut s = Store { reg: ArchetypeRegistry::default(), map: BTreeMap::new(), list: Vec::new() };
    let (steps, full) = match c.scale {
        Scale::Tiny => (25, 5),
        _ => {
            let n = [60u64, 300, 1500][r.index(3)];
            (if r.chance(1, 20) { 8000 } else { n }, 1 + r.below(40))
        }
    };
    let mut pool: Vec<Ids> = Vec::new();
    for _ in 0..r.below(8) {
        if !pairs.is_empty() {
            let (a, b) = r.pick(pairs);
            pool.push(a.clone());
            pool.push(b.clone());
            c.count("colliding_pairs_used", 1);
        }
    }
    if !SPECIAL.is_empty() && r.chance(1, 2) {
        pool.push(r.pick(SPECIAL).to_vec());
        pool.push(r.pick(SPECIAL).to_vec());
    }
    let wide = r.chance(1, 2);
    c.log(|| format!("universe {:x?}, {} colliding or special sets, {} steps", u, pool.len(), steps));
    for step in 0..steps {
        if report::any() {
            return;
        }
        let set: Ids = if !pool.is_empty() && r.chance(1, 4) {
            r.pick(&pool).clone()
        } else if !s.list.is_empty() && r.chance(1, 3) {
            r.pick(&s.list).clone()
        } else if wide {
            let mut v: BTreeSet<u16> = BTreeSet::new();
            for _ in 0..1 + r.index(14) {
                v.insert(r.below(65_535) as u16);
            }
            v.into_iter().collect()
        } else {
            subset(r, &u, 14)
        };
        match r.below(10) {
            0..=3 => {
                c.op(20);
                let (d, route) = match describe(c, r, &set, &u) {
                    Some(v) => v,
                    None => return,
                };
                c.log(|| format!("find or create {:x?} (route {})", set, route));
                match s.reg.find_or_create_archetype(&d) {
                    Some((i, a)) => {
                        let mut got = ids_of(a.descriptor());
                        got.sort();
                        c.expect(got == set, 0x320 << 32 | set.len() as u64, || format!("find or create {:x?} returned a storage of {:x?}", set, got));
                        if report::any() {
                            return;
                        }
                        s.found(c, &set, i, "find or create")
                    }
                    None => {
                        c.expect(false, 0x321, || format!("find or create {:x?} was refused, with {} storages", set, s.list.len()));
                    }
                }
            }
            4..=5 => {
                c.op(21);
                let (d, _) = match describe(c, r, &set, &u) {
                    Some(v) => v,
                    None => return,
                };
                s.lookup(c, &d, &set);
            }
            6..=8 => {
                if s.list.is_empty() {
                    continue;
                }
                let adding = r.chance(1, 2);
                let from = r.pick(&s.list).clone();
                let src = s.map[&from];
                let e = if !adding && r.chance(3, 4) { *r.pick(&from) } else if r.chance(1, 6) { *r.pick(&from) } else { *r.pick(&u) };
                c.op(22 + adding as u64);
                c.log(|| format!("{} {:#x} {} storage {} ({:x?})", if adding { "add" } else { "remove" }, e, if adding { "to" } else { "from" }, src, from));
                let mut to = from.clone();
                let legal = match (adding, to.binary_search(&e)) {
                    (true, Err(k)) if to.len() < 14 => {
                        to.insert(k, e);
                        true
                    }
                    (false, Ok(k)) if to.len() > 1 => {
                        to.remove(k);
                        true
                    }
                    _ => false,
                };
                let what = if adding { "adding" } else { "removing" };
                let got = if adding { s.reg.find_or_create_archetype_adding_component(src, &comp(e)) } else { s.reg.find_or_create_archetype_removing_component(src, &comp(e)) };
                let sig = (from.len() as u64) << 8 | legal as u64 | (adding as u64) << 1;
                match got {
                    None => {
                        c.expect(!legal, 0x330 << 32 | sig, || format!("{} {:#x} on {:x?} was refused", what, e, from));
                    }
                    Some((a, i, b)) => {
                        let (mut sa, mut sb) = (ids_of(a.descriptor()), ids_of(b.descriptor()));
                        sa.sort();
                        sb.sort();
                        let m = a.entities().first().map(|e| e.raw());
                        c.expect(legal, 0x331 << 32 | sig, || format!("{} {:#x} on {:x?} gave {:x?}", what, e, from, sb));
                        c.expect(sa == from && m == Some(mark(src)), 0x332 << 32 | sig, || format!("{} {:#x} on {:x?} returned the source {:x?} with {:x?}", what, e, from, sa, m));
                        c.expect(sb == to, 0x333 << 32 | sig, || format!("{} {:#x} on {:x?} returned the destination {:x?}", what, e, from, sb));
                        if report::any() {
                            return;
                        }
                        s.found(c, &to, i, what);
                        s.check_index(c, &from, what);
                    }
                }
            }
            _ => {
                c.op(24);
                // Refused: invalid sets, sources that do not exist.
                c.expect(s.reg.find_archetype(&ArchetypeDescriptor::INVALID).is_none(), 0x340, || "the invalid set was found".into());
                c.expect(s.reg.find_or_create_archetype(&ArchetypeDescriptor::INVALID).is_none(), 0x341, || "storage was created for the invalid set".into());
                let mut bad = set.clone();
                bad.truncate(14);
                bad.push(bad[r.index(bad.len())]);
                let g = group_of(&bad);
                c.expect(s.reg.find_or_create_archetype(g.archetype()).is_none(), 0x342 << 32 | bad.len() as u64, || format!("storage was created for the malformed group {:x?}", bad));
                let n = s.list.len() as u16;
                for src in [n, n.saturating_add(1), 127, 128, 65_533, 65_534, 65_535] {
                    if src < n {
                        continue;
                    }
                    let e = *r.pick(&u);
                    let a = s.reg.find_or_create_archetype_adding_component(src, &comp(e)).is_some();
                    let b = s.reg.find_or_create_archetype_removing_component(src, &comp(e)).is_some();
                    c.expect(!a && !b, 0x343 << 32 | (src == n) as u64, || format!("source {} of {} was accepted", src, n));
                }
            }
        }
        if step % full == full - 1 {
            for set in s.list.clone() {
                s.check_index(c, &set, "later");
            }
        }
    }
    c.op(25);
    let all: BTreeSet<u16> = s.map.values().copied().collect();
    c.expect(all.len() == s.map.len(), 0x350 << 32 | all.len() as u64, || "two sets share a storage".into());
    for set in s.list.clone() {
        if report::any() {
            break;
        }
        s.check_index(c, &set, "finally");
        if let Some((d, _)) = describe(c, r, &set, &u) {
            s.lookup(c, &d, &set);
        }
    }
    c.max("max_sets", s.list.len() as u64);
    c.count("storages", s.list.len() as u64);
}
