//! C16: the entity store against a map; handles and records field by field.

use harness::prng::Rng;
use harness::report;
use harness::runner::*;
use shard_ecs::{ArchetypeIndex, Entity, EntityEntry, EntityRegistry, IndexInArchetype};
use std::collections::{BTreeMap, HashMap};

const ROWS: u32 = 16_777_215;

fn row(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, 0xFF, 0x100, 0xFFFF, 0x1_0000, 0xFF_0000, 0x7F_FFFF, 0x80_0000, ROWS - 1, ROWS - 2, 0x01_0203]),
        1 => 1 << r.below(24),
        2 => (1 << (1 + r.below(23))) - 1,
        _ => r.below(ROWS as u64) as u32,
    }
    .min(ROWS - 1)
}

fn arch(r: &mut Rng) -> u16 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 65_534, 65_533, 0xFF00]),
        1 => 1 << r.below(16),
        _ => r.below(65_535) as u16,
    }
}

fn entity(raw: u32) -> Entity {
    unsafe { Entity::from_raw(raw) }
}

fn fields(e: &EntityEntry) -> (u8, u32, u16) {
    (e.version(), e.index_in_archetype().value(), e.archetype_index())
}

/// Handles and records as tuples of independent fields.
fn round_trips(c: &mut Ctx, r: &mut Rng) {
    c.op(30);
    c.log(|| "fields of handles and records".into());
    let full = c.scale != Scale::Tiny;
    // Whole ranges, in a random stride order so that short runs see all regions.
    let n = if full { 200_000u32 } else { 300 };
    let mut x = r.next() as u32;
    let mut e = EntityEntry::default();
    c.expect(fields(&e).1 == 0 && fields(&e).0 == 0, 0x400, || format!("a new record holds {:?}", fields(&e)));
    let mut model = fields(&e);
    let mut h = entity(0);
    let (mut hi, mut hv) = (0u32, 0u8);
    for i in 0..n {
        x = x.wrapping_mul(0x9E37_79B1).wrapping_add(0x7F4A_7C15);
        match i % 4 {
            0 => {
                model.0 = x as u8;
                e.set_version(x as u8);
            }
            1 | 2 => {
                let v = if x & 0xF0 == 0 { row(r) } else { (x >> 8) % ROWS };
                model.1 = v;
                match IndexInArchetype::new(v) {
                    Some(k) => {
                        if k.value() != v || IndexInArchetype::from_bytes(k.to_bytes()) != k {
                            report::violation(report::p(16), format!("row {} does not survive its representation: {:?}", v, k));
                            return;
                        }
                        e.set_index_in_archetype(k)
                    }
                    None => {
                        report::violation(report::p(16), format!("row {} is refused", v));
                        return;
                    }
                }
            }
            _ => {
                let v = if x & 0xF0 == 0 { arch(r) } else { x as u16 };
                model.2 = v;
                e.set_archetype_index(v);
            }
        }
        c.evals += 1;
        if fields(&e) != model || e.is_valid() != (model.2 != 65_535) {
            report::violation(report::p(16), format!("a record set to {:?} reads {:?} (valid: {})", model, fields(&e), e.is_valid()));
            return;
        }
        // The handle.
        match x >> 30 {
            0 => {
                hi = x >> 6 & 0xFF_FFFF;
                unsafe { h.set_index(hi) };
            }
            1 => {
                hv = x as u8;
                h.set_version(hv);
            }
            2 => {
                hi = x >> 3 & 0xFF_FFFF;
                hv = (x >> 5) as u8;
                h = unsafe { Entity::new_unchecked(hi, hv) };
            }
            _ => h = entity(h.raw()),
        }
        c.evals += 1;
        let valid = !(hi == 0xFF_FFFF && hv == 255);
        if h.index() != hi || h.version() != hv || h.is_valid() != valid || (h == Entity::INVALID) == valid {
            report::violation(report::p(16), format!("a handle set to index {} version {} reads {} and {} (valid: {})", hi, hv, h.index(), h.version(), h.is_valid()));
            return;
        }
        if i % 64 == 0 {
            c.eval(0x401 << 32 | (hi.leading_zeros() as u64) << 16 | (hv >> 4) as u64);
            c.eval(0x402 << 32 | (model.1.leading_zeros() as u64) << 16 | (model.2.leading_zeros() as u64));
        }
    }
    c.count("field_writes", 2 * n as u64);
    for v in [ROWS, ROWS + 1, u32::MAX, 1 << 24, 1 << 31] {
        c.expect(IndexInArchetype::new(v).is_none(), 0x403 << 32 | v as u64, || format!("row {} is accepted", v));
    }
    c.expect(ArchetypeIndex::new(65_535).is_none(), 0x404, || "the reserved set index is accepted".into());
    for v in [0, 1, 65_534, 65_533, 256, r.below(65_535) as u16] {
        c.expect(ArchetypeIndex::new(v).map(|a| a.value()) == Some(v), 0x405 << 32 | v as u64, || format!("set index {} does not survive", v));
    }
    c.expect(!Entity::INVALID.is_valid() && Entity::default() == Entity::INVALID && Entity::invalid() == Entity::INVALID, 0x406, || "the null handle is not the null handle".into());
}

pub fn run(c: &mut Ctx, r: &mut Rng) {
    round_trips(c, r);
    if report::any() {
        return;
    }
    let mut reg = EntityRegistry::default();
    // Two stores at once: nothing may be shared.
    let mut other = EntityRegistry::default();
    let mut live: BTreeMap<u32, (u32, u16)> = BTreeMap::new();
    let mut order: Vec<u32> = Vec::new();
    let mut dead: Vec<u32> = Vec::new();
    let mut versions: HashMap<u32, u8> = HashMap::new();
    let small = c.scale == Scale::Tiny;
    let steps = if small { 120 } else { [400, 2000, 10_000][r.index(3)] };
    let max = if small { 12 } else { [1, 3, 20, 300, 5000][r.index(5)] };
    let churn = r.chance(1, 3);
    c.log(|| format!("{} steps, at most {} live, churn {}", steps, max, churn));
    for step in 0..steps {
        if report::any() {
            return;
        }
        let grow = if order.len() >= max { false } else if churn { r.chance(1, 2) } else { r.chance(3, 5) };
        match r.below(12) {
            0..=6 if grow => {
                c.op(40);
                let (i, a) = (row(r), arch(r));
                let can = reg.can_register_new_entity();
                let got = reg.create_entity(IndexInArchetype::new(i).unwrap(), ArchetypeIndex::new(a).unwrap());
                c.expect(can, 0x410, || "a store with room says it has none".into());
                match got {
                    None => {
                        c.expect(false, 0x411, || format!("creation refused with {} live entities", order.len()));
                    }
                    Some(e) => {
                        let raw = e.raw();
                        c.expect(e.is_valid(), 0x412, || "creation returned the null handle".into());
                        c.expect(!live.contains_key(&raw), 0x413, || format!("handle {:#x} was given out although it is alive", raw));
                        let twin = live.keys().find(|k| **k >> 8 == raw >> 8).copied();
                        c.expect(twin.is_none(), 0x414, || format!("handle {:#x} shares its slot with live {:#x?}", raw, twin));
                        if let Some(v) = versions.get(&(raw >> 8)) {
                            c.expect(*v != raw as u8, 0x415, || format!("handle {:#x} was issued twice in a row", raw));
                            c.count("slots_reused", 1);
                        }
                        versions.insert(raw >> 8, raw as u8);
                        live.insert(raw, (i, a));
                        order.push(raw);
                        dead.retain(|d| *d != raw);
                        c.log(|| format!("create at ({}, {}) -> {:#x}", i, a, raw));
                    }
                }
            }
            0..=6 => {
                if order.is_empty() {
                    continue;
                }
                c.op(41);
                let k = match r.below(3) {
                    0 => order.len() - 1,
                    1 => 0,
                    _ => r.index(order.len()),
                };
                let raw = order.swap_remove(k);
                c.log(|| format!("destroy {:#x}", raw));
                let ok = reg.destroy_entity(entity(raw));
                c.expect(ok, 0x420 << 16 | (order.is_empty() as u64), || format!("destroying live {:#x} was refused", raw));
                live.remove(&raw);
                dead.push(raw);
                if dead.len() > 40 {
                    dead.remove(0);
                }
                let e = reg.entity_entry(entity(raw)).map(fields);
                c.expect(e.is_none() && reg.entity_entry_mut(entity(raw)).is_none(), 0x421, || format!("{:#x} still resolves after its destruction, to {:?}", raw, e));
                let again = reg.destroy_entity(entity(raw));
                c.expect(!again, 0x422, || format!("{:#x} was destroyed twice", raw));
            }
            7 | 8 => {
                if order.is_empty() {
                    continue;
                }
                c.op(42);
                let raw = *r.pick(&order);
                let (i, a) = (row(r), arch(r));
                let which = r.below(3);
                c.log(|| format!("relocate {:#x} ({}) to ({}, {})", raw, which, i, a));
                let m = live.get_mut(&raw).unwrap();
                match reg.entity_entry_mut(entity(raw)) {
                    None => {
                        c.expect(false, 0x430, || format!("live {:#x} does not resolve mutably", raw));
                    }
                    Some(e) => {
                        let seen = (e.index_in_archetype().value(), e.archetype_index());
                        c.expect(seen == *m, 0x431 << 16, || format!("{:#x} was recorded at {:?}, the store says {:?}", raw, m, seen));
                        if which != 1 {
                            e.set_index_in_archetype(IndexInArchetype::new(i).unwrap());
                            m.0 = i;
                        }
                        if which != 0 {
                            e.set_archetype_index(a);
                            m.1 = a;
                        }
                        let v = e.version();
                        c.expect(v == raw as u8, 0x432, || format!("the record of {:#x} has version {}", raw, v));
                    }
                }
            }
            9 | 10 => {
                c.op(43);
                // Handles nobody may use.
                let slots = versions.len() as u64 + 2;
                let raw = match r.below(6) {
                    0 if !dead.is_empty() => *r.pick(&dead),
                    1 => u32::MAX,
                    2 => (r.below(slots) as u32) << 8 | r.below(256) as u32,
                    3 => r.next() as u32,
                    4 => (ROWS - r.below(3) as u32) << 8 | r.below(256) as u32,
                    _ if !order.is_empty() => r.pick(&order).wrapping_add(1 << r.below(9)),
                    _ => 0,
                };
                let known = live.get(&raw).copied();
                let e = reg.entity_entry(entity(raw)).map(|e| (e.index_in_archetype().value(), e.archetype_index()));
                c.expect(e == known, 0x440 << 16 | known.is_some() as u64, || format!("handle {:#x} resolves to {:?}, recorded is {:?}", raw, e, known));
                let e = reg.entity_entry_mut(entity(raw)).map(|e| (e.index_in_archetype().value(), e.archetype_index()));
                c.expect(e == known, 0x441 << 16 | known.is_some() as u64, || format!("handle {:#x} resolves mutably to {:?}, recorded is {:?}", raw, e, known));
                if known.is_none() {
                    let ok = reg.destroy_entity(entity(raw));
                    c.expect(!ok, 0x442, || format!("handle {:#x} is not alive but was destroyed", raw));
                }
            }
            _ => {
                c.op(44);
                // The other store.
                let e = other.create_entity(IndexInArchetype::new(row(r)).unwrap(), ArchetypeIndex::new(arch(r)).unwrap());
                if let Some(e) = e {
                    if r.chance(1, 2) {
                        other.destroy_entity(e);
                    }
                }
            }
        }
        let rare = if order.len() > 200 { 200 } else { 20 };
        if step % rare == rare - 1 || step + 1 == steps {
            c.op(45);
            for (raw, m) in &live {
                let e = reg.entity_entry(entity(*raw)).map(|e| (e.index_in_archetype().value(), e.archetype_index(), e.version()));
                let sig = 0x450 << 48 | ((m.0.leading_zeros() as u64) << 16) | (m.1.leading_zeros() as u64);
                c.expect(e == Some((m.0, m.1, *raw as u8)), sig, || format!("{:#x} was recorded at {:?}, the store says {:?}", raw, m, e));
            }
            let mut it = reg.iter();
            let mut got: Vec<u32> = Vec::new();
            while let Some(e) = it.next() {
                got.push(e.raw());
                if got.len() > live.len() + 10 {
                    break;
                }
            }
            let more = (0..3).filter(|_| it.next().is_some()).count();
            drop(it);
            let n = got.len();
            got.sort();
            let want: Vec<u32> = live.keys().copied().collect();
            let bucket = 64 - (n as u64).leading_zeros() as u64;
            c.expect(got == want, 0x451 << 16 | bucket, || {
                let a: Vec<String> = got.iter().filter(|g| !live.contains_key(g)).take(5).map(|g| format!("{:#x}", g)).collect();
                let b: Vec<String> = want.iter().filter(|g| !got.contains(g)).take(5).map(|g| format!("{:#x}", g)).collect();
                format!("enumeration of {} live entities yields {} handles; wrong: {:?}, missing: {:?}", want.len(), n, a, b)
            });
            c.expect(more == 0, 0x452, || "an exhausted enumeration went on".into());
        }
        c.max("max_live", order.len() as u64);
    }
}
