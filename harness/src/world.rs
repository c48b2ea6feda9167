//! A registry next to its reference model, the operations that evolve both, and the monitors that compare them.

use crate::alloc;
use crate::faults::Mode;
use crate::ledger;
use crate::kinds::{CORRUPT, NK};
use crate::prng::{mix, Rng};
use crate::progress::ctx;
use crate::report::{p, violation};
use crate::vt::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::{Entity, Registry};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct MixHasher(u64);
impl Hasher for MixHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = mix(self.0 ^ *c as u64);
        }
    }
    fn write_u32(&mut self, v: u32) {
        self.0 = mix(self.0 ^ v as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v);
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<MixHasher>>;
pub type Set<K> = HashSet<K, BuildHasherDefault<MixHasher>>;

pub struct Tables {
    pub kinds: Vec<KindVt>,
    pub groups: Vec<GroupVt>,
    pub by_set: Map<u32, Vec<usize>>,
    pub by_id: Map<u32, usize>,
    pub bad: Vec<usize>,
}

impl Tables {
    pub fn new() -> Tables {
        let kinds = crate::kinds_table();
        let groups = crate::table::groups();
        let mut by_set: Map<u32, Vec<usize>> = Map::default();
        let mut bad = Vec::new();
        for (i, g) in groups.iter().enumerate() {
            if g.valid {
                by_set.entry(g.set).or_default().push(i);
            } else {
                bad.push(i);
            }
        }
        let by_id = kinds.iter().map(|k| (k.id as u32, k.idx)).collect();
        Tables { kinds, groups, by_set, by_id, bad }
    }
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub set: u32,
    pub tok: Box<[u64]>,
    /// Kinds whose value was last stored through mutable access.
    pub wrote: u32,
    pos: u32,
    seen: u32,
}

impl Ent {
    pub fn rank(&self, kind: usize) -> usize {
        (self.set & ((1u32 << kind) - 1)).count_ones() as usize
    }
    pub fn token(&self, kind: usize) -> Option<u64> {
        if self.set >> kind & 1 == 1 {
            Some(self.tok[self.rank(kind)])
        } else {
            None
        }
    }
}

pub fn set_kinds(set: u32) -> impl Iterator<Item = usize> {
    (0..NK).filter(move |k| set >> k & 1 == 1)
}

pub fn set_name(t: &Tables, set: u32) -> String {
    set_kinds(set).map(|k| t.kinds[k].tag).collect::<Vec<_>>().join("+")
}

#[derive(Default, Clone)]
pub struct Counts {
    pub ops: u64,
    pub refused: u64,
    pub evals: u64,
    pub rows: u64,
    pub reads: u64,
    pub created: u64,
    pub destroyed: u64,
    pub moves: u64,
    pub writes: u64,
    pub drops: u64,
    pub max_live: u64,
    pub max_sets: u64,
    pub max_rows: u64,
    pub fans: u64,
    /// Memory held, in thousandths of what is allowed; the worst.
    pub thrift: u64,
    pub wraps: u64,
    pub levelled: u64,
    pub filter_panics: u64,
}

/// A predicate over component sets, evaluated on what the filter is shown.
#[derive(Clone, Copy, Debug)]
pub enum Pred {
    All,
    None,
    Hash(u64),
    Has(usize),
    HasNot(usize),
    Contains(usize),
    Excludes(usize),
    Odd,
}

impl Pred {
    pub fn random(r: &mut Rng, t: &Tables) -> Pred {
        match r.below(10) {
            0 => Pred::All,
            1 => Pred::None,
            2 | 3 | 4 => Pred::Hash(r.next()),
            5 => Pred::Has(r.index(NK)),
            6 => Pred::HasNot(r.index(NK)),
            7 => Pred::Contains(r.index(t.groups.len())),
            8 => Pred::Excludes(r.index(t.groups.len())),
            _ => Pred::Odd,
        }
    }
    pub fn eval(&self, t: &Tables, set: u32) -> bool {
        match *self {
            Pred::All => true,
            Pred::None => false,
            Pred::Hash(h) => mix(set as u64 ^ h) % 3 != 0,
            Pred::Has(k) => set >> k & 1 == 1,
            Pred::HasNot(k) => set >> k & 1 == 0,
            Pred::Contains(g) => t.groups[g].valid && set & t.groups[g].set == t.groups[g].set,
            Pred::Excludes(g) => t.groups[g].valid && set & t.groups[g].set == 0,
            Pred::Odd => set.count_ones() % 2 == 1,
        }
    }
}

pub struct World {
    pub t: &'static Tables,
    pub reg: Option<Registry>,
    pub ents: Map<u32, Ent>,
    pub order: Vec<u32>,
    pub dead: Vec<u32>,
    pub retired: Map<u32, u32>,
    pub issued: Map<u32, u32>,
    /// Live entities per component set; sets that ever existed stay.
    pub sets: Map<u32, u32>,
    epoch: u32,
    /// Properties that the last operation's statement is about; a divergence found right after it counts against them.
    pub blame: u32,
    pub c: Counts,
    expect_drops: Vec<(u8, u64)>,
    pub base_live: (u64, u64),
    pub faults: crate::faults::Faults,
    /// Values that a panicking destructor left neither dropped nor reachable.
    pub forgotten: i64,
    pub forgotten_zst: [i64; 32],
    pub forgotten_tokens: Vec<(u8, u64)>,
    pub lost_everything: bool,
    /// Largest number of entities each component set ever had.
    peaks: Map<u32, u32>,
    /// Bytes that this world's largest population so far may need.
    budget: u64,
    pub sigs: Set<u64>,
}

/// Sum of the budgets of all worlds that exist.
static BUDGETS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
const SPARE: u64 = 1 << 18;

/// What one component set is allowed per entity it ever had at a time: four times the bytes of a row, for at least a thousand rows.
fn rows_allowed(peak: u32) -> u64 {
    4 * (peak as u64).max(256)
}

macro_rules! bad {
    ($tags:expr, $($a:tt)*) => { violation($tags, format!($($a)*)) };
}

impl World {
    pub fn new(t: &'static Tables) -> World {
        let base_live = alloc::sut_live();
        World {
            t,
            reg: Some(alloc::sut(Registry::default)),
            ents: Map::default(),
            order: Vec::new(),
            dead: Vec::new(),
            retired: Map::default(),
            issued: Map::default(),
            sets: Map::default(),
            epoch: 0,
            blame: 0,
            c: Counts::default(),
            expect_drops: Vec::new(),
            base_live,
            faults: crate::faults::Faults::off(),
            forgotten: 0,
            forgotten_zst: [0; 32],
            forgotten_tokens: Vec::new(),
            lost_everything: false,
            peaks: Map::default(),
            budget: 0,
            sigs: Set::default(),
        }
    }

    pub fn reg(&mut self) -> &mut Registry {
        self.reg.as_mut().unwrap()
    }

    pub fn sig(&mut self, v: u64) {
        if self.sigs.len() < 200_000 {
            self.sigs.insert(mix(v));
        }
    }

    // ---------------------------------------------------------------- model

    fn model_insert(&mut self, raw: u32, set: u32, tok: Box<[u64]>) {
        let pos = self.order.len() as u32;
        self.order.push(raw);
        let slot = Entity::index(&ent(raw)) as u64;
        let most = self.c.max_live.max(self.order.len() as u64);
        if slot > 1024 + 4 * most {
            bad!(p(27), "a new entity was given slot {}, although there were never more than {} entities at a time", slot, most);
        }
        self.ents.insert(raw, Ent { set, tok, wrote: 0, pos, seen: 0 });
        *self.sets.entry(set).or_insert(0) += 1;
        self.c.created += 1;
        self.c.max_live = self.c.max_live.max(self.order.len() as u64);
        self.c.max_sets = self.c.max_sets.max(self.sets.len() as u64);
        self.peak(set);
    }

    pub fn model_remove(&mut self, raw: u32) -> Ent {
        let e = self.ents.remove(&raw).unwrap();
        let last = *self.order.last().unwrap();
        self.order.swap_remove(e.pos as usize);
        if last != raw {
            self.ents.get_mut(&last).unwrap().pos = e.pos;
        }
        *self.sets.get_mut(&e.set).unwrap() -= 1;
        let slot = Entity::index(&ent(raw));
        *self.retired.entry(slot).or_insert(0) += 1;
        if self.dead.len() < 256 {
            self.dead.push(raw);
        } else {
            let i = mix(raw as u64 ^ self.c.destroyed) as usize % 256;
            self.dead[i] = raw;
        }
        self.c.destroyed += 1;
        e
    }

    fn model_move(&mut self, raw: u32, set: u32, tok: Box<[u64]>) {
        let e = self.ents.get_mut(&raw).unwrap();
        *self.sets.get_mut(&e.set).unwrap() -= 1;
        e.set = set;
        e.wrote &= set;
        e.tok = tok;
        *self.sets.entry(set).or_insert(0) += 1;
        self.c.moves += 1;
        self.c.max_sets = self.c.max_sets.max(self.sets.len() as u64);
        self.peak(set);
    }

    fn peak(&mut self, set: u32) {
        let rows = self.sets[&set];
        self.c.max_rows = self.c.max_rows.max(rows as u64);
        let known = self.peaks.get(&set).copied();
        if known.map_or(false, |k| rows <= k) {
            return;
        }
        let bytes = 8 + set_kinds(set).map(|k| self.t.kinds[k].size as u64).sum::<u64>();
        let before = self.budget;
        self.budget -= known.map_or(0, |k| bytes * rows_allowed(k));
        self.budget += bytes * rows_allowed(rows) + if known.is_none() { 16 << 10 } else { 0 };
        self.peaks.insert(set, rows);
        BUDGETS.fetch_add(self.budget - before, std::sync::atomic::Ordering::Relaxed);
    }

    /// Memory held and slots in use stay in proportion to the largest population so far.
    pub fn thrift(&mut self, what: &str) {
        if cfg!(plain_alloc) {
            return;
        }
        let live = self.c.max_live.max(256);
        let allowed = SPARE + BUDGETS.load(std::sync::atomic::Ordering::Relaxed) + 64 * live;
        let held = alloc::sut_live().1;
        self.c.evals += 1;
        self.c.thrift = self.c.thrift.max(held * 1000 / allowed);
        self.sig(27 << 32 | (held * 40 / allowed) << 16 | bucket(held) << 8 | bucket(live));
        if held > allowed {
            bad!(p(27), "{}: the registries hold {} bytes; the largest population so far ({} entities, {} sets, at most {} entities of one set) justifies {} at the most", what, held, self.c.max_live, self.sets.len(), self.c.max_rows, allowed);
        }
    }

    fn enc(&self, kind: usize, token: u64) -> Obs {
        token & self.t.kinds[kind].mask
    }

    fn new_tokens(&self, kinds: &[u8]) -> Vec<u64> {
        kinds.iter().map(|_| ledger::fresh()).collect()
    }

    pub fn dropped(&mut self, kind: usize, token: u64) {
        let k = &self.t.kinds[kind];
        if k.drops {
            self.expect_drops.push((kind as u8, if k.mask == 0 { 0 } else { token }));
        }
    }

    // ------------------------------------------------------------ drop ledger

    /// Compares the destructors that ran with those that had to run.
    pub fn settle(&mut self, tags: u32, what: &str) {
        let mut got = ledger::take_log();
        let mut want = core::mem::take(&mut self.expect_drops);
        self.c.drops += got.len() as u64;
        got.sort_unstable();
        want.sort_unstable();
        for e in ledger::take_errors() {
            bad!(p(3) | p(7) | p(1) | tags, "{}: {}", what, e);
        }
        if got != want {
            let extra: Vec<_> = diff(&got, &want);
            let missing: Vec<_> = diff(&want, &got);
            bad!(
                p(3) | tags,
                "{}: destructors ran for {} unexpected values {:?} and did not run for {} expected ones {:?} (kind, token)",
                what, extra.len(), &extra[..extra.len().min(6)], missing.len(), &missing[..missing.len().min(6)]
            );
        }
        for f in alloc::take_faults() {
            bad!(p(7) | (tags & (p(9) | p(13) | p(17))), "{}: allocator misuse: {}", what, f);
        }
    }

    // ------------------------------------------------------------ operations

    pub fn create(&mut self, g: usize) -> Option<u32> {
        let t = self.t;
        let vt = &t.groups[g];
        let toks = self.new_tokens(vt.kinds);
        let tags = if vt.valid { p(1) | p(2) | p(11) | p(26) } else { p(8) | p(21) };
        if vt.valid && self.may_allocate(vt.set) {
            let owned: Vec<(usize, u64)> = vt.kinds.iter().map(|k| *k as usize).zip(toks.iter().copied()).collect();
            self.enumerate_failures(&format!("create {}", vt.name), vt.set, &owned, &mut |w| {
                let _ = (vt.create)(w.reg(), &toks);
            });
        }
        ctx(tags);
        let res = (vt.create)(self.reg(), &toks);
        self.c.ops += 1;
        self.c.evals += 1;
        let mut out = None;
        match (res, vt.valid) {
            (Ok(e), true) => {
                let raw = e.raw();
                let slot = e.index();
                if !e.is_valid() {
                    bad!(p(2) | p(1), "create {} issued the null handle", vt.name);
                }
                if self.ents.contains_key(&raw) {
                    bad!(p(2) | p(1), "create {} issued handle {:#x} which is live", vt.name, raw);
                    return None;
                }
                let now = *self.retired.get(&slot).unwrap_or(&0);
                if let Some(then) = self.issued.insert(raw, now) {
                    self.c.wraps += 1;
                    if now - then < 256 {
                        bad!(p(2), "handle {:#x} issued again after its slot was recycled {} times only", raw, now - then);
                    }
                }
                let mut pairs: Vec<(u8, u64)> = vt.kinds.iter().copied().zip(toks.iter().copied()).collect();
                pairs.sort_unstable();
                self.model_insert(raw, vt.set, pairs.into_iter().map(|x| x.1).collect());
                let rows = self.sets[&vt.set] as u64;
                self.sig(0x100 | (g as u64) << 16 | bucket(rows) << 40);
                out = Some(raw);
            }
            (Ok(e), false) => {
                bad!(p(8) | p(21), "create with malformed group {} succeeded with {:#x}", vt.name, e.raw());
            }
            (Err(back), valid) => {
                self.c.refused += 1;
                if valid {
                    bad!(p(1) | p(11) | p(26), "create {} was refused", vt.name);
                }
                for (i, (o, k)) in back.iter().zip(vt.kinds).enumerate() {
                    if *o != self.enc(*k as usize, toks[i]) {
                        bad!(p(21) | p(8) | p(3), "create {} refused, but position {} of what was handed back is {:#x}, not {:#x}", vt.name, i, o, toks[i]);
                    }
                }
                self.sig(0x101 | (g as u64) << 16);
            }
        }
        let extra = if vt.valid { 0 } else { p(8) | p(21) };
        self.blame = extra;
        self.settle(extra, "create");
        out
    }

    pub fn destroy(&mut self, raw: u32) {
        let live = self.ents.contains_key(&raw);
        let tags = p(1) | p(2) | p(3) | if live { 0 } else { p(21) };
        if live && self.faults.active(Mode::Panic) {
            self.enumerate_panics_in_destroy(raw);
        }
        if live && self.faults.mode == Mode::Panic && self.faults.found.is_none() {
            // Go on behind a panic half of the time, so that faults accumulate.
            let n = set_kinds(self.ents[&raw].set).filter(|k| self.t.kinds[*k].drops).count() as u64;
            let h = mix(self.faults.seed ^ raw as u64 ^ self.c.ops << 20);
            if n > 0 && h % 2 == 0 {
                self.destroy_panicking(raw, 1 + (h >> 8) % n);
                return;
            }
        }
        ctx(tags);
        let ok = alloc::sut(|| self.reg.as_mut().unwrap().destroy_entity(ent(raw)));
        self.c.ops += 1;
        self.c.evals += 1;
        if ok != live {
            bad!(p(2) | if live { p(1) } else { p(21) }, "destroy of {} handle {:#x} reported {}", alive(live), raw, ok);
        }
        if live {
            let e = self.model_remove(raw);
            self.sig(0x200 | (e.set as u64) << 12 | bucket(self.sets[&e.set] as u64) << 50);
            for k in set_kinds(e.set) {
                self.dropped(k, e.token(k).unwrap());
            }
            self.blame = p(2);
        } else {
            self.c.refused += 1;
            self.sig(0x201);
            self.blame = p(21) | p(2);
        }
        let b = self.blame;
        self.settle(b & p(21), "destroy");
    }

    pub fn remove_entity(&mut self, raw: u32, g: usize) {
        let t = self.t;
        let vt = &t.groups[g];
        let ent_set = self.ents.get(&raw).map(|e| e.set);
        let want = vt.valid && ent_set == Some(vt.set);
        let tags = p(25) | p(26) | if !vt.valid { p(8) | p(21) } else if want { p(1) } else { p(21) };
        ctx(tags);
        let res = (vt.remove)(self.reg(), ent(raw));
        self.c.ops += 1;
        self.c.evals += 1;
        match (&res, want) {
            (Some(_), false) => {
                let malformed = if vt.valid { 0 } else { p(8) };
                let dead = if ent_set.is_none() { p(2) } else { 0 };
                bad!(p(25) | p(21) | malformed | dead, "remove {} of {} handle {:#x} with components {} succeeded", vt.name,
                    alive(ent_set.is_some()), raw, set_name(t, ent_set.unwrap_or(0)));
            }
            (None, true) => bad!(p(25) | p(26) | p(2), "remove {} of live {:#x} with exactly these components was refused", vt.name, raw),
            (Some(obs), true) => {
                let e = self.model_remove(raw);
                for (i, (o, k)) in obs.iter().zip(vt.kinds).enumerate() {
                    let w = e.token(*k as usize).unwrap();
                    if *o != self.enc(*k as usize, w) {
                        let wr = if e.wrote >> k & 1 == 1 { p(22) } else { 0 };
                        bad!(p(25) | p(26) | p(1) | p(3) | wr, "remove {} of {:#x} returned {:#x} in position {}, expected {:#x}", vt.name, raw, o, i, w);
                    }
                }
                self.sig(0x300 | (g as u64) << 12 | bucket(self.sets[&e.set] as u64) << 40);
            }
            (None, false) => {
                self.c.refused += 1;
                let rel = match ent_set {
                    None => 0,
                    Some(s) if s & vt.set == 0 => 1,
                    Some(s) if s & vt.set == s => 2,
                    Some(s) if s & vt.set == vt.set => 3,
                    Some(_) => 4,
                };
                self.sig(0x301 | (g as u64) << 12 | rel << 32);
            }
        }
        self.blame = p(25) | if want { 0 } else { p(21) } | if vt.valid { 0 } else { p(8) };
        let b = self.blame;
        self.settle(b, "remove");
    }

    pub fn add(&mut self, raw: u32, kind: usize) {
        let t = self.t;
        let vt = &t.kinds[kind];
        let token = ledger::fresh();
        let old = self.ents.get(&raw).map(|e| e.set);
        let want = matches!(old, Some(s) if s >> kind & 1 == 0 && s.count_ones() < 14);
        if want && self.may_allocate(old.unwrap() | 1 << kind) {
            self.enumerate_failures(&format!("adding {}", vt.tag), old.unwrap() | 1 << kind, &[(kind, token)], &mut |w| {
                let _ = (vt.add)(w.reg(), ent(raw), token);
            });
        }
        ctx(p(1) | p(11) | p(3) | if want { 0 } else { p(21) });
        let res = (vt.add)(self.reg(), ent(raw), token);
        self.c.ops += 1;
        self.c.evals += 1;
        self.sig(0x400 | (old.map(|s| s.count_ones() as u64 + 1).unwrap_or(0)) << 12 | (kind as u64) << 20 | (want as u64) << 30
            | position(t, old.unwrap_or(0), kind) << 32);
        match (res, want) {
            (Ok(()), true) => {
                let e = &self.ents[&raw];
                let set = e.set | 1 << kind;
                let mut tok = e.tok.to_vec();
                tok.insert(e.rank(kind), token);
                self.model_move(raw, set, tok.into());
            }
            (Ok(()), false) => bad!(p(11) | p(21) | if old.is_none() { p(2) } else { 0 }, "adding {} to {} {:#x} ({}) succeeded", vt.tag, alive(old.is_some()), raw, set_name(t, old.unwrap_or(0))),
            (Err(o), want) => {
                self.c.refused += 1;
                if want {
                    bad!(p(11) | p(1) | p(2), "adding {} to live {:#x} ({}) was refused", vt.tag, raw, set_name(t, old.unwrap_or(0)));
                }
                if o != token & vt.mask {
                    bad!(p(21) | p(3), "adding {} was refused, but {:#x} was handed back, not {:#x}", vt.tag, o, token);
                }
            }
        }
        self.blame = p(11) | if want { 0 } else { p(21) };
        let b = self.blame;
        self.settle(b & p(21), "add_component");
    }

    pub fn remove_component(&mut self, raw: u32, kind: usize) {
        let t = self.t;
        let vt = &t.kinds[kind];
        let old = self.ents.get(&raw).map(|e| e.set);
        let want = matches!(old, Some(s) if s >> kind & 1 == 1 && s.count_ones() > 1);
        if want && self.may_allocate(old.unwrap() & !(1 << kind)) {
            self.enumerate_failures(&format!("removing {}", vt.tag), old.unwrap() & !(1 << kind), &[], &mut |w| {
                let _ = (vt.remove)(w.reg(), ent(raw));
            });
        }
        ctx(p(1) | p(11) | p(3) | if want { 0 } else { p(21) });
        let res = (vt.remove)(self.reg(), ent(raw));
        self.c.ops += 1;
        self.c.evals += 1;
        self.sig(0x500 | (old.map(|s| s.count_ones() as u64 + 1).unwrap_or(0)) << 12 | (kind as u64) << 20 | (want as u64) << 30
            | position(t, old.unwrap_or(0), kind) << 32);
        match (res, want) {
            (Some(o), true) => {
                let e = &self.ents[&raw];
                let token = e.token(kind).unwrap();
                if o != token & vt.mask {
                    let wr = if e.wrote >> kind & 1 == 1 { p(22) } else { 0 };
                    bad!(p(1) | p(3) | p(11) | wr, "removing {} from {:#x} returned {:#x}, expected {:#x}", vt.tag, raw, o, token);
                }
                let set = e.set & !(1 << kind);
                let mut tok = e.tok.to_vec();
                tok.remove(e.rank(kind));
                self.model_move(raw, set, tok.into());
            }
            (Some(_), false) => bad!(p(11) | p(21) | if old.is_none() { p(2) } else { 0 }, "removing {} from {} {:#x} ({}) succeeded", vt.tag, alive(old.is_some()), raw, set_name(t, old.unwrap_or(0))),
            (None, true) => bad!(p(11) | p(1) | p(2), "removing {} from live {:#x} ({}) was refused", vt.tag, raw, set_name(t, old.unwrap_or(0))),
            (None, false) => self.c.refused += 1,
        }
        self.blame = p(11) | if want { 0 } else { p(21) };
        let b = self.blame;
        self.settle(b & p(21), "remove_component");
    }

    fn model_write(&mut self, raw: u32, kind: usize, token: u64, overwrite: bool) {
        let k = &self.t.kinds[kind];
        let e = self.ents.get_mut(&raw).unwrap();
        let r = e.rank(kind);
        let old = e.tok[r];
        e.tok[r] = token;
        e.wrote |= 1 << kind;
        self.c.writes += 1;
        // Values of zero-sized kinds are not replaced in place, overwriting drops one.
        if overwrite {
            let _ = k;
            self.dropped(kind, old);
        }
    }

    pub fn write_single(&mut self, raw: u32, kind: usize, overwrite: bool) {
        let t = self.t;
        let vt = &t.kinds[kind];
        let token = ledger::fresh();
        let want = self.ents.get(&raw).and_then(|e| e.token(kind));
        ctx(p(22) | p(23) | p(1) | if want.is_none() { p(21) } else { 0 });
        let got = (vt.get_mut)(self.reg(), ent(raw), Some((token, overwrite)));
        self.c.ops += 1;
        self.c.evals += 1;
        self.sig(0x600 | (kind as u64) << 12 | (want.is_some() as u64) << 20 | (overwrite as u64) << 21);
        self.judge_read(raw, kind, want, got, "get_component_mut", p(23) | p(22));
        if got.is_some() && want.is_some() {
            self.model_write(raw, kind, token, overwrite);
        }
        self.blame = p(22);
        self.settle(p(22), "write through get_component_mut");
    }

    pub fn write_group(&mut self, raw: u32, g: usize, overwrite: bool) {
        let t = self.t;
        let vt = &t.groups[g];
        let set = self.ents.get(&raw).map(|e| e.set);
        let want = vt.valid && matches!(set, Some(s) if s & vt.set == vt.set);
        ctx(p(22) | p(23) | p(26) | p(1) | if vt.valid { 0 } else { p(8) | p(21) });
        let toks = self.new_tokens(vt.kinds);
        let mut obs = Vec::new();
        let mut i = 0;
        let toks2 = toks.clone();
        let got = (vt.get_mut)(self.reg.as_mut().unwrap(), ent(raw), &mut |cols| {
            for c in cols {
                obs.push(read_col(t, c, 0, "get_components_mut"));
            }
            overlap(t, cols, "get_components_mut");
            for c in cols {
                let k = &t.kinds[c.kind as usize];
                unsafe { (k.write_at)(c.ptr, 0, toks2[i], overwrite) };
                i += 1;
            }
        });
        self.c.ops += 1;
        self.c.evals += 1;
        self.sig(0x700 | (g as u64) << 12 | (want as u64) << 24 | (overwrite as u64) << 25);
        self.judge_presence(raw, got, want, vt.valid, "get_components_mut", vt.name);
        if got && want {
            for ((k, o), tok) in vt.kinds.iter().zip(obs).zip(toks) {
                let w = self.ents[&raw].token(*k as usize);
                self.judge_read(raw, *k as usize, w, Some(o), "get_components_mut", p(26) | p(22));
                self.model_write(raw, *k as usize, tok, overwrite);
            }
        }
        self.blame = p(22) | p(26) | if vt.valid { 0 } else { p(8) | p(21) };
        self.settle(p(22), "write through get_components_mut");
    }

    /// Writes to some rows of a mutable iteration, and exchanges values between some rows.
    pub fn write_iter(&mut self, g: usize, form: usize, seed: u64, density: u64, overwrite: bool, swap: bool, pred: Pred) {
        let t = self.t;
        let vt = &t.groups[g];
        let form_tag = form_prop(form);
        ctx(p(22) | form_tag | if vt.valid { p(26) } else { p(8) | p(21) });
        // Rows are identified by the handle if the form yields it, by a token otherwise.
        let has_handles = form % 2 == 1;
        let mut by_token: Map<u64, u32> = Map::default();
        if !has_handles {
            for raw in &self.order {
                for tok in self.ents[raw].tok.iter() {
                    by_token.insert(*tok, *raw);
                }
            }
        }
        struct W {
            raw: u32,
            kind: usize,
            token: u64,
        }
        let mut writes: Vec<W> = Vec::new();
        let mut swaps: Vec<(u32, u32, usize)> = Vec::new();
        let ents = &self.ents;
        let shown = RefCell::new(Vec::new());
        let filter = |d: &ArchetypeDescriptor| filter_probe(t, vt, pred, d, &shown);
        let mut rows = 0u64;
        let style = FORM_STYLE * (mix(seed) % STYLES as u64) as usize;
        let again = (vt.iter_mut)(self.reg.as_mut().unwrap(), style + form, &filter, &mut |items| {
            judge_shape(t, vt, items, form, true);
            let ok = !crate::report::any();
            if !ok {
                return;
            }
            for item in items {
                let n = item.cols[0].len;
                let mut owner: Vec<Option<u32>> = Vec::with_capacity(n);
                for i in 0..n {
                    rows += 1;
                    owner.push(match item.ents {
                        Some((e, _)) => Some(unsafe { (*e.add(i)).raw() }),
                        None => item.cols.iter().find_map(|c| {
                            let k = &t.kinds[c.kind as usize];
                            if k.mask.count_ones() < 40 {
                                return None;
                            }
                            let o = unsafe { (k.read_at)(c.ptr, i) };
                            if o == CORRUPT { None } else { by_token.get(&o).copied() }
                        }),
                    });
                }
                for i in 0..n {
                    let raw = match owner[i] {
                        Some(r) if ents.contains_key(&r) => r,
                        _ => continue,
                    };
                    for (ci, c) in item.cols.iter().enumerate() {
                        let h = mix(seed ^ (i as u64) << 8 ^ ci as u64 ^ raw as u64);
                        if h % 1000 >= density {
                            continue;
                        }
                        let k = &t.kinds[c.kind as usize];
                        if swap {
                            let j = (h >> 20) as usize % n;
                            if let Some(other) = owner[j].filter(|r| ents.contains_key(r)) {
                                if j != i {
                                    unsafe { (k.swap_at)(c.ptr, i, j) };
                                    swaps.push((raw, other, c.kind as usize));
                                }
                            }
                        } else {
                            let token = ledger::fresh();
                            unsafe { (k.write_at)(c.ptr, i, token, overwrite) };
                            writes.push(W { raw, kind: c.kind as usize, token });
                        }
                    }
                }
            }
        });
        self.judge_exhausted(again, form, vt.name, true);
        self.c.ops += 1;
        self.c.evals += 1;
        self.c.rows += rows;
        self.sig(0x800 | (g as u64) << 12 | (form as u64) << 24 | (swap as u64) << 30 | bucket(rows) << 32);
        for w in writes {
            if self.ents[&w.raw].set >> w.kind & 1 == 1 {
                self.model_write(w.raw, w.kind, w.token, overwrite);
            }
        }
        for (a, b, k) in swaps {
            let (ta, tb) = match (self.ents[&a].token(k), self.ents[&b].token(k)) {
                (Some(x), Some(y)) => (x, y),
                _ => continue,
            };
            for (r, tk) in [(a, tb), (b, ta)] {
                let e = self.ents.get_mut(&r).unwrap();
                let i = e.rank(k);
                e.tok[i] = tk;
                e.wrote |= 1 << k;
            }
            self.c.writes += 2;
        }
        self.blame = p(22) | form_tag | if vt.valid { 0 } else { p(8) };
        self.settle(p(22), "write through mutable iteration");
    }

    /// Drops the registry; everything it owns has to go, exactly once.
    pub fn finish(&mut self, last: bool) {
        ctx(p(3) | p(7) | p(1));
        for raw in core::mem::take(&mut self.order) {
            let e = self.ents.remove(&raw).unwrap();
            for k in set_kinds(e.set) {
                self.dropped(k, e.token(k).unwrap());
            }
        }
        let reg = self.reg.take();
        alloc::sut(|| drop(reg));
        self.settle(0, "drop of the registry");
        BUDGETS.fetch_sub(core::mem::take(&mut self.budget), std::sync::atomic::Ordering::Relaxed);
        if !last {
            return;
        }
        if self.lost_everything {
            return;
        }
        if ledger::alive() != self.forgotten {
            bad!(p(3), "{} values were neither dropped nor returned", ledger::alive());
        }
        for k in 0..NK {
            if ledger::zst_alive(k) != self.forgotten_zst[k] {
                bad!(p(3), "{} zero-sized values of kind {} were neither dropped nor returned", ledger::zst_alive(k), self.t.kinds[k].tag);
            }
        }
        let live = alloc::sut_live();
        if live != self.base_live && !cfg!(plain_alloc) && self.forgotten == 0 {
            bad!(p(7), "the dropped registry still holds {} blocks, {} bytes", live.0 as i64 - self.base_live.0 as i64, live.1 as i64 - self.base_live.1 as i64);
        }
        self.c.evals += 1;
    }

    /// Abandons the registry without running its destructor.
    pub fn abandon(&mut self) {
        core::mem::forget(self.reg.take());
        // The memory of this registry is lost, and its budget stays with it.
        ledger::take_log();
        ledger::take_errors();
        alloc::take_faults();
    }

    // -------------------------------------------------------------- monitors

    fn judge_read(&self, raw: u32, kind: usize, want: Option<u64>, got: Option<Obs>, what: &str, extra: u32) {
        let k = &self.t.kinds[kind];
        let live = self.ents.contains_key(&raw);
        let wrote = match self.ents.get(&raw) {
            Some(e) if e.wrote >> kind & 1 == 1 => p(22),
            _ => 0,
        };
        match (want, got) {
            (None, None) => {}
            (Some(w), Some(o)) => {
                if o != w & k.mask {
                    let c = if o == CORRUPT { p(7) } else { 0 };
                    bad!(p(1) | wrote | c | self.blame | (extra & !(p(23) | p(22))), "{} of {} of {:#x} observed {}{:#x}, last stored {:#x}", what, k.tag, raw,
                        if o == CORRUPT { "corrupt data " } else { "" }, o, w & k.mask);
                }
            }
            (Some(_), None) => bad!(p(1) | p(2) | extra | self.blame, "{} does not find {} of live {:#x} ({})", what, k.tag, raw, set_name(self.t, self.ents[&raw].set)),
            (None, Some(o)) => {
                let t = if live { p(1) } else { p(2) };
                bad!(t | extra | self.blame, "{} finds {} ({:#x}) on {} handle {:#x}", what, k.tag, o, alive(live), raw)
            }
        }
    }

    fn judge_presence(&self, raw: u32, got: bool, want: bool, valid: bool, what: &str, name: &str) {
        if got != want {
            let live = self.ents.contains_key(&raw);
            let tags = p(23) | self.blame | if !valid { p(8) } else { 0 } | if live { p(1) | p(26) } else { p(2) };
            bad!(tags, "{} of {} on {} handle {:#x} ({}) says {}", what, name, alive(live), raw,
                set_name(self.t, self.ents.get(&raw).map(|e| e.set).unwrap_or(0)), got);
        }
    }

    fn judge_exhausted(&self, again: usize, form: usize, name: &str, mutable: bool) {
        if again == usize::MAX {
            bad!(form_prop(form), "{} {} iteration over {} does not end", if mutable { "mutable" } else { "shared" }, FORMS[form], name);
        } else if again & BAD_HINT != 0 {
            bad!(form_prop(form), "{} {} iteration over {} gave a false size hint", if mutable { "mutable" } else { "shared" }, FORMS[form], name);
        } else if again & BAD_COUNT != 0 {
            bad!(form_prop(form), "{} {} iteration over {} has another length when counted or skipped through", if mutable { "mutable" } else { "shared" }, FORMS[form], name);
        } else if again > 0 {
            bad!(form_prop(form), "{} {} iteration over {} yielded {} items after its end", if mutable { "mutable" } else { "shared" }, FORMS[form], name, again);
        }
    }

    /// Single-component access: presence, reading, mutable reading.
    pub fn check_single(&mut self, raw: u32, kind: usize) {
        let t = self.t;
        let vt = &t.kinds[kind];
        let live = self.ents.contains_key(&raw);
        let want = self.ents.get(&raw).and_then(|e| e.token(kind));
        ctx(p(1) | p(23) | p(2) | if live { 0 } else { p(21) } | self.blame);
        let has = (vt.has)(self.reg(), ent(raw));
        if has != want.is_some() {
            bad!(p(23) | self.blame | if live { p(1) } else { p(2) }, "has_component {} of {} {:#x} ({}) says {}", vt.tag, alive(live), raw,
                set_name(t, self.ents.get(&raw).map(|e| e.set).unwrap_or(0)), has);
        }
        let got = (vt.get)(self.reg(), ent(raw));
        self.judge_read(raw, kind, want, got, "get_component", p(23));
        ctx(p(1) | p(23) | p(2) | p(22) | if live { 0 } else { p(21) } | self.blame);
        let got = (vt.get_mut)(self.reg(), ent(raw), None);
        self.judge_read(raw, kind, want, got, "get_component_mut", p(23) | p(22));
        self.c.reads += 3;
        self.c.evals += 1;
    }

    /// Group access: presence, reading, mutable reading.
    pub fn check_group(&mut self, raw: u32, g: usize) {
        let t = self.t;
        let vt = &t.groups[g];
        let set = self.ents.get(&raw).map(|e| e.set);
        let want = vt.valid && matches!(set, Some(s) if s & vt.set == vt.set);
        let bt = if vt.valid { p(26) } else { p(8) | p(21) };
        ctx(p(1) | p(23) | bt | self.blame);
        let has = (vt.has)(self.reg(), ent(raw));
        self.judge_presence(raw, has, want, vt.valid, "has_components", vt.name);
        let mut obs: Vec<Obs> = Vec::new();
        let got = (vt.get)(self.reg.as_ref().unwrap(), ent(raw), &mut |cols| {
            for c in cols {
                obs.push(read_col(t, c, 0, "get_components"));
            }
        });
        self.judge_presence(raw, got, want, vt.valid, "get_components", vt.name);
        if got && want {
            for (k, o) in vt.kinds.iter().zip(&obs) {
                let w = self.ents[&raw].token(*k as usize);
                self.judge_read(raw, *k as usize, w, Some(*o), &format!("get_components {}", vt.name), p(26));
            }
        }
        obs.clear();
        ctx(p(1) | p(23) | p(22) | bt | self.blame);
        let got = (vt.get_mut)(self.reg.as_mut().unwrap(), ent(raw), &mut |cols| {
            overlap(t, cols, "get_components_mut");
            for c in cols {
                obs.push(read_col(t, c, 0, "get_components_mut"));
            }
        });
        self.judge_presence(raw, got, want, vt.valid, "get_components_mut", vt.name);
        if got && want {
            for (k, o) in vt.kinds.iter().zip(&obs) {
                let w = self.ents[&raw].token(*k as usize);
                self.judge_read(raw, *k as usize, w, Some(*o), &format!("get_components_mut {}", vt.name), p(26) | p(22));
            }
        }
        self.c.reads += 3;
        self.c.evals += 1;
        self.sig(0x900 | (g as u64) << 12 | (want as u64) << 24 | (set.is_some() as u64) << 25);
    }

    /// One form of iteration against the model.
    pub fn check_iter(&mut self, g: usize, form: usize, mutable: bool, pred: Pred) {
        let t = self.t;
        let vt = &t.groups[g];
        let tag = form_prop(form);
        let btag = if vt.valid { 0 } else { p(8) };
        ctx(tag | if vt.valid { p(26) } else { p(8) } | self.blame | if mutable { p(22) } else { 0 });
        let filtered = form == 2 || form == 3;
        let exact = form >= 4;
        self.epoch += 1;
        let epoch = self.epoch;
        let accepts = |s: u32| {
            vt.valid
                && (if exact { s == vt.set } else { s & vt.set == vt.set })
                && (!filtered || pred.eval(t, s))
        };
        let ents = RefCell::new(core::mem::take(&mut self.ents));
        let shown: RefCell<Vec<u32>> = RefCell::new(Vec::new());
        let filter = |d: &ArchetypeDescriptor| filter_probe(t, vt, pred, d, &shown);
        let blame = self.blame;
        let mut rows = 0u64;
        let mut sum = 0u64;
        let mut handles_bad = false;
        let what = |form: usize| format!("{} {} iteration over {}{}", if mutable { "mutable" } else { "shared" }, FORMS[form], vt.name,
            if form == 2 || form == 3 { format!(" with {:?}", pred) } else { String::new() });
        let mut look = |items: &[Item]| {
            judge_shape(t, vt, items, form, mutable);
            let mut ents = ents.borrow_mut();
            for item in items {
                let n = item.cols.iter().map(|c| c.len).min().unwrap_or(0);
                for i in 0..n {
                    rows += 1;
                    let mut h = 0x1234u64;
                    let mut obs = [0u64; 14];
                    for (ci, c) in item.cols.iter().enumerate() {
                        let k = &t.kinds[c.kind as usize];
                        obs[ci] = unsafe { (k.read_at)(c.ptr, i) };
                        h = mix(h ^ obs[ci]);
                    }
                    sum = sum.wrapping_add(h);
                    let (ep, en) = match item.ents {
                        Some(v) => v,
                        None => continue,
                    };
                    if i >= en {
                        continue;
                    }
                    let raw = unsafe { (*ep.add(i)).raw() };
                    match ents.get_mut(&raw) {
                        None => {
                            handles_bad = true;
                            bad!(tag | btag | p(24) | p(2) | blame, "{} yields handle {:#x} which is not live", what(form), raw);
                        }
                        Some(e) => {
                            if e.seen == epoch {
                                handles_bad = true;
                                bad!(tag | btag | p(24) | blame, "{} yields entity {:#x} twice", what(form), raw);
                            }
                            e.seen = epoch;
                            if !accepts(e.set) {
                                handles_bad = true;
                                bad!(tag | btag | p(23) | blame, "{} yields {:#x} which has {}", what(form), raw, set_name(t, e.set));
                                continue;
                            }
                            for (ci, c) in item.cols.iter().enumerate() {
                                let k = c.kind as usize;
                                if let Some(w) = e.token(k) {
                                    if obs[ci] != w & t.kinds[k].mask {
                                        let wr = if e.wrote >> k & 1 == 1 { p(22) } else { 0 };
                                        let corrupt = if obs[ci] == CORRUPT { p(7) } else { 0 };
                                        bad!(tag | p(1) | p(26) | wr | corrupt | blame, "{} shows {:#x} as {} of {:#x}, last stored {:#x}", what(form), obs[ci], t.kinds[k].tag, raw, w);
                                    }
                                }
                            }
                        }
                    }
                    if crate::report::any() {
                        return;
                    }
                }
            }
        };
        // A filter that panics must leave no trace; the iteration that follows would see it.
        if filtered && vt.valid && mix(epoch as u64 ^ 0xF117) % 32 == 0 {
            let left = std::cell::Cell::new(mix(epoch as u64 ^ 0xF118) % 3);
            let broken = |_: &ArchetypeDescriptor| {
                if left.get() == 0 {
                    std::panic::panic_any(FilterPanic);
                }
                left.set(left.get() - 1);
                true
            };
            let r = self.reg.as_mut().unwrap();
            let ended = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if mutable {
                    (vt.iter_mut)(r, form, &broken, &mut |_| {});
                } else {
                    (vt.iter)(r, form, &broken, &mut |_| {});
                }
            }));
            if let Err(e) = ended {
                self.c.filter_panics += 1;
                if !e.is::<FilterPanic>() {
                    bad!(tag | blame, "{} with a filter that panics ended in another panic: {}", what(form), crate::runner::panic_text(&e));
                }
            }
        }
        let style = FORM_STYLE * (mix(epoch as u64) % STYLES as u64) as usize;
        let again = if mutable {
            (vt.iter_mut)(self.reg.as_mut().unwrap(), style + form, &filter, &mut look)
        } else {
            (vt.iter)(self.reg.as_ref().unwrap(), style + form, &filter, &mut look)
        };
        self.ents = ents.into_inner();
        self.judge_exhausted(again, form, vt.name, mutable);
        // What had to be seen.
        let mut want_rows = 0u64;
        let mut want_sum = 0u64;
        if vt.valid {
            for (s, n) in &self.sets {
                if accepts(*s) {
                    want_rows += *n as u64;
                }
            }
        }
        if rows == want_rows && rows > 0 {
            for raw in &self.order {
                let e = &self.ents[raw];
                if accepts(e.set) {
                    let mut h = 0x1234u64;
                    for k in vt.kinds {
                        h = mix(h ^ (e.token(*k as usize).unwrap() & t.kinds[*k as usize].mask));
                    }
                    want_sum = want_sum.wrapping_add(h);
                }
            }
        }
        if !crate::report::any() {
            let mut_tag = if mutable { p(22) } else { 0 };
            if rows != want_rows {
                let missing = self.order.iter().find(|r| { let e = &self.ents[*r]; accepts(e.set) && e.seen != epoch });
                let detail = match missing {
                    Some(r) if form % 2 == 1 => format!("; {:#x} ({}) is missing", r, set_name(t, self.ents[r].set)),
                    _ => String::new(),
                };
                bad!(tag | btag | p(23) | blame, "{} yields {} rows, {} entities match{}", what(form), rows, want_rows, detail);
            } else if rows > 0 && sum != want_sum && !handles_bad {
                bad!(tag | p(26) | p(1) | (if self.order.iter().any(|r| self.ents[r].wrote != 0) { p(22) } else { mut_tag }) | blame,
                    "{} yields {} rows, but their values are not those last stored", what(form), rows);
            }
            if filtered && vt.valid {
                let shown = shown.borrow();
                let shown: Set<u32> = shown.iter().copied().collect();
                for (s, n) in &self.sets {
                    if *n > 0 && s & vt.set == vt.set && !shown.contains(s) {
                        bad!(p(5), "{}: entities with {} exist, but the filter was not asked about them", what(form), set_name(t, *s));
                    }
                }
            }
        }
        self.c.rows += rows;
        self.c.evals += 1;
        self.sig(0xA00 | (g as u64) << 12 | (form as u64) << 24 | (mutable as u64) << 28 | bucket(rows) << 32 | bucket(self.sets.len() as u64) << 40);
    }

    /// Enumeration of entities against the model.
    pub fn check_entities(&mut self) {
        ctx(p(24) | self.blame);
        self.epoch += 1;
        let epoch = self.epoch;
        let blame = self.blame;
        let want = self.order.len();
        let reg = self.reg.as_ref().unwrap();
        let style = mix(epoch as u64 ^ 0x5eed) % 8;
        let fail = |what: &str, n: usize| bad!(p(24) | p(2) | blame, "enumeration {} {} of {} live entities", what, n, want);
        match style {
            1 => {
                let n = alloc::sut(|| reg.iter_entities().count());
                if n != want {
                    fail("counts", n);
                }
            }
            2 => {
                let mut it = alloc::sut(|| reg.iter_entities());
                let skip = mix(epoch as u64) as usize % 5;
                let mut n = 0;
                while alloc::sut(|| it.nth(skip)).is_some() {
                    n += skip + 1;
                    if n > want {
                        break;
                    }
                }
                if n / (skip + 1) != want / (skip + 1) {
                    fail("skips through", n);
                }
            }
            3 => {
                let n = alloc::sut(|| reg.iter_entities().last().is_some()) as usize;
                if n != (want > 0) as usize {
                    fail("says of its last that there are", n);
                }
            }
            _ => {}
        }
        if crate::report::any() {
            return;
        }
        let mut n = 0usize;
        let mut it = alloc::sut(|| reg.iter_entities());
        let ents = &mut self.ents;
        let mut look = |e: Entity| {
            n += 1;
            match ents.get_mut(&e.raw()) {
                None => {
                    bad!(p(24) | p(2) | blame, "enumeration yields {:#x} which is not live", e.raw());
                    return false;
                }
                Some(m) => {
                    if m.seen == epoch {
                        bad!(p(24) | blame, "enumeration yields {:#x} twice", e.raw());
                        return false;
                    }
                    m.seen = epoch;
                }
            }
            true
        };
        match style {
            4 => {
                if !alloc::sut(|| it.all(|e| alloc::host(|| look(e)))) {
                    return;
                }
            }
            5 => {
                let mut at = 0;
                loop {
                    let (low, high) = alloc::sut(|| it.size_hint());
                    if low > want - at || high.is_some_and(|h| h < want - at) {
                        bad!(p(24) | blame, "enumeration with {} of {} to come has the size hint {:?}", want - at, want, (low, high));
                        return;
                    }
                    match alloc::sut(|| if at % 2 == 0 { it.nth(0) } else { it.next() }) {
                        Some(e) if !look(e) => return,
                        Some(_) => at += 1,
                        None => break,
                    }
                }
            }
            _ => {
                while let Some(e) = alloc::sut(|| it.next()) {
                    if !look(e) {
                        return;
                    }
                }
            }
        }
        for _ in 0..if style == 6 { 600 } else { 3 } {
            if let Some(e) = alloc::sut(|| it.next()) {
                bad!(p(24), "exhausted enumeration yields {:#x}", e.raw());
            }
        }
        drop(it);
        if n != want {
            let m = self.order.iter().find(|r| self.ents[*r].seen != epoch).copied();
            bad!(p(24) | p(2) | blame, "enumeration yields {} of {} live entities, {:#x?} is missing", n, want, m);
        }
        self.c.evals += 1;
        let s = bucket(want as u64) << 16 | bucket(self.retired.len() as u64) << 24;
        self.sig(0xB00 | s);
    }

    /// A handle that must be refused by every operation.
    pub fn check_refused(&mut self, raw: u32, r: &mut Rng) {
        if self.ents.contains_key(&raw) {
            return;
        }
        let t = self.t;
        let k = r.index(NK);
        let g = r.index(t.groups.len());
        self.check_single(raw, k);
        self.check_group(raw, g);
        self.destroy(raw);
        self.remove_entity(raw, g);
        self.add(raw, k);
        self.remove_component(raw, k);
        self.write_single(raw, k, true);
    }
}

pub fn ent(raw: u32) -> Entity {
    unsafe { Entity::from_raw(raw) }
}

fn alive(v: bool) -> &'static str {
    if v { "live" } else { "dead" }
}

pub fn form_prop(form: usize) -> u32 {
    match form {
        0 | 1 => p(4),
        2 | 3 => p(5),
        _ => p(6),
    }
}

pub fn bucket(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}

/// Where an identifier sorts among those of a set.
fn position(t: &Tables, set: u32, kind: usize) -> u64 {
    let id = t.kinds[kind].id;
    set_kinds(set).filter(|k| t.kinds[*k].id < id).count() as u64
}

fn diff(a: &[(u8, u64)], b: &[(u8, u64)]) -> Vec<(u8, u64)> {
    // Sorted multisets: what a has beyond b.
    let mut out = Vec::new();
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] < *x {
            j += 1;
        }
        if j < b.len() && b[j] == *x {
            j += 1;
        } else {
            out.push(*x);
        }
    }
    out
}

fn read_col(t: &Tables, c: &Col, i: usize, what: &str) -> Obs {
    let k = &t.kinds[c.kind as usize];
    if (c.ptr as usize) % k.align != 0 || c.ptr.is_null() {
        bad!(p(7) | p(1), "{}: misaligned or null reference {:p} to {}", what, c.ptr, k.tag);
        return CORRUPT;
    }
    unsafe { (k.read_at)(c.ptr, i) }
}

/// Mutable references handed out together must not overlap.
fn overlap(t: &Tables, cols: &[Col], what: &str) {
    let mut v: Vec<(usize, usize, u8)> = cols
        .iter()
        .map(|c| (c.ptr as usize, c.len * t.kinds[c.kind as usize].size, c.kind))
        .filter(|c| c.1 > 0)
        .collect();
    v.sort_unstable();
    for w in v.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            bad!(p(7) | p(22), "{}: mutable references to {} and {} overlap", what, t.kinds[w[0].2 as usize].tag, t.kinds[w[1].2 as usize].tag);
        }
    }
}

/// Slices of an item: equal lengths, aligned, non-null, in the order the group names the components.
fn judge_shape(t: &Tables, vt: &GroupVt, items: &[Item], form: usize, mutable: bool) {
    let tag = form_prop(form) | if vt.valid { 0 } else { p(8) };
    let what = || format!("{} {} iteration over {}", if mutable { "mutable" } else { "shared" }, FORMS[form], vt.name);
    for item in items {
        let n = item.cols[0].len;
        for c in &item.cols {
            let k = &t.kinds[c.kind as usize];
            if c.len != n {
                bad!(tag, "{}: slices of {} and {} rows in one item", what(), n, c.len);
            }
            if c.ptr.is_null() || (c.ptr as usize) % k.align != 0 {
                bad!(tag | p(7), "{}: slice of {} at {:p}", what(), k.tag, c.ptr);
            }
        }
        if let Some((e, len)) = item.ents {
            if len != n {
                bad!(tag | p(24), "{}: {} handles for {} rows", what(), len, n);
            }
            if e.is_null() || e as usize % 4 != 0 {
                bad!(tag | p(7), "{}: slice of handles at {:p}", what(), e);
            }
        }
    }
    if mutable {
        let all: Vec<Col> = items.iter().flat_map(|i| i.cols.iter().copied()).collect();
        overlap(t, &all, &what());
    }
}

struct FilterPanic;

/// What a filter is shown must be a true component set that contains the group.
fn filter_probe(t: &Tables, vt: &GroupVt, pred: Pred, d: &ArchetypeDescriptor, shown: &RefCell<Vec<u32>>) -> bool {
    let mut set = 0u32;
    for c in d.components() {
        match t.by_id.get(&(c.component_type_id().into_u16() as u32)) {
            None => bad!(p(5), "the filter over {} is shown an unknown component {:?}", vt.name, c.component_type_id()),
            Some(k) => {
                if set >> k & 1 == 1 {
                    bad!(p(5) | p(15), "the filter over {} is shown {} twice in one set", vt.name, t.kinds[*k].tag);
                }
                if c.size() as usize != t.kinds[*k].size || c.align() as usize != t.kinds[*k].align {
                    bad!(p(5) | p(15), "the filter over {} is shown {} with size {} align {}", vt.name, t.kinds[*k].tag, c.size(), c.align());
                }
                set |= 1 << k;
            }
        }
    }
    if !vt.valid || set & vt.set != vt.set {
        bad!(p(5) | if vt.valid { 0 } else { p(8) }, "the filter over {} is shown {}", vt.name, set_name(t, set));
    }
    if d.len() as u32 != set.count_ones() {
        bad!(p(5) | p(15), "the filter over {} is shown a set of {} that says {}", vt.name, set.count_ones(), d.len());
    }
    shown.borrow_mut().push(set);
    let truth = pred.eval(t, set);
    let said = match pred {
        Pred::Has(k) => (t.kinds[k].desc_has)(d),
        Pred::HasNot(k) => !(t.kinds[k].desc_has)(d),
        Pred::Contains(g) if t.groups[g].valid => (t.groups[g].desc_contains)(d),
        Pred::Excludes(g) if t.groups[g].valid => (t.groups[g].desc_excludes)(d),
        _ => truth,
    };
    if said != truth {
        bad!(p(15) | p(5), "predicate {:?} on the set {} says {}", pred, set_name(t, set), said);
    }
    truth
}
