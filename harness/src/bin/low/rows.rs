//! C17: the storage of one component set against a list of rows.

use harness::alloc::{self, sut};
use harness::groups::ZooGroup;
use harness::kinds::*;
use harness::ledger;
use harness::prng::Rng;
use harness::report::{self, p};
use harness::runner::*;
use harness::vt::{returned, store, Col, KindVt, Obs};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::{Archetype, Component, Entity, MAX_ENTITIES_PER_ARCHETYPE};
use std::sync::OnceLock;

type Cols<'a> = &'a mut dyn FnMut(Option<&[Entity]>, &[Col]);

#[derive(Clone, Copy)]
struct RawGroup {
    name: &'static str,
    kinds: &'static [u8],
    set: u32,
    valid: bool,
    descriptor: fn() -> ArchetypeDescriptor,
    push: unsafe fn(&mut Archetype, Entity, &[u64]) -> u32,
    write: unsafe fn(&mut Archetype, u32, Entity, &[u64]),
    read: unsafe fn(&Archetype, u32) -> Vec<Obs>,
    swap_remove: unsafe fn(&mut Archetype, u32) -> (Vec<Obs>, bool),
    refs: unsafe fn(&Archetype, u32, Cols),
    muts: unsafe fn(&mut Archetype, u32, Cols),
    /// Views of all rows: 0 exact, 1 sub-group, 2 sub-group with entities; then the mutable ones.
    slices: unsafe fn(&mut Archetype, usize, Cols),
}

fn raw_group<G: ZooGroup>(name: &'static str) -> RawGroup {
    let mut set = 0u32;
    let mut valid = true;
    for k in G::KINDS {
        valid &= set & (1 << k) == 0;
        set |= 1 << k;
    }
    RawGroup {
        name,
        kinds: G::KINDS,
        set,
        valid,
        descriptor: || G::DESCRIPTOR.archetype().clone(),
        push: |a, e, t| unsafe {
            let g = G::from_tokens(t);
            sut(|| a.push_entity_unchecked::<G>(e, g))
        },
        write: |a, i, e, t| unsafe {
            let g = G::from_tokens(t);
            sut(|| a.write_entity_unchecked::<G>(i, e, g))
        },
        read: |a, i| unsafe { sut(|| a.read_components_exact_unchecked::<G>(i)).into_obs() },
        swap_remove: |a, i| unsafe {
            let (g, s) = sut(|| a.swap_remove_unchecked::<G>(i));
            (g.into_obs(), s)
        },
        refs: |a, i, f| unsafe { f(None, &G::ref_cols(a.get_fuzzy_components_unchecked::<G>(i))) },
        muts: |a, i, f| unsafe { f(None, &G::mut_ref_cols(a.get_fuzzy_components_unchecked_mut::<G>(i))) },
        slices: |a, form, f| unsafe {
            match form {
                0 => f(None, &G::slice_cols(a.get_slices_unchecked_exact::<G>())),
                1 => f(None, &G::slice_cols(a.get_fuzzy_slices_unchecked::<G>())),
                2 => {
                    let (e, s) = a.get_entity_fuzzy_slices_unchecked::<G>();
                    f(Some(e), &G::slice_cols(s))
                }
                3 => f(None, &G::slice_mut_cols(a.get_slices_unchecked_exact_mut::<G>())),
                4 => f(None, &G::slice_mut_cols(a.get_fuzzy_slices_unchecked_mut::<G>())),
                _ => {
                    let (e, s) = a.get_entity_fuzzy_slices_unchecked_mut::<G>();
                    f(Some(e), &G::slice_mut_cols(s))
                }
            }
        },
    }
}

#[derive(Clone, Copy)]
struct RawKind {
    get: unsafe fn(&Archetype, u32) -> Obs,
    /// Writes a token if one is given.
    get_mut: unsafe fn(&mut Archetype, u32, Option<(u64, bool)>) -> Obs,
    read: unsafe fn(&mut Archetype, u32) -> Obs,
    write: unsafe fn(&mut Archetype, u32, u64),
    add_to: fn(&ArchetypeDescriptor) -> Option<ArchetypeDescriptor>,
    alone: fn() -> ArchetypeDescriptor,
}

fn raw_kind<K: Kind>() -> RawKind {
    RawKind {
        get: |a, i| unsafe { a.get_component_unchecked::<K>(i).obs() },
        get_mut: |a, i, w| unsafe {
            let v = a.get_component_unchecked_mut::<K>(i);
            let o = v.obs();
            if let Some((t, over)) = w {
                store(v, t, over);
            }
            o
        },
        read: |a, i| unsafe { returned(sut(|| a.read_component_unchecked::<K>(i))) },
        write: |a, i, t| unsafe {
            let v = K::make(t);
            sut(|| a.write_single_component_unchecked::<K>(i, v))
        },
        add_to: |d| d.add_component(&<K as Component>::DESCRIPTOR),
        alone: || <K as ComponentGroup>::DESCRIPTOR.archetype().clone(),
    }
}

struct Tables {
    groups: Vec<RawGroup>,
    kinds: Vec<RawKind>,
    vt: Vec<KindVt>,
}

macro_rules! group_list {
    ($(($g:ty, $n:expr)),*) => { vec![$(raw_group::<$g>($n)),*] };
}
macro_rules! kind_list {
    ($($k:ident),*) => { vec![$(raw_kind::<$k>()),*] };
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| Tables {
        groups: harness::for_all_groups!(group_list),
        kinds: harness::for_all_kinds!(kind_list),
        vt: harness::kinds_table(),
    })
}

#[derive(Clone)]
struct Row {
    ent: u32,
    tok: [u64; NK],
}

struct Rows {
    t: &'static Tables,
    a: Archetype,
    set: u32,
    rows: Vec<Row>,
    /// Groups naming exactly this set, and those naming part of it.
    exact: Vec<usize>,
    sub: Vec<usize>,
    name: &'static str,
}

fn kinds_of(set: u32) -> impl Iterator<Item = usize> {
    (0..NK).filter(move |k| set >> k & 1 == 1)
}

fn entity(raw: u32) -> Entity {
    unsafe { Entity::from_raw(raw) }
}

impl Rows {
    fn new(c: &mut Ctx, r: &mut Rng, t: &'static Tables, g: usize, cap: Option<u32>) -> Option<Rows> {
        let set = t.groups[g].set;
        let exact: Vec<usize> = (0..t.groups.len()).filter(|i| t.groups[*i].valid && t.groups[*i].set == set).collect();
        let sub: Vec<usize> = (0..t.groups.len()).filter(|i| t.groups[*i].valid && t.groups[*i].set & set == t.groups[*i].set).collect();
        let d = if r.chance(1, 2) {
            (t.groups[*r.pick(&exact)].descriptor)()
        } else {
            let mut ks: Vec<usize> = kinds_of(set).collect();
            r.shuffle(&mut ks);
            let mut d = (t.kinds[ks[0]].alone)();
            for k in &ks[1..] {
                d = (t.kinds[*k].add_to)(&d)?;
            }
            d
        };
        let a = sut(|| match cap {
            None => Archetype::new(&d),
            Some(n) => Archetype::with_capacity(&d, n),
        });
        let n = match cap {
            None => 0,
            Some(n) => n,
        };
        let sig = 0x500 << 32 | (n.min(200) as u64) << 8 | (set.count_ones() as u64);
        if n == 0 || n > MAX_ENTITIES_PER_ARCHETYPE {
            c.expect(cap.is_none() || a.capacity() == 0, sig, || format!("storage of capacity {} reports {}", n, a.capacity()));
        } else {
            c.expect(a.capacity() >= n, sig, || format!("storage of capacity {} reports {}", n, a.capacity()));
        }
        c.log(|| format!("storage of {} with capacity {:?}", t.groups[g].name, cap));
        Some(Rows { t, a, set, rows: Vec::new(), exact, sub, name: t.groups[g].name })
    }

    fn tokens(&self, kinds: &[u8]) -> Vec<u64> {
        kinds.iter().map(|k| ledger::fresh() & self.t.vt[*k as usize].mask).collect()
    }

    fn row(&self, ent: u32, kinds: &[u8], toks: &[u64]) -> Row {
        let mut tok = [0; NK];
        for (k, t) in kinds.iter().zip(toks) {
            tok[*k as usize] = *t;
        }
        Row { ent, tok }
    }

    fn row_sig(&self, i: usize) -> u64 {
        let n = self.rows.len();
        (64 - (n as u64).leading_zeros() as u64) << 8 | (i + 1 == n) as u64 | ((i == 0) as u64) << 1
    }

    /// Destructors that ran since last time are exactly these.
    fn drops(&self, c: &mut Ctx, mut want: Vec<(u8, u64)>, what: &str) {
        let mut got = ledger::take_log();
        got.sort();
        want.sort();
        c.expect(got == want, 0x510 << 32 | (want.len().min(99) as u64), || {
            format!("{}: destructors of {:?} were to run, those of {:?} ran", what, &want[..want.len().min(10)], &got[..got.len().min(10)])
        });
        for e in ledger::take_errors() {
            report::violation(p(17), format!("{}: {}", what, e));
        }
        for f in alloc::take_faults() {
            report::violation(p(17) | p(7), format!("{}: allocator misuse: {}", what, f));
        }
    }

    fn dropped(&self, row: &Row) -> Vec<(u8, u64)> {
        kinds_of(self.set).filter(|k| self.t.vt[*k].drops).map(|k| (k as u8, row.tok[k])).collect()
    }

    fn compare(&self, c: &mut Ctx, what: &str, g: &RawGroup, got: &[Obs], row: &Row) {
        for (k, o) in g.kinds.iter().zip(got) {
            let want = row.tok[*k as usize];
            c.expect(*o == want, 0x520 << 32 | (*k as u64) << 8 | g.kinds.len() as u64, || {
                format!("{} as {}: {} of the row of {:#x} holds {}, not {}", what, g.name, self.t.vt[*k as usize].tag, row.ent, *o as i64, want)
            });
        }
    }

    fn size_ok(&self, c: &mut Ctx, what: &str) {
        let n = self.rows.len() as u32;
        let sig = 0x530 << 32 | (32 - n.leading_zeros()) as u64;
        c.expect(self.a.len() == n, sig, || format!("{}: {} rows, len() is {}", what, n, self.a.len()));
        c.expect(self.a.capacity() >= self.a.len(), sig | 1 << 20, || format!("{}: capacity {} below length {}", what, self.a.capacity(), self.a.len()));
        c.expect(self.a.is_full() == (self.a.len() == self.a.capacity()), sig | 2 << 20, || {
            format!("{}: full {} at length {} of capacity {}", what, self.a.is_full(), self.a.len(), self.a.capacity())
        });
    }

    /// Some rows and some views; `deep`: all rows.
    fn check(&mut self, c: &mut Ctx, r: &mut Rng, what: &str, deep: bool) {
        self.size_ok(c, what);
        if report::any() {
            return;
        }
        let got: Vec<u32> = self.a.entities().iter().map(|e| e.raw()).collect();
        let got2: Vec<u32> = self.a.entities_mut().iter().map(|e| e.raw()).collect();
        let want: Vec<u32> = self.rows.iter().map(|x| x.ent).collect();
        c.expect(got == want && got2 == want, 0x531 << 32 | self.row_sig(0), || {
            let i = (0..want.len()).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
            format!("{}: handles differ from row {} on: {:#x?}, not {:#x?}", what, i, got.get(i), want.get(i))
        });
        if self.rows.is_empty() || report::any() {
            return;
        }
        let n = self.rows.len();
        let some: Vec<usize> = if deep && n <= 64 { (0..n).collect() } else { (0..6).map(|_| r.index(n)).chain([0, n - 1]).collect() };
        for i in some {
            for k in kinds_of(self.set) {
                let want = self.rows[i].tok[k];
                let o = unsafe { (self.t.kinds[k].get)(&self.a, i as u32) };
                c.expect(o == want, 0x532 << 32 | (k as u64) << 16 | self.row_sig(i), || {
                    format!("{}: row {} of {} ({:#x}): {} holds {}, not {}", what, i, n, self.rows[i].ent, self.t.vt[k].tag, o as i64, want)
                });
            }
            let g = &self.t.groups[*r.pick(&self.sub)];
            let mut seen: Vec<Col> = Vec::new();
            unsafe { (g.refs)(&self.a, i as u32, &mut |_, cols| seen.extend_from_slice(cols)) };
            self.cols(c, what, g, &seen, i, i + 1);
            let mut seen: Vec<Col> = Vec::new();
            unsafe { (g.muts)(&mut self.a, i as u32, &mut |_, cols| seen.extend_from_slice(cols)) };
            self.cols(c, what, g, &seen, i, i + 1);
            if report::any() {
                return;
            }
        }
        let forms: Vec<usize> = if deep { (0..6).collect() } else { vec![r.index(6)] };
        for form in forms {
            let g = if form % 3 == 0 { *r.pick(&self.exact) } else { *r.pick(&self.sub) };
            let g = &self.t.groups[g];
            let (mut cols, mut ents) = (Vec::new(), None);
            unsafe {
                (g.slices)(&mut self.a, form, &mut |e, s| {
                    cols.extend_from_slice(s);
                    ents = e.map(|e| e.iter().map(|e| e.raw()).collect::<Vec<_>>());
                })
            };
            if form % 3 == 2 {
                c.expect(ents.as_ref() == Some(&want), 0x533 << 32 | form as u64, || format!("{}: slices of {} come with handles {:x?}", what, g.name, ents.as_ref().map(|e| e.len())));
            }
            self.cols(c, what, g, &cols, 0, n);
            if report::any() {
                return;
            }
        }
    }

    fn cols(&self, c: &mut Ctx, what: &str, g: &RawGroup, cols: &[Col], from: usize, to: usize) {
        for (j, col) in cols.iter().enumerate() {
            let k = g.kinds[j] as usize;
            let vt = &self.t.vt[k];
            c.expect(col.len == to - from, 0x540 << 32 | (k as u64) << 8 | g.kinds.len() as u64, || {
                format!("{}: the slice of {} in {} has {} elements of {}", what, vt.tag, g.name, col.len, to - from)
            });
            c.expect(col.ptr as usize % vt.align == 0 && !col.ptr.is_null(), 0x541 << 32 | k as u64, || format!("{}: the slice of {} is misaligned: {:p}", what, vt.tag, col.ptr));
            if report::any() {
                return;
            }
            // All rows, except in long storages: there the ends and a sample.
            let stride = ((to - from) / 64).max(1);
            let mut i = from;
            while i < to {
                let o = unsafe { (vt.read_at)(col.ptr, i - from) };
                let want = self.rows[i].tok[k];
                c.expect(o == want, 0x542 << 32 | (k as u64) << 16 | (j as u64) << 8 | (from == 0) as u64, || {
                    format!("{}: row {} of {} seen through {}: {} holds {}, not {}", what, i, self.rows.len(), g.name, vt.tag, o as i64, want)
                });
                i += if i + 1 < to && i + stride >= to { to - 1 - i } else { stride };
            }
        }
    }

    /// All values are moved out or forgotten by the monitor; the model follows.
    fn remove_row(&mut self, i: usize) -> Row {
        self.rows.swap_remove(i)
    }

    fn finish(self, c: &mut Ctx) {
        c.op(69);
        let Rows { t, a, set, rows, .. } = self;
        let mut want: Vec<(u8, u64)> = Vec::new();
        for row in &rows {
            want.extend(kinds_of(set).filter(|k| t.vt[*k].drops).map(|k| (k as u8, row.tok[k])));
        }
        sut(|| drop(a));
        let mut got = ledger::take_log();
        got.sort();
        want.sort();
        c.expect(got == want, 0x550 << 32 | (64 - (want.len() as u64).leading_zeros()) as u64, || {
            format!("dropping a storage of {} rows ran {} destructors, not the {} of its values", rows.len(), got.len(), want.len())
        });
        for e in ledger::take_errors() {
            report::violation(p(17), e);
        }
    }
}

fn pick_group(r: &mut Rng, t: &Tables, heavy: bool) -> usize {
    const HEAVY: u32 = 1 << 13 | 1 << 19 | 1 << 24 | 1 << 25;
    loop {
        let g = r.index(t.groups.len());
        if t.groups[g].valid && (heavy || t.groups[g].set & HEAVY == 0) && (t.groups[g].kinds.len() > 1 || r.chance(1, 4)) {
            return g;
        }
    }
}

fn capacity(r: &mut Rng, heavy: bool) -> Option<u32> {
    match r.below(6) {
        0 => None,
        1 => Some(0),
        2 => Some(r.below(5) as u32),
        3 if !heavy => Some(*r.pick(&[127, 128, 129, 255, 256, 1000])),
        4 => Some(*r.pick(&[MAX_ENTITIES_PER_ARCHETYPE + 1, u32::MAX, 1 << 31, 1 << 24])),
        _ => Some(1 + r.below(20) as u32),
    }
}

pub fn run(c: &mut Ctx, r: &mut Rng) {
    if c.scale != Scale::Tiny && !cfg!(miri) && r.chance(1, 40) {
        return giant(c, r);
    }
    let t = tables();
    ledger::reset();
    alloc::take_faults();
    let base = alloc::sut_live();
    let heavy = r.chance(1, 12);
    let g = pick_group(r, t, heavy);
    let cap = capacity(r, heavy);
    let mut w = match Rows::new(c, r, t, g, cap) {
        Some(w) => w,
        None => return,
    };
    // A second storage that shares some components, for copies.
    let mut other = {
        let g = loop {
            let g = pick_group(r, t, false);
            if t.groups[g].set & w.set != 0 || r.chance(1, 30) {
                break g;
            }
        };
        let cap = capacity(r, false);
        match Rows::new(c, r, t, g, cap) {
            Some(w) => w,
            None => return,
        }
    };
    let max = match c.scale {
        Scale::Tiny => 9,
        _ if heavy => 140,
        _ => [3u64, 40, 140, 300, 1100, 5000][r.index(6)],
    } as usize;
    let steps = if c.scale == Scale::Tiny { 30 } else { 60 + r.below(240) };
    let mut serial = 0u32;
    for step in 0..steps {
        if report::any() {
            break;
        }
        let n = w.rows.len();
        let code = r.below(16);
        // What the storage held before, to see that refused space is not touched.
        match code {
            0..=3 => {
                c.op(50);
                // One, or until it grows, or many.
                let k = match r.below(5) {
                    0 => (w.a.capacity() as usize).saturating_sub(n) + 1,
                    1 => 1 + r.index(max),
                    _ => 1,
                }
                .min(max.saturating_sub(n));
                c.log(|| format!("push {} rows to {}", k, n));
                for _ in 0..k {
                    let g = &t.groups[*r.pick(&w.exact)];
                    let toks = w.tokens(g.kinds);
                    serial += 1;
                    let raw = serial << 8 | r.below(255) as u32;
                    let at = unsafe { (g.push)(&mut w.a, entity(raw), &toks) };
                    let row = w.row(raw, g.kinds, &toks);
                    let want = w.rows.len() as u32;
                    w.rows.push(row);
                    c.expect(at == want, 0x560 << 32 | w.row_sig(0), || format!("a row pushed to {} rows is reported at {}", want, at));
                    c.count("rows_pushed", 1);
                }
                w.drops(c, vec![], "push");
            }
            4 => {
                c.op(51);
                if n >= max {
                    continue;
                }
                // A row written component by component.
                let at = unsafe { sut(|| w.a.push_uninitialized_entity()) };
                c.expect(at as usize == n, 0x561 << 32 | w.row_sig(0), || format!("an uninitialised row pushed to {} rows is reported at {}", n, at));
                serial += 1;
                let raw = serial << 8;
                let mut ks: Vec<u8> = kinds_of(w.set).map(|k| k as u8).collect();
                r.shuffle(&mut ks);
                let toks = w.tokens(&ks);
                c.log(|| format!("push row {} component by component", n));
                if report::any() {
                    break;
                }
                for (k, tok) in ks.iter().zip(&toks) {
                    unsafe { (t.kinds[*k as usize].write)(&mut w.a, at, *tok) };
                }
                w.a.entities_mut()[at as usize] = entity(raw);
                let row = w.row(raw, &ks, &toks);
                w.rows.push(row);
                w.drops(c, vec![], "component-wise push");
            }
            5 | 6 if n > 0 => {
                c.op(52);
                let i = if r.chance(1, 4) { n - 1 } else { r.index(n) };
                let sig = w.row_sig(i);
                c.log(|| format!("swap-remove row {} of {}", i, n));
                let g = t.groups[*r.pick(&w.exact)];
                let (got, swapped) = unsafe { (g.swap_remove)(&mut w.a, i as u32) };
                let row = w.remove_row(i);
                w.compare(c, "swap-remove", &g, &got, &row);
                c.expect(swapped == (i + 1 != n), 0x562 << 32 | sig, || format!("swap-remove of row {} of {} reports a swap: {}", i, n, swapped));
                w.drops(c, vec![], "swap-remove");
            }
            7 | 8 if n > 0 => {
                c.op(53);
                let i = if r.chance(1, 4) { n - 1 } else { r.index(n) };
                let sig = w.row_sig(i);
                c.log(|| format!("swap-drop row {} of {}", i, n));
                let swapped = unsafe { sut(|| w.a.swap_drop_unchecked(i as u32)) };
                let row = w.remove_row(i);
                let want = w.dropped(&row);
                w.drops(c, want, "swap-drop");
                c.expect(swapped == (i + 1 != n), 0x563 << 32 | sig, || format!("swap-drop of row {} of {} reports a swap: {}", i, n, swapped));
            }
            9 if n > 1 => {
                c.op(54);
                let (i, mut j) = (r.index(n), r.index(n - 1));
                j += (j >= i) as usize;
                c.log(|| format!("swap rows {} and {}", i, j));
                unsafe { sut(|| w.a.swap_entities(i as u32, j as u32)) };
                w.rows.swap(i, j);
                w.drops(c, vec![], "swap");
            }
            10 if n > 0 => {
                c.op(55);
                let i = r.index(n);
                c.log(|| format!("swap row {} to the end", i));
                let sig = w.row_sig(i);
                let swapped = unsafe { sut(|| w.a.swap_to_last_unchecked(i as u32)) };
                w.rows.swap(i, n - 1);
                c.expect(swapped == (i + 1 != n), 0x564 << 32 | sig, || format!("swapping row {} of {} to the end reports a swap: {}", i, n, swapped));
                w.drops(c, vec![], "swap to last");
            }
            11 if n > 0 => {
                c.op(56);
                // Read a row out and write another in its place.
                let i = r.index(n);
                let g = t.groups[*r.pick(&w.exact)];
                let h = t.groups[*r.pick(&w.exact)];
                c.log(|| format!("replace row {}", i));
                let got = unsafe { (g.read)(&w.a, i as u32) };
                let old = w.rows[i].clone();
                w.compare(c, "read", &g, &got, &old);
                let toks = w.tokens(h.kinds);
                serial += 1;
                unsafe { (h.write)(&mut w.a, i as u32, entity(serial << 8), &toks) };
                w.rows[i] = w.row(serial << 8, h.kinds, &toks);
                w.drops(c, vec![], "replace");
            }
            12 if n > 0 => {
                c.op(57);
                // One component: read and write, or write through a reference.
                let i = r.index(n);
                let ks: Vec<usize> = kinds_of(w.set).collect();
                let k = *r.pick(&ks);
                let old = w.rows[i].tok[k];
                let tok = w.tokens(&[k as u8])[0];
                let way = r.below(3);
                c.log(|| format!("write {} of row {} ({})", t.vt[k].tag, i, way));
                let o = unsafe {
                    match way {
                        0 => {
                            let o = (t.kinds[k].read)(&mut w.a, i as u32);
                            (t.kinds[k].write)(&mut w.a, i as u32, tok);
                            o
                        }
                        _ => {
                            let o = (t.kinds[k].get_mut)(&mut w.a, i as u32, Some((tok, way == 1)));
                            ledger::take_log();
                            o
                        }
                    }
                };
                c.expect(o == old, 0x565 << 32 | (k as u64) << 8 | way, || format!("{} of row {} holds {}, not {}", t.vt[k].tag, i, o as i64, old));
                w.rows[i].tok[k] = tok;
                w.drops(c, vec![], "write");
            }
            13 if n > 0 => {
                c.op(58);
                // The last row is dropped or read out, and the count lowered by hand.
                if r.chance(1, 2) {
                    c.log(|| "drop the last row in place".to_string());
                    unsafe { sut(|| w.a.drop_entity(n as u32 - 1)) };
                    let row = w.rows.pop().unwrap();
                    let want = w.dropped(&row);
                    w.drops(c, want, "drop of one row");
                } else {
                    c.log(|| "read the last row out".to_string());
                    let g = t.groups[*r.pick(&w.exact)];
                    let got = unsafe { (g.read)(&w.a, n as u32 - 1) };
                    let row = w.rows.pop().unwrap();
                    w.compare(c, "read of the last row", &g, &got, &row);
                    w.drops(c, vec![], "read");
                }
                unsafe { w.a.decrement_len_unchecked() };
            }
            14 if n > 0 => {
                c.op(59);
                // Move a row to the other storage.
                let i = r.index(n);
                c.log(|| format!("move row {} to the storage of {}", i, other.name));
                unsafe { sut(|| w.a.swap_to_last_unchecked(i as u32)) };
                w.rows.swap(i, n - 1);
                let last = n as u32 - 1;
                let di = unsafe { sut(|| other.a.push_uninitialized_entity()) };
                c.expect(di as usize == other.rows.len(), 0x566 << 32, || format!("an uninitialised row pushed to {} rows is reported at {}", other.rows.len(), di));
                if report::any() {
                    break;
                }
                unsafe { sut(|| Archetype::copy_common_components_between_archetypes_unchecked(&w.a, last, &mut other.a, di)) };
                let old = w.rows.pop().unwrap();
                let mut new = old.clone();
                other.a.entities_mut()[di as usize] = entity(old.ent);
                for k in kinds_of(other.set & !w.set) {
                    new.tok[k] = w.tokens(&[k as u8])[0];
                    unsafe { (t.kinds[k].write)(&mut other.a, di, new.tok[k]) };
                }
                for k in kinds_of(w.set & !other.set) {
                    let o = unsafe { (t.kinds[k].read)(&mut w.a, last) };
                    c.expect(o == old.tok[k], 0x567 << 32 | k as u64, || format!("{} of the row to move holds {}, not {}", t.vt[k].tag, o as i64, old.tok[k]));
                    new.tok[k] = 0;
                }
                unsafe { w.a.decrement_len_unchecked() };
                other.rows.push(new);
                w.drops(c, vec![], "move");
                other.check(c, r, "after a move", false);
                if other.rows.len() > 100 || r.chance(1, 6) {
                    std::mem::swap(&mut w, &mut other);
                }
            }
            15 if r.chance(1, 4) => {
                c.op(60);
                c.log(|| format!("drop all {} rows", n));
                unsafe { sut(|| w.a.drop_entities()) };
                let mut want = Vec::new();
                for row in std::mem::take(&mut w.rows) {
                    want.extend(w.dropped(&row));
                }
                w.drops(c, want, "drop of all rows");
                for _ in 0..n {
                    unsafe { w.a.decrement_len_unchecked() };
                }
            }
            _ => continue,
        }
        if !report::any() {
            let deep = w.rows.len() <= 64 || step % 16 == 0;
            w.check(c, r, "afterwards", deep);
        }
        c.max("max_rows", w.rows.len() as u64);
    }
    if report::any() {
        std::mem::forget(w);
        std::mem::forget(other);
        return;
    }
    other.check(c, r, "finally", true);
    w.check(c, r, "finally", true);
    if report::any() {
        std::mem::forget(w);
        std::mem::forget(other);
        return;
    }
    w.finish(c);
    other.finish(c);
    let now = alloc::sut_live();
    if !cfg!(plain_alloc) {
        c.expect(now == base, 0x570, || format!("storages are gone, but {} blocks of {} bytes are not released", now.0 as i64 - base.0 as i64, now.1 as i64 - base.1 as i64));
    }
    for f in alloc::take_faults() {
        report::violation(p(17) | p(7), format!("allocator misuse: {}", f));
    }
}

/// Rows so far apart that their offsets exceed 32 bits. Only a few of them are ever touched.
fn giant(c: &mut Ctx, r: &mut Rng) {
    let t = tables();
    ledger::reset();
    let (k, rows) = *r.pick(&[(24usize, 70_000u32), (24, 33_000), (25, 140_000), (13, 110_000), (9, 16_777_215), (0, 16_777_215)]);
    let g = (0..t.groups.len()).find(|g| t.groups[*g].set == 1 << k).unwrap();
    let mut w = match Rows::new(c, r, t, g, Some(rows)) {
        Some(w) => w,
        None => return,
    };
    c.op(61);
    c.log(|| format!("{} rows of {} bytes", rows, t.vt[k].size));
    for i in 0..rows {
        let at = unsafe { sut(|| w.a.push_uninitialized_entity()) };
        if at != i {
            c.expect(false, 0x580, || format!("an uninitialised row pushed to {} rows is reported at {}", i, at));
            std::mem::forget(w);
            return;
        }
    }
    c.expect(w.a.len() == rows && w.a.is_full() == (w.a.capacity() == rows), 0x581 << 32 | k as u64, || format!("{} rows, len() {}, capacity {}", rows, w.a.len(), w.a.capacity()));
    let mut used: Vec<u32> = vec![0, 1, rows / 2, rows - 2, rows - 1, (u32::MAX as u64 / t.vt[k].size as u64).min(rows as u64 - 3) as u32, (i32::MAX as u64 / t.vt[k].size as u64).min(rows as u64 - 4) as u32];
    used.sort();
    used.dedup();
    let kind = &t.kinds[k];
    let mut tok: Vec<u64> = Vec::new();
    for i in &used {
        let x = ledger::fresh() & t.vt[k].mask;
        tok.push(x);
        unsafe { (kind.write)(&mut w.a, *i, x) };
        w.a.entities_mut()[*i as usize] = entity(i << 8 | 7);
    }
    let mut ent: Vec<u32> = used.iter().map(|i| i << 8 | 7).collect();
    for step in 0..40 {
        c.op(62);
        let (i, j) = (r.index(used.len()), r.index(used.len()));
        if i != j {
            unsafe { sut(|| w.a.swap_entities(used[i], used[j])) };
            tok.swap(i, j);
            ent.swap(i, j);
        }
        for (n, at) in used.iter().enumerate() {
            let o = unsafe { (kind.get)(&w.a, *at) };
            let e = w.a.entities()[*at as usize].raw();
            c.expect(o == tok[n] && e == ent[n], 0x582 << 32 | (k as u64) << 8 | n as u64, || {
                format!("row {} of {} ({} bytes each) holds {} of {:#x}, not {} of {:#x}, after {} swaps", at, rows, t.vt[k].size, o as i64, e, tok[n], ent[n], step)
            });
            let g = &t.groups[g];
            let mut seen = None;
            unsafe { (g.muts)(&mut w.a, *at, &mut |_, cols| seen = Some((t.vt[k].read_at)(cols[0].ptr, 0))) };
            c.expect(seen == Some(tok[n]), 0x583 << 32 | k as u64, || format!("row {} seen through its group holds {:?}, not {}", at, seen, tok[n]));
            unsafe { (g.slices)(&mut w.a, step % 6, &mut |_, cols| seen = Some((t.vt[k].read_at)(cols[0].ptr, *at as usize))) };
            c.expect(seen == Some(tok[n]), 0x584 << 32 | k as u64, || format!("row {} seen through a slice holds {:?}, not {}", at, seen, tok[n]));
        }
        if report::any() {
            std::mem::forget(w);
            return;
        }
    }
    // Values leave by hand, so that dropping the storage drops nothing that was never written.
    for (n, at) in used.iter().enumerate() {
        let o = unsafe { (kind.read)(&mut w.a, *at) };
        c.expect(o == tok[n], 0x585 << 32 | k as u64, || format!("row {} read out is {}, not {}", at, o as i64, tok[n]));
    }
    for _ in 0..rows {
        unsafe { w.a.decrement_len_unchecked() };
    }
    c.max("max_rows", rows as u64);
    w.size_ok(c, "after the giant storage was emptied");
    if !report::any() {
        w.finish(c);
    }
}
