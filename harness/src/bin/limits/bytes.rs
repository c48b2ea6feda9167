//! Columns of several gigabytes: byte offsets beyond 2 and 4 GiB with moderate numbers of rows.
use harness::prng::{mix, Rng};
use harness::report::{self, p};
use harness::runner::Ctx;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::{Archetype, Component, Entity, Registry};
use std::sync::atomic::{AtomicU8, Ordering};

const SIZE: usize = 65_535;
const TOKENS: usize = 1 << 18;
static DROPPED: [AtomicU8; TOKENS] = [const { AtomicU8::new(0) }; TOKENS];

/// As large as a component may be.
struct Vast([u8; SIZE]);
impl Component for Vast {
    const NAME: &'static str = "limits::Vast";
}
impl Vast {
    fn new(o: u32) -> Vast {
        let mut v = Vast([0; SIZE]);
        v.set(o);
        v
    }
    fn set(&mut self, o: u32) {
        self.0[..4].copy_from_slice(&o.to_le_bytes());
        self.0[SIZE / 2..SIZE / 2 + 8].copy_from_slice(&mix(o as u64).to_le_bytes());
        self.0[SIZE - 4..].copy_from_slice(&(!o).to_le_bytes());
    }
    fn get(&self) -> Option<u32> {
        let at = |i: usize| u32::from_le_bytes([self.0[i], self.0[i + 1], self.0[i + 2], self.0[i + 3]]);
        let o = at(0);
        let m = at(SIZE / 2) as u64 | (at(SIZE / 2 + 4) as u64) << 32;
        (at(SIZE - 4) == !o && m == mix(o as u64)).then_some(o)
    }
}
impl Drop for Vast {
    fn drop(&mut self) {
        if let Some(o) = self.get() {
            if (o as usize) < TOKENS {
                DROPPED[o as usize].fetch_add(1, Ordering::Relaxed);
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Tag(u32);
impl Component for Tag {
    const NAME: &'static str = "limits::Tag";
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Extra(u64);
impl Component for Extra {
    const NAME: &'static str = "limits::Extra";
}

/// Compares; a divergence counts against the properties given.
fn expect(c: &mut Ctx, ok: bool, props: u32, sig: u64, msg: impl FnOnce() -> String) -> bool {
    c.eval(sig);
    if !ok {
        report::violation(props, msg());
    }
    ok
}

#[derive(Clone, Copy)]
struct Ent {
    e: Entity,
    tag: u32,
    vast: Option<u32>,
    extra: Option<u64>,
}

struct World {
    reg: Registry,
    ents: Vec<Ent>,
    next: u32,
    /// Tokens which must have been dropped or handed back by now.
    gone: Vec<u32>,
    /// What the last operation was about.
    blame: u32,
}

impl World {
    fn token(&mut self) -> u32 {
        self.next += 1;
        DROPPED[self.next as usize].store(0, Ordering::Relaxed);
        self.next
    }

    fn create(&mut self, c: &mut Ctx, swapped: bool) -> bool {
        let o = self.token();
        let got = if swapped {
            self.reg.create_entity((Tag(o), Vast::new(o))).map_err(|x| x.1.get())
        } else {
            self.reg.create_entity((Vast::new(o), Tag(o))).map_err(|x| x.0.get())
        };
        match got {
            Ok(e) => {
                self.ents.push(Ent { e, tag: o, vast: Some(o), extra: None });
                true
            }
            Err(x) => expect(c, false, p(1), 1, || format!("creation with {} alive refused, handed back {:?}", o, x)),
        }
    }

    fn check(&self, c: &mut Ctx, i: usize) -> bool {
        let x = &self.ents[i];
        let got = (
            self.reg.get_component::<Vast>(x.e).map(|v| v.get()),
            self.reg.get_component::<Tag>(x.e).map(|t| t.0),
            self.reg.get_component::<Extra>(x.e).map(|t| t.0),
            self.reg.get_components::<(Tag, Vast)>(x.e).map(|v| (v.0 .0, v.1.get())),
            self.reg.has_component::<Vast>(x.e),
        );
        let want = (
            x.vast.map(Some),
            Some(x.tag),
            x.extra,
            x.vast.map(|v| (x.tag, Some(v))),
            x.vast.is_some(),
        );
        let corrupt = got.0 == Some(None) || got.3.is_some_and(|v| v.1.is_none());
        let props = p(1) | self.blame | if corrupt { p(7) } else { 0 };
        expect(c, got == want, props, mix(2) ^ x.vast.is_some() as u64 ^ (x.extra.is_some() as u64) << 1, || {
            format!("entity {} of {} ({:?}) reads {:?} instead of {:?}", i, self.ents.len(), x.e, got, want)
        })
    }

    /// Every row, through one of the forms of iteration.
    fn check_all(&mut self, c: &mut Ctx, form: u64) -> bool {
        let mut by: std::collections::HashMap<u32, usize> = self.ents.iter().enumerate().map(|(i, x)| (x.e.raw(), i)).collect();
        let mut bad = None;
        let mut wrong = None;
        let mut rows = 0;
        let props = match form {
            0 | 1 => p(4),
            2 => p(5),
            _ => p(6),
        };
        {
            let ents = &self.ents;
            let mut row = |e: Entity, v: Option<u32>, t: u32| {
                rows += 1;
                match by.remove(&e.raw()).map(|i| &ents[i]) {
                    Some(x) if x.vast.is_some() && x.vast == v && x.tag == t => {}
                    Some(x) if x.vast.is_some() => {
                        wrong.get_or_insert((e, x.vast, x.tag, v, t));
                    }
                    x => {
                        bad.get_or_insert_with(|| format!("row {} yields {:?} with {:?} and {}, recorded {:?}", rows - 1, e, v, t, x.map(|x| (x.vast, x.tag))));
                    }
                }
            };
            match form {
                0 => {
                    for (es, (vs, ts)) in self.reg.iter_entity_components_matching::<(Vast, Tag)>() {
                        for i in 0..es.len() {
                            row(es[i], vs[i].get(), ts[i].0);
                        }
                    }
                }
                1 => {
                    for (es, (ts, vs)) in self.reg.iter_entity_components_matching_mut::<(Tag, Vast)>() {
                        for i in 0..es.len() {
                            row(es[i], vs[i].get(), ts[i].0);
                        }
                    }
                }
                2 => {
                    for (es, (vs, ts)) in self.reg.iter_filtered_entity_components_matching::<(Vast, Tag), _>(|_| true) {
                        for i in 0..es.len() {
                            row(es[i], vs[i].get(), ts[i].0);
                        }
                    }
                }
                _ => {
                    let (es, (ts, vs)) = self.reg.iter_entity_components_exact::<(Tag, Vast)>();
                    for i in 0..es.len() {
                        row(es[i], vs[i].get(), ts[i].0);
                    }
                    let (es, (vs, _, ts)) = self.reg.iter_entity_components_exact_mut::<(Vast, Extra, Tag)>();
                    for i in 0..es.len() {
                        row(es[i], vs[i].get(), ts[i].0);
                    }
                }
            }
        }
        let with = self.ents.iter().filter(|x| x.vast.is_some()).count();
        c.count("rows_of_the_largest_component", rows as u64);
        if let Some((e, vast, tag, v, t)) = wrong {
            // Either the value itself is wrong, or just the iteration.
            let single = self.reg.get_components::<(Tag, Vast)>(e).map(|x| (x.0 .0, x.1.get()));
            let at_rest = single != Some((tag, vast));
            let props = if at_rest { p(1) | self.blame } else { props } | if v.is_none() { p(7) } else { 0 };
            return expect(c, false, props, 3, || format!("iteration yields {:?} with {:?} and {}, recorded {:?} and {}, read singly {:?}", e, v, t, vast, tag, single));
        }
        expect(c, bad.is_none() && rows == with, props, mix(3) ^ form, || bad.unwrap_or_else(|| format!("{} rows where {} entities match", rows, with)))
    }

    fn dropped(&mut self, c: &mut Ctx, what: &str) -> bool {
        for o in std::mem::take(&mut self.gone) {
            let n = DROPPED[o as usize].load(Ordering::Relaxed);
            if !expect(c, n == 1, p(3), mix(4), || format!("{}: value {} dropped {} times", what, o, n)) {
                return false;
            }
        }
        true
    }

    /// One operation on an entity, with its neighbours read before and after.
    fn step(&mut self, c: &mut Ctx, r: &mut Rng, i: usize) -> bool {
        let x = self.ents[i];
        let what = r.below(7);
        self.blame = match what {
            1 => p(25),
            4 => p(22),
            _ => 0,
        };
        match what {
            0 => {
                let got = self.reg.destroy_entity(x.e);
                self.ents.swap_remove(i);
                self.gone.extend(x.vast);
                c.count("destroyed", 1);
                expect(c, got, p(1) | p(2), mix(5), || format!("destroying {:?} refused", x.e)) && self.dropped(c, "destroy")
                    && expect(c, !self.reg.has_component::<Tag>(x.e), p(2), mix(6), || format!("{:?} lives on", x.e))
            }
            1 if x.extra.is_none() && x.vast.is_some() => {
                let got = self.reg.remove_entity::<(Tag, Vast)>(x.e).map(|v| (v.0 .0, v.1.get()));
                self.ents.swap_remove(i);
                self.gone.extend(x.vast);
                c.count("removed", 1);
                expect(c, got == Some((x.tag, x.vast)), p(25) | p(3), mix(7), || format!("removing {:?} returns {:?} instead of {:?}", x.e, got, (x.tag, x.vast))) && self.dropped(c, "remove")
            }
            1 | 2 => {
                let o = self.next as u64 * 3;
                let ok = if x.extra.is_some() {
                    let got = self.reg.remove_component::<Extra>(x.e).map(|v| v.0);
                    self.ents[i].extra = None;
                    expect(c, got.ok() == x.extra, p(1) | p(11), mix(8), || format!("removing the addition of {:?}: {:?} instead of {:?}", x.e, got, x.extra))
                } else {
                    let got = self.reg.add_component(x.e, Extra(o)).is_ok();
                    self.ents[i].extra = Some(o);
                    expect(c, got, p(1) | p(11), mix(9), || format!("adding to {:?} refused", x.e))
                };
                c.count("moved", 1);
                ok && self.check(c, i)
            }
            3 => {
                let ok = if let Some(v) = x.vast {
                    let got = self.reg.remove_component::<Vast>(x.e).map(|v| v.get());
                    self.ents[i].vast = None;
                    self.gone.push(v);
                    expect(c, got == Ok(Some(v)), p(1) | p(11), mix(10), || format!("taking the large value of {:?}: {:?} instead of {}", x.e, got, v)) && self.dropped(c, "remove component")
                } else {
                    let o = self.token();
                    let got = self.reg.add_component(x.e, Vast::new(o)).is_ok();
                    self.ents[i].vast = Some(o);
                    expect(c, got, p(1) | p(11), mix(11), || format!("adding the large value to {:?} refused", x.e))
                };
                c.count("moved", 1);
                ok && self.check(c, i)
            }
            4 => {
                if x.vast.is_some() {
                    let o = self.token();
                    match r.below(3) {
                        0 => self.reg.get_component_mut::<Vast>(x.e).map(|v| v.set(o)),
                        1 => self.reg.get_components_mut::<(Tag, Vast)>(x.e).map(|v| v.1.set(o)),
                        _ => {
                            let mut found = None;
                            for (es, vs) in self.reg.iter_entity_components_matching_mut::<Vast>() {
                                if let Some(at) = es.iter().position(|e| *e == x.e) {
                                    vs[at].set(o);
                                    found = Some(());
                                }
                            }
                            found
                        }
                    };
                    self.ents[i].vast = Some(o);
                    c.count("overwritten", 1);
                }
                self.check(c, i)
            }
            5 => self.create(c, r.chance(1, 2)),
            _ => self.check(c, i),
        }
    }
}

/// The raw storage of (Vast, Tag).
struct Raw {
    a: Archetype,
    /// Token of every row; handles and tags follow from it.
    rows: Vec<u32>,
}

impl Raw {
    fn check(&mut self, c: &mut Ctx, i: usize) -> bool {
        let o = self.rows[i];
        let at = i as u32;
        let got = unsafe {
            let both = self.a.get_fuzzy_components_unchecked::<(Vast, Tag)>(at);
            let both = (both.0.get(), both.1 .0);
            let slices = self.a.get_fuzzy_slices_unchecked::<(Tag, Vast)>();
            (both, self.a.get_component_unchecked::<Vast>(at).get(), (slices.1[i].get(), slices.0[i].0), self.a.entities()[i].index(), slices.0.len())
        };
        let want = ((Some(o), o), Some(o), (Some(o), o), o, self.rows.len());
        c.expect(got == want, mix(20), || format!("row {} reads {:?} instead of {:?}", i, got, want))
    }
}

fn raw(c: &mut Ctx, r: &mut Rng, w: &mut Raw) -> bool {
    let rows = 65_538 + r.index(1500);
    c.log(|| format!("storage of {} rows of {} bytes", rows, SIZE));
    for o in 0..rows as u32 {
        DROPPED[o as usize].store(0, Ordering::Relaxed);
        let got = unsafe { w.a.push_entity_unchecked(Entity::new_unchecked(o, 1), (Tag(o), Vast::new(o))) };
        if !c.expect(got == o, 21, || format!("row {} pushed to {}", o, got)) {
            return false;
        }
        w.rows.push(o);
    }
    c.max("max_column_bytes", (rows * SIZE) as u64);
    for _ in 0..4000 {
        c.op(4);
        let n = w.rows.len();
        let mut pick = |n: usize| match r.below(4) {
            0 => r.index(n),
            1 => n - 1 - r.index(n.min(40)),
            2 => r.index(40),
            _ => ((1usize << (6 + r.index(11))) + r.index(5)).saturating_sub(2) % n,
        };
        let (i, j) = (pick(n), pick(n));
        let ok = match pick(6) % 6 {
            0 if i != j => {
                unsafe { w.a.swap_entities(i as u32, j as u32) };
                w.rows.swap(i, j);
                true
            }
            1 => {
                let swapped = unsafe { w.a.swap_drop_unchecked(i as u32) };
                let o = w.rows.swap_remove(i);
                let n = DROPPED[o as usize].load(Ordering::Relaxed);
                c.expect(swapped == (i != w.rows.len()) && n == 1, mix(22), || format!("swap-drop of row {} swapped: {}, {} drops", i, swapped, n))
            }
            2 => {
                let (v, swapped) = unsafe { w.a.swap_remove_unchecked::<(Vast, Tag)>(i as u32) };
                let o = w.rows.swap_remove(i);
                let got = (v.0.get(), v.1 .0, swapped);
                c.expect(got == (Some(o), o, i != w.rows.len()), mix(23), || format!("swap-removal of row {} returns {:?}, it held {}", i, got, o))
            }
            3 => {
                let swapped = unsafe { w.a.swap_to_last_unchecked(i as u32) };
                w.rows.swap(i, n - 1);
                c.expect(swapped == (i != n - 1), mix(24), || format!("swapping row {} to the end: {}", i, swapped))
            }
            4 => {
                let v = unsafe { w.a.read_components_exact_unchecked::<(Tag, Vast)>(i as u32) };
                let got = (v.1.get(), v.0 .0);
                std::mem::forget(v);
                let o = w.rows[i];
                c.expect(got == (Some(o), o), mix(25), || format!("reading row {} yields {:?}, it holds {}", i, got, o))
            }
            _ => true,
        };
        let n = w.rows.len();
        if !ok || !w.check(c, i.min(n - 1)) || !w.check(c, j.min(n - 1)) || !w.check(c, n - 1) {
            return false;
        }
    }
    for i in 0..w.rows.len() {
        if !w.check(c, i) {
            return false;
        }
    }
    true
}

pub fn run(c: &mut Ctx, r: &mut Rng) {
    if c.prop == 17 {
        let d: &ArchetypeDescriptor = <(Vast, Tag) as ComponentGroup>::DESCRIPTOR.archetype();
        let mut w = Raw { a: Archetype::new(d), rows: Vec::new() };
        if !raw(c, r, &mut w) {
            std::mem::forget(w);
            return;
        }
        drop(w.a);
        for o in w.rows {
            let n = DROPPED[o as usize].load(Ordering::Relaxed);
            c.expect(n == 1, mix(26), || format!("dropping the storage drops a value {} times", n));
        }
        return;
    }
    let mut w = World { reg: Registry::default(), ents: Vec::new(), next: 0, gone: Vec::new(), blame: 0 };
    scenario(c, r, &mut w);
    if report::any() {
        // What is broken is not dropped.
        std::mem::forget(w.reg);
        return;
    }
    let left: Vec<u32> = w.ents.iter().filter_map(|x| x.vast).collect();
    w.gone = left;
    w.reg = Registry::default();
    w.dropped(c, "drop of the registry");
}

fn scenario(c: &mut Ctx, r: &mut Rng, w: &mut World) -> bool {
    // Beyond 2 GiB and 4 GiB, or just up to there.
    let rows = match r.below(4) {
        0 => 32_769 + r.index(3000),
        _ => 65_538 + r.index(1500),
    };
    c.log(|| format!("fill {} rows of {} bytes", rows, SIZE));
    let swapped = r.chance(1, 2);
    for i in 0..rows {
        if i % 4096 == 0 {
            c.op(1);
        }
        if !w.create(c, swapped) {
            return false;
        }
        if r.chance(1, 500) {
            let n = w.ents.len();
            // Entities near the rows where offsets cross a power of two.
            let i = match r.below(3) {
                0 => r.index(n),
                1 => n - 1 - r.index(n.min(3)),
                _ => ((1usize << (6 + r.index(11))) + r.index(5)).saturating_sub(2) % n,
            };
            if !w.check(c, i) {
                return false;
            }
        }
    }
    c.max("max_column_bytes", (w.ents.len() * SIZE) as u64);
    let first = r.below(4);
    if !w.check_all(c, first) {
        return false;
    }
    let steps = if c.scale == harness::runner::Scale::Thorough { 20_000 } else { 4000 };
    for k in 0..steps {
        c.op(2);
        let n = w.ents.len();
        let i = match r.below(4) {
            0 => r.index(n),
            1 => n - 1 - r.index(n.min(40)),
            2 => r.index(40),
            _ => ((1usize << (6 + r.index(11))) + r.index(5)).saturating_sub(2) % n,
        };
        if !w.step(c, r, i) {
            return false;
        }
        let (n, j) = (w.ents.len(), r.next() as usize);
        if !w.check(c, j % n) || !w.check(c, i.min(n - 1)) {
            return false;
        }
        if k % 1500 == 1499 {
            c.op(3);
            let form = r.below(4);
            if !w.check_all(c, form) {
                return false;
            }
        }
    }
    (0..4).all(|form| w.check_all(c, form))
}
