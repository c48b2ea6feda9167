//! A small set of component types and groups with a cheap model, for runs where every step costs:
//! Miri and ThreadSanitizer. Everything is observed through real references, not raw pointers.

use crate::prng::Rng;
use core::sync::atomic::{AtomicI64, Ordering};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::{Component, ComponentTypeId, Entity, Registry};
use std::sync::Arc;

pub const N: usize = 16;
pub type Tok = u8;

/// Values of zero-sized droppable types made and not yet dropped, and of all droppable ones.
pub static ALIVE: [AtomicI64; N] = [const { AtomicI64::new(0) }; N];

pub fn alive() -> i64 {
    ALIVE.iter().map(|a| a.load(Ordering::SeqCst)).sum()
}

pub trait Lean: Component {
    const I: usize;
    /// Whether the type holds a token.
    const HOLDS: bool = true;
    fn new(t: Tok) -> Self;
    fn tok(&self) -> Tok;
    fn set(&mut self, t: Tok);
}

macro_rules! lean {
    ($name:ident, $i:expr, $id:expr, { $($body:tt)* }) => {
        impl Component for $name {
            const NAME: &'static str = stringify!($name);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
        impl Lean for $name {
            const I: usize = $i;
            $($body)*
            fn set(&mut self, t: Tok) {
                *self = Self::new(t);
            }
        }
    };
}

pub struct L8(u8);
lean!(L8, 0, 0x8001, { fn new(t: Tok) -> Self { L8(t) } fn tok(&self) -> Tok { self.0 } });
pub struct L16(u16);
lean!(L16, 1, 0x0203, { fn new(t: Tok) -> Self { L16(t as u16 * 257) } fn tok(&self) -> Tok { assert_eq!(self.0 >> 8, self.0 & 255); self.0 as u8 } });
#[repr(align(32))]
pub struct LWide(u64);
lean!(LWide, 2, 0x7000, { fn new(t: Tok) -> Self { LWide(t as u64) } fn tok(&self) -> Tok { assert_eq!(self as *const Self as usize % 32, 0); self.0 as u8 } });
pub struct L3([u8; 3]);
lean!(L3, 3, 0x0100, { fn new(t: Tok) -> Self { L3([t; 3]) } fn tok(&self) -> Tok { assert_eq!(self.0[0], self.0[2]); self.0[1] } });
pub struct LPad(u8, u64, u16);
lean!(LPad, 4, 0xF000, { fn new(t: Tok) -> Self { LPad(t, t as u64, t as u16) } fn tok(&self) -> Tok { assert_eq!(self.0 as u64 + self.1, 2 * self.2 as u64); self.0 } });
pub struct LStr(String);
lean!(LStr, 5, 0x0001, { fn new(t: Tok) -> Self { LStr(String::from_utf8(vec![t & 127, t >> 7]).unwrap()) } fn tok(&self) -> Tok { self.0.as_bytes()[0] | self.0.as_bytes()[1] << 7 } });
pub struct LBox(Box<u64>);
lean!(LBox, 6, 0x00FF, { fn new(t: Tok) -> Self { LBox(Box::new(t as u64)) } fn tok(&self) -> Tok { *self.0 as u8 } });
pub struct LArc(Arc<u32>);
lean!(LArc, 7, 0xFFFF - 2, { fn new(t: Tok) -> Self { LArc(Arc::new(t as u32)) } fn tok(&self) -> Tok { *self.0 as u8 } });
pub struct LMark;
lean!(LMark, 8, 0x0204, { const HOLDS: bool = false; fn new(_: Tok) -> Self { LMark } fn tok(&self) -> Tok { 0 } });
pub struct LMarkDrop(());
lean!(LMarkDrop, 9, 0x9999, { const HOLDS: bool = false; fn new(_: Tok) -> Self { ALIVE[9].fetch_add(1, Ordering::SeqCst); LMarkDrop(()) } fn tok(&self) -> Tok { 0 } });
impl Drop for LMarkDrop {
    fn drop(&mut self) {
        ALIVE[9].fetch_sub(1, Ordering::SeqCst);
    }
}
#[repr(align(64))]
pub struct LMarkAlign;
lean!(LMarkAlign, 10, 0x4000, { const HOLDS: bool = false; fn new(_: Tok) -> Self { LMarkAlign } fn tok(&self) -> Tok { assert_eq!(self as *const Self as usize % 64, 0); 0 } });
pub struct LBig([u32; 40]);
lean!(LBig, 11, 0x3FFF, { fn new(t: Tok) -> Self { LBig([t as u32; 40]) } fn tok(&self) -> Tok { assert_eq!(self.0[0], self.0[39]); self.0[17] as u8 } });
pub struct LOpt(Option<Box<u8>>);
lean!(LOpt, 12, 0x0002, { fn new(t: Tok) -> Self { LOpt(if t == 0 { None } else { Some(Box::new(t)) }) } fn tok(&self) -> Tok { self.0.as_ref().map_or(0, |b| **b) } });
pub struct LDrop(u8, Box<u8>);
lean!(LDrop, 13, 0xAAAA, { fn new(t: Tok) -> Self { ALIVE[13].fetch_add(1, Ordering::SeqCst); LDrop(t, Box::new(t)) } fn tok(&self) -> Tok { assert_eq!(self.0, *self.1); self.0 } });
impl Drop for LDrop {
    fn drop(&mut self) {
        assert_eq!(self.0, *self.1);
        ALIVE[13].fetch_sub(1, Ordering::SeqCst);
    }
}
/// The largest alignment an ordinary page can give.
#[repr(align(4096))]
pub struct LPage(u8);
lean!(LPage, 14, 0x0003, { fn new(t: Tok) -> Self { LPage(t) } fn tok(&self) -> Tok { assert_eq!(self as *const Self as usize % 4096, 0); self.0 } });
pub struct LBytes(Vec<u8>);
lean!(LBytes, 15, 0xCAFE, { fn new(t: Tok) -> Self { LBytes(vec![t; t as usize % 7 + 1]) } fn tok(&self) -> Tok { assert_eq!(self.0.len(), self.0[0] as usize % 7 + 1); self.0[0] } });

pub struct LeanKind {
    pub i: usize,
    pub holds: bool,
    pub add: fn(&mut Registry, Entity, Tok) -> Result<(), Tok>,
    pub remove: fn(&mut Registry, Entity) -> Option<Tok>,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<Tok>,
    pub get_mut: fn(&mut Registry, Entity, Option<Tok>) -> Option<Tok>,
}

pub const fn lean_kind<K: Lean>() -> LeanKind {
    LeanKind {
        i: K::I,
        holds: K::HOLDS,
        add: |r, e, t| r.add_component(e, K::new(t)).map_err(|v: K| v.tok()),
        remove: |r, e| r.remove_component::<K>(e).ok().map(|v| v.tok()),
        has: |r, e| r.has_component::<K>(e),
        get: |r, e| r.get_component::<K>(e).map(|v| v.tok()),
        get_mut: |r, e, t| {
            r.get_component_mut::<K>(e).map(|v| {
                let o = v.tok();
                if let Some(t) = t {
                    v.set(t);
                }
                o
            })
        },
    }
}

pub static KINDS: [LeanKind; N] = [
    lean_kind::<L8>(), lean_kind::<L16>(), lean_kind::<LWide>(), lean_kind::<L3>(), lean_kind::<LPad>(), lean_kind::<LStr>(),
    lean_kind::<LBox>(), lean_kind::<LArc>(), lean_kind::<LMark>(), lean_kind::<LMarkDrop>(), lean_kind::<LMarkAlign>(), lean_kind::<LBig>(),
    lean_kind::<LOpt>(), lean_kind::<LDrop>(), lean_kind::<LPage>(), lean_kind::<LBytes>(),
];

/// Tokens of all kinds, by kind.
pub type Toks = [Tok; N];

/// What an iteration delivered: the handle, if it came with one, and the tokens of the group.
pub type Rows = Vec<(Option<Entity>, Toks)>;

/// The eight ways to iterate with a group: bit 0 entities, bit 1 filtered, bit 2 exact.
pub const FORMS: usize = 6;

pub trait LeanGroup: ComponentGroup {
    const KINDS: &'static [u8];
    fn make(t: &Toks) -> Self;
    fn unmake(self, t: &mut Toks);
    fn refs(r: &Self::RefTuple<'_>, t: &mut Toks);
    fn mut_refs(r: &mut Self::MutRefTuple<'_>, t: &mut Toks, write: Option<&Toks>);
    fn len(s: &Self::SliceRefTuple<'_>) -> Option<usize>;
    fn len_mut(s: &Self::SliceMutRefTuple<'_>) -> Option<usize>;
    fn row(s: &Self::SliceRefTuple<'_>, i: usize, t: &mut Toks);
    fn row_mut(s: &mut Self::SliceMutRefTuple<'_>, i: usize, t: &mut Toks, write: Option<&Toks>);
}

impl<K: Lean> LeanGroup for K {
    const KINDS: &'static [u8] = &[K::I as u8];
    fn make(t: &Toks) -> Self {
        K::new(t[K::I])
    }
    fn unmake(self, t: &mut Toks) {
        t[K::I] = self.tok();
    }
    fn refs(r: &&K, t: &mut Toks) {
        t[K::I] = r.tok();
    }
    fn mut_refs(r: &mut &mut K, t: &mut Toks, write: Option<&Toks>) {
        t[K::I] = r.tok();
        if let Some(w) = write {
            r.set(w[K::I]);
        }
    }
    fn len(s: &&[K]) -> Option<usize> {
        Some(s.len())
    }
    fn len_mut(s: &&mut [K]) -> Option<usize> {
        Some(s.len())
    }
    fn row(s: &&[K], i: usize, t: &mut Toks) {
        t[K::I] = s[i].tok();
    }
    fn row_mut(s: &mut &mut [K], i: usize, t: &mut Toks, write: Option<&Toks>) {
        t[K::I] = s[i].tok();
        if let Some(w) = write {
            s[i].set(w[K::I]);
        }
    }
}

macro_rules! lean_tuple {
    ($(($t:ident, $i:tt)),*) => {
        impl<$($t: Lean),*> LeanGroup for ($($t),*) {
            const KINDS: &'static [u8] = &[$($t::I as u8),*];
            fn make(t: &Toks) -> Self {
                ($($t::new(t[$t::I])),*)
            }
            fn unmake(self, t: &mut Toks) {
                $(t[$t::I] = self.$i.tok();)*
            }
            fn refs(r: &Self::RefTuple<'_>, t: &mut Toks) {
                $(t[$t::I] = r.$i.tok();)*
            }
            fn mut_refs(r: &mut Self::MutRefTuple<'_>, t: &mut Toks, write: Option<&Toks>) {
                $(t[$t::I] = r.$i.tok();)*
                if let Some(w) = write {
                    $(r.$i.set(w[$t::I]);)*
                }
            }
            fn len(s: &Self::SliceRefTuple<'_>) -> Option<usize> {
                let l = [$(s.$i.len()),*];
                if l.iter().all(|x| *x == l[0]) { Some(l[0]) } else { None }
            }
            fn len_mut(s: &Self::SliceMutRefTuple<'_>) -> Option<usize> {
                let l = [$(s.$i.len()),*];
                if l.iter().all(|x| *x == l[0]) { Some(l[0]) } else { None }
            }
            fn row(s: &Self::SliceRefTuple<'_>, i: usize, t: &mut Toks) {
                $(t[$t::I] = s.$i[i].tok();)*
            }
            fn row_mut(s: &mut Self::SliceMutRefTuple<'_>, i: usize, t: &mut Toks, write: Option<&Toks>) {
                $(t[$t::I] = s.$i[i].tok();)*
                if let Some(w) = write {
                    $(s.$i[i].set(w[$t::I]);)*
                }
            }
        }
    };
}
lean_tuple!((A, 0), (B, 1));
lean_tuple!((A, 0), (B, 1), (C, 2));
lean_tuple!((A, 0), (B, 1), (C, 2), (D, 3));
lean_tuple!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4));
lean_tuple!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5));
lean_tuple!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6));
lean_tuple!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8));
lean_tuple!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8), (J, 9), (K, 10), (L, 11), (M, 12));
lean_tuple!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7), (I, 8), (J, 9), (K, 10), (L, 11), (M, 12), (O, 13));

type Pred<'a> = &'a (dyn Fn(&ArchetypeDescriptor) -> bool + Sync);

pub struct LeanGroupVt {
    pub kinds: &'static [u8],
    pub create: fn(&mut Registry, &Toks) -> Result<Entity, Toks>,
    pub remove: fn(&mut Registry, Entity) -> Option<Toks>,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<Toks>,
    pub get_mut: fn(&mut Registry, Entity, Option<&Toks>) -> Option<Toks>,
    /// Reads all rows. None: slices of different lengths.
    pub iter: fn(&Registry, usize, bool) -> Option<Rows>,
    /// Reads all rows with all slices of the whole iteration held at once, then writes to each.
    pub iter_mut: fn(&mut Registry, usize, bool, Option<&mut dyn FnMut(usize) -> Toks>) -> Option<Rows>,
}

impl LeanGroupVt {
    pub fn mask(&self) -> u32 {
        self.kinds.iter().fold(0, |m, k| m | 1 << k)
    }
    pub fn valid(&self) -> bool {
        self.mask().count_ones() as usize == self.kinds.len()
    }
}

const ENTS: [bool; FORMS] = [false, true, false, true, false, true];

fn rows<G: LeanGroup>(out: &mut Rows, e: Option<&[Entity]>, s: &G::SliceRefTuple<'_>) -> bool {
    let Some(n) = G::len(s) else { return false };
    if e.map_or(false, |e| e.len() != n) {
        return false;
    }
    for i in 0..n {
        let mut t = [0; N];
        G::row(s, i, &mut t);
        out.push((e.map(|e| e[i]), t));
    }
    true
}

fn iter<G: LeanGroup>(r: &Registry, form: usize, accept: bool) -> Option<Rows> {
    let mut out = Vec::new();
    let f = move |_: &ArchetypeDescriptor| accept;
    let ok = match form {
        0 => r.iter_components_matching::<G>().all(|s| rows::<G>(&mut out, None, &s)),
        1 => r.iter_entity_components_matching::<G>().all(|(e, s)| rows::<G>(&mut out, Some(e), &s)),
        2 => r.iter_filtered_components_matching::<G, _>(f).all(|s| rows::<G>(&mut out, None, &s)),
        3 => r.iter_filtered_entity_components_matching::<G, _>(f).all(|(e, s)| rows::<G>(&mut out, Some(e), &s)),
        4 => rows::<G>(&mut out, None, &r.iter_components_exact::<G>()),
        _ => {
            let (e, s) = r.iter_entity_components_exact::<G>();
            rows::<G>(&mut out, Some(e), &s)
        }
    };
    ok.then_some(out)
}

fn iter_mut<'r, G: LeanGroup>(r: &'r mut Registry, form: usize, accept: bool, write: Option<&mut dyn FnMut(usize) -> Toks>) -> Option<Rows> {
    let f = move |_: &ArchetypeDescriptor| accept;
    let mut items: Vec<(Option<&'r [Entity]>, G::SliceMutRefTuple<'r>)> = match form {
        0 => r.iter_components_matching_mut::<G>().map(|s| (None, s)).collect(),
        1 => r.iter_entity_components_matching_mut::<G>().map(|(e, s)| (Some(e), s)).collect(),
        2 => r.iter_filtered_components_matching_mut::<G, _>(f).map(|s| (None, s)).collect(),
        3 => r.iter_filtered_entity_components_matching_mut::<G, _>(f).map(|(e, s)| (Some(e), s)).collect(),
        4 => vec![(None, r.iter_components_exact_mut::<G>())],
        _ => {
            let (e, s) = r.iter_entity_components_exact_mut::<G>();
            vec![(Some(e), s)]
        }
    };
    let mut out = Vec::new();
    // All slices are alive at the same time here.
    for (e, s) in items.iter_mut() {
        let n = G::len_mut(s)?;
        if e.map_or(false, |e| e.len() != n) {
            return None;
        }
        for i in 0..n {
            let mut t = [0; N];
            G::row_mut(s, i, &mut t, None);
            out.push((e.map(|e| e[i]), t));
        }
    }
    if let Some(w) = write {
        let mut k = 0;
        for (_, s) in items.iter_mut() {
            for i in 0..G::len_mut(s).unwrap() {
                let mut t = [0; N];
                G::row_mut(s, i, &mut t, Some(&w(k)));
                k += 1;
            }
        }
    }
    Some(out)
}

pub const fn lean_group<G: LeanGroup>() -> LeanGroupVt {
    LeanGroupVt {
        kinds: G::KINDS,
        create: |r, t| {
            r.create_entity(G::make(t)).map_err(|g| {
                let mut t = [0; N];
                g.unmake(&mut t);
                t
            })
        },
        remove: |r, e| {
            r.remove_entity::<G>(e).map(|g| {
                let mut t = [0; N];
                g.unmake(&mut t);
                t
            })
        },
        has: |r, e| r.has_components::<G>(e),
        get: |r, e| {
            r.get_components::<G>(e).map(|g| {
                let mut t = [0; N];
                G::refs(&g, &mut t);
                t
            })
        },
        get_mut: |r, e, w| {
            r.get_components_mut::<G>(e).map(|mut g| {
                let mut t = [0; N];
                G::mut_refs(&mut g, &mut t, w);
                t
            })
        },
        iter: iter::<G>,
        iter_mut: iter_mut::<G>,
    }
}

pub static GROUPS: [LeanGroupVt; 34] = [
    lean_group::<L8>(), lean_group::<LStr>(), lean_group::<LMark>(), lean_group::<LMarkDrop>(), lean_group::<LPage>(), lean_group::<LBox>(),
    lean_group::<LDrop>(), lean_group::<LBytes>(),
    lean_group::<(L8, L16)>(), lean_group::<(L16, L8)>(), lean_group::<(LStr, LBox)>(), lean_group::<(LMark, LMarkDrop)>(),
    lean_group::<(LMarkAlign, L3)>(), lean_group::<(LWide, LPad)>(), lean_group::<(LDrop, LMarkDrop)>(), lean_group::<(LBytes, LOpt)>(),
    lean_group::<(L8, LStr, LWide)>(), lean_group::<(LWide, L8, LStr)>(), lean_group::<(LStr, LWide, L8)>(), lean_group::<(LMark, LBox, LMarkAlign)>(),
    lean_group::<(LArc, LBig, LDrop)>(), lean_group::<(L3, LPage, LMarkDrop)>(),
    lean_group::<(L8, L16, LWide, L3)>(), lean_group::<(LDrop, LMark, LBytes, LPad)>(),
    lean_group::<(LStr, LBox, LArc, LOpt, LDrop)>(), lean_group::<(LPad, L3, LWide, L16, L8, LMark)>(),
    lean_group::<(LDrop, LMarkDrop, LBytes, LStr, LMarkAlign, LBig, L16)>(),
    lean_group::<(L8, L16, LWide, L3, LPad, LStr, LBox, LArc, LMark)>(),
    lean_group::<(L8, L16, LWide, L3, LPad, LStr, LBox, LArc, LMark, LMarkDrop, LMarkAlign, LBig, LOpt)>(),
    lean_group::<(LBytes, LOpt, LDrop, LBig, LMarkAlign, LMarkDrop, LMark, LArc, LBox, LStr, LPad, L3, LWide, L16)>(),
    // Malformed.
    lean_group::<(L8, L8)>(), lean_group::<(LStr, LBox, LStr)>(), lean_group::<(LDrop, LDrop, LMark, L8)>(), lean_group::<(LMarkDrop, LMarkDrop)>(),
];

/// The model of one entity: its component set and their tokens.
#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub e: Entity,
    pub set: u32,
    pub t: Toks,
}

pub struct Model {
    pub reg: Registry,
    pub ents: Vec<Ent>,
    pub dead: Vec<Entity>,
    pub evals: u64,
    pub bad: Option<String>,
}

pub fn restrict(t: &Toks, set: u32) -> Toks {
    let mut o = [0; N];
    for k in 0..N {
        if set >> k & 1 == 1 && KINDS[k].holds {
            o[k] = t[k];
        }
    }
    o
}

impl Model {
    pub fn new() -> Model {
        Model { reg: Registry::default(), ents: Vec::new(), dead: Vec::new(), evals: 0, bad: None }
    }

    fn check(&mut self, ok: bool, what: impl FnOnce() -> String) {
        self.evals += 1;
        if !ok && self.bad.is_none() {
            self.bad = Some(what());
        }
    }

    /// All rows that an iteration has to deliver.
    pub fn expected(&self, g: &LeanGroupVt, form: usize, accept: bool) -> Vec<(u32, Toks)> {
        let m = g.mask();
        let filtered = form == 2 || form == 3;
        let mut v: Vec<(u32, Toks)> = self
            .ents
            .iter()
            .filter(|e| g.valid() && (!filtered || accept) && if form >= 4 { e.set == m } else { e.set & m == m })
            .map(|e| (if ENTS[form] { e.e.raw() } else { 0 }, restrict(&e.t, m)))
            .collect();
        v.sort_unstable();
        v
    }

    pub fn judge_rows(rows: &Option<Rows>, expected: &[(u32, Toks)]) -> bool {
        let Some(rows) = rows else { return false };
        let mut got: Vec<(u32, Toks)> = rows.iter().map(|(e, t)| (e.map_or(0, |e| e.raw()), *t)).collect();
        got.sort_unstable();
        got == expected
    }

    /// Reads that need no exclusive access. Usable by many threads.
    pub fn read(&self, r: &mut Rng) -> Result<u64, String> {
        match r.below(6) {
            0 => {
                let g = &GROUPS[r.index(GROUPS.len())];
                let (form, accept) = (r.index(FORMS), r.chance(3, 4));
                let rows = (g.iter)(&self.reg, form, accept);
                let want = self.expected(g, form, accept);
                if Self::judge_rows(&rows, &want) {
                    Ok(1 + want.len() as u64)
                } else {
                    Err(format!("iteration form {} with group {:?} yields {:?} instead of {:?}", form, g.kinds, rows, want))
                }
            }
            1 => {
                let mut got: Vec<u32> = self.reg.iter_entities().map(|e| e.raw()).collect();
                let mut want: Vec<u32> = self.ents.iter().map(|e| e.e.raw()).collect();
                got.sort_unstable();
                want.sort_unstable();
                if got == want {
                    Ok(1 + want.len() as u64)
                } else {
                    Err(format!("enumeration yields {:?} instead of {:?}", got, want))
                }
            }
            2 | 3 => {
                let k = &KINDS[r.index(N)];
                let (e, m) = self.pick(r);
                let want = m.filter(|m| m.set >> k.i & 1 == 1).map(|m| if k.holds { m.t[k.i] } else { 0 });
                let got = (k.get)(&self.reg, e);
                let has = (k.has)(&self.reg, e);
                if got == want && has == want.is_some() {
                    Ok(2)
                } else {
                    Err(format!("component {} of {:?}: {:?}, presence {} instead of {:?}", k.i, e, got, has, want))
                }
            }
            _ => {
                let g = &GROUPS[r.index(GROUPS.len())];
                let (e, m) = self.pick(r);
                let want = m.filter(|m| g.valid() && m.set & g.mask() == g.mask()).map(|m| restrict(&m.t, g.mask()));
                let got = (g.get)(&self.reg, e);
                let has = (g.has)(&self.reg, e);
                if got == want && has == want.is_some() {
                    Ok(2)
                } else {
                    Err(format!("group {:?} of {:?}: {:?}, presence {} instead of {:?}", g.kinds, e, got, has, want))
                }
            }
        }
    }

    /// A handle, mostly live, and what the model knows about it.
    fn pick(&self, r: &mut Rng) -> (Entity, Option<&Ent>) {
        if !self.dead.is_empty() && r.chance(1, 8) {
            return (self.dead[r.index(self.dead.len())], None);
        }
        if self.ents.is_empty() || r.chance(1, 20) {
            return (Entity::default(), None);
        }
        let m = &self.ents[r.index(self.ents.len())];
        (m.e, Some(m))
    }

    fn at(&self, e: Entity) -> Option<usize> {
        self.ents.iter().position(|m| m.e == e)
    }

    fn died(&mut self, i: usize) {
        let m = self.ents.swap_remove(i);
        if self.dead.len() < 32 {
            self.dead.push(m.e);
        }
    }

    pub fn create(&mut self, g: &LeanGroupVt, r: &mut Rng) {
        let t = toks(r);
        let got = (g.create)(&mut self.reg, &t);
        match got {
            Ok(e) => {
                let fresh = g.valid() && self.at(e).is_none();
                self.check(fresh, || format!("creation with {:?} returned {:?}", g.kinds, e));
                self.dead.retain(|d| *d != e);
                self.ents.push(Ent { e, set: g.mask(), t: restrict(&t, g.mask()) });
            }
            // In a malformed group the last of equal members decides what is read back.
            Err(b) => self.check(!g.valid() && b == restrict(&t, g.mask()), || format!("creation with {:?} refused, handing back {:?}", g.kinds, b)),
        }
    }

    /// One random operation.
    pub fn step(&mut self, r: &mut Rng, max_live: usize) {
        match r.below(22) {
            0..=3 if self.ents.len() < max_live => {
                let g = &GROUPS[r.index(GROUPS.len())];
                self.create(g, r);
            }
            4 | 5 => {
                let (e, m) = self.pick(r);
                let want = m.is_some();
                let got = self.reg.destroy_entity(e);
                self.check(got == want, || format!("destroying {:?}: {}", e, got));
                if let Some(i) = self.at(e) {
                    self.died(i);
                }
            }
            6 => {
                let (e, m) = self.pick(r);
                let set = m.map_or(0, |m| m.set);
                let exact: Vec<usize> = (0..GROUPS.len()).filter(|g| GROUPS[*g].mask() == set && GROUPS[*g].valid()).collect();
                let g = if exact.is_empty() || r.chance(1, 3) { &GROUPS[r.index(GROUPS.len())] } else { &GROUPS[exact[r.index(exact.len())]] };
                let want = m.filter(|m| g.valid() && m.set == g.mask()).map(|m| m.t);
                let got = (g.remove)(&mut self.reg, e);
                self.check(got == want, || format!("removing {:?} as {:?}: {:?} instead of {:?}", e, g.kinds, got, want));
                if want.is_some() {
                    let i = self.at(e).unwrap();
                    self.died(i);
                }
            }
            7..=9 => {
                let k = &KINDS[r.index(N)];
                let (e, m) = self.pick(r);
                let ok = m.map_or(false, |m| m.set >> k.i & 1 == 0 && m.set.count_ones() < 14);
                let t = r.below(256) as u8;
                let t = if k.holds { t } else { 0 };
                let got = (k.add)(&mut self.reg, e, t);
                self.check(got == if ok { Ok(()) } else { Err(t) }, || format!("adding {} to {:?}: {:?}", k.i, e, got));
                if ok {
                    let i = self.at(e).unwrap();
                    self.ents[i].set |= 1 << k.i;
                    self.ents[i].t[k.i] = t;
                }
            }
            10..=12 => {
                let (e, m) = self.pick(r);
                let have: Vec<usize> = m.map_or(Vec::new(), |m| (0..N).filter(|k| m.set >> k & 1 == 1).collect());
                let k = if have.is_empty() || r.chance(1, 4) { r.index(N) } else { have[r.index(have.len())] };
                let want = m.filter(|m| m.set >> k & 1 == 1 && m.set.count_ones() > 1).map(|m| m.t[k]);
                let got = (KINDS[k].remove)(&mut self.reg, e);
                self.check(got == want, || format!("removing {} of {:?}: {:?} instead of {:?}", k, e, got, want));
                if want.is_some() {
                    let i = self.at(e).unwrap();
                    self.ents[i].set &= !(1 << k);
                    self.ents[i].t[k] = 0;
                }
            }
            13 => {
                let (e, m) = self.pick(r);
                let k = &KINDS[r.index(N)];
                let want = m.filter(|m| m.set >> k.i & 1 == 1).map(|m| m.t[k.i]);
                let t = if k.holds { r.below(256) as u8 } else { 0 };
                let got = (k.get_mut)(&mut self.reg, e, Some(t));
                self.check(got == want, || format!("mutable access to {} of {:?}: {:?} instead of {:?}", k.i, e, got, want));
                if want.is_some() {
                    let i = self.at(e).unwrap();
                    self.ents[i].t[k.i] = t;
                }
            }
            14 => {
                let (e, m) = self.pick(r);
                let g = &GROUPS[r.index(GROUPS.len())];
                let want = m.filter(|m| g.valid() && m.set & g.mask() == g.mask()).map(|m| restrict(&m.t, g.mask()));
                let t = toks(r);
                let got = (g.get_mut)(&mut self.reg, e, Some(&t));
                self.check(got == want, || format!("mutable access to {:?} of {:?}: {:?} instead of {:?}", g.kinds, e, got, want));
                if want.is_some() {
                    let i = self.at(e).unwrap();
                    self.write(i, g.mask(), &t);
                }
            }
            15 | 16 => {
                let g = &GROUPS[r.index(GROUPS.len())];
                let (form, accept) = (r.index(FORMS), r.chance(3, 4));
                let want = self.expected(g, form, accept);
                let mut written: Vec<Toks> = Vec::new();
                // Only forms with handles tell where a write went.
                let writes = ENTS[form] && r.chance(2, 3);
                let rows = if writes {
                    let mut f = |_| {
                        let t = toks(r);
                        written.push(t);
                        t
                    };
                    (g.iter_mut)(&mut self.reg, form, accept, Some(&mut f))
                } else {
                    (g.iter_mut)(&mut self.reg, form, accept, None)
                };
                let ok = Self::judge_rows(&rows, &want);
                self.check(ok, || format!("mutable iteration form {} with group {:?} yields {:?} instead of {:?}", form, g.kinds, rows, want));
                for (t, (e, _)) in written.iter().zip(rows.iter().flatten()) {
                    if let Some(i) = self.at(e.unwrap()) {
                        self.write(i, g.mask(), t);
                    }
                }
            }
            _ => match self.read(r) {
                Ok(n) => self.evals += n,
                Err(e) => self.check(false, || e),
            },
        }
    }

    fn write(&mut self, i: usize, mask: u32, t: &Toks) {
        let t = restrict(t, mask);
        for k in 0..N {
            if mask >> k & 1 == 1 {
                self.ents[i].t[k] = t[k];
            }
        }
    }

    /// Fills one component set until its storage has to grow.
    pub fn grow(&mut self, r: &mut Rng, rows: usize) {
        let g = loop {
            let g = &GROUPS[r.index(GROUPS.len())];
            if g.valid() && g.kinds.len() < 5 {
                break g;
            }
        };
        for _ in 0..rows {
            self.create(g, r);
        }
    }

    /// Every component of every entity.
    pub fn check_all(&mut self) {
        for i in 0..self.ents.len() {
            let m = self.ents[i].clone();
            for k in 0..N {
                let want = (m.set >> k & 1 == 1).then_some(m.t[k]);
                let got = (KINDS[k].get)(&self.reg, m.e);
                self.check(got == want, || format!("component {} of {:?} is {:?} instead of {:?}", k, m.e, got, want));
            }
        }
    }
}

pub fn toks(r: &mut Rng) -> Toks {
    let a = (r.next() as u128) << 64 | r.next() as u128;
    a.to_le_bytes()
}
