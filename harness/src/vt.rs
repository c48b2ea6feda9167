//! Type-erased access: one table of operations per kind and one per component group.

use crate::alloc::{host, sut};
use crate::groups::ZooGroup;
use crate::kinds::*;
use crate::report::{p, violation};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::{Entity, Registry};

/// What a read observed: the token, or CORRUPT.
pub type Obs = u64;

#[derive(Clone, Copy)]
pub struct KindVt {
    pub idx: usize,
    pub tag: &'static str,
    pub id: u16,
    pub mask: u64,
    pub drops: bool,
    pub size: usize,
    pub align: usize,
    /// Err: handed back.
    pub add: fn(&mut Registry, Entity, u64) -> Result<(), Obs>,
    pub remove: fn(&mut Registry, Entity) -> Option<Obs>,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<Obs>,
    /// Observation through the mutable reference; if a token is given, it is then written.
    pub get_mut: fn(&mut Registry, Entity, Option<(u64, bool)>) -> Option<Obs>,
    pub read_at: unsafe fn(*const u8, usize) -> Obs,
    pub explain_at: unsafe fn(*const u8, usize) -> String,
    pub write_at: unsafe fn(*mut u8, usize, u64, bool),
    pub swap_at: unsafe fn(*mut u8, usize, usize),
    pub desc_has: fn(&ArchetypeDescriptor) -> bool,
}

fn check_ref<K: Kind>(r: *const K, what: &str) {
    if (r as usize) % core::mem::align_of::<K>() != 0 || r.is_null() {
        violation(p(7) | p(1), format!("{}: misaligned or null reference {:p} to {}", what, r, K::TAG));
    }
}

pub fn store<K: Kind>(r: &mut K, token: u64, overwrite: bool) {
    if overwrite {
        *r = K::make(token);
    } else {
        r.rewrite(token);
    }
}

/// Consumes a value that came back from the registry. Its destructor is the caller's doing.
pub fn consume<K: Kind>(v: K) -> Obs {
    let o = v.obs();
    drop(v);
    o
}

pub fn kind_vt<K: Kind>() -> KindVt {
    KindVt {
        idx: K::IDX,
        tag: K::TAG,
        id: K::ID.into_u16(),
        mask: K::MASK,
        drops: K::DROPS,
        size: core::mem::size_of::<K>(),
        align: core::mem::align_of::<K>(),
        add: |r, e, t| {
            let v = K::make(t);
            match sut(|| r.add_component::<K>(e, v)) {
                Ok(()) => Ok(()),
                Err(v) => Err(returned(v)),
            }
        },
        remove: |r, e| sut(|| r.remove_component::<K>(e)).ok().map(returned),
        has: |r, e| sut(|| r.has_component::<K>(e)),
        get: |r, e| {
            sut(|| r.get_component::<K>(e)).map(|v| {
                check_ref(v, "get_component");
                v.obs()
            })
        },
        get_mut: |r, e, w| {
            sut(|| r.get_component_mut::<K>(e)).map(|v| {
                check_ref(v, "get_component_mut");
                let o = v.obs();
                if let Some((t, overwrite)) = w {
                    store(v, t, overwrite);
                }
                o
            })
        },
        read_at: |p, i| unsafe { (*(p as *const K).add(i)).obs() },
        explain_at: |p, i| unsafe {
            match (*(p as *const K).add(i)).read() {
                Ok(t) => format!("token {}", t),
                Err(e) => e,
            }
        },
        write_at: |p, i, t, o| unsafe { store(&mut *(p as *mut K).add(i), t, o) },
        swap_at: |p, i, j| unsafe {
            if i != j {
                core::mem::swap(&mut *(p as *mut K).add(i), &mut *(p as *mut K).add(j))
            }
        },
        desc_has: |d| d.has_component::<K>(),
    }
}

/// A value that the registry returned: note its token, drop it without a trace in the drop log.
pub fn returned<K: Kind>(v: K) -> Obs {
    let before = crate::ledger::take_log();
    let o = consume(v);
    let _ = crate::ledger::take_log();
    crate::ledger::restore_log(before);
    o
}

/// One column of an iteration item, or a reference seen as a column of length one.
#[derive(Clone, Copy, Debug)]
pub struct Col {
    pub kind: u8,
    pub ptr: *mut u8,
    pub len: usize,
}

pub struct Item {
    pub ents: Option<(*const Entity, usize)>,
    pub cols: Vec<Col>,
}

pub type Filter<'a> = &'a dyn Fn(&ArchetypeDescriptor) -> bool;

pub const FORMS: [&str; 6] = [
    "matching",
    "entity matching",
    "filtered",
    "entity filtered",
    "exact",
    "entity exact",
];

/// How often an exhausted iterator is asked again.
const PAST_END: usize = 3;
/// Upper bound on items of one iteration, so a broken iterator ends.
pub const MAX_ITEMS: usize = 70_000;

#[derive(Clone, Copy)]
pub struct GroupVt {
    pub kinds: &'static [u8],
    pub set: u32,
    pub valid: bool,
    pub name: &'static str,
    pub create: fn(&mut Registry, &[u64]) -> Result<Entity, Vec<Obs>>,
    pub remove: fn(&mut Registry, Entity) -> Option<Vec<Obs>>,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity, &mut dyn FnMut(&[Col])) -> bool,
    pub get_mut: fn(&mut Registry, Entity, &mut dyn FnMut(&[Col])) -> bool,
    /// Calls back with all items at once, returns how often an exhausted iterator yielded again.
    pub iter: fn(&Registry, usize, Filter, &mut dyn FnMut(&[Item])) -> usize,
    pub iter_mut: fn(&mut Registry, usize, Filter, &mut dyn FnMut(&[Item])) -> usize,
    pub desc_contains: fn(&ArchetypeDescriptor) -> bool,
    pub desc_excludes: fn(&ArchetypeDescriptor) -> bool,
}

/// Faults in the protocol of an iterator, as bits of the number returned by `iter` and `iter_mut`.
pub const BAD_HINT: usize = 1 << 40;
pub const BAD_COUNT: usize = 1 << 41;

/// How an iterator is consumed: `form` is `style * FORM_STYLE + form`.
pub const FORM_STYLE: usize = 8;
pub const STYLES: usize = 8;

/// Consumes an iterator in one of several ways, `ahead` is what `measure` found out before.
fn drain<T>(style: usize, ahead: Option<usize>, mut it: impl Iterator<Item = T>, mut f: impl FnMut(T)) -> usize {
    let mut n = 0;
    let differs = |n: usize| ahead.is_some_and(|a| if style == 6 { a / 2 != n / 2 } else { a != n });
    let mut hints: Vec<(usize, Option<usize>)> = Vec::new();
    match style {
        // Internal iteration.
        2 => {
            if let Some(v) = sut(|| it.next()) {
                f(v);
                n += 1;
            }
            let mut endless = false;
            sut(|| it.by_ref().try_for_each(|v| host(|| {
                f(v);
                n += 1;
                endless = n > MAX_ITEMS;
                if endless { Err(()) } else { Ok(()) }
            }))).ok();
            if endless {
                return usize::MAX;
            }
        }
        // A mixture of everything.
        3 => loop {
            let v = match n % 3 {
                0 => sut(|| it.nth(0)),
                1 => sut(|| it.by_ref().take(1).last()),
                _ => sut(|| it.find(|_| true)),
            };
            match v {
                Some(v) => f(v),
                None => break,
            }
            n += 1;
            if n > MAX_ITEMS {
                return usize::MAX;
            }
        },
        // As a whole, nothing is left.
        4 => {
            sut(|| it.for_each(|v| host(|| {
                n += 1;
                if n <= MAX_ITEMS {
                    f(v);
                }
            })));
            return if n > MAX_ITEMS { usize::MAX } else if differs(n) { BAD_COUNT } else { 0 };
        }
        // One by one, with or without looking at the hint.
        _ => loop {
            if style == 1 {
                hints.push(sut(|| it.size_hint()));
            }
            match sut(|| it.next()) {
                Some(v) => f(v),
                None => break,
            }
            n += 1;
            if n > MAX_ITEMS {
                return usize::MAX;
            }
        },
    }
    let mut again = 0;
    // At times long enough for a counter of eight bits to come round.
    for _ in 0..if style == 5 { 600 } else { PAST_END } {
        if sut(|| it.next()).is_some() {
            again += 1;
        }
    }
    for (i, (low, high)) in hints.iter().enumerate() {
        if *low > n - i || high.is_some_and(|h| h < n - i) {
            again |= BAD_HINT;
        }
    }
    if differs(n) {
        again |= BAD_COUNT;
    }
    again
}

/// Counts the items of an iterator without looking at them, in some styles.
fn measure<I: Iterator>(style: usize, mut it: I) -> Option<usize> {
    match style {
        4 | 5 => Some(sut(|| it.take(MAX_ITEMS + 1).count())),
        6 => {
            // Skipping reaches just as many.
            let mut n = 0;
            while n <= MAX_ITEMS && sut(|| it.nth(1)).is_some() {
                n += 2;
            }
            drop(it);
            Some(n)
        }
        7 => {
            let n = sut(|| it.by_ref().count());
            Some(if sut(|| it.next()).is_some() { usize::MAX } else { n })
        }
        _ => None,
    }
}

/// Only for some of the groups: an iterator hardly knows what group it is for, and this is a lot of code.
const fn in_all_styles(kinds: &[u8]) -> bool {
    let (mut i, mut sum) = (0, kinds.len());
    while i < kinds.len() {
        sum += kinds[i] as usize;
        i += 1;
    }
    sum % 9 == 4
}

fn walk<G: ZooGroup, T>(style: usize, ahead: Option<usize>, it: impl Iterator<Item = T>, f: impl FnMut(T)) -> usize {
    if const { in_all_styles(G::KINDS) } {
        drain(style, ahead, it, f)
    } else {
        one_by_one(it, f)
    }
}

macro_rules! ahead {
    ($g:ty, $style:expr, $it:expr) => {
        if const { in_all_styles(<$g>::KINDS) } {
            measure($style, sut(|| $it))
        } else {
            None
        }
    };
}

fn one_by_one<T>(mut it: impl Iterator<Item = T>, mut f: impl FnMut(T)) -> usize {
    let mut n = 0;
    while let Some(v) = sut(|| it.next()) {
        f(v);
        n += 1;
        if n > MAX_ITEMS {
            return usize::MAX;
        }
    }
    (0..PAST_END).filter(|_| sut(|| it.next()).is_some()).count()
}

fn ents(e: &[Entity]) -> Option<(*const Entity, usize)> {
    Some((e.as_ptr(), e.len()))
}

fn iter_impl<G: ZooGroup>(r: &Registry, form: usize, filter: Filter, cb: &mut dyn FnMut(&[Item])) -> usize {
    // The filter type has to outlive the registry borrow; it is only called during this function.
    let filter: &'static dyn Fn(&ArchetypeDescriptor) -> bool = unsafe { core::mem::transmute(filter) };
    let f = move |d: &ArchetypeDescriptor| host(|| filter(d));
    let mut items: Vec<Item> = Vec::new();
    let (style, form) = (form / FORM_STYLE, form % FORM_STYLE);
    let ahead = match form {
        0 => ahead!(G, style, r.iter_components_matching::<G>()),
        1 => ahead!(G, style, r.iter_entity_components_matching::<G>()),
        2 => ahead!(G, style, r.iter_filtered_components_matching::<G, _>(&f)),
        3 => ahead!(G, style, r.iter_filtered_entity_components_matching::<G, _>(&f)),
        _ => None,
    };
    let again = match form {
        0 => walk::<G, _>(style, ahead, sut(|| r.iter_components_matching::<G>()), |s| {
            items.push(Item { ents: None, cols: G::slice_cols(s) })
        }),
        1 => walk::<G, _>(style, ahead, sut(|| r.iter_entity_components_matching::<G>()), |(e, s)| {
            items.push(Item { ents: ents(e), cols: G::slice_cols(s) })
        }),
        2 => walk::<G, _>(style, ahead, sut(|| r.iter_filtered_components_matching::<G, _>(f)), |s| {
            items.push(Item { ents: None, cols: G::slice_cols(s) })
        }),
        3 => walk::<G, _>(style, ahead, sut(|| r.iter_filtered_entity_components_matching::<G, _>(f)), |(e, s)| {
            items.push(Item { ents: ents(e), cols: G::slice_cols(s) })
        }),
        4 => {
            items.push(Item { ents: None, cols: G::slice_cols(sut(|| r.iter_components_exact::<G>())) });
            0
        }
        _ => {
            let (e, s) = sut(|| r.iter_entity_components_exact::<G>());
            items.push(Item { ents: ents(e), cols: G::slice_cols(s) });
            0
        }
    };
    cb(&items);
    again
}

fn iter_mut_impl<G: ZooGroup>(r: &mut Registry, form: usize, filter: Filter, cb: &mut dyn FnMut(&[Item])) -> usize {
    let filter: &'static dyn Fn(&ArchetypeDescriptor) -> bool = unsafe { core::mem::transmute(filter) };
    let f = move |d: &ArchetypeDescriptor| host(|| filter(d));
    let mut items: Vec<Item> = Vec::new();
    let (style, form) = (form / FORM_STYLE, form % FORM_STYLE);
    let ahead = match form {
        0 => ahead!(G, style, r.iter_components_matching_mut::<G>()),
        1 => ahead!(G, style, r.iter_entity_components_matching_mut::<G>()),
        2 => ahead!(G, style, r.iter_filtered_components_matching_mut::<G, _>(&f)),
        3 => ahead!(G, style, r.iter_filtered_entity_components_matching_mut::<G, _>(&f)),
        _ => None,
    };
    let again = match form {
        0 => walk::<G, _>(style, ahead, sut(|| r.iter_components_matching_mut::<G>()), |s| {
            items.push(Item { ents: None, cols: G::slice_mut_cols(s) })
        }),
        1 => walk::<G, _>(style, ahead, sut(|| r.iter_entity_components_matching_mut::<G>()), |(e, s)| {
            items.push(Item { ents: ents(e), cols: G::slice_mut_cols(s) })
        }),
        2 => walk::<G, _>(style, ahead, sut(|| r.iter_filtered_components_matching_mut::<G, _>(f)), |s| {
            items.push(Item { ents: None, cols: G::slice_mut_cols(s) })
        }),
        3 => walk::<G, _>(style, ahead, sut(|| r.iter_filtered_entity_components_matching_mut::<G, _>(f)), |(e, s)| {
            items.push(Item { ents: ents(e), cols: G::slice_mut_cols(s) })
        }),
        4 => {
            items.push(Item { ents: None, cols: G::slice_mut_cols(sut(|| r.iter_components_exact_mut::<G>())) });
            0
        }
        _ => {
            let (e, s) = sut(|| r.iter_entity_components_exact_mut::<G>());
            items.push(Item { ents: ents(e), cols: G::slice_mut_cols(s) });
            0
        }
    };
    cb(&items);
    again
}

pub fn group_vt<G: ZooGroup>(name: &'static str) -> GroupVt {
    let kinds = G::KINDS;
    let mut set = 0u32;
    let mut valid = true;
    for k in kinds {
        valid &= set & (1 << k) == 0;
        set |= 1 << k;
    }
    GroupVt {
        kinds,
        set,
        valid,
        name,
        create: |r, t| {
            let g = G::from_tokens(t);
            match sut(|| r.create_entity::<G>(g)) {
                Ok(e) => Ok(e),
                Err(g) => Err(g.into_obs()),
            }
        },
        remove: |r, e| sut(|| r.remove_entity::<G>(e)).map(|g| g.into_obs()),
        has: |r, e| sut(|| r.has_components::<G>(e)),
        get: |r, e, f| match sut(|| r.get_components::<G>(e)) {
            None => false,
            Some(v) => {
                f(&G::ref_cols(v));
                true
            }
        },
        get_mut: |r, e, f| match sut(|| r.get_components_mut::<G>(e)) {
            None => false,
            Some(v) => {
                f(&G::mut_ref_cols(v));
                true
            }
        },
        iter: iter_impl::<G>,
        iter_mut: iter_mut_impl::<G>,
        desc_contains: |d| d.contains_subset(G::DESCRIPTOR.archetype()),
        desc_excludes: |d| d.excludes_subset(G::DESCRIPTOR.archetype()),
    }
}
