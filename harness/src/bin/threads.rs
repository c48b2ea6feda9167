//! C14: readers of one registry, writers of its slices, registries on different threads.
//! Judged by values here, and by ThreadSanitizer or Miri where built for them.
use harness::lean::*;
use harness::prng::{mix, Rng};
use harness::report::{p, violation};
use harness::runner::{self, Ctx, Scale};
use shard_ecs::{Component, Entity, Registry};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Barrier, Mutex};

struct Plan {
    threads: usize,
    steps: u64,
    reads: u64,
    live: usize,
}

fn plan(c: &Ctx, r: &mut Rng) -> Plan {
    match c.scale {
        Scale::Tiny => Plan { threads: 2 + r.index(2), steps: 16, reads: 10, live: 5 },
        _ => Plan { threads: 2 + r.index(5), steps: 20 + r.below(120), reads: 30 + r.below(200), live: 3 + r.index(40) },
    }
}

fn fail(s: String) {
    violation(p(14), s);
}

fn world(r: &mut Rng, pl: &Plan) -> Model {
    let mut m = Model::new();
    for _ in 0..pl.steps {
        m.step(r, pl.live);
    }
    m
}

/// Delays that spread the threads over each other.
fn jitter(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => (0..r.below(200)).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{}: panic: {}", what, runner::panic_text(&e)))
}

/// Any number of threads read one registry.
fn readers(c: &mut Ctx, r: &mut Rng) {
    let pl = plan(c, r);
    let m = world(r, &pl);
    if m.bad.is_some() {
        return foreign(m.bad);
    }
    let start = Barrier::new(pl.threads);
    let seeds: Vec<u64> = (0..pl.threads).map(|i| if i == 1 && r.chance(1, 2) { 7 } else { r.next() }).collect();
    let evals = AtomicU64::new(0);
    let errors = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for seed in &seeds {
            let (m, start, evals, errors) = (&m, &start, &evals, &errors);
            s.spawn(move || {
                let mut r = Rng::new(*seed);
                let v = guard("reader", || {
                    start.wait();
                    let mut n = 0;
                    for _ in 0..pl.reads {
                        jitter(&mut r);
                        n += m.read(&mut r)?;
                    }
                    Ok::<u64, String>(n)
                });
                match v {
                    Ok(Ok(n)) => {
                        evals.fetch_add(n, Ordering::Relaxed);
                    }
                    Ok(Err(e)) | Err(e) => errors.lock().unwrap().push(e),
                }
            });
        }
    });
    c.evals += evals.into_inner();
    let errors = errors.into_inner().unwrap();
    if let Some(e) = errors.first() {
        // What a single thread sees decides whether this is about concurrency.
        let alone = seeds.iter().all(|s| {
            let mut r = Rng::new(*s);
            guard("reader", || (0..pl.reads).all(|_| { jitter(&mut r); m.read(&mut r).is_ok() })).unwrap_or(false)
        });
        if alone {
            fail(format!("{} threads reading one registry: {}", pl.threads, e));
        } else {
            violation(p(1), e.clone());
        }
    }
    let mut m = m;
    m.check_all();
    if let Some(b) = m.bad.take() {
        fail(format!("after {} threads read the registry: {}", pl.threads, b));
    }
    c.eval(mix(pl.threads as u64) ^ m.ents.len() as u64);
    c.count("reader_threads", pl.threads as u64);
}

fn foreign(b: Option<String>) {
    violation(p(1), b.unwrap_or_default());
}

/// The token that a parallel writer stores.
fn written(salt: u64, e: Entity, k: usize) -> Tok {
    if KINDS[k].holds { mix(salt ^ (e.raw() as u64) << 8 ^ k as u64) as u8 } else { 0 }
}

/// Slices of one mutable iteration are handed to different threads.
macro_rules! par_write {
    ($name:ident, ($($t:ident $v:ident),*)) => {
        fn $name(reg: &mut Registry, threads: usize, split: bool, filtered: bool, salt: u64) -> Result<Vec<Entity>, String> {
            type G = ($($t),*);
            let items: Vec<(&[Entity], ($(&mut [$t]),*))> = if filtered {
                reg.iter_filtered_entity_components_matching_mut::<G, _>(|_| true).collect()
            } else {
                reg.iter_entity_components_matching_mut::<G>().collect()
            };
            let mut work: Vec<(&[Entity], ($(&mut [$t]),*))> = Vec::new();
            for (e, ($($v),*)) in items {
                if split {
                    let n = e.len() / 2;
                    let (e1, e2) = e.split_at(n);
                    $(let $v = $v.split_at_mut(n);)*
                    work.push((e1, ($($v.0),*)));
                    work.push((e2, ($($v.1),*)));
                } else {
                    work.push((e, ($($v),*)));
                }
            }
            let seen: Vec<Entity> = work.iter().flat_map(|(e, _)| e.iter().copied()).collect();
            let mut lanes: Vec<Vec<(&[Entity], ($(&mut [$t]),*))>> = (0..threads).map(|_| Vec::new()).collect();
            for (i, w) in work.into_iter().enumerate() {
                lanes[i % threads].push(w);
            }
            let start = Barrier::new(threads);
            let mut out = Ok(seen);
            std::thread::scope(|s| {
                let start = &start;
                let hs: Vec<_> = lanes.into_iter().map(|lane| s.spawn(move || guard("writer", move || {
                    start.wait();
                    for (e, ($($v),*)) in lane {
                        for (i, e) in e.iter().enumerate() {
                            $( let _ = $v[i].tok(); $v[i].set(written(salt, *e, $t::I)); )*
                        }
                    }
                }))).collect();
                for h in hs {
                    if let Err(e) = h.join().unwrap_or_else(|_| Err("writer died".into())) {
                        out = Err(e);
                    }
                }
            });
            out
        }
    };
}
par_write!(par_a, (L8 a, LStr b));
par_write!(par_b, (LDrop a, LMark b, LBytes c, LPad d));
par_write!(par_c, (LWide a, L8 b, LStr c));
par_write!(par_d, (LBox a, LMarkDrop b));

fn writers(c: &mut Ctx, r: &mut Rng) {
    let pl = plan(c, r);
    let mut m = world(r, &pl);
    if m.bad.is_some() {
        return foreign(m.bad);
    }
    type Par = fn(&mut Registry, usize, bool, bool, u64) -> Result<Vec<Entity>, String>;
    let all: [(Par, &[usize]); 4] = [(par_a, &[0, 5]), (par_b, &[13, 8, 15, 4]), (par_c, &[2, 0, 5]), (par_d, &[6, 9])];
    for _ in 0..3 {
        let (f, kinds) = all[r.index(4)];
        // Enough rows to share out.
        let mut extra = vec![0u32; 0];
        for _ in 0..3 + r.index(6) {
            let k = r.index(N);
            let mask = kinds.iter().fold(1 << k, |a, k| a | 1u32 << k);
            extra.push(mask);
        }
        for mask in extra {
            let i = m.ents.len();
            m.create(&GROUPS[0], r);
            if m.bad.is_some() {
                return foreign(m.bad);
            }
            for k in 1..N {
                if mask >> k & 1 == 1 {
                    let e = m.ents[i].e;
                    let t = if KINDS[k].holds { r.below(256) as u8 } else { 0 };
                    if (KINDS[k].add)(&mut m.reg, e, t).is_ok() {
                        m.ents[i].set |= 1 << k;
                        m.ents[i].t[k] = t;
                    }
                }
            }
        }
        let salt = r.next();
        let seen = match f(&mut m.reg, pl.threads, r.chance(1, 2), r.chance(1, 2), salt) {
            Ok(s) => s,
            Err(e) => return fail(format!("writing slices on {} threads: {}", pl.threads, e)),
        };
        let mask = kinds.iter().fold(0, |a, k| a | 1u32 << k);
        let matching = m.ents.iter().filter(|x| x.set & mask == mask).count();
        if seen.len() != matching {
            return foreign(Some(format!("{} rows instead of {}", seen.len(), matching)));
        }
        for x in m.ents.iter_mut().filter(|x| x.set & mask == mask) {
            for k in kinds {
                x.t[*k] = written(salt, x.e, *k);
            }
        }
        c.count("rows_written", seen.len() as u64);
        c.evals += seen.len() as u64 * kinds.len() as u64;
        m.check_all();
        if let Some(b) = m.bad.take() {
            return fail(format!("after {} threads wrote to different slices: {}", pl.threads, b));
        }
        c.eval(mix(pl.threads as u64 ^ 0x5A) ^ mask as u64 ^ (seen.len() as u64) << 32);
    }
    c.count("writer_threads", pl.threads as u64);
}

fn digest(m: &Model) -> Vec<Ent> {
    m.ents.clone()
}

/// The same history gives the same result alone and next to other registries.
fn independent(c: &mut Ctx, r: &mut Rng) {
    let pl = plan(c, r);
    let seeds: Vec<u64> = (0..pl.threads).map(|_| r.next()).collect();
    let run = |seed: u64, noise: bool| {
        let mut r = Rng::new(seed);
        let mut d = Rng::new(seed ^ 1);
        let mut m = Model::new();
        for _ in 0..pl.steps {
            if noise {
                jitter(&mut d);
            }
            m.step(&mut r, pl.live);
        }
        m.check_all();
        (digest(&m), m.bad.take(), m.evals)
    };
    let mut alone = Vec::new();
    for s in &seeds {
        match guard("alone", || run(*s, false)) {
            Ok((d, None, _)) => alone.push(d),
            Ok((_, Some(b), _)) => return foreign(Some(b)),
            Err(e) => return foreign(Some(e)),
        }
    }
    let start = Barrier::new(pl.threads);
    std::thread::scope(|s| {
        let start = &start;
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                s.spawn(move || {
                    start.wait();
                    guard("registry of its own", || run(*seed, true))
                })
            })
            .collect();
        for (h, want) in hs.into_iter().zip(&alone) {
            match h.join().unwrap_or_else(|_| Err("thread died".into())) {
                Ok((got, bad, n)) => {
                    c.evals += n;
                    if let Some(b) = bad {
                        fail(format!("{} registries on {} threads: {}", pl.threads, pl.threads, b));
                    } else if got != *want {
                        fail(format!("a registry ends in {:?}, with others at work in {:?}", want, got));
                    }
                }
                Err(e) => fail(format!("{} registries on {} threads: {}", pl.threads, pl.threads, e)),
            }
        }
    });
    c.eval(mix(0x11 ^ pl.threads as u64) ^ alone.iter().map(|a| a.len() as u64).sum::<u64>());
    c.count("independent_registries", pl.threads as u64);
}

/// Several registries take turns on one thread; each must go on as if alone.
fn interleaved(c: &mut Ctx, r: &mut Rng) {
    let pl = plan(c, r);
    let seeds: Vec<u64> = (0..2 + r.index(3)).map(|_| r.next()).collect();
    let mut alone = Vec::new();
    for s in &seeds {
        let mut rr = Rng::new(*s);
        let mut m = Model::new();
        let v = guard("alone", || (0..pl.steps).for_each(|_| m.step(&mut rr, pl.live)));
        if v.is_err() || m.bad.is_some() {
            return foreign(m.bad);
        }
        alone.push(digest(&m));
    }
    let mut ms: Vec<(Rng, Model, u64)> = seeds.iter().map(|s| (Rng::new(*s), Model::new(), 0)).collect();
    let v = guard("turns", || {
        while ms.iter().any(|m| m.2 < pl.steps) {
            let i = r.index(ms.len());
            let (rr, m, n) = &mut ms[i];
            if *n < pl.steps {
                m.step(rr, pl.live);
                *n += 1;
            }
        }
    });
    if let Err(e) = v {
        return fail(format!("registries taking turns on one thread: {}", e));
    }
    for ((_, m, _), want) in ms.iter_mut().zip(&alone) {
        m.check_all();
        c.evals += m.evals;
        if let Some(b) = m.bad.take() {
            return fail(format!("registries taking turns on one thread: {}", b));
        }
        if digest(m) != *want {
            return fail(format!("a registry ends in {:?}, taking turns with others in {:?}", want, digest(m)));
        }
    }
    c.eval(mix(0x22 ^ seeds.len() as u64) ^ alone.iter().map(|a| a.len() as u64).sum::<u64>());
    c.count("interleaved_registries", seeds.len() as u64);
}

/// A registry goes from thread to thread, between its operations.
fn handed_over(c: &mut Ctx, r: &mut Rng) {
    let pl = plan(c, r);
    let rounds = pl.threads as u64 * 2;
    let (seed, per) = (r.next(), pl.steps / rounds + 1);
    let mut alone = Model::new();
    let mut rr = Rng::new(seed);
    if guard("alone", || (0..rounds * per).for_each(|_| alone.step(&mut rr, pl.live))).is_err() || alone.bad.is_some() {
        return foreign(alone.bad);
    }
    let mut parcel = Some((Rng::new(seed), Model::new()));
    let (back_tx, back_rx) = mpsc::channel();
    std::thread::scope(|s| {
        let parcel = &mut parcel;
        let lanes: Vec<mpsc::Sender<(Rng, Model)>> = (0..pl.threads)
            .map(|_| {
                let (tx, rx) = mpsc::channel::<(Rng, Model)>();
                let back = back_tx.clone();
                s.spawn(move || {
                    while let Ok((mut r, mut m)) = rx.recv() {
                        let v = guard("owner", || {
                            (0..per).for_each(|_| m.step(&mut r, pl.live));
                            m.check_all();
                        });
                        let _ = back.send((r, m, v));
                    }
                });
                tx
            })
            .collect();
        for i in 0..rounds {
            let _ = lanes[i as usize % lanes.len()].send(parcel.take().unwrap());
            let (rr, m, v) = back_rx.recv().unwrap();
            *parcel = Some((rr, m));
            if let Err(e) = v {
                fail(format!("a registry handed between {} threads: {}", pl.threads, e));
                break;
            }
        }
        drop(lanes);
    });
    let m = &mut parcel.as_mut().unwrap().1;
    c.evals += m.evals;
    if let Some(b) = m.bad.take() {
        return fail(format!("a registry handed between {} threads: {}", pl.threads, b));
    }
    if digest(m) != digest(&alone) {
        return fail(format!("a registry ends in {:?}, handed between threads in {:?}", digest(&alone), digest(m)));
    }
    c.eval(mix(0x33 ^ pl.threads as u64) ^ m.ents.len() as u64);
    c.count("hand_overs", rounds);
}

thread_local! {
    static INNER: RefCell<Option<(Rng, Model, usize)>> = const { RefCell::new(None) };
    static TWIN: RefCell<Option<(Rng, Nest, usize)>> = const { RefCell::new(None) };
    static INNER_STEPS: Cell<u64> = const { Cell::new(0) };
    static TWIN_FAILED: RefCell<Option<String>> = const { RefCell::new(None) };
    static GONE: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

/// Uses the inner registries, in the middle of whatever the outer one is doing.
fn inner_step() {
    let taken = INNER.with(|i| i.borrow_mut().take());
    if let Some((mut r, mut m, live)) = taken {
        m.step(&mut r, live);
        INNER_STEPS.set(INNER_STEPS.get() + 1);
        INNER.with(|i| *i.borrow_mut() = Some((r, m, live)));
    }
    let taken = TWIN.with(|i| i.borrow_mut().take());
    if let Some((mut r, mut n, live)) = taken {
        let res = n.step(&mut r, live);
        if let Err(e) = res {
            TWIN_FAILED.with(|f| f.borrow_mut().get_or_insert(e).len());
        }
        TWIN.with(|i| *i.borrow_mut() = Some((r, n, live)));
    }
}

/// Its destructor works on the inner registries.
struct Reenter(u64);
impl Drop for Reenter {
    fn drop(&mut self) {
        GONE.with(|g| g.borrow_mut().push(self.0));
        inner_step();
    }
}
impl Component for Reenter {
    const NAME: &'static str = "threads::Reenter";
}
#[derive(Clone, Copy)]
struct Mark(u32);
impl Component for Mark {
    const NAME: &'static str = "threads::Mark";
}
struct Pad([u8; 3]);
impl Component for Pad {
    const NAME: &'static str = "threads::Pad";
}

struct Outer {
    e: Entity,
    id: Option<u64>,
    mark: Option<u32>,
    pad: bool,
}

/// A registry of components whose destructors use other registries, or the twin that these use.
struct Nest {
    reg: Registry,
    all: Vec<Outer>,
    steps: u64,
    evals: u64,
    /// In every identifier.
    of: u64,
}

/// What was dropped of a nest since the last call.
fn gone(of: u64) -> Vec<u64> {
    GONE.with(|g| {
        let mut g = g.borrow_mut();
        let mut v: Vec<u64> = g.iter().copied().filter(|x| x & 1 << 63 == of).collect();
        g.retain(|x| x & 1 << 63 != of);
        v.sort();
        v
    })
}

impl Nest {
    fn new(of: u64) -> Nest {
        Nest { reg: Registry::default(), all: Vec::new(), steps: 0, evals: 0, of }
    }

    fn step(&mut self, r: &mut Rng, live: usize) -> Result<(), String> {
        self.steps += 1;
        let Nest { reg, all, steps, evals, of } = self;
        let (i, id) = (*steps, *of | *steps);
        let what = if all.len() > live * 2 { 4 } else { r.below(9) };
        let pick = if all.is_empty() { 0 } else { r.index(all.len()) };
        let mut want: Vec<u64> = Vec::new();
        match what {
            0 => all.push(Outer { e: reg.create_entity(Reenter(id)).ok().ok_or("refused")?, id: Some(id), mark: None, pad: false }),
            1 => all.push(Outer { e: reg.create_entity((Mark(i as u32), Reenter(id))).ok().ok_or("refused")?, id: Some(id), mark: Some(i as u32), pad: false }),
            2 => all.push(Outer { e: reg.create_entity((Reenter(id), Pad([7; 3]), Mark(9))).ok().ok_or("refused")?, id: Some(id), mark: Some(9), pad: true }),
            _ if all.is_empty() => return Ok(()),
            3 | 4 => {
                let x = all.swap_remove(pick);
                if !reg.destroy_entity(x.e) {
                    return Err(format!("{:?} is alive, but was not destroyed", x.e));
                }
                want.extend(x.id);
            }
            5 => {
                let x = &mut all[pick];
                let ok = reg.add_component(x.e, Reenter(id));
                if ok.is_ok() == x.id.is_some() {
                    return Err(format!("adding to {:?} says {}", x.e, ok.is_ok()));
                }
                // A refused value comes back and is dropped here.
                match x.id {
                    None => x.id = Some(id),
                    Some(_) => want.push(id),
                }
            }
            6 => {
                let x = &mut all[pick];
                let got = reg.remove_component::<Reenter>(x.e).ok().map(|v| v.0);
                let fine = x.id.is_none() || x.mark.is_some() || x.pad;
                if fine && got != x.id {
                    return Err(format!("removed {:?} instead of {:?}", got, x.id));
                }
                want.extend(got);
                if got.is_some() {
                    x.id = None;
                }
            }
            7 => {
                let x = &mut all[pick];
                let ok = reg.add_component(x.e, Mark(i as u32)).is_ok();
                if ok == x.mark.is_some() {
                    return Err(format!("adding to {:?} says {}", x.e, ok));
                }
                x.mark = x.mark.or(Some(i as u32));
            }
            _ => {
                let mut ids: Vec<u64> = Vec::new();
                for v in reg.iter_filtered_components_matching::<Reenter, _>(|_| {
                    inner_step();
                    true
                }) {
                    inner_step();
                    ids.extend(v.iter().map(|x| x.0));
                }
                for (_, (v, m)) in reg.iter_filtered_entity_components_matching_mut::<(Reenter, Mark), _>(|_| {
                    inner_step();
                    true
                }) {
                    inner_step();
                    ids.extend(v.iter().map(|x| x.0));
                    m.iter_mut().for_each(|m| m.0 ^= 1);
                }
                let mut want: Vec<u64> = all.iter().filter_map(|x| x.id).collect();
                want.extend(all.iter().filter(|x| x.mark.is_some()).filter_map(|x| x.id));
                all.iter_mut().filter(|x| x.id.is_some()).for_each(|x| x.mark = x.mark.map(|m| m ^ 1));
                ids.sort();
                want.sort();
                if ids != want {
                    return Err(format!("iterations yield {:?} instead of {:?}", ids, want));
                }
            }
        }
        let got = gone(*of);
        if got != want {
            return Err(format!("{:?} were dropped by the step instead of {:?}", got, want));
        }
        for x in all.iter() {
            *evals += 1;
            let got = (reg.get_component::<Reenter>(x.e).map(|v| v.0), reg.get_component::<Mark>(x.e).map(|v| v.0), reg.get_component::<Pad>(x.e).map(|v| v.0));
            if got != (x.id, x.mark, x.pad.then_some([7; 3])) {
                return Err(format!("{:?} reads {:?} instead of {:?}", x.e, got, (x.id, x.mark, x.pad)));
            }
        }
        Ok(())
    }

    fn finish(self) -> Result<u64, String> {
        let Nest { reg, all, of, evals, .. } = self;
        let mut want: Vec<u64> = all.iter().filter_map(|x| x.id).collect();
        want.sort();
        drop(reg);
        let got = gone(of);
        if got != want {
            return Err(format!("{:?} were dropped with the registry instead of {:?}", got, want));
        }
        Ok(evals)
    }
}

/// One registry is used by the destructors, filters and loop bodies that another one runs.
fn nested(c: &mut Ctx, r: &mut Rng) {
    let pl = plan(c, r);
    let (seed, outer, twin) = (r.next(), r.next(), r.next());
    let run = || -> Result<u64, String> {
        GONE.with(|g| g.borrow_mut().clear());
        let mut r = Rng::new(outer);
        let mut n = Nest::new(0);
        for _ in 0..pl.steps * 2 {
            n.step(&mut r, pl.live)?;
        }
        n.finish()
    };
    // At first without the inner ones.
    if let Err(e) = guard("outer alone", run).and_then(|v| v) {
        return foreign(Some(e));
    }
    INNER.with(|i| *i.borrow_mut() = Some((Rng::new(seed), Model::new(), pl.live)));
    TWIN.with(|i| *i.borrow_mut() = Some((Rng::new(twin), Nest::new(1 << 63), pl.live)));
    INNER_STEPS.set(0);
    TWIN_FAILED.with(|f| f.borrow_mut().take());
    let ended = guard("outer", run);
    let steps = INNER_STEPS.get();
    let inner = INNER.with(|i| i.borrow_mut().take());
    let twin = TWIN.with(|i| i.borrow_mut().take());
    let failed = TWIN_FAILED.with(|f| f.borrow_mut().take());
    let mut evals = match ended.and_then(|v| v) {
        Err(e) => return fail(format!("a registry whose destructors, filters and loops use others: {}", e)),
        Ok(n) => n,
    };
    let (mut m, twin) = match (inner, twin) {
        (Some((_, m, _)), Some((_, n, _))) => (m, n),
        _ => return fail("a registry used by the destructors of another one panicked".into()),
    };
    let ended = match failed {
        Some(e) => Err(e),
        None => guard("twin", || twin.finish()).and_then(|v| v),
    };
    match ended {
        Err(e) => return fail(format!("a registry of the same components used by the destructors of another one: {}", e)),
        Ok(n) => evals += n,
    }
    m.check_all();
    evals += m.evals;
    if let Some(b) = m.bad.take() {
        return fail(format!("a registry used by the destructors of another one: {}", b));
    }
    let mut alone = Model::new();
    let mut rr = Rng::new(seed);
    if guard("alone", || (0..steps).for_each(|_| alone.step(&mut rr, pl.live))).is_err() || alone.bad.is_some() {
        return foreign(alone.bad.take());
    }
    if digest(&m) != digest(&alone) {
        fail(format!("a registry ends in {:?}, used by the destructors of another one in {:?}", digest(&alone), digest(&m)));
    }
    c.evals += evals;
    c.eval(mix(0x44 ^ pl.live as u64) ^ steps);
    c.count("nested_uses_of_a_registry", steps);
}

fn main() {
    runner::main(&|c, r| {
        c.op(0);
        let what = r.below(9);
        c.log(|| ["shared readers", "shared readers", "shared readers", "slice writers", "slice writers", "registries on their own threads", "registries in turns", "hand-over", "nested registries"][what as usize].into());
        match what {
            0..=2 => readers(c, r),
            3 | 4 => writers(c, r),
            5 => independent(c, r),
            6 => interleaved(c, r),
            7 => handed_over(c, r),
            _ => nested(c, r),
        }
    });
}
