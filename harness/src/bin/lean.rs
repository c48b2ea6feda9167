//! Random safe use with cheap bookkeeping: every step is spent in the crate. Made for Miri (C07).
use harness::lean::{self, Model};
use harness::prng::Rng;
use harness::report::{p, violation};
use harness::runner::{self, Ctx, Scale};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Divergences of values are the business of other properties.
const OTHER: u32 = 1;

fn episode(c: &mut Ctx, r: &mut Rng) {
    let tiny = c.scale == Scale::Tiny;
    let mut m = Model::new();
    let steps = if tiny { 60 } else { 400 };
    let live = 1 + r.index(if tiny { 7 } else { 40 });
    if r.chance(1, if tiny { 3 } else { 6 }) {
        // Beyond the default capacity of 128 rows.
        let rows = if tiny { 129 } else { 129 + r.index(900) };
        m.grow(r, rows);
        c.count("grown_storages", 1);
    }
    c.log(|| format!("{} steps with at most {} entities, {} of one kind before", steps, live, m.ents.len()));
    let before = m.evals;
    for s in 0..steps {
        c.op(s);
        m.step(r, live.max(if m.ents.len() > 100 { m.ents.len() + 1 } else { 0 }));
        if m.bad.is_some() {
            break;
        }
    }
    m.check_all();
    c.max("max_live", m.ents.len() as u64);
    for e in &m.ents {
        c.eval(e.set as u64);
    }
    c.evals += m.evals - before;
    if let Some(b) = m.bad.take() {
        violation(p(OTHER), b);
    }
    drop(m);
    if lean::alive() != 0 {
        violation(p(3), format!("{} values of droppable types are left", lean::alive()));
        lean::ALIVE.iter().for_each(|a| a.store(0, std::sync::atomic::Ordering::SeqCst));
    }
}

fn main() {
    runner::main(&|c, r| {
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| episode(c, r))) {
            violation(p(OTHER), format!("panic: {}", runner::panic_text(&e)));
            lean::ALIVE.iter().for_each(|a| a.store(0, std::sync::atomic::Ordering::SeqCst));
        }
    });
}
