//! Frame of a monitor program: arguments, episodes, summary.

use crate::prng::{mix, Rng};
use crate::progress;
use crate::report::{self, p};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scale {
    Tiny,
    Quick,
    Thorough,
}

pub fn arg(name: &str) -> Option<String> {
    let mut a = std::env::args();
    while let Some(x) = a.next() {
        if x == name {
            return a.next();
        }
    }
    None
}

pub fn num(name: &str, default: u64) -> u64 {
    arg(name).and_then(|v| v.parse().ok()).unwrap_or(default)
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// What one run of a monitor has observed so far.
pub struct Ctx {
    pub prop: u32,
    pub scale: Scale,
    pub seed: u64,
    pub evals: u64,
    pub ops: u64,
    pub sigs: HashSet<u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub verbose: bool,
    pub history: Vec<String>,
}

impl Ctx {
    /// One comparison with the oracle; `sig` says what kind of case it was.
    #[inline]
    pub fn eval(&mut self, sig: u64) {
        self.evals += 1;
        if self.sigs.len() < 300_000 {
            self.sigs.insert(mix(sig));
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_default() += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let v = self.counts.entry(name).or_default();
        *v = (*v).max(n);
    }
    pub fn op(&mut self, code: u64) {
        self.ops += 1;
        progress::op(self.ops, code);
        progress::ctx(p(self.prop));
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose || self.history.len() < 12 {
            self.history.push(f());
        }
    }
    /// Compares; returns whether it was as expected.
    #[inline]
    pub fn expect(&mut self, ok: bool, sig: u64, msg: impl FnOnce() -> String) -> bool {
        self.eval(sig);
        if !ok {
            report::violation(p(self.prop), msg());
        }
        ok
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

pub type Body = dyn Fn(&mut Ctx, &mut Rng);

/// Runs one episode. Returns its description.
fn episode(body: &Body, ctx: &mut Ctx, seed: u64) -> Vec<report::Violation> {
    progress::episode(seed);
    progress::ctx(p(ctx.prop));
    report::take();
    ctx.history.clear();
    let mut r = Rng::new(seed);
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(ctx, &mut r))) {
        crate::ledger::take_errors();
        report::violation(p(ctx.prop), format!("panic: {}", panic_text(&e)));
    }
    report::take()
}

pub fn main(body: &Body) {
    let scale = match arg("--scale").as_deref() {
        Some("tiny") => Scale::Tiny,
        Some("thorough") => Scale::Thorough,
        _ => Scale::Quick,
    };
    let prop = num("--prop", 15) as u32;
    let seed = num("--seed", 1);
    let mut ctx = Ctx {
        prop,
        scale,
        seed,
        evals: 0,
        ops: 0,
        sigs: HashSet::new(),
        counts: BTreeMap::new(),
        verbose: false,
        history: Vec::new(),
    };
    if let Some(f) = arg("--progress") {
        progress::open(&f);
    }
    if arg("--loud").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if let Some(e) = arg("--episode") {
        ctx.verbose = true;
        let v = episode(body, &mut ctx, e.parse().unwrap());
        for h in &ctx.history {
            println!("{}", h);
        }
        for x in &v {
            println!("[{}] {}", report::props_string(x.props), x.msg);
        }
        std::process::exit(v.iter().any(|x| x.props & p(prop) != 0) as i32);
    }
    let first = num("--first", 0);
    let stride = num("--stride", 1);
    let count = num("--count", 1000);
    let seconds = num("--seconds", 20);
    let start = Instant::now();
    let (mut episodes, mut foreign, mut foreign_sample) = (0u64, 0u64, String::new());
    let mut i = first;
    while episodes < count {
        if start.elapsed().as_secs() >= seconds {
            break;
        }
        let es = mix(seed.wrapping_mul(0x1_0000_0001) ^ i);
        i += stride;
        if cfg!(miri) {
            println!("{{\"type\":\"at\",\"episode\":{}}}", es);
        }
        let before = ctx.evals;
        let v = episode(body, &mut ctx, es);
        episodes += 1;
        if first == 0 && episodes <= 3 {
            println!(
                "{{\"type\":\"sample\",\"episode\":{},\"history\":{},\"evaluations\":{}}}",
                es,
                quote(&ctx.history.join("; ").chars().take(1200).collect::<String>()),
                ctx.evals - before
            );
        }
        if let Some(x) = v.iter().find(|x| x.props & p(prop) != 0) {
            println!("{{\"type\":\"violation\",\"episode\":{},\"what\":{},\"stable\":true}}", es, quote(&format!("[{}] {}", report::props_string(x.props), x.msg)));
            break;
        }
        if let Some(x) = v.first() {
            foreign += 1;
            if foreign_sample.is_empty() {
                foreign_sample = format!("[{}] {}", report::props_string(x.props), x.msg);
            }
        }
    }
    if let Some(f) = arg("--sigs") {
        let mut s = String::new();
        for v in &ctx.sigs {
            s.push_str(&format!("{:x}\n", v));
        }
        let _ = std::fs::write(f, s);
    }
    let counts: String = ctx.counts.iter().map(|(k, v)| format!(",{}:{}", quote(k), v)).collect();
    let list = if cfg!(miri) {
        format!(",\"sig_list\":[{}]", ctx.sigs.iter().map(|v| format!("\"{:x}\"", v)).collect::<Vec<_>>().join(","))
    } else {
        String::new()
    };
    println!(
        "{{\"type\":\"summary\",\"episodes\":{},\"ops\":{},\"evaluations\":{},\"distinct\":{},\"foreign\":{},\"foreign_sample\":{}{}{}}}",
        episodes, ctx.ops, ctx.evals, ctx.sigs.len(), foreign, quote(&foreign_sample), counts, list
    );
}
