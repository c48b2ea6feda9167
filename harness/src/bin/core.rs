//! Random histories of registry operations against the reference model.
use harness::episode::{self, Scale};
use harness::report::p;
use harness::world::{Counts, Set, Tables};
use std::time::Instant;

fn arg(name: &str) -> Option<String> {
    let mut a = std::env::args();
    while let Some(x) = a.next() {
        if x == name {
            return a.next();
        }
    }
    None
}

fn num(name: &str, default: u64) -> u64 {
    arg(name).and_then(|v| v.parse().ok()).unwrap_or(default)
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    static TABLES: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    let t: &'static Tables = TABLES.get_or_init(Tables::new);
    let prop = num("--prop", 1) as u32;
    let seed = num("--seed", 1);
    let first = num("--first", 0);
    let count = num("--count", 100);
    let stride = num("--stride", 1);
    let seconds = num("--seconds", 20);
    let scale = match arg("--scale").as_deref() {
        Some("tiny") => Scale::Tiny,
        Some("thorough") => Scale::Thorough,
        _ => Scale::Quick,
    };
    if let Some(f) = arg("--progress") {
        harness::progress::open(&f);
    }
    let quiet = std::panic::take_hook();
    if arg("--loud").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    } else {
        std::panic::set_hook(quiet);
    }

    // Replay of one episode, or of part of it.
    if let Some(e) = arg("--episode") {
        let keep: Option<Vec<usize>> = arg("--keep").map(|k| k.split(',').filter_map(|v| v.parse().ok()).collect());
        let o = episode::run(t, prop, e.parse().unwrap(), scale, keep.as_deref(), true);
        println!("{}", o.desc);
        for h in &o.history {
            println!("{}", h);
        }
        let mut bad = false;
        for v in &o.violations {
            println!("{}", episode::explain(v));
            bad |= v.props & p(prop) != 0;
        }
        std::process::exit(if bad { 1 } else { 0 });
    }

    let start = Instant::now();
    let mut counts = Counts::default();
    let mut sigs: Set<u64> = Set::default();
    let mut episodes = 0u64;
    let mut fc = [0u64; 8];
    let mut foreign = 0u64;
    let mut profiles: std::collections::BTreeMap<&str, u64> = Default::default();
    let mut foreign_sample = String::new();
    let mut i = first;
    while episodes < count {
        if start.elapsed().as_secs() >= seconds {
            break;
        }
        let es = harness::prng::mix(seed.wrapping_mul(0x1_0000_0001) ^ i);
        i += stride;
        if cfg!(miri) {
            println!("{{\"type\":\"at\",\"episode\":{}}}", es);
        }
        let o = episode::run(t, prop, es, scale, None, false);
        episodes += 1;
        *profiles.entry(o.profile).or_default() += 1;
        episode::add_counts(&mut counts, &o.counts);
        if sigs.len() < 400_000 {
            sigs.extend(o.sigs.iter());
        }
        let f = &o.faults;
        for (a, b) in fc.iter_mut().zip([f.forks, f.injected, f.panics_in_destroy, f.panics_in_drop, f.failed_allocations, f.unwound, f.tails, f.infallible]) {
            *a += b;
        }
        if first == 0 && episodes <= 3 {
            println!("{{\"type\":\"sample\",\"episode\":{},\"profile\":{},\"history\":{},\"evaluations\":{}}}", es, quote(o.profile), quote(&o.desc), o.counts.evals);
        }
        if o.violations.is_empty() {
            continue;
        }
        // A divergence that also appears without faults is not about the faults.
        let plain = matches!(prop, 12 | 13) && !episode::run_with(t, prop, harness::faults::Mode::Off, es, scale, None, false).violations.is_empty();
        if !plain && o.violations.iter().any(|v| v.props & p(prop) != 0) {
            let (keep, small) = episode::shrink(t, prop, es, scale, o.at, if cfg!(miri) { 0 } else if matches!(prop, 12 | 13) { 60 } else { 400 });
            let shown = small.as_ref().unwrap_or(&o);
            let v = shown.violations.iter().find(|v| v.props & p(prop) != 0).unwrap();
            println!(
                "{{\"type\":\"violation\",\"episode\":{},\"profile\":{},\"keep\":{},\"what\":{},\"stable\":{}}}",
                es,
                quote(o.profile),
                quote(&keep.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",")),
                quote(&episode::explain(v)),
                small.is_some()
            );
            break;
        }
        foreign += 1;
        if foreign_sample.is_empty() {
            foreign_sample = episode::explain(&o.violations[0]);
        }
    }
    if let Some(f) = arg("--sigs") {
        let mut s = String::new();
        for v in &sigs {
            s.push_str(&format!("{:x}\n", v));
        }
        let _ = std::fs::write(f, s);
    }
    let c = &counts;
    // Under Miri the host's files are out of reach.
    let list = if cfg!(miri) { sigs.iter().map(|v| format!("\"{:x}\"", v)).collect::<Vec<_>>().join(",") } else { String::new() };
    println!(
        "{{\"type\":\"summary\",\"sig_list\":[{}],\"episodes\":{},\"ops\":{},\"refused\":{},\"evaluations\":{},\"rows\":{},\"reads\":{},\"created\":{},\"destroyed\":{},\"moves\":{},\"writes\":{},\"drops\":{},\"handle_reissues\":{},\"storages_filled_to_the_brim\":{},\"filters_that_panicked\":{},\"max_live\":{},\"max_sets\":{},\"max_rows\":{},\"times_hundreds_of_sets_of_one_size\":{},\"memory_held_per_mille_of_allowance\":{},\"foreign\":{},\"foreign_sample\":{},\"profiles\":{{{}}},\"distinct\":{},\"blocks_verified\":{},\"faults\":{{\"forks\":{},\"injected\":{},\"panics_in_destroy\":{},\"panics_in_registry_drop\":{},\"failed_allocations\":{},\"unwound\":{},\"tails_run_to_the_end\":{},\"infallible_bookkeeping_requests\":{}}}}}",
        list, episodes, c.ops, c.refused, c.evals, c.rows, c.reads, c.created, c.destroyed, c.moves, c.writes, c.drops, c.wraps, c.levelled, c.filter_panics, c.max_live, c.max_sets, c.max_rows, c.fans, c.thrift,
        foreign, quote(&foreign_sample),
        profiles.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect::<Vec<_>>().join(","),
        sigs.len(), harness::alloc::VERIFIED.load(std::sync::atomic::Ordering::Relaxed),
        fc[0], fc[1], fc[2], fc[3], fc[4], fc[5], fc[6], fc[7]
    );
}
