//! Batches over worker processes, verdicts, replay files, evidence.
use crate::codec::{self, Codec};
use crate::engine::{is_harness, Outcome, Shrinker, Store};
use crate::exec::{Epoch, Item, Job, Run};
use crate::gen::{self, Pool};
use crate::plan::{self, Batch};
use crate::rng::{hash_bytes, mix, Rng};
use crate::shared::{FKS, FK_NAMES};
use crate::sys;
use std::collections::{BTreeMap, BTreeSet};
use symbolic_rust::sim_hook::Call;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

const WORKERS: usize = 8;

struct Tier {
    batches: u64,
    runs: u64,
    calls: usize,
    wall: u64,
}

fn tier(prop: &str, tier: &str) -> Tier {
    let thorough = tier == "thorough";
    let (batches, runs, calls) = match prop {
        "S02" => (1000, 30, 36),
        "S05" => (1200, 40, 36),
        _ => (1200, 48, 36),
    };
    Tier {
        batches: if thorough { batches * 20 } else { batches },
        runs,
        calls,
        wall: if thorough { 2400 } else { 420 },
    }
}

fn prop_tag(prop: &str) -> u64 {
    hash_bytes(17, prop.as_bytes())
}

fn plain_run(prop: &str, lent: &[symbolic_rust::sim_hook::Spec]) -> Run {
    Run {
        prop: prop.to_string(),
        origin: String::new(),
        lent: lent.to_vec(),
        lent_bid: vec![],
        relays: vec![],
        epochs: vec![],
        env: Default::default(),
        mem: Default::default(),
        sched: Default::default(),
        effects: false,
        abort: false,
        leak: false,
    }
}

fn make_batch(store: &mut Store, prop: &str, seed: u64, b: u64, count: usize, small: &[Call]) -> (Batch, Rng) {
    let mut rng = Rng::new(mix(seed) ^ prop_tag(prop) ^ mix(b + 1));
    let rounds = matches!(prop, "S05" | "S02");
    let (pool, lent, calls) = Pool::batch(&mut rng, rounds, prop == "S06", count, small, b);
    let mut run = plain_run(prop, &lent);
    if !store.resolve(&mut run) && store.bad.is_none() {
        // a lent value that cannot be looked at: lend something simple
        for l in run.lent.iter_mut() {
            *l = symbolic_rust::sim_hook::Spec::Var("x".into());
        }
    }
    let mut kept = vec![];
    let all = calls.clone();
    for c in calls {
        if let Some(b) = store.baseline(&run, &c) {
            kept.push((c, b));
        }
    }
    let keen = (0..kept.len()).filter(|i| store.bases[kept[*i].1].touch > 0).collect();
    (
        Batch {
            keen,
            pool,
            lent: run.lent,
            calls: kept,
            all,
        },
        rng,
    )
}

#[derive(Default)]
struct Stats {
    n: BTreeMap<String, u64>,
    inter: BTreeSet<u64>,
    cases: BTreeSet<u64>,
    samples: Vec<String>,
}

impl Stats {
    fn add(&mut self, k: &str, v: u64) {
        *self.n.entry(k.to_string()).or_insert(0) += v;
    }
    fn get(&self, k: &str) -> u64 {
        *self.n.get(k).unwrap_or(&0)
    }
    fn take(&mut self, run: &Run, o: &Outcome) {
        self.add("runs", 1);
        self.add("points", o.points);
        self.add("switches", o.switches);
        self.add("hot", o.hot);
        self.add("tls", o.tls);
        self.add("calls", o.calls);
        self.add("compared", o.compared);
        self.add("sim_ns", o.points + o.clock);
        for i in 0..FKS {
            self.add(FK_NAMES[i], o.faults[i]);
        }
        let multi = run.epochs.iter().any(|e| e.threads.len() > 1);
        if multi {
            self.add("concurrent_runs", 1);
            if o.switches > 0 {
                self.inter.insert(o.inter);
            }
        }
        let env = run.env != Default::default() || run.mem != Default::default();
        let hurt: u64 = o.faults.iter().sum();
        if (multi && o.switches > 0) || hurt > 0 || env || o.calls > 1 {
            self.cases.insert(mix(o.digest ^ mix(run.env.seed ^ run.mem.seed)));
        }
    }
    fn write(&self, path: &str) {
        let mut s = String::new();
        for (k, v) in &self.n {
            let _ = writeln!(s, "n {} {}", k, v);
        }
        for v in &self.inter {
            let _ = writeln!(s, "i {:x}", v);
        }
        for v in &self.cases {
            let _ = writeln!(s, "c {:x}", v);
        }
        for v in &self.samples {
            let _ = writeln!(s, "s {}", v);
        }
        let _ = std::fs::write(path, s);
    }
    fn read(&mut self, path: &str) -> bool {
        let s = match std::fs::read_to_string(path) {
            Ok(s) => s,
            Err(_) => return false,
        };
        for l in s.split('\n') {
            let mut p = l.splitn(3, ' ');
            match (p.next(), p.next(), p.next()) {
                (Some("n"), Some(k), Some(v)) => self.add(k, v.parse().unwrap_or(0)),
                (Some("i"), Some(v), _) => {
                    self.inter.insert(u64::from_str_radix(v, 16).unwrap_or(0));
                }
                (Some("c"), Some(v), _) => {
                    self.cases.insert(u64::from_str_radix(v, 16).unwrap_or(0));
                }
                (Some("s"), Some(_), _) => self.samples.push(l[2..].to_string()),
                _ => {}
            }
        }
        true
    }
}

enum WorkerEnd {
    Done,
    Violation,
    Harness(String),
}

fn worker(w: u64, prop: &str, t: &Tier, seed: u64, dir: &str, start: Instant) -> WorkerEnd {
    sys::pin(w as usize);
    let mut st = Stats::default();
    let mut end = WorkerEnd::Done;
    let mut seen = false;
    let mut odd = String::new();
    let small = gen::small_cases(prop == "S06", mix(seed) ^ prop_tag(prop));
    if w == 0 {
        st.add("small_cases", small.len() as u64);
    }
    let mut b = w;
    'all: while b < t.batches {
        let mut store = Store::default();
        let (batch, mut rng) = make_batch(&mut store, prop, seed, b, t.calls, &small);
        st.add("batches", 1);
        let alone = |store: &mut Store, run: Run| {
            let c = store.bad.take().unwrap().0;
            let _ = std::fs::write(format!("{}/bad.{}", dir, w), codec::text(&run));
            let _ = std::fs::write(format!("{}/badclass.{}", dir, w), c);
            WorkerEnd::Violation
        };
        if store.bad.is_some() {
            let mut run = plain_run(prop, &batch.lent);
            run.origin = format!("seed {} batch {}", seed, b);
            run.epochs.push(Epoch {
                rounds: 1,
                threads: vec![batch.all.iter().map(|c| Item::Call(Job::plain(c.clone()))).collect()],
            });
            end = alone(&mut store, run);
            break 'all;
        }
        if batch.calls.is_empty() {
            b += WORKERS as u64;
            continue;
        }
        // where some calls touch what outlives them, work with those
        seen |= !batch.keen.is_empty();
        let mut extra = 0;
        let mut k = if seen && batch.keen.is_empty() { t.runs / 2 } else { 0 };
        while k < t.runs + extra {
            if start.elapsed() > Duration::from_secs(t.wall) {
                st.add("cut_short_by_wall_clock", 1);
                break 'all;
            }
            let mut run = match plan::make(prop, &mut rng, &batch, &store.bases, k, extra > 0) {
                Some(r) => r,
                None => {
                    k += 1;
                    continue;
                }
            };
            run.origin = format!("seed {} batch {} run {}", seed, b, k);
            k += 1;
            let ok = store.resolve(&mut run);
            if store.bad.is_some() {
                end = alone(&mut store, run);
                break 'all;
            }
            if !ok {
                st.add("runs_without_baseline", 1);
                continue;
            }
            let o = store.execute(&run);
            if o.hot + o.tls > 0 && extra == 0 {
                // the crate touches data that outlives a call: look closer
                extra = t.runs;
            }
            st.take(&run, &o);
            if let Some(c) = &o.class {
                if is_harness(c) {
                    st.add(&format!("harness_{}", c), 1);
                    if c == "harness" {
                        end = WorkerEnd::Harness(String::from_utf8_lossy(&o.got).into_owned());
                        break 'all;
                    }
                    continue;
                }
                // it must come back in the same form
                let again = store.execute(&run);
                if again.class != o.class {
                    st.add("unstable", 1);
                    if again.class.is_none() {
                        end = WorkerEnd::Harness(format!("{} did not come back ({})", c, run.origin));
                        continue;
                    }
                }
                let _ = std::fs::write(format!("{}/bad.{}", dir, w), codec::text(&run));
                let _ = std::fs::write(format!("{}/badclass.{}", dir, w), c);
                end = WorkerEnd::Violation;
                break 'all;
            }
            if st.samples.len() < 3 && k > 2 && (k + b) % 5 == 3 {
                let mut s = codec::text(&run);
                let n = s.char_indices().map(|x| x.0).take_while(|i| *i < 2500).last().unwrap_or(0);
                if n < s.len() && s.len() > 2500 {
                    s.truncate(n);
                    s.push_str(" ...");
                }
                st.samples.push(s.replace('\n', " "));
            }
            // one seed, one execution: repeat some and compare everything
            if st.get("runs") % 41 == 0 {
                let again = store.execute(&run);
                st.add("repeated", 1);
                if again.digest != o.digest || again.class != o.class || again.log != o.log {
                    st.add("not_repeatable", 1);
                    odd = format!("not repeatable: {}", run.origin);
                    let _ = std::fs::write(format!("{}/odd.{}", dir, w), codec::text(&run));
                }
                // and from its recorded decisions alone
                if !o.log_full && !run.sched.replay {
                    let mut e = run.clone();
                    e.sched.replay = true;
                    e.sched.decisions = o.log.clone();
                    let again = store.execute(&e);
                    st.add("replayed_from_decisions", 1);
                    if again.digest != o.digest {
                        if std::env::var("SIM_DEBUG").is_ok() {
                            let k = o.log.iter().zip(again.log.iter()).take_while(|(a, b)| a == b).count();
                            eprintln!("{}: {:?} {:?} points {} {} inter {:x} {:x}; logs {} {} part at {}: {:?} {:?} | {:?}", run.origin, o.class, again.class, o.points, again.points, o.inter, again.inter, o.log.len(), again.log.len(), k, o.log.get(k), again.log.get(k), &o.log[k.saturating_sub(4)..k]);
                        }
                        st.add("replay_differs", 1);
                        odd = format!("replay differs: {}", run.origin);
                        let _ = std::fs::write(format!("{}/odd.{}", dir, w), codec::text(&run));
                    }
                }
            }
        }
        st.add("baselines", store.made);
        st.add("baselines_unusable", store.refused);
        b += WORKERS as u64;
    }
    st.write(&format!("{}/stats.{}", dir, w));
    // a rare difference costs that run; more, and no verdict can be trusted
    let differing = st.get("not_repeatable") + st.get("replay_differs");
    if differing > 1 + st.get("repeated") / 40 && matches!(end, WorkerEnd::Done) {
        end = WorkerEnd::Harness(odd);
    }
    end
}

pub fn check(prop: &str, tier_name: &str, seed: u64, dir: &str) -> i32 {
    let start = Instant::now();
    let t = tier(prop, tier_name);
    let scratch = format!("{}/.build/run.{}.{}", dir, prop, std::process::id());
    let _ = std::fs::create_dir_all(&scratch);
    let code = check_in(prop, tier_name, seed, dir, &t, &scratch, start);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn check_in(
    prop: &str,
    tier_name: &str,
    seed: u64,
    dir: &str,
    t: &Tier,
    scratch: &str,
    start: Instant,
) -> i32 {
    let mut pids = vec![];
    for w in 0..WORKERS {
        let pid = sys::fork_worker(|| {
            match worker(w as u64, prop, t, seed, scratch, start) {
                WorkerEnd::Done => 0,
                WorkerEnd::Violation => 3,
                WorkerEnd::Harness(m) => {
                    let _ = std::fs::write(format!("{}/harness.{}", scratch, w), m);
                    4
                }
            }
        });
        pids.push((pid, w));
    }
    let mut violated = None;
    let mut harness = None;
    while !pids.is_empty() {
        let (pid, status) = sys::wait_any();
        let i = match pids.iter().position(|p| p.0 == pid) {
            Some(i) => i,
            None => continue,
        };
        let (_, w) = pids.remove(i);
        match status {
            0 => {}
            3 => {
                violated = Some(w);
                for (p, _) in &pids {
                    sys::kill_group(*p);
                }
                while !pids.is_empty() {
                    let (pid, _) = sys::wait_any();
                    pids.retain(|p| p.0 != pid);
                }
            }
            4 => {
                harness = Some(
                    std::fs::read_to_string(format!("{}/harness.{}", scratch, w)).unwrap_or_default(),
                )
            }
            s => harness = Some(format!("worker {} ended with {}", w, s)),
        }
    }
    let mut st = Stats::default();
    for w in 0..WORKERS {
        st.read(&format!("{}/stats.{}", scratch, w));
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(w) = violated {
        let text = std::fs::read_to_string(format!("{}/bad.{}", scratch, w)).unwrap_or_default();
        let class = std::fs::read_to_string(format!("{}/badclass.{}", scratch, w)).unwrap_or_default();
        if let Some(mut run) = codec::parse(&text).and_then(|t| Run::get(&t)) {
            let mut store = Store::default();
            let limit = if tier_name == "thorough" { 240 } else { 60 };
            let mut s = Shrinker::new(&mut store, &class, Duration::from_secs(limit));
            s.shrink(&mut run);
            let tries = s.tries;
            let o = store.verdict(&mut run).unwrap_or_default();
            let path = write_replay(dir, prop, &run, &o, tries);
            println!("{}", describe(&run, &o));
            println!("VIOLATION property={} replay={}", prop, path);
            violations = 1;
            code = 1;
        } else {
            harness = Some("the violating run could not be read back".into());
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let ev = evidence(prop, tier_name, seed, &st, wall, violations, t);
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    let _ = std::fs::write(format!("{}/evidence/{}.json", dir, prop), ev);
    if code == 0 {
        if let Some(h) = harness {
            for w in 0..WORKERS {
                let odd = format!("{}/odd.{}", scratch, w);
                if let Ok(s) = std::fs::read_to_string(&odd) {
                    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
                    let _ = std::fs::write(format!("{}/replays/odd-{}.run", dir, prop), s);
                }
            }
            eprintln!("sim: the simulator itself failed: {}", h);
            return 2;
        }
        println!(
            "{}: held on {} runs ({} calls, {} distinct executions, {} faults and preemptions) in {:.0} s",
            prop,
            st.get("runs"),
            st.get("calls"),
            st.cases.len(),
            FK_NAMES.iter().map(|k| st.get(k)).sum::<u64>(),
            wall
        );
    }
    code
}

fn lossy(b: &[u8], n: usize) -> String {
    let s: String = String::from_utf8_lossy(b).chars().take(n).collect();
    s.replace('\n', "\\n")
}

fn describe(run: &Run, o: &Outcome) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "property {}: {}", run.prop, o.class.as_deref().unwrap_or("(not reproduced)"));
    let _ = writeln!(s, "found by: {}", run.origin);
    let _ = writeln!(
        s,
        "at: epoch {} thread {} round {} item {}",
        o.epoch, o.thread, o.round, o.item
    );
    // where they part
    let k = o.got.iter().zip(o.exp.iter()).take_while(|(a, b)| a == b).count();
    if k > 200 {
        let from = k - 60;
        let _ = writeln!(s, "observed (from byte {}): {}", from, lossy(&o.got[from..], 600));
        let _ = write!(s, "expected (from byte {}): {}", from, lossy(&o.exp[from..], 600));
    } else {
        let _ = writeln!(s, "observed: {}", lossy(&o.got, 600));
        let _ = write!(s, "expected: {}", lossy(&o.exp, 600));
    }
    s
}

fn write_replay(dir: &str, prop: &str, run: &Run, o: &Outcome, tries: u64) -> String {
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    let text = codec::text(run);
    let path = format!("{}/replays/{}-{:016x}.run", dir, prop, hash_bytes(1, text.as_bytes()));
    let mut s = String::new();
    for l in describe(run, o).lines() {
        let _ = writeln!(s, "; {}", l);
    }
    let _ = writeln!(s, "; minimised in {} simulated runs; digest {:016x}", tries, o.digest);
    let _ = writeln!(s, "; replay: bin/replay {}", path);
    s.push_str(&codec::pretty(&text));
    let _ = std::fs::write(&path, s);
    path
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("sim: {}: {}", file, e);
            return 2;
        }
    };
    let mut run = match codec::parse(&text).and_then(|t| Run::get(&t)) {
        Some(r) => r,
        None => {
            eprintln!("sim: {} is not a replay file", file);
            return 2;
        }
    };
    let mut store = Store::default();
    let a = match store.verdict(&mut run) {
        Some(a) => a,
        None => {
            println!("a call of this run has no baseline on this tree");
            return 2;
        }
    };
    let b = Store::default().verdict(&mut run).unwrap_or_default();
    println!("digest {:016x} and {:016x}", a.digest, b.digest);
    match &a.class {
        Some(c) if !is_harness(c) => {
            println!("{}", describe(&run, &a));
            println!("VIOLATION property={} replay={}", run.prop, file);
            1
        }
        Some(c) => {
            println!("{}: {}", c, lossy(&a.got, 300));
            2
        }
        None => {
            println!("no violation on this tree");
            0
        }
    }
}

/// One batch in this process, for looking at what the generator does.
pub fn show(prop: &str, seed: u64, b: u64) -> i32 {
    let t = tier(prop, "quick");
    let mut store = Store::default();
    let t0 = Instant::now();
    let small = gen::small_cases(prop == "S06", mix(seed) ^ prop_tag(prop));
    let (batch, mut rng) = make_batch(&mut store, prop, seed, b, t.calls, &small);
    println!(
        "baselines {} unusable {} in {:?}",
        store.made,
        store.refused,
        t0.elapsed()
    );
    for (c, i) in &batch.calls {
        let x = &store.bases[*i];
        println!(
            "{} => {:?} steps {} allocs {} printed {} {} {}",
            codec::text(c),
            x.kind,
            x.steps,
            x.allocs,
            x.printed,
            lossy(&x.text, 150),
            lossy(&x.acc, 150)
        );
    }
    for k in 0..t.runs {
        if let Some(mut run) = plan::make(prop, &mut rng, &batch, &store.bases, k, false) {
            run.origin = format!("seed {} batch {} run {}", seed, b, k);
            if !store.resolve(&mut run) {
                println!("run {} has no baseline", k);
                continue;
            }
            let t0 = Instant::now();
            let o = store.execute(&run);
            println!(
                "run {} {:?} points {} switches {} calls {} hot {} held {} digest {:x} {:?} faults {:?}",
                k,
                o.class,
                o.points,
                o.switches,
                o.calls,
                o.hot,
                o.held,
                o.digest,
                t0.elapsed(),
                o.faults
            );
            if o.class.is_some() {
                println!("{}", describe(&run, &o));
                println!("{}", codec::pretty(&codec::text(&run)));
            }
        }
    }
    0
}

// ---- evidence -------------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(prop: &str, tier_name: &str, seed: u64, st: &Stats, wall: f64, violations: u64, t: &Tier) -> String {
    let mut o = String::new();
    let runs = st.get("runs");
    let per_hour = |v: u64| (v as f64 * 3600.0 / wall.max(0.001)) as u64;
    let _ = write!(
        o,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n",
        js(prop),
        js(tier_name),
        seed
    );
    let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", runs, st.cases.len());
    let _ = write!(o, "  \"rule\": {},\n", js("A case is one simulated process: a seeded program of calls on one or more threads, with a seeded schedule, faults and surroundings. It counts as non-trivial if it made more than one call, switched threads, met a fault, or ran in varied surroundings; two cases are distinct if the digest over all outcomes, fault positions, scheduling decisions, steps and allocations differs."));
    let _ = write!(o, "  \"samples\": [");
    for (i, s) in st.samples.iter().take(3).enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { ", " } else { "" }, js(s));
    }
    let _ = write!(o, "],\n  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n", per_hour(runs), per_hour(runs));
    let _ = write!(
        o,
        "  \"batches\": {}, \"batches_planned\": {}, \"small_cases\": {}, \"baselines\": {}, \"calls_without_usable_baseline\": {},\n",
        st.get("batches"),
        t.batches,
        st.get("small_cases"),
        st.get("baselines"),
        st.get("baselines_unusable")
    );
    let _ = write!(
        o,
        "  \"calls\": {}, \"outcomes_compared\": {}, \"simulated_steps\": {}, \"simulated_seconds\": {:.3}, \"simulated_time_note\": {},\n",
        st.get("calls"),
        st.get("compared"),
        st.get("points"),
        st.get("sim_ns") as f64 / 1e9,
        js("one step (basic-block edge, load, store or allocation of the crate's code) is one simulated nanosecond; waits and clock jumps add theirs")
    );
    let _ = write!(
        o,
        "  \"concurrent_runs\": {}, \"thread_switches\": {}, \"distinct_interleavings\": {}, \"interleaving_measure\": {},\n",
        st.get("concurrent_runs"),
        st.get("switches"),
        st.inter.len(),
        js("hash of the sequence of (thread, step number, next thread) of every scheduling decision")
    );
    let _ = write!(o, "  \"accesses_to_writable_globals\": {},\n  \"accesses_to_thread_local_data\": {},\n  \"faults\": {{", st.get("hot"), st.get("tls"));
    for (i, k) in FK_NAMES.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, js(k), st.get(k));
    }
    let _ = write!(
        o,
        "}},\n  \"determinism\": {{\"runs_repeated\": {}, \"replayed_from_recorded_decisions\": {}, \"differing\": {}}},\n",
        st.get("repeated"),
        st.get("replayed_from_decisions"),
        st.get("not_repeatable") + st.get("replay_differs")
    );
    let _ = write!(
        o,
        "  \"set_aside\": {{\"memory_exhausted_in_simulator\": {}, \"timeouts\": {}, \"runs_without_baseline\": {}, \"workers_cut_short_by_wall_clock\": {}}},\n",
        st.get("harness_exhausted"),
        st.get("harness_timeout"),
        st.get("runs_without_baseline"),
        st.get("cut_short_by_wall_clock")
    );
    let _ = write!(
        o,
        "  \"real_components\": {},\n  \"stubbed_components\": {}\n }},\n",
        js("all of the crate's code as in /repo's working tree (compiled with edge, load and store callbacks), the standard library, real OS threads for thread-local storage and stacks"),
        js("thread scheduling, futex waits, the allocator, clocks, randomness, process and thread identity, processor count, files and standard streams as seen by a call, writers passed to printing")
    );
    let _ = write!(
        o,
        " \"assumptions\": [{}, {}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js("sequentially consistent interleavings of the crate's own steps; code of the standard library that is not generic runs without interruption except at its futex waits"),
        js("a call that alone, fresh and fault-free overflows the stack or exceeds 400000 steps is left out; one that breaks the property alone is reported"),
        wall,
        violations
    );
    o
}
