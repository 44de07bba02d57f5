//! From a batch of calls to runs: which calls on which threads, which faults, which
//! schedule, which surroundings. One function per property.
use crate::arena::MemCfg;
use crate::exec::{Base, Epoch, Item, Job, Kind, Relay, Run, SinkCfg};
use crate::gen;
use crate::rng::Rng;
use crate::sched::{Oom, SchedCfg};
use crate::sys::EnvCfg;
use symbolic_rust::sim_hook::{Call, Spec};

/// Calls whose baselines are known.
pub struct Batch {
    /// every call that was drawn, with or without a baseline
    pub all: Vec<Call>,
    pub pool: gen::Pool,
    pub lent: Vec<Spec>,
    pub calls: Vec<(Call, usize)>,
    /// those that touch data that outlives them
    pub keen: Vec<usize>,
}

fn mem(rng: &mut Rng, never: bool) -> MemCfg {
    MemCfg {
        reuse: *rng.pick(if never { &[0u8, 0, 1, 2, 3] } else { &[0u8, 0, 1, 3] }),
        garbage: rng.below(3) as u8,
        moving: rng.chance(1, 3),
        shared: rng.chance(1, 4),
        seed: rng.next(),
        gaps: rng.chance(1, 3),
        spread: rng.below(3) as u8,
    }
}

fn env(rng: &mut Rng) -> EnvCfg {
    EnvCfg {
        seed: rng.next(),
        start: *rng.pick(&[
            0u64,
            1,
            946_684_800_000_000_000,
            1_700_000_000_123_456_789,
            2_147_483_647_999_999_999,
            2_147_483_648_000_000_000,
            4_102_444_800_000_000_000,
            9_000_000_000_000_000_000,
            -86_399_500_000_000i64 as u64,
            -4_000_000_000_000_000_000i64 as u64,
        ]),
        clock: rng.below(5) as u8,
        stdio: rng.below(6) as u8,
        files: rng.below(4) as u8,
        cpus: *rng.pick(&[1u32, 2, 3, 8, 64, 512]),
        pid: if rng.chance(1, 6) { *rng.pick(&[1u32, 2, 32767, 4194303]) } else { rng.range(2, 4_194_303) as u32 },
        vars: rng.chance(2, 3),
        stack_pad: rng.below(4096) as u32,
        args: rng.chance(1, 2),
        named: *rng.pick(&[0u8, 0, 0, 0, 1, 2, 3, 4, 5, 5, 5, 5]),
        ids: if rng.chance(1, 2) { rng.below(16) as u32 } else { 0 },
    }
}

fn plain_env(rng: &mut Rng) -> EnvCfg {
    EnvCfg {
        seed: rng.next(),
        ..EnvCfg::default()
    }
}

fn new_run(prop: &str, b: &Batch) -> Run {
    Run {
        prop: prop.to_string(),
        origin: String::new(),
        lent: b.lent.clone(),
        lent_bid: vec![],
        relays: vec![],
        epochs: vec![],
        env: EnvCfg::default(),
        mem: MemCfg::default(),
        sched: SchedCfg::default(),
        effects: false,
        abort: false,
        leak: false,
    }
}

fn sched_cfg(rng: &mut Rng) -> SchedCfg {
    SchedCfg {
        seed: rng.next(),
        preempts: *rng.pick(&[0u32, 1, 1, 2, 3, 5, 10, 30]),
        hot: *rng.pick(&[0u32, 20, 40, 60, 90]),
        warm: *rng.pick(&[0u32, 0, 5, 20]),
        quantum: *rng.pick(&[50_000u64, 50_000, 5_000, 800]),
        ..SchedCfg::default()
    }
}

fn pick<'a>(rng: &mut Rng, b: &'a Batch) -> &'a (Call, usize) {
    &b.calls[any(rng, b)]
}

/// A call; more often than not one that touches what outlives calls, if there are any.
fn any(rng: &mut Rng, b: &Batch) -> usize {
    if !b.keen.is_empty() && rng.chance(2, 3) {
        *rng.pick(&b.keen)
    } else {
        rng.below(b.calls.len() as u64) as usize
    }
}

/// An index near others in the batch: look-alikes are neighbours.
fn near(rng: &mut Rng, b: &Batch, i: usize) -> usize {
    let n = b.calls.len() as i64;
    (i as i64 + rng.range(0, 4) as i64 - 2).rem_euclid(n) as usize
}

fn is_print(c: &Call) -> bool {
    matches!(c, Call::Print(..))
}

fn oom(rng: &mut Rng, base: &Base) -> Vec<Oom> {
    let a = base.allocs.max(1) as u64;
    let mut v = vec![];
    for _ in 0..*rng.pick(&[1u64, 1, 1, 2, 3]) {
        let at = if rng.chance(1, 8) { a + rng.below(4) } else { rng.below(a) } as u32;
        let len = *rng.pick(&[1u32, 1, 1, 1, 2, 3, 8, 1000]);
        let min = *rng.pick(&[0u32, 0, 0, 0, 16, 33, 65, 129, 500]);
        v.push(Oom {
            at: if min > 0 { rng.below(at as u64 + 1) as u32 } else { at },
            len: if min > 0 { 1000 } else { len },
            min,
        });
    }
    v
}

fn sink(rng: &mut Rng, base: &Base, io: bool) -> SinkCfg {
    let len = base.acc.len() as u64;
    SinkCfg {
        fail_at: if rng.chance(1, 10) { 0 } else { rng.below(len + 1) as i64 },
        count: *rng.pick(&[0u32, 0, 1, 1, 2, 5]),
        mode: *rng.pick(&[0u8, 0, 0, 1, 2]),
        partial: rng.chance(1, 2),
        eintr: if io && rng.chance(1, 3) { rng.range(1, 4) as u32 } else { 0 },
        short: if io && rng.chance(1, 3) { rng.range(1, 9) as u32 } else { 0 },
        reenter: -1,
    }
}

fn io_of(c: &Call) -> bool {
    matches!(c, Call::Print(_, _, true))
}

/// A faulted version of a call, where it can be faulted.
fn faulted(rng: &mut Rng, c: &Call, bases: &[Base], bid: usize) -> Job {
    let mut j = Job::plain(c.clone());
    let base = &bases[bid];
    if is_print(c) && base.printed == 1 && rng.chance(2, 3) {
        j.sink = sink(rng, base, io_of(c));
    } else {
        j.oom = oom(rng, base);
    }
    j.retry = rng.chance(2, 3);
    j
}

fn nested(rng: &mut Rng, b: &Batch, bases: &[Base], c: &Call, bid: usize, depth: u32) -> Job {
    let mut j = Job::plain(c.clone());
    let base = &bases[bid];
    if !is_print(c) || base.writes == 0 {
        return j;
    }
    j.sink.reenter = rng.below(base.writes as u64) as i32;
    for _ in 0..rng.range(1, 3) {
        let (c2, b2) = pick(rng, b);
        j.nested.push(if depth < 2 && is_print(c2) && rng.chance(1, 3) {
            nested(rng, b, bases, c2, *b2, depth + 1)
        } else if rng.chance(1, 4) {
            faulted(rng, c2, bases, *b2)
        } else {
            Job::plain(c2.clone())
        });
    }
    if rng.chance(1, 4) {
        let s = sink(rng, base, io_of(c));
        let k = j.sink.reenter;
        j.sink = s;
        j.sink.reenter = k;
    }
    j
}

/// Calls that end in an unwinding sometimes meet destructors of the caller that make
/// calls of their own.
fn undoing(rng: &mut Rng, b: &Batch, bases: &[Base], run: &mut Run) {
    if run.abort || !rng.chance(1, 3) {
        return;
    }
    for e in run.epochs.iter_mut() {
        for t in e.threads.iter_mut() {
            for it in t.iter_mut() {
                let j = match it {
                    Item::Call(j) => j,
                    _ => continue,
                };
                let at = match b.calls.iter().position(|c| c.0 == j.call) {
                    Some(i) => i,
                    None => continue,
                };
                let panics = matches!(bases[b.calls[at].1].kind, Kind::Panic(_));
                if (panics || !j.oom.is_empty() || j.sink.mode == 1 && j.sink.fail_at >= 0) && rng.chance(1, 3) {
                    for _ in 0..rng.range(1, 2) {
                        let i = match rng.below(3) {
                            0 => at,
                            1 => near(rng, b, at),
                            _ => any(rng, b),
                        };
                        let (c, bid) = &b.calls[i];
                        let mut u = Job::plain(c.clone());
                        if is_print(c) && bases[*bid].printed == 1 && rng.chance(1, 2) {
                            u.sink = sink(rng, &bases[*bid], io_of(c));
                        }
                        j.undo.push(u);
                    }
                }
            }
        }
    }
}

/// How many threads: sometimes just past a number that the sources mention.
fn many(rng: &mut Rng, usual: &[usize]) -> usize {
    if rng.chance(1, 8) {
        if let Some(k) = gen::known(rng, 70, 4) {
            if k >= 2 {
                return k as usize;
            }
        }
    }
    *rng.pick(usual)
}

/// Relays spread over `n` threads: items for each thread, in an order that cannot deadlock.
fn add_relays(rng: &mut Rng, run: &mut Run, b: &Batch, threads: &mut [Vec<Item>], with_oom: bool) {
    let chains: Vec<&(Call, usize)> = b.calls.iter().filter(|c| matches!(c.0, Call::Chain(..))).collect();
    if chains.is_empty() || threads.len() < 2 {
        return;
    }
    // stages of all relays in one global order; each thread's list follows it
    for _ in 0..rng.range(1, 3) {
        let (call, _) = *rng.pick(&chains);
        let steps = match call {
            Call::Chain(_, s) => s.len(),
            _ => 0,
        };
        let mut cuts = vec![];
        let mut at = 0;
        while at < steps {
            at = (at + rng.range(0, 2) as usize).min(steps);
            cuts.push(at);
            if cuts.len() > 6 {
                break;
            }
        }
        cuts.push(steps);
        let id = run.relays.len();
        let k = cuts.len();
        run.relays.push(Relay {
            call: call.clone(),
            cuts,
            bid: usize::MAX,
        });
        let mut last = usize::MAX;
        for s in 0..k {
            let mut t = rng.below(threads.len() as u64) as usize;
            if t == last {
                t = (t + 1) % threads.len();
            }
            last = t;
            let o = if with_oom && rng.chance(1, 6) {
                vec![Oom {
                    at: rng.below(6) as u32,
                    len: 1,
                    min: 0,
                }]
            } else {
                vec![]
            };
            threads[t].push(Item::Stage(id, s, o));
        }
    }
}

fn s01(rng: &mut Rng, b: &Batch, _bases: &[Base]) -> Run {
    let mut run = new_run("S01", b);
    let n = many(rng, &[2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 8, 16]);
    let style = rng.below(4);
    let focus = any(rng, b);
    let mut threads: Vec<Vec<Item>> = vec![vec![]; n];
    let per = if n > 5 { 1 } else { rng.range(1, 5) };
    for k in 0..per {
        for t in threads.iter_mut() {
            let i = match style {
                // the same calls everywhere
                0 => (focus + k as usize) % b.calls.len(),
                // look-alikes
                1 => near(rng, b, focus),
                _ => any(rng, b),
            };
            t.push(Item::Call(Job::plain(b.calls[i].0.clone())));
        }
        if k == 0 && rng.chance(1, 3) {
            add_relays(rng, &mut run, b, &mut threads, false);
        }
    }
    run.epochs.push(Epoch {
        rounds: *rng.pick(&[1u32, 1, 1, 2, 3]),
        threads,
    });
    if rng.chance(1, 6) {
        // afterwards, alone
        let items = (0..3).map(|_| Item::Call(Job::plain(pick(rng, b).0.clone()))).collect();
        run.epochs.push(Epoch {
            rounds: 1,
            threads: vec![items],
        });
    }
    run.sched = sched_cfg(rng);
    run.mem = mem(rng, true);
    run.env = plain_env(rng);
    run
}

/// Very many calls of a few kinds, then everything once: counters wrap, tables fill,
/// what every failed call leaves behind adds up.
fn long_history(rng: &mut Rng, b: &Batch, bases: &[Base], run: &mut Run, points: u64) -> Option<Run> {
    let mut style = rng.below(8);
    let mut rounds = *rng.pick(&[300u32, 300, 1100, 1100, 4200, 10_100, 33_000, 66_000]);
    let known: Vec<u64> = crate::sys::numbers().iter().copied().filter(|k| (50..1_000_000).contains(k)).collect();
    if !known.is_empty() && rng.chance(1, 3) {
        // past a number that the crate knows
        let k = *rng.pick(&known);
        rounds = (k + k / rng.range(2, 20) + 3) as u32;
        if rounds > 30_000 {
            style = 3;
        }
    }
    let most = points / rounds as u64;
    let fits = |c: &&(Call, usize)| {
        let x = &bases[c.1];
        let fails = matches!(x.kind, Kind::Panic(_));
        let errs = x.text.starts_with(b"err") || x.text.starts_with(b"no valid");
        // an unwinding costs about as much as these many points
        x.steps + if fails || style > 3 { 3000 } else { 0 } < most
            && match style {
                0 | 1 => fails,
                2 => errs,
                6 => is_print(&c.0),
                _ => true,
            }
    };
    let mut cheap: Vec<&(Call, usize)> = b.calls.iter().filter(fits).collect();
    if cheap.iter().any(|c| bases[c.1].touch > 0) && rng.chance(3, 4) {
        cheap.retain(|c| bases[c.1].touch > 0);
    }
    if cheap.is_empty() {
        return None;
    }
    let mut items = vec![];
    for _ in 0..rng.range(1, 3) {
        let (c, bid) = *rng.pick(&cheap);
        items.push(Item::Call(match style {
            4 | 5 => {
                let mut j = faulted(rng, c, bases, *bid);
                j.retry = rng.chance(1, 4);
                j
            }
            6 => nested(rng, b, bases, c, *bid, 0),
            _ => Job::plain(c.clone()),
        }));
    }
    run.epochs.push(Epoch {
        rounds: if style == 6 { rounds.min(1100) } else { rounds },
        threads: vec![items],
    });
    let probe: Vec<Job> = b.calls.iter().map(|c| Job::plain(c.0.clone())).collect();
    if rng.chance(2, 3) {
        // on the same thread
        let last = run.epochs.last_mut().unwrap();
        last.threads[0].extend(probe.iter().cloned().map(|mut j| {
            j.once = true;
            Item::Call(j)
        }));
    }
    run.epochs.push(Epoch {
        rounds: 1,
        threads: vec![probe.into_iter().map(Item::Call).collect()],
    });
    run.mem.reuse = 0;
    run.mem.gaps = false;
    run.sched.quantum = u64::MAX / 4;
    Some(run.clone())
}

fn s02(rng: &mut Rng, b: &Batch, bases: &[Base], k: u64, state: bool) -> Run {
    let mut run = new_run("S02", b);
    run.mem = mem(rng, false);
    run.env = plain_env(rng);
    run.sched.seed = rng.next();
    if k == 0 || state && k % 3 == 1 {
        if let Some(r) = long_history(rng, b, bases, &mut run, 60_000_000) {
            return r;
        }
    }
    let style = rng.below(5);
    for _ in 0..rng.range(1, 4) {
        let mut items = vec![];
        let mut i = any(rng, b);
        let n = *rng.pick(&[2u64, 4, 8, 20, 60]) * if b.calls.len() > 60 { 8 } else { 1 };
        for _ in 0..n {
            if rng.chance(1, 2) {
                i = any(rng, b);
            } else {
                i = near(rng, b, i);
            }
            let (c, bid) = &b.calls[i];
            let job = match style {
                0 => Job::plain(c.clone()),
                1 if rng.chance(1, 3) => faulted(rng, c, bases, *bid),
                2 if rng.chance(1, 2) => nested(rng, b, bases, c, *bid, 0),
                _ if rng.chance(1, 6) => faulted(rng, c, bases, *bid),
                _ if rng.chance(1, 6) => nested(rng, b, bases, c, *bid, 0),
                _ => Job::plain(c.clone()),
            };
            let hurt = !job.oom.is_empty() || job.sink.fail_at >= 0;
            items.push(Item::Call(job));
            if hurt {
                // the calls right after a failed one
                for _ in 0..rng.below(3) {
                    let j = near(rng, b, i);
                    items.push(Item::Call(Job::plain(b.calls[j].0.clone())));
                }
            }
        }
        // threads one after the other, in one epoch or several
        let threads = if rng.chance(1, 4) {
            let mut second = vec![];
            for _ in 0..rng.range(1, 10) {
                second.push(Item::Call(Job::plain(pick(rng, b).0.clone())));
            }
            vec![items, second]
        } else {
            vec![items]
        };
        run.epochs.push(Epoch {
            rounds: *rng.pick(&[1u32, 1, 2, 5]),
            threads,
        });
    }
    run.sched.quantum = u64::MAX / 4;
    run
}

fn s03(rng: &mut Rng, b: &Batch) -> Run {
    let mut run = new_run("S03", b);
    run.mem = mem(rng, true);
    run.env = env(rng);
    run.effects = true;
    let n = *rng.pick(&[1usize, 1, 1, 2]);
    for _ in 0..rng.range(1, 2) {
        let mut threads = vec![vec![]; n];
        for t in threads.iter_mut() {
            for _ in 0..rng.range(4, 20) {
                t.push(Item::Call(Job::plain(pick(rng, b).0.clone())));
            }
        }
        run.epochs.push(Epoch {
            rounds: 1,
            threads,
        });
    }
    run.sched = sched_cfg(rng);
    run
}

fn s04(rng: &mut Rng, b: &Batch, bases: &[Base], k: u64) -> Run {
    let mut run = new_run("S04", b);
    run.mem = mem(rng, false);
    run.env = plain_env(rng);
    run.sched.seed = rng.next();
    if k % 8 == 7 {
        // the process aborts at the refusal
        run.abort = true;
        let (c, bid) = pick(rng, b);
        let mut j = Job::plain(c.clone());
        j.oom = oom(rng, &bases[*bid]);
        run.epochs.push(Epoch {
            rounds: 1,
            threads: vec![vec![Item::Call(j)]],
        });
        return run;
    }
    if k % 2 == 0 {
        // one call, a sweep over its allocations
        let (c, bid) = pick(rng, b);
        let a = bases[*bid].allocs.max(1);
        let step = (a / 60).max(1);
        let from = rng.below(step as u64) as u32;
        let len = *rng.pick(&[1u32, 1, 1, 2, 5, 1000]);
        let min = *rng.pick(&[0u32, 0, 0, 17, 33, 65, 129]);
        let mut items = vec![];
        let mut at = from;
        while at < a && items.len() < 70 {
            let mut j = Job::plain(c.clone());
            j.oom.push(Oom { at, len, min });
            j.retry = true;
            items.push(Item::Call(j));
            at += step;
            if rng.chance(1, 10) {
                items.push(Item::Call(Job::plain(pick(rng, b).0.clone())));
            }
        }
        run.epochs.push(Epoch {
            rounds: 1,
            threads: vec![items],
        });
        return run;
    }
    let n = *rng.pick(&[1usize, 1, 2, 3]);
    let mut threads = vec![vec![]; n];
    for t in threads.iter_mut() {
        for _ in 0..rng.range(2, 8) {
            let (c, bid) = pick(rng, b);
            let mut j = Job::plain(c.clone());
            if rng.chance(2, 3) {
                j.oom = oom(rng, &bases[*bid]);
                j.retry = rng.chance(3, 4);
            }
            t.push(Item::Call(j));
        }
    }
    if n > 1 && rng.chance(1, 2) {
        add_relays(rng, &mut run, b, &mut threads, true);
    }
    run.epochs.push(Epoch {
        rounds: *rng.pick(&[1u32, 1, 2]),
        threads,
    });
    run.sched = sched_cfg(rng);
    run
}

fn s05(rng: &mut Rng, b: &Batch, bases: &[Base], k: u64) -> Run {
    let mut run = new_run("S05", b);
    run.mem = mem(rng, false);
    run.mem.reuse = *rng.pick(&[0u8, 1, 1, 3]);
    run.env = plain_env(rng);
    run.leak = true;
    if k == 0 && rng.chance(1, 2) {
        // what only every so many calls leave behind
        if let Some(r) = long_history(rng, b, bases, &mut run, 20_000_000) {
            return r;
        }
    }
    let n = *rng.pick(&[1usize, 1, 2, 3]);
    let mut threads = vec![vec![]; n];
    for t in threads.iter_mut() {
        for _ in 0..rng.range(2, 9) {
            let (c, bid) = pick(rng, b);
            let j = match rng.below(6) {
                0 | 1 => faulted(rng, c, bases, *bid),
                2 => nested(rng, b, bases, c, *bid, 0),
                _ => Job::plain(c.clone()),
            };
            t.push(Item::Call(j));
        }
    }
    if n > 1 {
        add_relays(rng, &mut run, b, &mut threads, true);
    }
    for _ in 0..rng.range(1, 2) {
        run.epochs.push(Epoch {
            rounds: *rng.pick(&[2u32, 3, 6]),
            threads: threads.clone(),
        });
    }
    run.sched = sched_cfg(rng);
    run.sched.preempts = run.sched.preempts.min(5);
    run
}

fn s06(rng: &mut Rng, b: &Batch, bases: &[Base], k: u64) -> Option<Run> {
    let mut run = new_run("S06", b);
    run.mem = mem(rng, false);
    run.env = plain_env(rng);
    run.sched.seed = rng.next();
    let prints: Vec<&(Call, usize)> =
        b.calls.iter().filter(|c| is_print(&c.0) && bases[c.1].printed == 1).collect();
    if prints.is_empty() {
        return None;
    }
    let mut items = vec![];
    if k % 2 == 0 {
        // one value, a sweep over the bytes at which the writer stops
        let (c, bid) = *rng.pick(&prints);
        let base = &bases[*bid];
        let len = base.acc.len();
        let step = (len / 40).max(1);
        let mut at = rng.below(step as u64) as usize;
        let s = sink(rng, base, io_of(c));
        while at <= len && items.len() < 90 {
            let mut j = Job::plain(c.clone());
            j.sink = s.clone();
            j.sink.fail_at = at as i64;
            j.retry = true;
            items.push(Item::Call(j));
            if rng.chance(1, 4) {
                items.push(Item::Call(Job::plain(rng.pick(&prints).0.clone())));
            }
            at += step;
        }
    } else {
        for _ in 0..rng.range(4, 30) {
            let (c, bid) = *rng.pick(&prints);
            let j = match rng.below(4) {
                0 => Job::plain(c.clone()),
                1 => nested(rng, b, bases, c, *bid, 0),
                2 => {
                    let mut j = Job::plain(c.clone());
                    j.sink = sink(rng, &bases[*bid], io_of(c));
                    j.sink.fail_at = -1;
                    j
                }
                _ => {
                    let mut j = Job::plain(c.clone());
                    j.sink = sink(rng, &bases[*bid], io_of(c));
                    j.retry = rng.chance(1, 2);
                    j
                }
            };
            items.push(Item::Call(j));
        }
    }
    run.epochs.push(Epoch {
        rounds: 1,
        threads: vec![items],
    });
    Some(run)
}

fn s08(rng: &mut Rng, b: &Batch, bases: &[Base]) -> Run {
    let mut run = new_run("S08", b);
    run.mem = mem(rng, true);
    run.env = plain_env(rng);
    let n = many(rng, &[2, 2, 2, 3, 3, 4, 6, 12, 18]);
    let mut threads = vec![vec![]; n];
    let style = rng.below(4);
    let focus = any(rng, b);
    for (i, t) in threads.iter_mut().enumerate() {
        for _ in 0..if n > 4 { rng.range(1, 2) } else { rng.range(1, 5) } {
            let k = match style {
                0 => focus,
                1 => near(rng, b, focus),
                _ => any(rng, b),
            };
            let (c, bid) = &b.calls[k];
            let mut j = Job::plain(c.clone());
            if i + 1 < n && style != 3 && rng.chance(1, 4) {
                j = faulted(rng, c, bases, *bid);
                j.die = true;
                j.retry = false;
            }
            t.push(Item::Call(j));
        }
    }
    run.epochs.push(Epoch {
        rounds: *rng.pick(&[1u32, 1, 2]),
        threads,
    });
    run.sched = sched_cfg(rng);
    run.sched.quantum = 50_000;
    run.sched.stalls = *rng.pick(&[0u32, 1, 1, 2, 3]);
    run.sched.hot_stall = *rng.pick(&[0u32, 5, 15, 30]);
    if n > 4 {
        run.sched.stalls = rng.below(n as u64) as u32;
    }
    run
}

/// `state`: the crate has been seen to touch data that outlives a call.
pub fn make(prop: &str, rng: &mut Rng, b: &Batch, bases: &[Base], k: u64, state: bool) -> Option<Run> {
    let mut run = match prop {
        "S01" => s01(rng, b, bases),
        "S02" => s02(rng, b, bases, k, state),
        "S03" => s03(rng, b),
        "S04" => s04(rng, b, bases, k),
        "S05" => s05(rng, b, bases, k),
        "S06" => s06(rng, b, bases, k)?,
        "S08" => s08(rng, b, bases),
        _ => return None,
    };
    undoing(rng, b, bases, &mut run);
    Some(run)
}
