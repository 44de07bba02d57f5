//! Running simulated processes from the outside: baselines, runs, verdicts, minimising.
use crate::codec;
use crate::exec::{self, Base, Item, Job, Kind, Run};
use crate::gen;
use crate::rng::Rng;
use crate::sched::Decision;
use crate::shared::{shared, FK, FKS};
use crate::sys::{self, Ended};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};
use symbolic_rust::sim_hook::{Call, Spec};

#[derive(Default)]
pub struct Store {
    cache: BTreeMap<String, Option<usize>>,
    pub bases: Vec<Base>,
    pub made: u64,
    pub refused: u64,
    /// calls that break a property even when they are made alone
    alone: BTreeMap<String, (String, Vec<u8>, Vec<u8>)>,
    pub bad: Option<(String, Vec<u8>, Vec<u8>)>,
}

/// Result of one run.
#[derive(Default)]
pub struct Outcome {
    pub class: Option<String>,
    pub epoch: u32,
    pub thread: u32,
    pub item: u32,
    pub round: u32,
    pub got: Vec<u8>,
    pub exp: Vec<u8>,
    pub digest: u64,
    pub inter: u64,
    pub points: u64,
    pub switches: u64,
    pub hot: u64,
    pub tls: u64,
    pub clock: u64,
    pub calls: u64,
    pub compared: u64,
    pub faults: [u64; FKS],
    pub held: i64,
    pub late: i64,
    pub log: Vec<Decision>,
    pub log_full: bool,
}

pub fn is_harness(class: &str) -> bool {
    matches!(class, "harness" | "exhausted" | "timeout")
}

impl Store {
    pub fn baseline(&mut self, run: &Run, call: &Call) -> Option<usize> {
        let mut key = codec::text(call);
        let mut used = BTreeSet::new();
        gen::lents_of(call, &mut used);
        if !used.is_empty() && run.lent.is_empty() {
            return None;
        }
        for i in used {
            // the pool index is taken modulo the pool size
            if i >= run.lent.len() {
                return None;
            }
            key.push('|');
            key.push_str(&codec::text(&run.lent[i]));
        }
        let r = match self.cache.get(&key) {
            Some(r) => *r,
            None => {
                let r = self.make(run, call, &key);
                self.cache.insert(key.clone(), r);
                r
            }
        };
        if self.bad.is_none() {
            self.bad = self.alone.get(&key).cloned();
        }
        r
    }

    fn make(&mut self, run: &Run, call: &Call, key: &str) -> Option<usize> {
        let mut plain = run.clone();
        plain.epochs.clear();
        plain.env = Default::default();
        plain.mem = Default::default();
        plain.sched = Default::default();
        plain.abort = false;
        plain.effects = false;
        let sh = shared();
        sh.clear();
        self.made += 1;
        let e = sys::in_child(|| exec::base_child(&plain, call));
        let prop = run.prop.as_str();
        let mut alone = |class: &str, got: Vec<u8>, exp: &[u8]| {
            self.alone.insert(key.to_string(), (class.to_string(), got, exp.to_vec()));
        };
        if !matches!(e, Ended::Code(0)) || sh.class_len != 0 || sh.done != 1 {
            // most of these merely take too long; some break a property all by themselves
            let got = sh.got[..sh.got_len].to_vec();
            let class = sh.class_str();
            let exp = b"a call made alone in a fresh process ends properly";
            if prop == "S05" && class == "memory" {
                alone("memory", got, exp);
            } else if prop == "S08" && (class == "deadlock" || class == "held-up") {
                alone("deadlock", got, exp);
            } else if sh.class_len == 0 {
                match e {
                    Ended::Signal(s @ (4 | 7 | 8 | 11)) if prop == "S05" && !sys::near_stack(sh.fault_at) => {
                        alone("crash", format!("the process died of signal {}", s).into_bytes(), exp);
                    }
                    Ended::Code(c) if prop == "S03" => {
                        alone("side-effect", format!("a call ended the process with status {}", c).into_bytes(), exp);
                    }
                    _ => {}
                }
            }
            self.refused += 1;
            if std::env::var_os("SIM_DEBUG").is_some() {
                let e = match e {
                    Ended::Code(c) => c,
                    Ended::Signal(s) => -s,
                };
                let got = String::from_utf8_lossy(&sh.got[..sh.got_len.min(100)]);
                eprintln!("refused {} {} {} {:?}", e, sh.class_str(), got, call);
            }
            return None;
        }
        if prop == "S06" && sh.base_begun == 1 {
            let acc = sh.base_acc[..sh.base_acc_len].to_vec();
            let exp = b"printing to a writer that accepts everything succeeds";
            // (arithmetic that overflows in a value while it is printed is not judged here)
            if sh.base_kind == 1 && sh.base_printed != 1 {
                alone("print", [b"printing reported an error after ", &acc[..]].concat(), exp);
            }
            let said = &sh.got[..sh.got_len];
            if sh.base_kind == 2 && !said.windows(11).any(|w| w == b"attempt to ") {
                alone("print", [b"printing panicked: ", said].concat(), exp);
            }
        }
        let kind = if sh.base_kind == 2 {
            Kind::Panic(String::from_utf8_lossy(&sh.got[..sh.got_len]).into_owned())
        } else {
            Kind::Done
        };
        self.bases.push(Base {
            kind,
            text: sh.base_text[..sh.base_text_len].to_vec(),
            acc: sh.base_acc[..sh.base_acc_len].to_vec(),
            printed: sh.base_printed,
            steps: sh.base_steps,
            allocs: sh.base_allocs,
            writes: sh.base_writes,
            round_dependent: gen::round_dependent(call),
            threads: sh.base_threads,
            touch: sh.hot_hits + sh.tls_hits,
        });
        let b = self.bases.len() - 1;
        if prop == "S06" {
            self.same_text(run, call, key, b);
        }
        Some(b)
    }

    /// The full text is the same one through every kind of writer.
    fn same_text(&mut self, run: &Run, call: &Call, key: &str, b: usize) {
        let (v, fmt, io) = match call {
            Call::Print(v, fmt, io) => (v, *fmt, *io),
            _ => return,
        };
        if !matches!(fmt, 0 | 1 | 5 | 6) || (fmt < 2 && !io) || self.bases[b].printed != 1 {
            return;
        }
        let plain = Call::Print(v.clone(), (fmt == 1) as u8, false);
        if let Some(p) = self.baseline(run, &plain) {
            let t = &self.bases[p].acc[..];
            let want = match fmt {
                5 => [b"[", t, b"|", t, b"]"].concat(),
                6 => [t, b"\n"].concat(),
                _ => t.to_vec(),
            };
            let got = self.bases[b].acc.clone();
            if self.bases[p].printed == 1 && got != want {
                self.alone.insert(key.to_string(), ("print-outcome".into(), got, want));
            }
        }
    }

    /// The verdict on a run, baselines included. None: no answer.
    pub fn verdict(&mut self, run: &mut Run) -> Option<Outcome> {
        self.bad = None;
        let ok = self.resolve(run);
        if let Some((class, got, exp)) = self.bad.take() {
            return Some(Outcome {
                class: Some(class),
                got,
                exp,
                ..Default::default()
            });
        }
        if ok {
            Some(self.execute(run))
        } else {
            None
        }
    }

    /// Fill in the baselines of everything a run does. False: something has none.
    pub fn resolve(&mut self, run: &mut Run) -> bool {
        let view = Run {
            epochs: vec![],
            relays: vec![],
            ..run.clone()
        };
        run.lent_bid.clear();
        for s in &view.lent {
            match self.baseline(&view, &Call::Make(s.clone())) {
                Some(b) => run.lent_bid.push(b),
                None => return false,
            }
        }
        for r in run.relays.iter_mut() {
            match self.baseline(&view, &r.call) {
                Some(b) => r.bid = b,
                None => return false,
            }
        }
        for e in run.epochs.iter_mut() {
            for t in e.threads.iter_mut() {
                for i in t.iter_mut() {
                    if let Item::Call(j) = i {
                        if !self.resolve_job(&view, j) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    }

    fn resolve_job(&mut self, view: &Run, j: &mut Job) -> bool {
        match self.baseline(view, &j.call) {
            Some(b) => j.bid = b,
            None => return false,
        }
        j.nested.iter_mut().chain(j.undo.iter_mut()).all(|n| self.resolve_job(view, n))
    }

    fn once(&self, run: &Run) -> Outcome {
        let sh = shared();
        sh.clear();
        let e = sys::in_child(|| exec::child(run, &self.bases));
        let mut class = None;
        let mut got = sh.got[..sh.got_len].to_vec();
        if sh.class_len != 0 {
            class = Some(sh.class_str());
        } else {
            match e {
                Ended::Code(0) if sh.done == 1 => {}
                Ended::Signal(6) if run.abort && sh.faults[FK::Oom as usize] > 0 => {
                    sh.count(FK::Abort);
                }
                Ended::Signal(14) => class = Some("timeout".into()),
                Ended::Signal(9) => {
                    class = Some("harness".into());
                    got = b"the simulated process was killed".to_vec();
                }
                Ended::Signal(24) => {
                    class = Some("no-progress".into());
                    got = b"processor time exhausted".to_vec();
                }
                Ended::Signal(s) => {
                    class = Some("crash".into());
                    got = format!("the process died of signal {}", s).into_bytes();
                }
                Ended::Code(c) => {
                    class = Some("harness".into());
                    got = format!("the simulated process ended with status {}", c).into_bytes();
                }
            }
        }
        Outcome {
            class,
            epoch: sh.epoch,
            thread: sh.thread,
            item: sh.item,
            round: sh.round,
            got,
            exp: sh.exp[..sh.exp_len].to_vec(),
            digest: sh.digest,
            inter: sh.inter,
            points: sh.points,
            switches: sh.switches,
            hot: sh.hot_hits,
            tls: sh.tls_hits,
            clock: sh.clock,
            calls: sh.calls,
            compared: sh.compared,
            faults: sh.faults,
            held: sh.end_bytes,
            late: sh.late_bytes,
            log: sh.log[..sh.log_len].to_vec(),
            log_full: sh.log_len >= crate::shared::LOG_CAP,
        }
    }

    /// A run and its verdict.
    pub fn execute(&self, run: &Run) -> Outcome {
        let mut o = self.once(run);
        if run.leak && o.class.is_none() && (o.held > 0 || o.late > 0) {
            // something is still held: does it grow with the calls made, or with the threads?
            let mut more = run.clone();
            let f = (300_000_000 / (o.points + 1)).clamp(4, 60) as u32;
            for e in more.epochs.iter_mut() {
                e.rounds *= f;
            }
            let l = self.once(&more);
            let mut churn = run.clone();
            let g = (300_000_000 / (o.points + 1)).clamp(4, 25) as usize;
            let ep = churn.epochs.clone();
            for _ in 1..g {
                churn.epochs.extend(ep.iter().cloned());
            }
            let c = self.once(&churn);
            for (x, k, what) in [(&l, f as i64, "calls"), (&c, g as i64, "calls and threads")] {
                if x.class.is_none() && x.held * 2 > o.held * k {
                    o.class = Some("leak".into());
                    o.got = format!(
                        "{} bytes are still held after everything was dropped; {} times the {} hold {} bytes",
                        o.held, k, what, x.held
                    )
                    .into_bytes();
                    o.exp = b"nothing is held, or at least nothing that grows".to_vec();
                    break;
                }
            }
            // what a thread keeps for as long as it lives
            if o.class.is_none() && l.class.is_none() && o.late > 0 && l.late * 2 > o.late * f as i64 {
                o.class = Some("leak".into());
                o.got = format!(
                    "{} bytes are still held for a thread that has dropped everything; {} times the calls hold {} bytes",
                    o.late, f, l.late
                )
                .into_bytes();
                o.exp = b"nothing is held, or at least nothing that grows".to_vec();
            }
        }
        o
    }
}

// ---- minimising ---------------------------------------------------------------------------

pub struct Shrinker<'a> {
    pub store: &'a mut Store,
    pub until: Instant,
    pub tries: u64,
    class: String,
}

fn same_family(a: &str, b: &str) -> bool {
    a == b || !is_harness(a) && !is_harness(b)
}

impl<'a> Shrinker<'a> {
    pub fn new(store: &'a mut Store, class: &str, limit: Duration) -> Shrinker<'a> {
        Shrinker {
            store,
            until: Instant::now() + limit,
            tries: 0,
            class: class.to_string(),
        }
    }

    fn over(&self) -> bool {
        Instant::now() > self.until
    }

    fn bad(&mut self, run: &mut Run) -> bool {
        self.tries += 1;
        match self.store.verdict(run).and_then(|o| o.class) {
            Some(c) => same_family(&c, &self.class),
            None => false,
        }
    }

    /// Does a structurally smaller run still fail, under this schedule or another one?
    fn still(&mut self, run: &mut Run) -> bool {
        if self.bad(run) {
            return true;
        }
        let threads = run.epochs.iter().any(|e| e.threads.len() > 1);
        if run.sched.replay || !threads {
            return false;
        }
        let old = run.sched.seed;
        let mut r = Rng::new(old ^ 0x51);
        for _ in 0..6 {
            if self.over() {
                break;
            }
            run.sched.seed = r.next();
            if self.bad(run) {
                return true;
            }
        }
        run.sched.seed = old;
        false
    }

    fn try_edit(&mut self, run: &mut Run, f: impl FnOnce(&mut Run) -> bool) -> bool {
        if self.over() {
            return false;
        }
        let mut c = run.clone();
        if !f(&mut c) || c == *run {
            return false;
        }
        if self.still(&mut c) {
            *run = c;
            true
        } else {
            false
        }
    }

    pub fn shrink(&mut self, run: &mut Run) {
        for _pass in 0..4 {
            let before = codec::text(run);
            // whole epochs
            let mut i = 0;
            while i < run.epochs.len() && run.epochs.len() > 1 {
                if !self.try_edit(run, |r| {
                    r.epochs.remove(i);
                    true
                }) {
                    i += 1;
                }
            }
            // relays
            let mut i = run.relays.len();
            while i > 0 {
                i -= 1;
                self.try_edit(run, |r| {
                    drop_relay(r, i);
                    true
                });
            }
            // threads
            for e in 0..run.epochs.len() {
                let mut t = 0;
                while t < run.epochs[e].threads.len() && run.epochs[e].threads.len() > 1 {
                    let has_stage = run.epochs[e].threads[t].iter().any(|i| matches!(i, Item::Stage(..)));
                    if has_stage
                        || !self.try_edit(run, |r| {
                            r.epochs[e].threads.remove(t);
                            true
                        })
                    {
                        t += 1;
                    }
                }
            }
            // rounds
            for e in 0..run.epochs.len() {
                while run.epochs[e].rounds > 1 {
                    let n = run.epochs[e].rounds;
                    if !self.try_edit(run, |r| {
                        r.epochs[e].rounds = n / 2;
                        true
                    }) && !self.try_edit(run, |r| {
                        r.epochs[e].rounds = n - (n / 8).max(1);
                        true
                    }) {
                        break;
                    }
                }
            }
            // items, in blocks of decreasing size
            for e in 0..run.epochs.len() {
                for t in 0..run.epochs[e].threads.len() {
                    let mut block = (run.epochs[e].threads[t].len() / 2).max(1);
                    loop {
                        let mut i = 0;
                        while i < run.epochs[e].threads[t].len() {
                            let end = (i + block).min(run.epochs[e].threads[t].len());
                            if run.epochs[e].threads[t][i..end].iter().any(|x| matches!(x, Item::Stage(..)))
                                || !self.try_edit(run, |r| {
                                    r.epochs[e].threads[t].drain(i..end);
                                    true
                                })
                            {
                                i += block;
                            }
                        }
                        if block == 1 || self.over() {
                            break;
                        }
                        block /= 2;
                    }
                }
            }
            // faults of single calls
            for e in 0..run.epochs.len() {
                for t in 0..run.epochs[e].threads.len() {
                    for i in 0..run.epochs[e].threads[t].len() {
                        if !matches!(run.epochs[e].threads[t][i], Item::Call(_)) {
                            continue;
                        }
                        let edits: [fn(&mut Job); 10] = [
                            |j| j.undo.clear(),
                            |j| j.undo.truncate(1),
                            |j| j.nested.clear(),
                            |j| {
                                j.nested.truncate(1);
                            },
                            |j| j.sink = Default::default(),
                            |j| j.oom.clear(),
                            |j| j.oom.truncate(1),
                            |j| j.retry = false,
                            |j| j.sink.eintr = 0,
                            |j| j.sink.short = 0,
                        ];
                        for f in edits {
                            self.try_edit(run, |r| {
                                if let Item::Call(j) = &mut r.epochs[e].threads[t][i] {
                                    f(j);
                                }
                                true
                            });
                        }
                    }
                }
            }
            // surroundings
            self.try_edit(run, |r| {
                r.env = Default::default();
                true
            });
            self.try_edit(run, |r| {
                r.mem = Default::default();
                true
            });
            let edits: [fn(&mut Run); 16] = [
                |r| r.env.ids = 0,
                |r| r.env.args = false,
                |r| r.env.named = 0,
                |r| r.env.vars = false,
                |r| r.env.clock = 0,
                |r| r.env.stdio = 0,
                |r| r.env.files = 0,
                |r| r.env.cpus = 8,
                |r| r.env.stack_pad = 0,
                |r| r.mem.gaps = false,
                |r| r.mem.spread = 0,
                |r| r.mem.moving = false,
                |r| r.mem.shared = false,
                |r| r.mem.garbage = 0,
                |r| r.mem.reuse = 0,
                |r| {
                    if !r.lent.is_empty() && !uses_lent(r) {
                        r.lent.clear()
                    }
                },
            ];
            for f in edits {
                self.try_edit(run, |r| {
                    f(r);
                    true
                });
            }
            // the expressions themselves
            self.shrink_specs(run);
            if codec::text(run) == before || self.over() {
                break;
            }
        }
        // from the seeded schedule to an explicit one, then fewer decisions
        if !run.sched.replay {
            if self.store.resolve(run) {
                let o = self.store.execute(run);
                if o.class.is_some() && !o.log_full && !o.log.is_empty() {
                    let mut c = run.clone();
                    c.sched.replay = true;
                    c.sched.decisions = o.log.clone();
                    if self.bad(&mut c) {
                        *run = c;
                    }
                }
            }
        }
        if run.sched.replay {
            let mut block = (run.sched.decisions.len() / 2).max(1);
            while !run.sched.decisions.is_empty() && !self.over() {
                let mut i = 0;
                let mut any = false;
                while i < run.sched.decisions.len() && !self.over() {
                    let mut c = run.clone();
                    let end = (i + block).min(c.sched.decisions.len());
                    c.sched.decisions.drain(i..end);
                    if self.bad(&mut c) {
                        *run = c;
                        any = true;
                    } else {
                        i += block;
                    }
                }
                if block == 1 && !any {
                    break;
                }
                block = (block / 2).max(1);
            }
        }
    }

    fn shrink_specs(&mut self, run: &mut Run) {
        // every expression of every call, addressed by its number
        let mut k = 0;
        while k < count_specs(run) && !self.over() {
            let mut done = false;
            for choice in 0..4 {
                if self.try_edit(run, |r| edit_spec(r, k, choice)) {
                    done = true;
                    break;
                }
            }
            if !done {
                k += 1;
            }
        }
    }
}

fn drop_relay(r: &mut Run, i: usize) {
    for e in r.epochs.iter_mut() {
        for t in e.threads.iter_mut() {
            t.retain(|x| !matches!(x, Item::Stage(k, _, _) if *k == i));
            for x in t.iter_mut() {
                if let Item::Stage(k, _, _) = x {
                    if *k > i {
                        *k -= 1;
                    }
                }
            }
        }
    }
    r.relays.remove(i);
}

fn each_call(r: &mut Run, f: &mut dyn FnMut(&mut Call)) {
    fn job(j: &mut Job, f: &mut dyn FnMut(&mut Call)) {
        f(&mut j.call);
        for n in j.nested.iter_mut().chain(j.undo.iter_mut()) {
            job(n, f);
        }
    }
    for rl in r.relays.iter_mut() {
        f(&mut rl.call);
    }
    for e in r.epochs.iter_mut() {
        for t in e.threads.iter_mut() {
            for i in t.iter_mut() {
                if let Item::Call(j) = i {
                    job(j, f);
                }
            }
        }
    }
}

fn uses_lent(r: &Run) -> bool {
    let mut c = r.clone();
    let mut u = BTreeSet::new();
    each_call(&mut c, &mut |c| gen::lents_of(c, &mut u));
    !u.is_empty()
}

fn each_spec(r: &mut Run, f: &mut dyn FnMut(&mut Spec)) {
    each_call(r, &mut |c| gen::specs(c, &mut *f));
}

fn count_specs(r: &Run) -> usize {
    let mut c = r.clone();
    let mut n = 0;
    each_spec(&mut c, &mut |_| n += 1);
    n
}

/// Replace the k-th expression by something smaller, wherever the same one occurs.
fn edit_spec(r: &mut Run, k: usize, choice: u8) -> bool {
    let mut c = r.clone();
    let mut n = 0;
    let mut target = None;
    each_spec(&mut c, &mut |s| {
        if n == k {
            target = Some(s.clone());
        }
        n += 1;
    });
    let old = match target {
        Some(t) => t,
        None => return false,
    };
    let new = match (&old, choice) {
        (Spec::Un(_, a), 0) => (**a).clone(),
        (Spec::Bin(_, a, _), 0) => (**a).clone(),
        (Spec::Bin(_, _, b), 1) => (**b).clone(),
        (Spec::Un(..), 2) | (Spec::Bin(..), 2) => Spec::Var("x".into()),
        (Spec::Un(..), 3) | (Spec::Bin(..), 3) => Spec::Int(0, 1),
        (Spec::Lent(_), 2) => Spec::Var("x".into()),
        _ => return false,
    };
    each_spec(r, &mut |s| {
        if *s == old {
            *s = new.clone();
        }
    });
    true
}
