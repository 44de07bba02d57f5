//! One simulated process: builds the lent values, runs the epochs of a run thread by
//! thread under the scheduler, and compares every outcome with its baseline.
use crate::arena::{self, MemCfg};
use crate::rng::{hash_bytes, mix};
use crate::sched::{self, cur, sched, Ctx, Oom, SchedCfg, St};
use crate::shared::{shared, FK};
use crate::sys::{self, EnvCfg};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use symbolic_rust::sim_hook::{self as bridge, Call, Cx, Expression, Spec};

/// What a writer does to a print.
#[derive(Clone, Debug, PartialEq)]
pub struct SinkCfg {
    /// bytes accepted before the writer fails; negative: it does not
    pub fail_at: i64,
    /// how many writes in a row fail; 0: all from then on
    pub count: u32,
    /// 0 error, 1 panic, 2 "wrote nothing" (io) or error (fmt)
    pub mode: u8,
    /// the failing write still accepts what fits
    pub partial: bool,
    /// every n-th write is interrupted once (io)
    pub eintr: u32,
    /// most bytes accepted by one write (io)
    pub short: u32,
    /// the write that makes the nested calls; negative: none
    pub reenter: i32,
}

impl Default for SinkCfg {
    fn default() -> Self {
        SinkCfg {
            fail_at: -1,
            count: 0,
            mode: 0,
            partial: false,
            eintr: 0,
            short: 0,
            reenter: -1,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Job {
    pub call: Call,
    pub sink: SinkCfg,
    pub oom: Vec<Oom>,
    /// repeat the call without faults if it was unwound
    pub retry: bool,
    /// the thread dies with the call if that is unwound
    pub die: bool,
    /// made in the last round only
    pub once: bool,
    /// calls made by the writer while it is written to
    pub nested: Vec<Job>,
    /// calls made by a destructor of the caller while the call is unwound
    pub undo: Vec<Job>,
    /// index of the baseline
    pub bid: usize,
}

impl Job {
    pub fn plain(call: Call) -> Job {
        Job {
            call,
            sink: SinkCfg::default(),
            oom: vec![],
            retry: false,
            die: false,
            once: false,
            nested: vec![],
            undo: vec![],
            bid: usize::MAX,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Call(Job),
    /// the k-th stage of a relay
    Stage(usize, usize, Vec<Oom>),
}

/// A chain of operations whose intermediate values travel between threads.
#[derive(Clone, Debug, PartialEq)]
pub struct Relay {
    pub call: Call,
    /// stage k performs steps cuts[k-1]..cuts[k]
    pub cuts: Vec<usize>,
    pub bid: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Epoch {
    pub rounds: u32,
    pub threads: Vec<Vec<Item>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub prop: String,
    pub origin: String,
    pub lent: Vec<Spec>,
    pub lent_bid: Vec<usize>,
    pub relays: Vec<Relay>,
    pub epochs: Vec<Epoch>,
    pub env: EnvCfg,
    pub mem: MemCfg,
    pub sched: SchedCfg,
    /// side effects are violations
    pub effects: bool,
    /// a refused allocation aborts the process
    pub abort: bool,
    /// judge the memory held after the epochs
    pub leak: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Done,
    Oom,
    Sink,
    Panic(String),
}

/// What a call does when it is the first one of a fresh process.
#[derive(Clone, Debug)]
pub struct Base {
    pub kind: Kind,
    pub text: Vec<u8>,
    pub acc: Vec<u8>,
    /// 0 nothing printed, 1 ok, 2 error
    pub printed: u32,
    pub steps: u64,
    pub allocs: u32,
    pub writes: u32,
    pub round_dependent: bool,
    /// threads it starts
    pub threads: u32,
    /// accesses to data that outlives the call
    pub touch: u64,
}

struct OomTag;
struct SinkTag;

struct World {
    run: *const Run,
    bases: *const Vec<Base>,
    pool: Vec<Expression>,
    mail: BTreeMap<(usize, u32, usize), Result<Expression, String>>,
    dead: BTreeSet<(usize, u32)>,
    boot: bool,
}

static mut WORLD: *mut World = std::ptr::null_mut();
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}
fn run() -> &'static Run {
    unsafe { &*world().run }
}
fn base(i: usize) -> &'static Base {
    unsafe { &(&*world().bases)[i] }
}

// ---- observer ---------------------------------------------------------------------------

const OB_CAP: usize = 160 << 10;

struct Ob<'a> {
    text: Vec<u8>,
    acc: Vec<u8>,
    printed: u32,
    cfg: &'a SinkCfg,
    nested: &'a [Job],
    begun: bool,
    writes: u32,
    failing: u32,
    errors: u32,
    panicked: bool,
    depth: u32,
}

impl<'a> Ob<'a> {
    fn new(cfg: &'a SinkCfg, nested: &'a [Job], depth: u32) -> Ob<'a> {
        Ob {
            text: Vec::new(),
            acc: Vec::new(),
            printed: 0,
            cfg,
            nested,
            begun: false,
            writes: 0,
            failing: 0,
            errors: 0,
            panicked: false,
            depth,
        }
    }

    fn too_long(&self) {
        if self.text.len() > OB_CAP || self.acc.len() > OB_CAP {
            if world().boot {
                sched::fail("baseline", "text too long");
            }
            // (what a call gives in later rounds, where it depends on the round, is not known)
            let loose = unsafe { (*cur()).loose };
            sched::fail(if loose { "exhausted" } else { "outcome" }, "the call produced far more text than when it is made alone");
        }
    }

    /// One write of the crate arrives. Ok(n): n bytes accepted. Err(true): panic.
    fn arrive(&mut self, b: &[u8], io: bool) -> Result<usize, ArriveErr> {
        self.writes += 1;
        let w = self.writes as i64 - 1;
        self.too_long();
        if self.cfg.reenter >= 0 && w == self.cfg.reenter as i64 {
            shared().count(FK::Reenter);
            let c = unsafe { &mut *cur() };
            let n0 = c.n;
            for j in self.nested {
                exec_job(j, self.depth + 1);
            }
            c.budget = c.budget.saturating_add(c.n - n0);
            c.rearm();
        }
        if io && self.cfg.eintr > 0 && self.writes % (self.cfg.eintr + 1) == 0 {
            shared().count(FK::SinkEintr);
            return Err(ArriveErr::Interrupted);
        }
        let mut take = b.len();
        if self.cfg.fail_at >= 0 {
            let room = self.cfg.fail_at - self.acc.len() as i64;
            let over = b.len() as i64 > room;
            let spent = self.cfg.count > 0 && self.failing >= self.cfg.count;
            if !spent && (over || self.failing > 0) && !b.is_empty() {
                if self.failing == 0 && self.cfg.partial && room > 0 {
                    self.acc.extend_from_slice(&b[..room as usize]);
                    if io {
                        shared().count(FK::SinkShort);
                        // the next write fails
                        return Ok(room as usize);
                    }
                }
                self.failing += 1;
                self.errors += 1;
                return Err(match self.cfg.mode {
                    1 => {
                        self.panicked = true;
                        shared().count(FK::SinkPanic);
                        ArriveErr::Panic
                    }
                    2 => {
                        shared().count(FK::SinkError);
                        ArriveErr::Zero
                    }
                    _ => {
                        shared().count(FK::SinkError);
                        ArriveErr::Error
                    }
                });
            }
        }
        if io && self.cfg.short > 0 && take > self.cfg.short as usize {
            take = self.cfg.short as usize;
            shared().count(FK::SinkShort);
        }
        self.acc.extend_from_slice(&b[..take]);
        Ok(take)
    }
}

enum ArriveErr {
    Error,
    Zero,
    Panic,
    Interrupted,
}

fn off() -> &'static mut Ctx {
    let c = unsafe { &mut *cur() };
    c.in_sut = false;
    c
}

impl<'a> std::fmt::Write for Ob<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let c = off();
        let r = self.arrive(s.as_bytes(), false);
        c.in_sut = true;
        match r {
            Ok(_) => Ok(()),
            Err(ArriveErr::Panic) => resume_unwind(Box::new(SinkTag)),
            Err(_) => Err(std::fmt::Error),
        }
    }
}

impl<'a> std::io::Write for Ob<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        let c = off();
        let r = self.arrive(b, true);
        let r = match r {
            Ok(n) => Ok(n),
            Err(ArriveErr::Panic) => {
                c.in_sut = true;
                resume_unwind(Box::new(SinkTag))
            }
            Err(ArriveErr::Zero) => Ok(0),
            Err(ArriveErr::Interrupted) => Err(Error::from(ErrorKind::Interrupted)),
            Err(ArriveErr::Error) => Err(Error::from_raw_os_error(if self.errors % 2 == 0 { 28 } else { 32 })),
        };
        c.in_sut = true;
        r
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl<'a> bridge::Env for Ob<'a> {
    fn out(&mut self, s: &str) {
        let c = off();
        self.text.extend_from_slice(s.as_bytes());
        self.too_long();
        c.in_sut = true;
    }
    fn fmt_sink(&mut self) -> &mut dyn std::fmt::Write {
        self.begun = true;
        self
    }
    fn io_sink(&mut self) -> &mut dyn std::io::Write {
        self.begun = true;
        self
    }
    fn printed(&mut self, ok: bool) {
        let c = off();
        self.printed = if ok { 1 } else { 2 };
        c.in_sut = true;
    }
}

fn kind_of(r: Result<(), Box<dyn std::any::Any + Send>>) -> Kind {
    match r {
        Ok(()) => Kind::Done,
        Err(p) => {
            if p.is::<OomTag>() {
                Kind::Oom
            } else if p.is::<SinkTag>() {
                Kind::Sink
            } else if let Some(s) = p.downcast_ref::<&'static str>() {
                Kind::Panic(s.to_string())
            } else if let Some(s) = p.downcast_ref::<String>() {
                Kind::Panic(s.clone())
            } else {
                Kind::Panic("(other payload)".to_string())
            }
        }
    }
}

fn report(kind: &Kind, printed: u32, text: &[u8], acc: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    match kind {
        Kind::Done => v.extend_from_slice(b"returned"),
        Kind::Oom => v.extend_from_slice(b"unwound by a refused allocation"),
        Kind::Sink => v.extend_from_slice(b"unwound by the writer's panic"),
        Kind::Panic(s) => {
            v.extend_from_slice(b"panicked: ");
            v.extend_from_slice(s.as_bytes());
        }
    }
    match printed {
        1 => v.extend_from_slice(b"; printing reported success"),
        2 => v.extend_from_slice(b"; printing reported an error"),
        _ => {}
    }
    if !acc.is_empty() || printed > 0 {
        v.extend_from_slice(b"; written: ");
        v.extend_from_slice(acc);
    }
    if !text.is_empty() {
        v.extend_from_slice(b"; seen: ");
        v.extend_from_slice(text);
    }
    v
}

fn where_am_i() -> (u32, u32, u32, u32) {
    let c = unsafe { &*cur() };
    (sched().epoch, c.id, c.item, c.round)
}

fn violated(class: &str, got: &[u8], exp: &[u8]) -> ! {
    let (e, t, i, r) = where_am_i();
    shared().verdict(class, e, t, i, r, got, exp);
    sched::finish(0)
}

fn digest(x: u64) {
    let s = sched();
    s.digest = mix(s.digest ^ x);
}

/// Budget of steps for a call whose baseline takes `steps`.
fn budget_for(steps: u64) -> u64 {
    20_000_000 + 64 * steps
}

struct Saved {
    oom: Vec<Oom>,
    armed: bool,
    fired: bool,
    allocs: u32,
    budget: u64,
    loose: bool,
}

fn enter(c: &mut Ctx, oom: &[Oom], b: Option<&Base>) -> Saved {
    // the standard library's thread start does not survive an unwinding in its middle
    let oom = if b.map_or(0, |b| b.threads) > 0 { &[] } else { oom };
    let steps = b.map_or(10_000_000, |b| b.steps);
    let s = Saved {
        oom: std::mem::replace(&mut c.oom, oom.to_vec()),
        armed: c.oom_armed,
        fired: c.oom_fired,
        allocs: c.allocs,
        budget: c.budget,
        loose: c.loose,
    };
    c.loose = c.round != 0 && b.map_or(false, |b| b.round_dependent);
    c.oom_armed = !oom.is_empty();
    c.oom_fired = false;
    c.allocs = 0;
    c.budget = c.n + budget_for(steps);
    c.rearm();
    s
}

fn leave(c: &mut Ctx, s: Saved) {
    c.oom = s.oom;
    c.oom_armed = s.armed;
    c.oom_fired = s.fired;
    c.allocs = s.allocs;
    c.budget = s.budget;
    c.loose = s.loose;
    c.rearm();
}

static HOOKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Is the panic hook still the one that was there when the process started?
fn probe_hook() {
    let count = || HOOKED.load(std::sync::atomic::Ordering::Relaxed);
    let n = count();
    let _ = catch_unwind(|| panic!("probe"));
    if count() != n + 1 {
        sched::fail("side-effect", "a call replaced the panic hook of the process");
    }
}

/// Make a call and judge its outcome. False: the thread dies with it.
fn exec_job(job: &Job, depth: u32) -> bool {
    let ok = attempt(job, &job.sink, &job.oom, depth);
    match ok {
        After::Fine => true,
        After::Cut => {
            if job.die {
                shared().count(FK::Death);
                return false;
            }
            if job.retry {
                let none = SinkCfg::default();
                attempt(job, &none, &[], depth);
            }
            true
        }
    }
}

enum After {
    Fine,
    Cut,
}

/// A destructor of the caller that makes calls while it is unwound.
struct Undo<'a>(&'a [Job], u32);

impl Drop for Undo<'_> {
    fn drop(&mut self) {
        if self.0.is_empty() || !std::thread::panicking() {
            return;
        }
        let c = off();
        shared().count(FK::Undo);
        let n0 = c.n;
        for j in self.0 {
            exec_job(j, self.1 + 1);
        }
        c.budget = c.budget.saturating_add(c.n - n0);
        c.rearm();
        c.in_sut = true;
    }
}

fn attempt(job: &Job, sink: &SinkCfg, oom: &[Oom], depth: u32) -> After {
    let b = base(job.bid);
    let c = unsafe { &mut *cur() };
    let saved = enter(c, oom, Some(b));
    let mut ob = Ob::new(sink, &job.nested, depth);
    let cx = Cx {
        lent: &world().pool,
        round: c.round,
    };
    c.in_sut = true;
    if run().effects {
        sys::set_errno((mix(run().env.seed ^ c.n) % 134) as i32);
    }
    let mode = sys::float_mode();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _undo = Undo(&job.undo, depth);
        bridge::run(&job.call, &cx, &mut ob)
    }));
    c.in_sut = false;
    let kind = kind_of(r);
    let fired = c.oom_fired;
    leave(c, saved);
    if run().effects && sys::float_mode() != mode {
        sched::fail("side-effect", "a call changed the floating-point mode of its thread");
    }
    let sh = shared();
    sh.calls += 1;
    digest(hash_bytes(ob.errors as u64 * 2 + fired as u64, &ob.text));
    digest(hash_bytes(ob.printed as u64, &ob.acc));
    match &kind {
        Kind::Panic(m) => {
            digest(hash_bytes(7, m.as_bytes()));
            sh.count(FK::NaturalPanic);
        }
        Kind::Done => {
            if ob.text.starts_with(b"err ") || ob.text.starts_with(b"no valid limit") {
                sh.count(FK::NaturalError);
            }
        }
        _ => {}
    }
    judge(b, &kind, &ob, fired, c.round);
    if depth == 0 && run().effects {
        probe_hook();
    }
    if ob.panicked || (fired && kind != Kind::Done) || matches!(kind, Kind::Panic(_)) {
        After::Cut
    } else {
        After::Fine
    }
}

fn judge(b: &Base, kind: &Kind, ob: &Ob, fired: bool, round: u32) {
    if b.round_dependent && round != 0 {
        return;
    }
    shared().compared += 1;
    let same = *kind == b.kind && ob.text == b.text && ob.acc == b.acc && ob.printed == b.printed;
    if same && ob.errors == 0 {
        return;
    }
    let bad = |class: &str| -> ! {
        violated(
            class,
            &report(kind, ob.printed, &ob.text, &ob.acc),
            &report(&b.kind, b.printed, &b.text, &b.acc),
        )
    };
    if fired && matches!(kind, Kind::Oom | Kind::Panic(_)) {
        // cut short; what was seen until then must be right
        if !b.text.starts_with(&ob.text) || !b.acc.starts_with(&ob.acc) {
            bad("cut-short");
        }
        return;
    }
    if ob.panicked {
        if *kind != Kind::Sink || !b.acc.starts_with(&ob.acc) {
            bad("print");
        }
        return;
    }
    if ob.errors > 0 {
        if *kind != Kind::Done || ob.printed != 2 || !b.acc.starts_with(&ob.acc) || ob.text != b.text {
            bad("print");
        }
        return;
    }
    bad(if ob.printed > 0 || !ob.acc.is_empty() { "print-outcome" } else { "outcome" })
}

/// One stage of a relay. False: the thread dies.
fn exec_stage(relay: usize, k: usize, oom: &[Oom]) {
    let r = &run().relays[relay];
    let b = base(r.bid);
    let c = unsafe { &mut *cur() };
    let round = c.round;
    let (spec, steps) = match &r.call {
        Call::Chain(s, st) => (s, st),
        _ => return,
    };
    let w = world();
    let value = if k == 0 {
        None
    } else {
        loop {
            if w.dead.contains(&(relay, round)) {
                return;
            }
            if let Some(v) = w.mail.remove(&(relay, round, k)) {
                break Some(v);
            }
            c.wait_key = 0xA11 + relay;
            c.wait_bits = u32::MAX;
            c.wait_until = None;
            c.st = St::Blocked;
            sched().block(c);
            c.wait_key = 0;
        }
    };
    let saved = enter(c, oom, Some(b));
    let none = SinkCfg::default();
    let mut ob = Ob::new(&none, &[], 0);
    let cx = Cx {
        lent: &w.pool,
        round,
    };
    let from = if k == 0 { 0 } else { r.cuts[k - 1] };
    let to = r.cuts[k].min(steps.len());
    let last = k + 1 == r.cuts.len();
    let mut out = None;
    c.in_sut = true;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut e = match value {
            None => Ok(bridge::chain_start(spec, &cx)),
            Some(v) => v,
        };
        for st in &steps[from..to] {
            e = match e {
                Ok(x) => bridge::chain_step(x, st, &cx),
                Err(x) => Err(x),
            };
        }
        if last {
            bridge::chain_end(e, &mut ob);
        } else {
            out = Some(e);
        }
    }));
    c.in_sut = false;
    let kind = kind_of(res);
    let fired = c.oom_fired;
    leave(c, saved);
    shared().calls += 1;
    digest(hash_bytes(k as u64, &ob.text));
    if kind == Kind::Done && !last {
        w.mail.insert((relay, round, k + 1), out.take().unwrap());
    } else {
        w.dead.insert((relay, round));
        judge(b, &kind, &ob, fired, round);
    }
    sched().unblock(0xA11 + relay, u32::MAX, 100);
}

fn exec_items(items: &[Item], rounds: u32) {
    let c = unsafe { &mut *cur() };
    'all: for round in 0..rounds {
        c.round = round;
        for (i, it) in items.iter().enumerate() {
            c.item = i as u32;
            match it {
                Item::Call(j) if j.once && round + 1 < rounds => {}
                Item::Call(j) => {
                    if !exec_job(j, 0) {
                        // the thread is dead; relays it takes part in are too
                        for rr in round..rounds {
                            for it in items {
                                if let Item::Stage(r, _, _) = it {
                                    if rr > round || !world().dead.contains(&(*r, rr)) {
                                        world().dead.insert((*r, rr));
                                        sched().unblock(0xA11 + r, u32::MAX, 100);
                                    }
                                }
                            }
                        }
                        break 'all;
                    }
                }
                Item::Stage(r, k, oom) => exec_stage(*r, *k, oom),
            }
        }
    }
}

struct Start {
    ctx: *mut Ctx,
    items: *const Vec<Item>,
    rounds: u32,
}

extern "C" fn thread_main(arg: usize) -> usize {
    let st = unsafe { &*(arg as *const Start) };
    sched::set_cur(st.ctx);
    let c = unsafe { &mut *st.ctx };
    sched::wait(&c.go);
    c.rearm();
    exec_items(unsafe { &*st.items }, st.rounds);
    let alone = sched().ctxs.iter().all(|o| o.id == 0 || o.id == c.id || o.reaped);
    if alone && world().mail.is_empty() {
        shared().late_bytes = arena::arena().live_bytes - shared().pool_bytes;
    }
    // destructors of thread-local state run as part of the crate
    c.budget = c.n + budget_for(0);
    c.rearm();
    c.in_sut = true;
    0
}

/// What the owner of the lent values does, phase by phase.
static mut PHASE: u32 = 0;

fn look_at_pool(class: &str) {
    let c = unsafe { &mut *cur() };
    for (i, e) in world().pool.iter().enumerate() {
        let b = base(run().lent_bid[i]);
        let none = SinkCfg::default();
        let mut ob = Ob::new(&none, &[], 0);
        let saved = enter(c, &[], Some(b));
        c.in_sut = true;
        let r = catch_unwind(AssertUnwindSafe(|| bridge::see(e, &mut ob)));
        c.in_sut = false;
        let kind = kind_of(r);
        leave(c, saved);
        shared().compared += 1;
        digest(hash_bytes(3, &ob.text));
        if kind != b.kind || ob.text != b.text {
            violated(
                class,
                &report(&kind, 0, &ob.text, b""),
                &report(&b.kind, 0, &b.text, b""),
            );
        }
    }
}

extern "C" fn owner_main(arg: usize) -> usize {
    let c = unsafe { &mut *(arg as *mut Ctx) };
    sched::set_cur(c);
    loop {
        sched::wait(&c.go);
        c.rearm();
        match unsafe { PHASE } {
            0 => {
                let mut pool = Vec::new();
                let cx = Cx {
                    lent: &[],
                    round: 0,
                };
                let saved = enter(c, &[], None);
                for s in &run().lent {
                    c.in_sut = true;
                    let r = catch_unwind(AssertUnwindSafe(|| bridge::build(s, &cx)));
                    c.in_sut = false;
                    match r {
                        Ok(e) => pool.push(e),
                        Err(_) => sched::fail("outcome", "a lent value could not be built"),
                    }
                }
                leave(c, saved);
                world().pool = pool;
                // the first look at a lent value is sometimes the owner's, sometimes
                // that of the threads it is lent to
                if run().sched.seed % 3 == 0 {
                    look_at_pool("lent-value");
                }
            }
            1 => look_at_pool("lent-value"),
            _ => {
                c.in_sut = true;
                let p = std::mem::take(&mut world().pool);
                for e in p {
                    drop(e);
                }
                // values still in the mail (their relay died)
                let m = std::mem::take(&mut world().mail);
                c.in_sut = false;
                for (_, v) in m {
                    c.in_sut = true;
                    drop(v);
                    c.in_sut = false;
                }
                if run().effects {
                    // what calls have left in the buffer of a standard stream
                    use std::io::Write;
                    c.in_sut = true;
                    let _ = std::io::stdout().flush();
                    c.in_sut = false;
                }
                c.budget = c.n + budget_for(0);
                c.rearm();
                c.in_sut = true;
                return 0;
            }
        }
        c.st = St::New;
        sched().phase_done = true;
        sched::wake(&sched().ctl);
    }
}

fn prepare(run: &Run, bases: &Vec<Base>, boot: bool) {
    let loud = std::env::var_os("SIM_DEBUG").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if loud {
            eprintln!("{}", i);
        }
        HOOKED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }));
    if run.abort {
        let _ = std::alloc::take_alloc_error_hook();
    } else {
        std::alloc::set_alloc_error_hook(|_| {
            let c = cur();
            if !c.is_null() && unsafe { (*c).in_sut } {
                resume_unwind(Box::new(OomTag));
            }
        });
    }
    if run.env.vars {
        let mut r = crate::rng::Rng::new(run.env.seed ^ 0x7A55);
        sys::set_vars(&mut r);
    }
    if run.env.args {
        let mut r = crate::rng::Rng::new(run.env.seed ^ 0xA765);
        sys::set_args(&mut r);
    }
    sys::note_faults();
    arena::configure(&run.mem);
    sys::configure(&run.env, run.effects);
    sched::configure(&run.sched);
    let w = Box::new(World {
        run,
        bases,
        pool: vec![],
        mail: BTreeMap::new(),
        dead: BTreeSet::new(),
        boot,
    });
    unsafe {
        WORLD = Box::into_raw(w);
    }
}

fn owner_phase(p: u32) {
    unsafe { PHASE = p };
    let s = sched();
    s.multi = s.ctxs.iter().any(|c| c.spawned && !c.reaped);
    if s.multi {
        s.plan(0, 3_000);
    }
    s.ctxs[0].st = St::Ready;
    s.phase_done = false;
    let n = s.ctxs[0].n;
    let mut next = Some(0);
    while let Some(t) = next {
        let i = s.index(t);
        sched::wake(&s.ctxs[i].go);
        sched::wait(&s.ctl);
        match s.exited.take() {
            Some(x) => {
                s.reap(x);
            }
            None if s.phase_done => break,
            None => {}
        }
        if p == 2 && s.ctxs[0].reaped {
            break;
        }
        next = s.choose(0, n);
    }
}

/// The steps a thread is expected to take.
fn estimate(items: &[Item], rounds: u32) -> u64 {
    let mut n = 0;
    let mut once = 0;
    for it in items {
        n += match it {
            Item::Call(j) if j.once => {
                once += base(j.bid).steps;
                0
            }
            Item::Call(j) => base(j.bid).steps,
            Item::Stage(r, _, _) => {
                let r = &run().relays[*r];
                base(r.bid).steps / r.cuts.len().max(1) as u64
            }
        };
    }
    n * rounds as u64 + once
}

/// The whole life of a simulated process.
pub fn child(run: &Run, bases: &Vec<Base>) {
    for _ in 0..run.env.ids {
        let _ = std::thread::spawn(|| {}).join();
    }
    prepare(run, bases, false);
    let s = sched();
    let mut octx = sched::new_ctx(0);
    octx.st = St::Ready;
    let p: *mut Ctx = &mut *octx;
    s.ctxs.push(octx);
    let pad = (run.env.stack_pad as usize) << 6;
    s.ctxs[0].handle = sys::spawn_thread(0, sys::STACK_SIZE - pad, owner_main, p as usize);
    owner_phase(0);
    shared().pool_bytes = arena::arena().live_bytes;
    for (e, ep) in run.epochs.iter().enumerate() {
        s.epoch = e as u32;
        let mut starts = vec![];
        for (i, items) in ep.threads.iter().enumerate() {
            let mut c = sched::new_ctx(1 + i as u32);
            c.st = St::Ready;
            let st = Box::new(Start {
                ctx: &mut *c,
                items,
                rounds: ep.rounds,
            });
            s.ctxs.push(c);
            starts.push(st);
        }
        s.ctxs[0].st = St::New;
        s.multi = s.ctxs.iter().filter(|c| c.id != 0 && !c.reaped).count() > 1;
        let mut ests = vec![];
        for (i, items) in ep.threads.iter().enumerate() {
            let est = estimate(items, ep.rounds);
            s.plan(1 + i as u32, est);
            ests.push((1 + i as u32, est));
        }
        s.plan_stalls(&ests);
        // threads left behind by calls of an earlier epoch
        let left: Vec<u32> = s.ctxs.iter().filter(|c| c.spawned && !c.reaped).map(|c| c.id).collect();
        for id in left {
            s.plan(id, 3_000);
        }
        for (i, st) in starts.iter().enumerate() {
            let size = sys::STACK_SIZE - pad;
            let k = s.index(1 + i as u32);
            let arg = &**st as *const Start as usize;
            s.ctxs[k].handle = if run.env.named > 0 {
                let name = sys::thread_name(run.env.named, run.env.seed);
                sys::spawn_named(1 + i, size, name, thread_main, arg)
            } else {
                sys::spawn_thread(1 + i, size, thread_main, arg)
            };
        }
        s.drive((sched::CTL, 0));
        s.multi = false;
        let sh = shared();
        // threads that calls have left behind stay
        s.ctxs.retain(|c| {
            let stays = c.id == 0 || c.spawned;
            if !stays {
                sh.points_done += c.n - c.n0;
            }
            stays
        });
        drop(starts);
        world().dead.clear();
        if !run.lent.is_empty() {
            owner_phase(1);
        }
        digest(arena::arena().total);
        digest(arena::arena().live_bytes as u64);
    }
    owner_phase(2);
    let sh = shared();
    sh.end_blocks = arena::arena().live_blocks;
    sh.end_bytes = arena::arena().live_bytes;
    sh.done = 1;
    sched::finish(0);
}

/// The life of a baseline process: the lent values, then the call, nothing else.
struct BaseStart<'a> {
    ctx: *mut Ctx,
    run: &'a Run,
    call: &'a Call,
}

extern "C" fn base_main(arg: usize) -> usize {
    let st = unsafe { &*(arg as *const BaseStart) };
    sched::set_cur(st.ctx);
    let c = unsafe { &mut *st.ctx };
    let cx0 = Cx {
        lent: &[],
        round: 0,
    };
    c.budget = 2_000_000;
    c.rearm();
    let mut used = BTreeSet::new();
    crate::gen::lents_of(st.call, &mut used);
    for (i, s) in st.run.lent.iter().enumerate() {
        let spec = if used.contains(&i) { s } else { &Spec::Const(2) };
        c.in_sut = true;
        let e = bridge::build(spec, &cx0);
        c.in_sut = false;
        world().pool.push(e);
    }
    let n0 = c.n;
    c.allocs = 0;
    c.budget = n0 + BASE_STEPS;
    c.rearm();
    let none = SinkCfg::default();
    let mut ob = Ob::new(&none, &[], 0);
    let cx = Cx {
        lent: &world().pool,
        round: 0,
    };
    c.in_sut = true;
    let r = catch_unwind(AssertUnwindSafe(|| bridge::run(st.call, &cx, &mut ob)));
    c.in_sut = false;
    let kind = kind_of(r);
    let sh = shared();
    sh.base_kind = 1;
    if let Kind::Panic(m) = &kind {
        sh.base_kind = 2;
        let m = m.as_bytes();
        let n = m.len().min(crate::shared::TEXT_CAP);
        sh.got[..n].copy_from_slice(&m[..n]);
        sh.got_len = n;
    }
    sh.base_printed = ob.printed;
    sh.base_steps = c.n - n0;
    sh.base_allocs = c.allocs;
    sh.base_writes = ob.writes;
    sh.base_threads = sh.faults[FK::ThreadStart as usize] as u32;
    sh.base_begun = ob.begun as u32;
    sh.base_text[..ob.text.len()].copy_from_slice(&ob.text);
    sh.base_text_len = ob.text.len();
    sh.base_acc[..ob.acc.len()].copy_from_slice(&ob.acc);
    sh.base_acc_len = ob.acc.len();
    sh.done = 1;
    sched::finish(0)
}

pub const BASE_STEPS: u64 = 400_000;

pub fn base_child(run: &Run, call: &Call) {
    let bases = vec![];
    prepare(run, &bases, true);
    let s = sched();
    let mut ctx = sched::new_ctx(0);
    ctx.st = St::Ready;
    let p: *mut Ctx = &mut *ctx;
    s.ctxs.push(ctx);
    let st = BaseStart { ctx: p, run, call };
    s.ctxs[0].handle = sys::spawn_thread(0, sys::STACK_SIZE, base_main, &st as *const _ as usize);
    loop {
        sched::wait(&s.ctl);
        let n = match s.exited.take() {
            Some(x) => s.reap(x),
            None => 0,
        };
        if let Some(t) = s.choose(sched::CTL, n) {
            sched::wake(&s.ctxs[s.index(t)].go);
        }
    }
}
