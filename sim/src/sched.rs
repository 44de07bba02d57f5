//! The scheduler: real threads, exactly one of which runs at any time. Every
//! basic-block edge, load and store of the crate's code (compiler-inserted calls),
//! every allocation and every futex wait is a point where the scheduler may hand
//! the processor to another thread, suspend the thread, or let an allocation fail.
use crate::arena;
use crate::rng::{mix, Rng};
use crate::shared::{shared, FK};
use crate::sys;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const STALL: u32 = 1000;
pub const CTL: u32 = 1001;
pub const MAX_THREADS: usize = 72;
/// threads started by calls have ids from here
pub const FIRST_SPAWNED: u32 = 24;
pub const SPAWN_STACKS: usize = 128;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Decision {
    pub epoch: u32,
    pub thread: u32,
    pub n: u64,
    pub target: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    New,
    Ready,
    Blocked,
    Stalled,
    Finished,
}

/// Where an allocation is refused inside one call.
#[derive(Clone, Debug, PartialEq)]
pub struct Oom {
    /// index of the first refused allocation of the call
    pub at: u32,
    /// how many in a row are refused
    pub len: u32,
    /// refuse only requests of at least this size
    pub min: u32,
}

pub struct Ctx {
    pub id: u32,
    /// memory pool index
    pub slot: usize,
    pub go: AtomicU32,
    pub st: St,
    pub in_sut: bool,
    /// the call it makes has no known length
    pub loose: bool,
    pub exiting: bool,
    last_words: u32,
    pub n: u64,
    /// its first point
    pub n0: u64,
    pub next_stop: u64,
    plan: Vec<(u64, u32)>,
    plan_i: usize,
    quantum_from: u64,
    /// the point at which the last scheduling decision about this thread fell
    last_n: u64,
    pub budget: u64,
    pub wait_key: usize,
    pub wait_bits: u32,
    pub wait_until: Option<u64>,
    pub timed_out: bool,
    // allocation refusals
    pub oom: Vec<Oom>,
    pub oom_armed: bool,
    pub oom_fired: bool,
    pub allocs: u32,
    // the program's thread-local data
    tls_lo: usize,
    tls_len: usize,
    // position in the program, for reports
    pub item: u32,
    pub round: u32,
    /// started by a call
    pub spawned: bool,
    pub handle: usize,
    pub body: (usize, usize),
    pub result: usize,
    /// ended and reaped by the controller
    pub reaped: bool,
    pub detached: bool,
    pub stack: usize,
}

#[thread_local]
static mut CUR: *mut Ctx = std::ptr::null_mut();

#[inline(always)]
pub fn cur() -> *mut Ctx {
    unsafe { CUR }
}

/// Size of the program's thread-local block, which ends at the thread pointer.
fn tls_size() -> usize {
    #[repr(C)]
    struct Phdr {
        kind: u32,
        flags: u32,
        offset: u64,
        vaddr: u64,
        paddr: u64,
        filesz: u64,
        memsz: u64,
        align: u64,
    }
    unsafe {
        let at = sys::auxv(3) as *const Phdr;
        for i in 0..sys::auxv(5) {
            let p = &*at.add(i);
            if p.kind == 7 {
                let a = (p.align as usize).max(1);
                return (p.memsz as usize + a - 1) / a * a;
            }
        }
    }
    0
}

pub fn set_cur(c: *mut Ctx) {
    unsafe {
        let fs: usize;
        std::arch::asm!("mov {}, fs:0", out(reg) fs);
        pthread_setspecific(LAST_KEY, c as usize);
        sys::own_altstack();
        (*c).tls_len = tls_size();
        (*c).tls_lo = fs - (*c).tls_len;
        CUR = c
    }
}

/// How a run is scheduled.
#[derive(Clone, Debug, PartialEq)]
pub struct SchedCfg {
    /// true: decisions come from `decisions` only
    pub replay: bool,
    pub decisions: Vec<Decision>,
    pub seed: u64,
    /// planned preemptions per thread
    pub preempts: u32,
    /// probability (percent) of preempting at an access to writable global data of the crate
    pub hot: u32,
    /// probability (percent) of preempting at an access to another thread's memory
    pub warm: u32,
    /// planned suspensions per run
    pub stalls: u32,
    /// probability (percent) of suspending at an access to global data
    pub hot_stall: u32,
    /// longest uninterrupted run of a thread in points
    pub quantum: u64,
}

impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg {
            replay: false,
            decisions: vec![],
            seed: 0,
            preempts: 0,
            hot: 0,
            warm: 0,
            stalls: 0,
            hot_stall: 0,
            quantum: 400_000,
        }
    }
}

pub struct Sched {
    pub ctxs: Vec<Box<Ctx>>,
    pub ctl: AtomicU32,
    /// thread the controller has to join
    pub exited: Option<u32>,
    /// the owner of the lent values has done what it was woken for
    pub phase_done: bool,
    /// where the points of a reused thread number go on
    numbers: BTreeMap<u32, u64>,
    stacks: u128,
    pub epoch: u32,
    pub cfg: SchedCfg,
    rng: Rng,
    map: BTreeMap<(u32, u32, u64), u32>,
    pub log: Vec<Decision>,
    pub digest: u64,
    pub inter: u64,
    pub switches: u64,
    pub clock: u64,
    pub stall_victims: u32,
    pub multi: bool,
    hot_lo: usize,
    hot_len: usize,
    hot_on: bool,
    warm_on: bool,
    pub hot_hits: u64,
    pub warm_hits: u64,
    pub tls_hits: u64,
}

static mut SCHED: *mut Sched = std::ptr::null_mut();

pub fn sched() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

pub fn active() -> bool {
    unsafe { !SCHED.is_null() }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

pub fn configure(cfg: &SchedCfg) {
    let lo = unsafe { std::ptr::addr_of!(__data_start) as usize };
    let hi = unsafe { std::ptr::addr_of!(_end) as usize };
    unsafe { pthread_key_create(std::ptr::addr_of_mut!(LAST_KEY), at_last) };
    let s = Sched {
        ctxs: vec![],
        ctl: AtomicU32::new(0),
        exited: None,
        phase_done: false,
        numbers: BTreeMap::new(),
        stacks: 0,
        epoch: 0,
        rng: Rng::new(cfg.seed ^ 0x5C4ED),
        map: cfg
            .decisions
            .iter()
            .map(|d| ((d.epoch, d.thread, d.n), d.target))
            .collect(),
        log: vec![],
        digest: 0x1234,
        inter: 0,
        switches: 0,
        clock: 0,
        stall_victims: 0,
        multi: false,
        hot_lo: lo,
        hot_len: hi - lo,
        hot_on: !cfg.replay && (cfg.hot > 0 || cfg.hot_stall > 0),
        warm_on: !cfg.replay && cfg.warm > 0,
        hot_hits: 0,
        warm_hits: 0,
        tls_hits: 0,
        cfg: cfg.clone(),
    };
    unsafe { SCHED = Box::into_raw(Box::new(s)) }
}

pub fn new_ctx(id: u32) -> Box<Ctx> {
    Box::new(Ctx {
        id,
        slot: 1 + id as usize,
        go: AtomicU32::new(0),
        st: St::New,
        in_sut: false,
        loose: false,
        exiting: false,
        last_words: 0,
        n: 0,
        n0: 0,
        next_stop: u64::MAX,
        plan: vec![],
        plan_i: 0,
        quantum_from: 0,
        last_n: 0,
        budget: u64::MAX,
        wait_key: 0,
        wait_bits: 0,
        wait_until: None,
        timed_out: false,
        oom: vec![],
        oom_armed: false,
        oom_fired: false,
        allocs: 0,
        tls_lo: 0,
        tls_len: 0,
        item: 0,
        round: 0,
        spawned: false,
        handle: 0,
        body: (0, 0),
        result: 0,
        reaped: false,
        detached: false,
        stack: usize::MAX,
    })
}

/// A violation seen while the run proceeds: record it and end the run.
pub fn fail(class: &str, msg: &str) -> ! {
    let sh = shared();
    let c = cur();
    let (t, i, r) = if c.is_null() {
        (0, 0, 0)
    } else {
        unsafe { ((*c).id, (*c).item, (*c).round) }
    };
    let e = if active() { sched().epoch } else { 0 };
    sh.verdict(class, e, t, i, r, msg.as_bytes(), b"");
    finish(0)
}

/// End the simulated process, leaving the results in shared memory.
pub fn finish(code: usize) -> ! {
    if active() {
        let s = sched();
        let sh = shared();
        sh.points = s.ctxs.iter().map(|c| c.n - c.n0).sum::<u64>() + sh.points_done;
        sh.switches = s.switches;
        sh.hot_hits = s.hot_hits;
        sh.warm_hits = s.warm_hits;
        sh.tls_hits = s.tls_hits;
        sh.inter = s.inter;
        sh.digest = mix(s.digest ^ s.inter ^ sh.points);
        sh.clock = s.clock;
        sh.put_log(&s.log);
    }
    unsafe {
        sys::raw6(231, code, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ---- hand-over ---------------------------------------------------------------------

pub fn wake(word: &AtomicU32) {
    word.store(1, SeqCst);
    unsafe {
        sys::raw6(202, word as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

pub fn wait(word: &AtomicU32) {
    while word.swap(0, SeqCst) == 0 {
        unsafe {
            sys::raw6(202, word as *const _ as usize, 128, 0, 0, 0, 0);
        }
    }
}

impl Sched {
    fn note(&mut self, c: u32, n: u64, target: u32) {
        self.switches += 1;
        self.inter = mix(self.inter ^ ((c as u64) << 56 | (target as u64) << 44) ^ n);
        let d = Decision {
            epoch: self.epoch,
            thread: c,
            n,
            target,
        };
        if self.log.len() < crate::shared::LOG_CAP {
            self.log.push(d);
        }
    }

    fn ready(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self
            .ctxs
            .iter()
            .filter(|c| c.st == St::Ready)
            .map(|c| c.id)
            .collect();
        v.sort();
        v
    }

    #[track_caller]
    pub fn index(&self, id: u32) -> usize {
        self.ctxs.iter().position(|c| c.id == id).unwrap()
    }

    /// Choose who runs next when `from` (at its point n) cannot go on.
    pub fn choose(&mut self, from: u32, n: u64) -> Option<u32> {
        loop {
            let r = self.ready();
            if r.is_empty() {
                // let time pass
                let next = self
                    .ctxs
                    .iter()
                    .filter(|c| c.st == St::Blocked)
                    .filter_map(|c| c.wait_until.map(|u| (u, c.id)))
                    .min();
                if let Some((u, id)) = next {
                    self.clock = self.clock.max(u);
                    let i = self.index(id);
                    self.ctxs[i].st = St::Ready;
                    self.ctxs[i].timed_out = true;
                    continue;
                }
                // a thread that a call has left behind may wait for ever
                if self.ctxs.iter().any(|c| c.st == St::Blocked && !c.spawned) {
                    if self.ctxs.iter().any(|c| c.st == St::Stalled) {
                        fail(
                            "held-up",
                            "callers wait for a caller that has been suspended",
                        );
                    }
                    fail("deadlock", "callers wait for each other for ever");
                }
                // only suspended ones are left: resume them
                let mut any = false;
                for c in self.ctxs.iter_mut() {
                    if c.st == St::Stalled {
                        c.st = St::Ready;
                        any = true;
                    }
                }
                if !any {
                    return None;
                }
                continue;
            }
            if let Some(t) = self.map.get(&(self.epoch, from, n)) {
                if r.contains(t) {
                    let t = *t;
                    if r.len() > 1 {
                        self.note(from, n, t);
                    }
                    return Some(t);
                }
            }
            let t = if self.cfg.replay || r.len() == 1 {
                // the default: the next one in order
                *r.iter().find(|t| **t > from).unwrap_or(&r[0])
            } else {
                *self.rng.pick(&r)
            };
            if r.len() > 1 {
                self.note(from, n, t);
            }
            return Some(t);
        }
    }

    fn hand_over(&mut self, from: &mut Ctx, to: u32) {
        if to == from.id {
            from.quantum_from = from.n;
            from.rearm();
            return;
        }
        let i = self.index(to);
        wake(&self.ctxs[i].go);
        wait(&from.go);
        from.quantum_from = from.n;
        from.rearm();
    }

    /// The running thread cannot go on: run the others until it can.
    pub fn block(&mut self, c: &mut Ctx) {
        c.n += 1;
        let n = c.n;
        match self.choose(c.id, n) {
            Some(t) => self.hand_over(c, t),
            None if c.spawned => {
                // nothing to do for now
                wake(&self.ctl);
                wait(&c.go);
                c.quantum_from = c.n;
                c.rearm();
            }
            None => fail("deadlock", "nothing can run"),
        }
    }

    /// Make every thread that waits for `key` runnable (at most `max`).
    pub fn unblock(&mut self, key: usize, bits: u32, max: usize) -> usize {
        let mut k = 0;
        for c in self.ctxs.iter_mut() {
            if k < max && c.st == St::Blocked && c.wait_key == key && c.wait_bits & bits != 0 {
                c.st = St::Ready;
                c.wait_key = 0;
                c.timed_out = false;
                k += 1;
            }
        }
        k
    }

    pub fn yield_now(&mut self, c: &mut Ctx) {
        if !self.multi || c.exiting {
            return;
        }
        c.n += 1;
        let r: Vec<u32> = self.ready().into_iter().filter(|t| *t != c.id).collect();
        if r.is_empty() {
            return;
        }
        let t = match self.map.get(&(self.epoch, c.id, c.n)) {
            Some(t) if r.contains(t) => *t,
            _ if self.cfg.replay => *r.iter().find(|t| **t > c.id).unwrap_or(&r[0]),
            _ => *self.rng.pick(&r),
        };
        self.note(c.id, c.n, t);
        self.hand_over(c, t);
    }

    /// Plan the preemptions and suspensions of a thread before it starts.
    pub fn plan(&mut self, id: u32, est: u64) {
        let mut plan = vec![];
        let n0 = self.ctxs[self.index(id)].n;
        if self.cfg.replay {
            for d in &self.cfg.decisions {
                if d.epoch == self.epoch && d.thread == id && d.n > n0 {
                    plan.push((d.n, d.target));
                }
            }
        } else if self.multi {
            let k = self.rng.below(self.cfg.preempts as u64 + 1);
            for _ in 0..k {
                let n = n0 + 1 + self.rng.below(est.max(2));
                plan.push((n, CTL));
                // bias: now and then a second preemption right behind
                if self.rng.chance(1, 4) {
                    plan.push((n + 1 + self.rng.below(40), CTL));
                }
            }
        }
        let i = self.index(id);
        let c = &mut self.ctxs[i];
        plan.sort();
        plan.dedup_by_key(|p| p.0);
        c.plan = plan;
        c.plan_i = 0;
    }

    /// Choose the threads that are going to be suspended, and where.
    pub fn plan_stalls(&mut self, ests: &[(u32, u64)]) {
        self.stall_victims = 0;
        if self.cfg.replay || !self.multi || self.cfg.stalls == 0 {
            return;
        }
        for _ in 0..self.cfg.stalls {
            let (id, est) = *self.rng.pick(ests);
            let n = 1 + self.rng.below(est.max(2));
            let i = self.index(id);
            let c = &mut self.ctxs[i];
            c.plan.retain(|p| p.0 != n);
            c.plan.push((n, STALL));
            c.plan.sort();
        }
    }

    fn stall(&mut self, c: &mut Ctx) {
        // someone else must be there to be held up
        let others = self
            .ctxs
            .iter()
            .filter(|o| o.id != c.id && !o.spawned)
            .filter(|o| matches!(o.st, St::Ready | St::Blocked))
            .count();
        if others == 0 || c.spawned {
            return;
        }
        self.stall_victims += 1;
        shared().count(FK::Stall);
        self.note(c.id, c.n, STALL);
        c.st = St::Stalled;
        let n = c.n;
        // the choice of the next one has its own key: one point later
        c.n += 1;
        match self.choose(c.id, n + 1) {
            Some(t) => self.hand_over(c, t),
            None => c.st = St::Ready,
        }
    }

    fn preempt(&mut self, c: &mut Ctx, target: u32) {
        let r: Vec<u32> = self.ready().into_iter().filter(|t| *t != c.id).collect();
        if r.is_empty() {
            return;
        }
        let t = if r.contains(&target) {
            target
        } else if self.cfg.replay {
            *r.iter().find(|t| **t > c.id).unwrap_or(&r[0])
        } else {
            *self.rng.pick(&r)
        };
        shared().count(FK::Preempt);
        self.note(c.id, c.n, t);
        self.hand_over(c, t);
    }
}

// ---- threads started by calls ----------------------------------------------------------

extern "C" fn spawned_main(arg: usize) -> usize {
    let c = unsafe { &mut *(arg as *mut Ctx) };
    set_cur(c);
    wait(&c.go);
    c.quantum_from = c.n;
    c.rearm();
    let f: extern "C" fn(usize) -> usize = unsafe { std::mem::transmute(c.body.0) };
    c.in_sut = true;
    c.result = f(c.body.1);
    0
}

// The very end of a thread, when the destructors of its thread-local state have run (as
// part of the crate, under the scheduler): a key destructor of the C library, which puts
// itself off until there is nothing left that could come after it.
extern "C" {
    fn pthread_key_create(k: *mut u32, f: extern "C" fn(usize)) -> i32;
    fn pthread_setspecific(k: u32, v: usize) -> i32;
}

static mut LAST_KEY: u32 = 0;

extern "C" fn at_last(arg: usize) {
    let c = unsafe { &mut *(arg as *mut Ctx) };
    c.in_sut = false;
    if c.last_words < 2 {
        c.last_words += 1;
        unsafe { pthread_setspecific(LAST_KEY, arg) };
        c.in_sut = true;
        return;
    }
    c.exiting = true;
    c.st = St::Finished;
    c.next_stop = u64::MAX;
    let s = sched();
    s.exited = Some(c.id);
    wake(&s.ctl);
}

impl Sched {
    /// A call starts a thread: it becomes one of the scheduled ones.
    pub fn spawn(&mut self, f: usize, arg: usize, size: usize) -> Option<usize> {
        let id = (FIRST_SPAWNED..STALL).find(|i| self.ctxs.iter().all(|c| c.id != *i))?;
        let k = (0..SPAWN_STACKS).find(|k| self.stacks >> k & 1 == 0)?;
        let size = size.clamp(1 << 16, sys::STACK_SIZE);
        shared().count(FK::ThreadStart);
        let mut c = new_ctx(id);
        c.slot = (1 + id as usize) % arena::SUBS;
        c.spawned = true;
        c.st = St::Ready;
        c.body = (f, arg);
        c.budget = 4_000_000_000;
        c.n0 = self.numbers.get(&id).copied().unwrap_or(0);
        c.n = c.n0;
        let p: *mut Ctx = &mut *c;
        self.stacks |= 1 << k;
        c.stack = k;
        c.handle = sys::spawn_thread(MAX_THREADS + 2 + k, size, spawned_main, p as usize);
        let h = c.handle;
        self.ctxs.push(c);
        self.multi = true;
        self.plan(id, 3_000);
        Some(h)
    }

    /// The controller: a thread has ended; wait for the real one and let joiners go on.
    pub fn reap(&mut self, id: u32) -> u64 {
        let i = self.index(id);
        sys::join_thread(self.ctxs[i].handle);
        let c = &mut self.ctxs[i];
        c.n += 1;
        c.reaped = true;
        let n = c.n;
        if c.spawned {
            if c.detached {
                self.forget(id);
            } else {
                self.unblock(JOIN_KEY + id as usize, u32::MAX, usize::MAX);
            }
        }
        n
    }

    /// The controller: run threads until there is nothing left to run.
    pub fn drive(&mut self, mut from: (u32, u64)) {
        while let Some(t) = self.choose(from.0, from.1) {
            let i = self.index(t);
            wake(&self.ctxs[i].go);
            wait(&self.ctl);
            match self.exited.take() {
                Some(x) => {
                    from = (x, self.reap(x));
                }
                None => return,
            }
        }
    }

    /// A call joins a thread it has started. None: not one of ours.
    pub fn join(&mut self, c: &mut Ctx, handle: usize) -> Option<usize> {
        let i = self.ctxs.iter().position(|x| x.spawned && x.handle == handle)?;
        let id = self.ctxs[i].id;
        while !self.ctxs[self.index(id)].reaped {
            if c.exiting {
                fail("deadlock", "a thread that ends waits for another one");
            }
            c.wait_key = JOIN_KEY + id as usize;
            c.wait_bits = u32::MAX;
            c.wait_until = None;
            c.st = St::Blocked;
            self.block(c);
            c.wait_key = 0;
        }
        Some(self.forget(id))
    }

    /// Only now may its stack, and with it its handle, be used again.
    fn forget(&mut self, id: u32) -> usize {
        let i = self.index(id);
        let c = self.ctxs.remove(i);
        if c.stack != usize::MAX {
            self.stacks &= !(1 << c.stack);
        }
        shared().points_done += c.n - c.n0;
        self.numbers.insert(id, c.n);
        c.result
    }

    /// Nobody is going to join this thread. False: not one of ours.
    pub fn detach(&mut self, handle: usize) -> bool {
        let c = match self.ctxs.iter_mut().find(|x| x.spawned && x.handle == handle) {
            Some(c) => c,
            None => return false,
        };
        c.detached = true;
        if c.reaped {
            let id = c.id;
            self.forget(id);
        }
        true
    }
}

const JOIN_KEY: usize = 0xB00;

impl Ctx {
    pub fn rearm(&mut self) {
        let p = self.plan.get(self.plan_i).map(|p| p.0).unwrap_or(u64::MAX);
        self.next_stop = p
            .min(self.quantum_from.saturating_add(sched().cfg.quantum))
            .min(self.budget);
        if self.exiting {
            self.next_stop = u64::MAX;
        }
    }
}

#[cold]
#[inline(never)]
fn stop(c: &mut Ctx) {
    let s = sched();
    let was = c.in_sut;
    c.in_sut = false;
    if c.n >= c.budget {
        fail(
            if c.loose {
                "exhausted"
            } else if s.stall_victims > 0 {
                "held-up"
            } else {
                "no-progress"
            },
            "a call did not finish within its step budget",
        );
    }
    if s.multi && !c.exiting {
        while c.plan_i < c.plan.len() && c.plan[c.plan_i].0 < c.n {
            c.plan_i += 1;
        }
        let mut planned = None;
        if c.plan_i < c.plan.len() && c.plan[c.plan_i].0 == c.n {
            planned = Some(c.plan[c.plan_i].1);
            c.plan_i += 1;
        }
        match planned {
            Some(STALL) => {
                s.stall(c);
                c.last_n = c.n;
            }
            Some(t) => {
                s.preempt(c, t);
                c.last_n = c.n;
            }
            None => {
                if c.n >= c.quantum_from + s.cfg.quantum {
                    c.quantum_from = c.n;
                    s.preempt(c, CTL);
                    c.last_n = c.n;
                }
            }
        }
        // a planned stop with nobody to hand over to leaves no decision behind: the
        // time slice must not depend on it
        if c.n >= c.quantum_from.saturating_add(s.cfg.quantum) {
            c.quantum_from = c.n;
        }
    } else {
        c.quantum_from = c.n;
    }
    while c.plan_i < c.plan.len() && c.plan[c.plan_i].0 <= c.n {
        c.plan_i += 1;
    }
    c.rearm();
    c.in_sut = was;
}

#[inline(always)]
fn point() -> *mut Ctx {
    let c = cur();
    if c.is_null() {
        return c;
    }
    unsafe {
        let c = &mut *c;
        if !c.in_sut {
            return std::ptr::null_mut();
        }
        c.n += 1;
        if c.n >= c.next_stop {
            stop(c);
        }
    }
    c
}

#[cold]
#[inline(never)]
fn hot(c: &mut Ctx, percent: u32, stall: u32) {
    let s = sched();
    if !s.multi || c.exiting || c.last_n == c.n {
        return;
    }
    let x = s.rng.below(100) as u32;
    if x < percent + stall {
        let was = c.in_sut;
        c.in_sut = false;
        if x < stall {
            s.stall(c);
        } else {
            s.preempt(c, CTL);
        }
        c.last_n = c.n;
        c.rearm();
        c.in_sut = was;
    }
}

#[inline(always)]
fn access(addr: usize, len: usize) {
    let c = point();
    if c.is_null() {
        return;
    }
    unsafe {
        let s = &mut *SCHED;
        if addr.wrapping_sub(s.hot_lo) < s.hot_len {
            s.hot_hits += 1;
            if s.hot_on {
                hot(&mut *c, s.cfg.hot, s.cfg.hot_stall);
            }
        } else if arena::contains(addr) {
            if arena::is_dead(addr, len) {
                (*c).in_sut = false;
                fail("memory", arena::dead_kind(addr));
            }
            if arena::sub_of(addr) != (*c).slot {
                s.warm_hits += 1;
                if s.warm_on {
                    hot(&mut *c, s.cfg.warm, 0);
                }
            }
        } else if addr.wrapping_sub((*c).tls_lo) < (*c).tls_len {
            s.tls_hits += 1;
        }
    }
}

/// An allocation is about to happen in a call: a scheduling point, and perhaps a refusal.
pub fn refuse(c: &mut Ctx, size: usize) -> bool {
    alloc_point(c);
    let k = c.allocs;
    c.allocs += 1;
    if c.oom_armed {
        let hit = c
            .oom
            .iter()
            .any(|o| k >= o.at && k - o.at < o.len && size >= o.min as usize);
        if hit && !std::thread::panicking() {
            c.oom_fired = true;
            shared().count(FK::Oom);
            let s = sched();
            s.digest = mix(s.digest ^ 0x00F ^ k as u64);
            return true;
        }
    }
    false
}

#[inline(always)]
pub fn alloc_point(_c: &mut Ctx) {
    point();
}

// ---- compiler-inserted calls ---------------------------------------------------------

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    point();
}
macro_rules! acc { ($($n:ident $k:expr;)*) => { $( #[no_mangle] pub extern "C" fn $n(p: usize) { access(p, $k) } )* } }
acc!(__sanitizer_cov_load1 1; __sanitizer_cov_load2 2; __sanitizer_cov_load4 4; __sanitizer_cov_load8 8; __sanitizer_cov_load16 16;
     __sanitizer_cov_store1 1; __sanitizer_cov_store2 2; __sanitizer_cov_store4 4; __sanitizer_cov_store8 8; __sanitizer_cov_store16 16;);

/// Before an atomic read-modify-write (the call is put in by rmw.py).
#[no_mangle]
pub extern "C" fn sim_rmw(p: usize, n: usize) {
    access(p, n)
}

// The crate's block copies, fills and comparisons (renamed in its object code): an
// access to each range, with a scheduling point at either end of the work.
extern "C" {
    fn memcpy(d: usize, s: usize, n: usize) -> usize;
    fn memmove(d: usize, s: usize, n: usize) -> usize;
    fn memset(d: usize, c: i32, n: usize) -> usize;
    fn memcmp(a: usize, b: usize, n: usize) -> i32;
}

#[no_mangle]
pub unsafe extern "C" fn sim_memcpy(d: usize, s: usize, n: usize) -> usize {
    if n > 0 {
        access(s, n);
        access(d, n);
    }
    memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn sim_memmove(d: usize, s: usize, n: usize) -> usize {
    if n > 0 {
        access(s, n);
        access(d, n);
    }
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn sim_memset(d: usize, c: i32, n: usize) -> usize {
    if n > 0 {
        access(d, n);
    }
    memset(d, c, n)
}
#[no_mangle]
pub unsafe extern "C" fn sim_memcmp(a: usize, b: usize, n: usize) -> i32 {
    if n > 0 {
        access(a, n);
        access(b, n);
    }
    memcmp(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn sim_bcmp(a: usize, b: usize, n: usize) -> i32 {
    sim_memcmp(a, b, n)
}
