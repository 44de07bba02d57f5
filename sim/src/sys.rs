//! The simulated operating system. The functions below replace the C library's for
//! this program (the linker prefers the executable's definitions). For a thread that
//! is inside a call of the crate under test they answer from the simulation; for
//! everything else they pass the call on.
use crate::rng::Rng;
use crate::sched::{self, St};
use std::os::unix::ffi::OsStringExt;
use crate::shared::{shared, FK};
use std::arch::asm;

#[inline(always)]
pub unsafe fn raw6(
    n: usize,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn auxv(kind: u64) -> usize {
    extern "C" {
        fn getauxval(kind: u64) -> u64;
    }
    unsafe { getauxval(kind) as usize }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e };
}

fn err(e: i32) -> isize {
    unsafe { *__errno_location() = e };
    -1
}

fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        err(-r as i32)
    } else {
        r
    }
}

/// The surroundings of a run.
#[derive(Clone, Debug, PartialEq)]
pub struct EnvCfg {
    pub seed: u64,
    /// nanoseconds since the epoch at start (as an i64: it may lie before 1970)
    pub start: u64,
    /// 0 steady, 1 random jumps forward, 2 jumps both ways (wall clock), 3 frozen, 4 huge jumps
    pub clock: u8,
    /// standard streams: 0 fine, 1 EPIPE, 2 EIO, 3 EBADF, 4 full disk, 5 one byte at a time
    pub stdio: u8,
    /// opening files: 0 not found, 1 refused, 2 too many open, 3 succeeds with seeded contents
    pub files: u8,
    pub cpus: u32,
    pub pid: u32,
    /// environment variables set (seeded)
    pub vars: bool,
    /// extra stack used below the call, in units of 1 KiB
    pub stack_pad: u32,
    /// the arguments of the process are seeded ones
    pub args: bool,
    /// 0: callers are plain threads; otherwise threads of the standard library with a name
    pub named: u8,
    /// threads that came and went before the callers
    pub ids: u32,
}

impl Default for EnvCfg {
    fn default() -> Self {
        EnvCfg {
            seed: 1,
            start: 1_700_000_000_000_000_000,
            clock: 0,
            stdio: 0,
            files: 0,
            cpus: 8,
            pid: 4242,
            vars: false,
            stack_pad: 0,
            args: false,
            named: 0,
            ids: 0,
        }
    }
}

// ---- words that mean something to the crate ----------------------------------------------

static mut LITERALS: Vec<Vec<u8>> = vec![];
static mut WORDS: Vec<Vec<u8>> = vec![];
static mut NUMBERS: Vec<u64> = vec![];

/// The whole numbers that stand in the crate's sources: limits and sizes it may know.
pub fn numbers() -> &'static [u64] {
    unsafe { &*std::ptr::addr_of!(NUMBERS) }
}

/// The string literals that look like words.
pub fn words() -> &'static [Vec<u8>] {
    unsafe { &*std::ptr::addr_of!(WORDS) }
}

/// The string literals of the crate's sources: names and values it may look for in its
/// surroundings.
pub fn read_literals() {
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let mut dirs = vec![std::path::PathBuf::from(root).join("src")];
    let mut found = std::collections::BTreeSet::new();
    let mut numbers = std::collections::BTreeSet::new();
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().map_or(false, |x| x == "rs") {
                let mut text = std::fs::read(&p).unwrap_or_default();
                if p.ends_with("tests.rs") {
                    text.clear();
                }
                if let Some(at) = text.windows(12).position(|w| w == b"#[cfg(test)]") {
                    // tests stand at the end
                    text.truncate(at);
                }
                let mut was = b' ';
                let mut k = 0;
                while k < text.len() {
                    if text[k].is_ascii_digit() && !(was.is_ascii_alphanumeric() || was == b'_' || was == b'.') {
                        let hex = text[k..].starts_with(b"0x");
                        let mut n = 0_u64;
                        if hex {
                            k += 2;
                        }
                        while k < text.len() && (text[k] == b'_' || if hex { text[k].is_ascii_hexdigit() } else { text[k].is_ascii_digit() }) {
                            if let Some(d) = (text[k] as char).to_digit(16) {
                                n = n.saturating_mul(if hex { 16 } else { 10 }).saturating_add(d as u64);
                            }
                            k += 1;
                        }
                        if n > 3 && n < u64::MAX {
                            numbers.insert(n);
                        }
                        was = b'0';
                    } else {
                        was = text[k];
                        k += 1;
                    }
                }
                let mut i = 0;
                while i < text.len() {
                    if text[i] == b'"' {
                        let from = i + 1;
                        i = from;
                        while i < text.len() && text[i] != b'"' && text[i] != b'\n' {
                            i += if text[i] == b'\\' { 2 } else { 1 };
                        }
                        if i < text.len() && text[i] == b'"' && i - from <= 40 && !text[from..i].contains(&0) {
                            found.insert(text[from..i].to_vec());
                        }
                    }
                    i += 1;
                }
            }
        }
    }
    let found: Vec<Vec<u8>> = found.into_iter().collect();
    let wordy = |b: &u8| b.is_ascii_alphanumeric() || b"_-./".contains(b);
    unsafe {
        WORDS = found.iter().filter(|w| w.len() > 1 && w.iter().all(wordy)).cloned().collect();
        LITERALS = found;
        NUMBERS = numbers.into_iter().collect();
    }
}

/// A word of a setting, a file or an argument.
fn word(r: &mut Rng) -> Vec<u8> {
    const FIXED: &[&[u8]] = &[
        b"", b"0", b"1", b"2", b"3", b"true", b"off", b"12", b"999999", b"de_DE.UTF-8", b"tr_TR", b"C", b"full",
        b"/nonexistent", b"trace", b"-1", b"x", b"\xff\xfe", b"0.5", b"yes", b"no",
    ];
    let l = unsafe { &LITERALS };
    match r.below(5) {
        0 if !l.is_empty() => r.pick(l).clone(),
        4 if !words().is_empty() => r.pick(words()).clone(),
        1 if r.chance(1, 3) && !numbers().is_empty() => r.pick(numbers()).to_string().into_bytes(),
        1 => r.below(40).to_string().into_bytes(),
        _ => r.pick(FIXED).to_vec(),
    }
}

/// What a file that can be opened contains.
fn contents(r: &mut Rng) -> Vec<u8> {
    let l = unsafe { &LITERALS };
    let mut v = vec![];
    match r.below(7) {
        0 => v.extend(format!("{} {}\n", r.below(1000), r.below(10)).into_bytes()),
        1 => v.extend(word(r)),
        2 => {
            v.extend(word(r));
            v.push(b'\n');
        }
        3 => {
            // a setting for every word of the crate
            for x in l.iter().filter(|x| x.iter().all(|b| b.is_ascii_graphic())) {
                v.extend_from_slice(x);
                v.extend_from_slice(if r.chance(1, 2) { b"=" } else { b" = " });
                v.extend(word(r));
                v.push(b'\n');
            }
        }
        4 => {
            for x in l {
                if !x.contains(&b'\\') {
                    v.extend_from_slice(x);
                    v.push(b'\n');
                }
            }
        }
        5 => {}
        _ => {
            for _ in 0..r.below(300) {
                v.push(r.next() as u8);
            }
        }
    }
    v
}

static mut ARGV: *mut *const u8 = std::ptr::null_mut();
static mut ARGC: usize = 0;

/// Find the array the standard library reads the arguments from.
pub fn remember_args(n: usize) {
    unsafe {
        let p = (environ as *mut *const u8).sub(n + 1);
        let first = std::env::args_os().next().unwrap_or_default();
        let a = std::ffi::CStr::from_ptr(*p as *const _);
        if (*p.add(n)).is_null() && a.to_bytes() == first.as_encoded_bytes() {
            ARGV = p;
            ARGC = n;
        }
    }
}

/// Other arguments for this process.
pub fn set_args(rng: &mut Rng) {
    unsafe {
        if ARGV.is_null() {
            return;
        }
        let n = rng.range(0, ARGC as u64) as usize;
        for i in 0..ARGC {
            let mut w = word(rng);
            if rng.chance(1, 3) {
                w.splice(0..0, b"--".iter().cloned());
            }
            w.retain(|b| *b != 0);
            w.push(0);
            *ARGV.add(i) = if i < n { w.leak().as_ptr() } else { std::ptr::null() };
        }
    }
}

/// The control words of the processor's floating-point units.
pub fn float_mode() -> (u32, u16) {
    let mut m = 0u32;
    let mut x = 0u16;
    unsafe {
        asm!("stmxcsr [{}]", in(reg) &mut m);
        asm!("fnstcw [{}]", in(reg) &mut x);
    }
    (m & 0xFFC0, x)
}

pub struct Env {
    cfg: EnvCfg,
    rng: Rng,
    wall_skew: i64,
    pub effects: bool,
}

static mut ENV: *mut Env = std::ptr::null_mut();

pub fn configure(cfg: &EnvCfg, effects: bool) {
    let e = Env {
        cfg: cfg.clone(),
        rng: Rng::new(cfg.seed ^ 0xE57),
        wall_skew: 0,
        effects,
    };
    unsafe { ENV = Box::into_raw(Box::new(e)) }
}

fn env() -> Option<&'static mut Env> {
    unsafe { ENV.as_mut() }
}

/// Is this thread inside a call of the crate under test? Then the code below runs
/// with the mark taken off until the guard is dropped.
struct Inside(*mut sched::Ctx);
fn inside() -> Option<Inside> {
    let c = sched::cur();
    if c.is_null() {
        return None;
    }
    unsafe {
        if (*c).in_sut {
            (*c).in_sut = false;
            Some(Inside(c))
        } else {
            None
        }
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        unsafe { (*self.0).in_sut = true }
    }
}

fn effect(what: &str) {
    if let Some(e) = env() {
        if e.effects {
            sched::fail("side-effect", what);
        }
    }
}

// ---- futex: every lock of the standard library waits here ---------------------------

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

unsafe fn futex(addr: usize, op: usize, val: usize, timeout: usize, val3: usize) -> isize {
    let c = &mut *sched::cur();
    let s = sched::sched();
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            let word = &*(addr as *const std::sync::atomic::AtomicU32);
            if word.load(std::sync::atomic::Ordering::SeqCst) != val as u32 {
                return err(11);
            }
            shared().count(FK::FutexWait);
            c.wait_until = if timeout == 0 {
                None
            } else {
                let t = &*(timeout as *const Timespec);
                let ns = (t.sec.max(0) as u64)
                    .saturating_mul(1_000_000_000)
                    .saturating_add(t.nsec.max(0) as u64);
                Some(if cmd == 0 { mono().saturating_add(ns) } else { ns })
            };
            c.wait_key = addr;
            c.wait_bits = if cmd == 9 { val3 as u32 } else { u32::MAX };
            c.timed_out = false;
            if c.exiting {
                // other threads are waited for by the controller: do not park
                return 0;
            }
            c.st = St::Blocked;
            s.block(c);
            c.wait_key = 0;
            c.wait_until = None;
            if c.timed_out {
                c.timed_out = false;
                return err(110);
            }
            0
        }
        1 | 10 => {
            let bits = if cmd == 10 { val3 as u32 } else { u32::MAX };
            s.unblock(addr, bits, val) as isize
        }
        _ => err(38),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: usize,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> isize {
    let cx = sched::cur();
    if cx.is_null() || !sched::active() {
        return ret(raw6(n, a, b, c, d, e, f));
    }
    let g = inside();
    match n {
        202 => futex(a, b, c, d, f),
        318 if g.is_some() => random(a, b),
        186 if g.is_some() => (10_000 + (*cx).id) as isize,
        39 if g.is_some() => getpid() as isize,
        1 if g.is_some() => stdio_write(a as i32, c),
        228 if g.is_some() => {
            clock(a as i32, b as *mut Timespec);
            0
        }
        _ => ret(raw6(n, a, b, c, d, e, f)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let cx = sched::cur();
    if !cx.is_null() && sched::active() {
        let _g = inside();
        sched::sched().yield_now(&mut *cx);
        return 0;
    }
    raw6(24, 0, 0, 0, 0, 0, 0);
    0
}

// ---- time --------------------------------------------------------------------------

fn mono() -> u64 {
    let s = sched::sched();
    1_000_000_000 + s.clock + s.ctxs.iter().map(|c| c.n).sum::<u64>()
}

unsafe fn clock(id: i32, out: *mut Timespec) {
    shared().count(FK::ClockRead);
    let mut t = mono() as i64;
    if let Some(e) = env() {
        let s = sched::sched();
        match e.cfg.clock {
            1 => {
                let j = e.rng.below(50_000_000);
                s.clock += j;
                shared().count(FK::ClockJump);
            }
            2 => {
                e.wall_skew += e.rng.below(20_000_000_000) as i64 - 10_000_000_000;
                s.clock += e.rng.below(1000);
                shared().count(FK::ClockJump);
            }
            3 => t = 1_000_000_000,
            4 => {
                if e.rng.chance(1, 3) {
                    s.clock += e.rng.below(1 << 52);
                    shared().count(FK::ClockJump);
                }
            }
            _ => {}
        }
        if e.cfg.clock != 3 {
            t = mono() as i64;
        }
        if id == 0 || id == 5 || id == 11 {
            // a wall clock may stand before 1970
            t = (e.cfg.start as i64).saturating_add(t).saturating_add(e.wall_skew);
        }
    }
    (*out).sec = t.div_euclid(1_000_000_000);
    (*out).nsec = t.rem_euclid(1_000_000_000);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, out: *mut Timespec) -> i32 {
    if let Some(_g) = inside() {
        clock(id, out);
        return 0;
    }
    ret(raw6(228, id as usize, out as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timespec, _tz: usize) -> i32 {
    if let Some(_g) = inside() {
        clock(0, tv);
        (*tv).nsec /= 1000;
        return 0;
    }
    ret(raw6(96, tv as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    clock_gettime(0, &mut t);
    if !out.is_null() {
        *out = t.sec;
    }
    t.sec
}

/// Processor time used, in microseconds.
#[export_name = "clock"]
pub unsafe extern "C" fn clock_() -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    clock_gettime(2, &mut t);
    t.sec * 1_000_000 + t.nsec / 1000
}

#[no_mangle]
pub unsafe extern "C" fn times(out: *mut i64) -> i64 {
    if let Some(_g) = inside() {
        let mut t = Timespec { sec: 0, nsec: 0 };
        clock(1, &mut t);
        let ticks = t.sec * 100 + t.nsec / 10_000_000;
        if !out.is_null() {
            *out = ticks;
            *out.add(1) = ticks / 7;
            *out.add(2) = 0;
            *out.add(3) = 0;
        }
        return ticks;
    }
    ret(raw6(100, out as usize, 0, 0, 0, 0, 0)) as i64
}

/// Usage: processor time of the simulated clock, the rest seeded.
#[no_mangle]
pub unsafe extern "C" fn getrusage(who: i32, out: *mut i64) -> i32 {
    if let Some(_g) = inside() {
        let mut t = Timespec { sec: 0, nsec: 0 };
        clock(1, &mut t);
        shared().count(FK::StateRead);
        for i in 0..18 {
            *out.add(i) = match env() {
                Some(e) => e.rng.below(100_000) as i64,
                None => 100,
            };
        }
        *out = t.sec;
        *out.add(1) = t.nsec / 1000;
        return 0;
    }
    ret(raw6(98, who as usize, out as usize, 0, 0, 0, 0)) as i32
}

/// Limits, as the surroundings have them.
#[no_mangle]
pub unsafe extern "C" fn getrlimit64(what: i32, out: *mut u64) -> i32 {
    let r = ret(raw6(97, what as usize, out as usize, 0, 0, 0, 0)) as i32;
    if let Some(_g) = inside() {
        shared().count(FK::StateRead);
        if let Some(e) = env() {
            *out = match crate::rng::mix(e.cfg.seed ^ what as u64 ^ 0x77) % 5 {
                0 => 0,
                1 => 1 << 16,
                2 => 8 << 20,
                3 => 1 << 30,
                _ => u64::MAX,
            };
            *out.add(1) = u64::MAX;
            return 0;
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrlimit(what: i32, out: *mut u64) -> i32 {
    getrlimit64(what, out)
}

#[no_mangle]
pub unsafe extern "C" fn sysinfo(out: *mut u64) -> i32 {
    let r = ret(raw6(99, out as usize, 0, 0, 0, 0, 0)) as i32;
    if let Some(_g) = inside() {
        shared().count(FK::StateRead);
        if let Some(e) = env() {
            // uptime, loads, memory
            for i in 0..10 {
                *out.add(i) = e.rng.below(1 << 33);
            }
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn uname(out: *mut u8) -> i32 {
    let r = ret(raw6(63, out as usize, 0, 0, 0, 0, 0)) as i32;
    if let Some(_g) = inside() {
        shared().count(FK::StateRead);
        if let Some(e) = env() {
            for f in [1usize, 2, 3] {
                let t = format!("{:x}\0", crate::rng::mix(e.cfg.seed ^ f as u64) % 100_000);
                std::ptr::copy_nonoverlapping(t.as_ptr(), out.add(65 * f), t.len());
            }
        }
    }
    r
}

unsafe fn drawn() -> Option<u64> {
    let _g = inside()?;
    shared().count(FK::RandomRead);
    Some(match env() {
        Some(e) => e.rng.next() >> 33,
        None => 4,
    })
}
#[no_mangle]
pub unsafe extern "C" fn rand() -> i32 {
    drawn().unwrap_or(4) as i32
}
#[export_name = "random"]
pub unsafe extern "C" fn random_() -> i64 {
    drawn().unwrap_or(4) as i64
}
#[no_mangle]
pub unsafe extern "C" fn rand_r(_state: *mut u32) -> i32 {
    drawn().unwrap_or(4) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lrand48() -> i64 {
    drawn().unwrap_or(4) as i64
}
#[no_mangle]
pub unsafe extern "C" fn drand48() -> f64 {
    drawn().unwrap_or(4) as f64 / (1u64 << 31) as f64
}
#[no_mangle]
pub unsafe extern "C" fn arc4random() -> u32 {
    drawn().unwrap_or(4) as u32
}

unsafe fn sleep_until(t: u64) {
    let c = &mut *sched::cur();
    let s = sched::sched();
    if !s.multi || c.exiting {
        s.clock += t.saturating_sub(mono());
        return;
    }
    c.wait_key = 0;
    c.wait_bits = 0;
    c.wait_until = Some(t.saturating_sub(1_000_000_000));
    c.st = St::Blocked;
    s.block(c);
    c.wait_until = None;
    c.timed_out = false;
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: i32,
    flags: i32,
    req: *const Timespec,
    rem: usize,
) -> i32 {
    if let Some(_g) = inside() {
        let ns = ((*req).sec as u64)
            .saturating_mul(1_000_000_000)
            .saturating_add((*req).nsec as u64);
        sleep_until(if flags & 1 != 0 { ns } else { mono().saturating_add(ns) });
        return 0;
    }
    -raw6(230, id as usize, flags as usize, req as usize, rem, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: usize) -> i32 {
    if let Some(_g) = inside() {
        let ns = ((*req).sec as u64)
            .saturating_mul(1_000_000_000)
            .saturating_add((*req).nsec as u64);
        sleep_until(mono().saturating_add(ns));
        return 0;
    }
    ret(raw6(35, req as usize, rem, 0, 0, 0, 0)) as i32
}

// ---- randomness and identity ---------------------------------------------------------

unsafe fn random(buf: usize, len: usize) -> isize {
    shared().count(FK::RandomRead);
    if let Some(e) = env() {
        for i in 0..len {
            *((buf + i) as *mut u8) = e.rng.next() as u8;
        }
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: usize, len: usize, flags: u32) -> isize {
    if let Some(_g) = inside() {
        return random(buf, len);
    }
    ret(raw6(318, buf, len, flags as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if !sched::cur().is_null() {
        if let Some(e) = env() {
            return e.cfg.pid as i32;
        }
    }
    raw6(39, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettid() -> i32 {
    let c = sched::cur();
    if !c.is_null() {
        if let Some(e) = env() {
            return (e.cfg.pid + (*c).id) as i32;
        }
    }
    raw6(186, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> i32 {
    if let Some(_g) = inside() {
        if let Some(e) = env() {
            std::ptr::write_bytes(mask, 0, size);
            for i in 0..(e.cfg.cpus as usize).min(size * 8) {
                *mask.add(i / 8) |= 1 << (i % 8);
            }
            return 0;
        }
    }
    let r = raw6(204, pid as usize, size, mask as usize, 0, 0, 0);
    if r < 0 {
        err(-r as i32);
        return -1;
    }
    std::ptr::write_bytes(mask.add(r as usize), 0, size - r as usize);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sysconf(name: i32) -> isize {
    if let Some(_g) = inside() {
        if let Some(e) = env() {
            match name {
                83 | 84 => return e.cfg.cpus as isize,
                30 => return 4096,
                _ => {}
            }
        }
    }
    extern "C" {
        fn __sysconf(name: i32) -> isize;
    }
    __sysconf(name)
}

// ---- files and streams ----------------------------------------------------------------

unsafe fn stdio_write(fd: i32, len: usize) -> isize {
    effect(&format!("a call wrote {} bytes to descriptor {}", len, fd));
    match env().map(|e| e.cfg.stdio).unwrap_or(0) {
        1 => {
            shared().count(FK::StdioFault);
            err(32)
        }
        2 => {
            shared().count(FK::StdioFault);
            err(5)
        }
        3 => {
            shared().count(FK::StdioFault);
            err(9)
        }
        4 => {
            shared().count(FK::StdioFault);
            err(28)
        }
        5 => {
            shared().count(FK::StdioFault);
            len.min(1) as isize
        }
        _ => len as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: usize, len: usize) -> isize {
    if let Some(_g) = inside() {
        return stdio_write(fd, len);
    }
    ret(raw6(1, fd as usize, buf, len, 0, 0, 0))
}

#[repr(C)]
pub struct IoVec {
    base: usize,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    if let Some(_g) = inside() {
        let len = (0..n as usize).map(|i| (*v.add(i)).len).sum();
        return stdio_write(fd, len);
    }
    ret(raw6(20, fd as usize, v as usize, n as usize, 0, 0, 0))
}

unsafe fn sim_open(path: *const u8, flags: i32) -> isize {
    shared().count(FK::FileOpen);
    // O_WRONLY, O_RDWR, O_CREAT, O_TRUNC
    if flags & (1 | 2 | 0o100 | 0o1000) != 0 {
        let mut n = 0;
        while *path.add(n) != 0 && n < 200 {
            n += 1;
        }
        effect(&format!(
            "a call opened a file for writing: {}",
            String::from_utf8_lossy(std::slice::from_raw_parts(path, n))
        ));
        return err(30);
    }
    match env().map(|e| e.cfg.files).unwrap_or(0) {
        0 => err(2),
        1 => err(13),
        2 => err(24),
        _ => {
            let name = b"sim\0";
            let fd = raw6(319, name.as_ptr() as usize, 0, 0, 0, 0, 0);
            if fd < 0 {
                return err(24);
            }
            if let Some(e) = env() {
                let txt = contents(&mut e.rng);
                raw6(1, fd as usize, txt.as_ptr() as usize, txt.len(), 0, 0, 0);
                raw6(8, fd as usize, 0, 0, 0, 0, 0);
            }
            fd
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if let Some(_g) = inside() {
        return sim_open(path, flags) as i32;
    }
    ret(raw6(257, -100isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    if let Some(_g) = inside() {
        return sim_open(path, flags) as i32;
    }
    ret(raw6(257, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}

macro_rules! refuse_path {
    ($($name:ident $nr:expr, $what:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize, b: usize, c: usize, d: usize, e: usize) -> i32 {
            if let Some(_g) = inside() {
                effect($what);
                return err(30) as i32;
            }
            ret(raw6($nr, a, b, c, d, e, 0)) as i32
        }
    )* }
}
refuse_path! {
    unlink 87, "a call removed a file";
    rename 82, "a call renamed a file";
    mkdir 83, "a call made a directory";
    rmdir 84, "a call removed a directory";
    chdir 80, "a call changed the working directory";
    socket 41, "a call opened a socket";
    kill 62, "a call sent a signal";
    tgkill 234, "a call sent a signal";
    link 86, "a call linked a file";
    linkat 265, "a call linked a file";
    symlink 88, "a call made a symbolic link";
    symlinkat 266, "a call made a symbolic link";
    unlinkat 263, "a call removed a file";
    renameat 264, "a call renamed a file";
    renameat2 316, "a call renamed a file";
    mkdirat 258, "a call made a directory";
    chmod 90, "a call changed the mode of a file";
    fchmod 91, "a call changed the mode of a file";
    fchmodat 268, "a call changed the mode of a file";
    chown 92, "a call changed the owner of a file";
    fchown 93, "a call changed the owner of a file";
    lchown 94, "a call changed the owner of a file";
    truncate64 76, "a call truncated a file";
    utimensat 280, "a call changed the times of a file";
    socketpair 53, "a call opened a socket";
    dup2 33, "a call replaced an open descriptor";
    dup3 292, "a call replaced an open descriptor";
}

/// The standard streams stay open.
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd <= 2 {
        if let Some(_g) = inside() {
            effect(&format!("a call closed descriptor {}", fd));
            return 0;
        }
    }
    ret(raw6(3, fd as usize, 0, 0, 0, 0, 0)) as i32
}

// Process-wide settings.
macro_rules! refuse_setting {
    ($($name:ident $real:ident, $what:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize, b: usize, c: usize) -> i32 {
            if let Some(_g) = inside() {
                effect($what);
                return 0;
            }
            extern "C" { fn dlsym(h: usize, n: *const u8) -> usize; }
            let p = dlsym(usize::MAX, concat!(stringify!($real), "\0").as_ptr());
            if p == 0 { return -1; }
            let f: unsafe extern "C" fn(usize, usize, usize) -> i32 = std::mem::transmute(p);
            f(a, b, c)
        }
    )* }
}
refuse_setting! {
    setenv setenv, "a call set an environment variable";
    unsetenv unsetenv, "a call removed an environment variable";
    sigaction sigaction, "a call changed a signal handler";
    setrlimit64 setrlimit64, "a call changed a resource limit";
    setrlimit setrlimit, "a call changed a resource limit";
    signal signal, "a call changed a signal handler";
    sigprocmask sigprocmask, "a call changed the signal mask";
    pthread_sigmask pthread_sigmask, "a call changed the signal mask";
    umask umask, "a call changed the file mode mask";
    setpriority setpriority, "a call changed the priority of the process";
    nice nice, "a call changed the priority of the process";
    setlocale setlocale, "a call changed the locale";
    alarm alarm, "a call set a timer";
    setitimer setitimer, "a call set a timer";
    putenv putenv, "a call set an environment variable";
    clearenv clearenv, "a call removed all environment variables";
    fchdir fchdir, "a call changed the working directory";
    execve execve, "a call started another program";
    execvp execvp, "a call started another program";
    posix_spawn posix_spawn, "a call started another program";
    posix_spawnp posix_spawnp, "a call started another program";
    srand srand, "a call seeded the process's random numbers";
    srandom srandom, "a call seeded the process's random numbers";
    prlimit64 prlimit64, "a call changed a resource limit";
    sched_setaffinity sched_setaffinity, "a call changed the processors it may run on";
    sched_setscheduler sched_setscheduler, "a call changed how it is scheduled";
    setpgid setpgid, "a call changed its process group";
    setsid setsid, "a call started a session";
    setuid setuid, "a call changed the user";
    setgid setgid, "a call changed the group";
    mlockall mlockall, "a call locked memory";
    mallopt mallopt, "a call changed a setting of the allocator";
    sethostname sethostname, "a call changed the host name";
    fork fork, "a call started a process";
    vfork vfork, "a call started a process";
    daemon daemon, "a call started a process";
    system system, "a call started another program";
    popen popen, "a call started another program";
    atexit atexit, "a call registered something to be done when the process ends";
}

// ---- what a call may read of its surroundings ------------------------------------------

extern "C" {
    static environ: *const *const u8;
}

/// Any variable a call asks for may be set: value and presence are seeded by the name.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let len = |p: *const u8| {
        let mut n = 0;
        while *p.add(n) != 0 {
            n += 1;
        }
        n
    };
    let key = std::slice::from_raw_parts(name, len(name));
    if let Some(_g) = inside() {
        shared().count(FK::EnvRead);
        if let Some(e) = env() {
            if !e.cfg.vars {
                return std::ptr::null();
            }
            let mut r = Rng::new(crate::rng::hash_bytes(e.cfg.seed, key));
            if r.chance(1, 4) {
                return std::ptr::null();
            }
            if key == b"RUST_MIN_STACK" {
                // a knob of the standard library for stacks of any size, too small ones too
                return std::ptr::null();
            }
            let mut v = word(&mut r);
            v.push(0);
            return v.leak().as_ptr();
        }
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null();
    }
    while !(*p).is_null() {
        let s = *p;
        let mut i = 0;
        while i < key.len() && *s.add(i) == key[i] {
            i += 1;
        }
        if i == key.len() && *s.add(i) == b'=' {
            return s.add(i + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

/// Does this path exist, and what is it? None: no; otherwise the file mode.
unsafe fn look_up(path: *const u8) -> Result<(u32, u64), i32> {
    shared().count(FK::StateRead);
    let mut n = 0;
    while *path.add(n) != 0 {
        n += 1;
    }
    let name = std::slice::from_raw_parts(path, n);
    let e = match env() {
        Some(e) => e,
        None => return Err(2),
    };
    let mut r = Rng::new(crate::rng::hash_bytes(e.cfg.seed ^ 77, name));
    match e.cfg.files {
        0 => Err(2),
        1 => Err(13),
        _ if r.chance(1, 4) => Err(2),
        2 => Ok((0o040755, 4096)),
        _ => Ok((if r.chance(1, 5) { 0o040755 } else { 0o100644 }, r.below(5000))),
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if let Some(_g) = inside() {
        if !path.is_null() && *path != 0 {
            return match look_up(path) {
                Ok((mode, size)) => {
                    std::ptr::write_bytes(out, 0, 256);
                    *(out as *mut u32) = 0x7ff;
                    *(out.add(4) as *mut u32) = 4096;
                    *(out.add(16) as *mut u32) = 1;
                    *(out.add(28) as *mut u16) = mode as u16;
                    *(out.add(32) as *mut u64) = 4711;
                    *(out.add(40) as *mut u64) = size;
                    0
                }
                Err(e) => err(e) as i32,
            };
        }
    }
    ret(raw6(332, dir as usize, path as usize, flags as usize, mask as usize, out as usize, 0)) as i32
}

unsafe fn stat_path(nr: usize, path: *const u8, out: *mut u8) -> i32 {
    if let Some(_g) = inside() {
        return match look_up(path) {
            Ok((mode, size)) => {
                std::ptr::write_bytes(out, 0, 144);
                *(out.add(8) as *mut u64) = 4711;
                *(out.add(16) as *mut u64) = 1;
                *(out.add(24) as *mut u32) = mode;
                *(out.add(48) as *mut u64) = size;
                0
            }
            Err(e) => err(e) as i32,
        };
    }
    ret(raw6(nr, path as usize, out as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const u8, out: *mut u8) -> i32 {
    stat_path(4, path, out)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const u8, out: *mut u8) -> i32 {
    stat_path(6, path, out)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const u8, mode: i32) -> i32 {
    if let Some(_g) = inside() {
        return match look_up(path) {
            Ok(_) => 0,
            Err(e) => err(e) as i32,
        };
    }
    ret(raw6(21, path as usize, mode as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const u8, out: *mut u8, n: usize) -> isize {
    if let Some(_g) = inside() {
        return match look_up(path) {
            Ok(_) => {
                let t = b"/usr/bin/other";
                let k = n.min(t.len());
                std::ptr::copy_nonoverlapping(t.as_ptr(), out, k);
                k as isize
            }
            Err(e) => err(e),
        };
    }
    ret(raw6(89, path as usize, out as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const u8, out: *mut u8) -> *mut u8 {
    if let Some(_g) = inside() {
        let e = match look_up(path) {
            Ok(_) => 13,
            Err(e) => e,
        };
        err(e);
        return std::ptr::null_mut();
    }
    let real: unsafe extern "C" fn(*const u8, *mut u8) -> *mut u8 = std::mem::transmute(next("realpath\0"));
    real(path, out)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const u8) -> *mut u8 {
    if let Some(_g) = inside() {
        let e = match look_up(path) {
            Ok(_) => 24,
            Err(e) => e,
        };
        err(e);
        return std::ptr::null_mut();
    }
    let real: unsafe extern "C" fn(*const u8) -> *mut u8 = std::mem::transmute(next("opendir\0"));
    real(path)
}

/// Standard input: closed, failing, or something seeded.
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fd == 0 {
        if let Some(_g) = inside() {
            shared().count(FK::StateRead);
            if let Some(e) = env() {
                return match e.cfg.stdio {
                    0 | 4 => 0,
                    1 | 2 => err(5),
                    3 => err(9),
                    _ => {
                        let mut t = word(&mut e.rng);
                        t.push(b'\n');
                        let k = n.min(t.len());
                        std::ptr::copy_nonoverlapping(t.as_ptr(), buf, k);
                        k as isize
                    }
                };
            }
        }
    }
    ret(raw6(0, fd as usize, buf as usize, n, 0, 0, 0))
}

macro_rules! identity {
    ($($name:ident $nr:expr, $salt:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name() -> i32 {
            if let Some(_g) = inside() {
                shared().count(FK::StateRead);
                if let Some(e) = env() {
                    return (crate::rng::mix(e.cfg.seed ^ $salt) % 5 * 500) as i32;
                }
            }
            raw6($nr, 0, 0, 0, 0, 0, 0) as i32
        }
    )* }
}
identity! {
    getuid 102, 1;
    geteuid 107, 1;
    getgid 104, 2;
    getegid 108, 2;
    getppid 110, 3;
}

#[no_mangle]
pub unsafe extern "C" fn sched_getcpu() -> i32 {
    if let Some(_g) = inside() {
        shared().count(FK::StateRead);
        if let Some(e) = env() {
            return e.rng.below(e.cfg.cpus.max(1) as u64) as i32;
        }
    }
    let mut c = 0u32;
    raw6(309, &mut c as *mut u32 as usize, 0, 0, 0, 0, 0);
    c as i32
}

#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut u8, n: usize) -> i32 {
    if let Some(_g) = inside() {
        shared().count(FK::StateRead);
        if let Some(e) = env() {
            let names: &[&[u8]] = &[b"localhost\0", b"ci-runner-7\0", b"build\0", b"\0"];
            let v = names[(e.cfg.seed >> 9) as usize % 4];
            if v.len() > n {
                return err(36) as i32;
            }
            std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len());
            return 0;
        }
    }
    let real: unsafe extern "C" fn(*mut u8, usize) -> i32 = std::mem::transmute(next("gethostname\0"));
    real(buf, n)
}

/// Names of the threads that make calls.
pub fn thread_name(k: u8, seed: u64) -> String {
    match k {
        1 => "main".into(),
        2 => "worker-1".into(),
        3 => "tokio-runtime-worker".into(),
        4 => "".into(),
        _ => {
            let mut r = Rng::new(seed ^ 0x7EA);
            let w = if r.chance(1, 2) && !words().is_empty() { r.pick(words()).clone() } else { word(&mut r) };
            let w: Vec<u8> = w.into_iter().filter(|b| b.is_ascii_graphic()).collect();
            String::from_utf8(w).unwrap_or_default()
        }
    }
}

pub fn spawn_named(
    slot: usize,
    size: usize,
    name: String,
    f: extern "C" fn(usize) -> usize,
    arg: usize,
) -> usize {
    use std::os::unix::thread::JoinHandleExt;
    let at = STACK_BASE + slot * (STACK_SIZE + (1 << 20));
    unsafe { NEXT_STACK = (at, size) };
    match std::thread::Builder::new().name(name).spawn(move || {
        f(arg);
    }) {
        Ok(h) => h.into_pthread_t() as usize,
        Err(_) => sched::fail("harness", "cannot start a thread"),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, len: usize) -> *mut u8 {
    if let Some(_g) = inside() {
        shared().count(FK::EnvRead);
        if let Some(e) = env() {
            let names: &[&[u8]] = &[b"/\0", b"/tmp\0", b"/home/someone/else\0", b"/repo\0"];
            let v = names[(e.cfg.seed % 5).min(3) as usize];
            if e.cfg.seed % 5 == 4 || v.len() > len {
                err(2);
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len());
            return buf;
        }
    }
    if raw6(79, buf as usize, len, 0, 0, 0, 0) < 0 {
        return std::ptr::null_mut();
    }
    buf
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if let Some(_g) = inside() {
        shared().count(FK::EnvRead);
        if let Some(e) = env() {
            return ((e.cfg.seed >> 7) & 1) as i32;
        }
    }
    let mut b = [0u8; 64];
    (raw6(16, fd as usize, 0x5401, b.as_mut_ptr() as usize, 0, 0, 0) == 0) as i32
}

/// A call that ends the process ends it here.
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if let Some(_g) = inside() {
        sched::fail("side-effect", &format!("a call ended the process with status {}", code));
    }
    extern "C" {
        fn dlsym(h: usize, n: *const u8) -> usize;
    }
    let p = dlsym(usize::MAX, "exit\0".as_ptr());
    let f: unsafe extern "C" fn(i32) -> ! = std::mem::transmute(p);
    f(code)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(t: usize, name: *const u8) -> i32 {
    if let Some(g) = inside() {
        // a thread that a call has started may have a name
        if !(*g.0).spawned {
            effect("a call renamed its thread");
        }
        return 0;
    }
    let real: unsafe extern "C" fn(usize, *const u8) -> i32 = std::mem::transmute(next("pthread_setname_np\0"));
    real(t, name)
}

/// Environment variables for a run (before any thread starts).
pub fn set_vars(rng: &mut Rng) {
    let names = [
        "RUST_BACKTRACE", "RUST_LOG", "LANG", "LC_ALL", "LC_NUMERIC", "TZ", "HOME", "TMPDIR",
        "COLUMNS", "TERM", "NO_COLOR", "DEBUG", "SYMBOLIC_DEBUG", "SYMBOLIC_RUST", "PRECISION",
        "CI", "VERBOSE", "PATH", "USER", "RUST_TEST_THREADS", "PWD",
    ];
    let values = [
        "", "0", "1", "full", "de_DE.UTF-8", "tr_TR", "C", "12", "999999", "true", "/nonexistent",
        "off", "trace", "\u{3bb}",
    ];
    for n in names {
        if rng.chance(1, 2) {
            let v = rng.pick(&values).to_string();
            unsafe { std::env::set_var(n, v) };
        } else if rng.chance(1, 3) {
            unsafe { std::env::remove_var(n) };
        }
    }
    // variables whose names stand in the crate, or begin with something that does
    for w in words().iter().filter(|w| w.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'_')) {
        if rng.chance(1, 2) {
            let mut n = String::from_utf8_lossy(w).into_owned();
            if rng.chance(1, 3) {
                n.push_str(*rng.pick(&["DIGITS", "_DEBUG", "X", "LEVEL"]));
            }
            let v = word(rng);
            if n != "RUST_MIN_STACK" && !v.contains(&0) {
                unsafe { std::env::set_var(n, std::ffi::OsString::from_vec(v)) };
            }
        }
    }
}

// ---- processes and threads of the simulator itself ---------------------------------------

extern "C" {
    #[link_name = "__fork"]
    fn real_fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn pthread_attr_getstacksize(a: *const u8, n: *mut usize) -> i32;
    fn pthread_attr_setstacksize(a: *mut u8, n: usize) -> i32;
    fn dlsym(h: usize, n: *const u8) -> usize;
    fn pthread_attr_init(a: *mut u8) -> i32;
    fn pthread_attr_setstack(a: *mut u8, p: usize, len: usize) -> i32;
}

pub const STACK_BASE: usize = 0x2000_0000_0000;
pub const STACK_SIZE: usize = 8 << 20;

pub fn reserve_stacks() {
    unsafe {
        for i in 0..crate::sched::MAX_THREADS + 4 + crate::sched::SPAWN_STACKS {
            let at = STACK_BASE + i * (STACK_SIZE + (1 << 20));
            let p = raw6(9, at, STACK_SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0);
            if p as usize != at {
                eprintln!("sim: cannot reserve stacks");
                std::process::exit(2);
            }
        }
    }
}

pub fn spawn_thread(slot: usize, size: usize, f: extern "C" fn(usize) -> usize, arg: usize) -> usize {
    unsafe {
        let mut attr = [0u8; 128];
        pthread_attr_init(attr.as_mut_ptr());
        let at = STACK_BASE + slot * (STACK_SIZE + (1 << 20));
        pthread_attr_setstack(attr.as_mut_ptr(), at, size);
        let mut t = 0;
        if pthread_create(&mut t, attr.as_ptr(), f, arg) != 0 {
            sched::fail("harness", "cannot start a thread");
        }
        t
    }
}

// An access the hardware refuses still kills the process; where it was is noted first.

extern "C" fn on_fault(sig: i32, info: *const u8, uc: usize) {
    unsafe {
        if sig == 11 && *(info.add(8) as *const i32) == 128 && time_stamp((uc + 40) as *mut u64) {
            return;
        }
        let sh = shared();
        sh.fault_at = (info.add(16) as *const usize).read_unaligned();
        let default = [0usize; 4];
        raw6(13, sig as usize, default.as_ptr() as usize, 0, 8, 0, 0);
    }
}

/// The processor's time-stamp counter is a clock as well: reading it is made to fault, and
/// answered here.
unsafe fn time_stamp(regs: *mut u64) -> bool {
    let (rdx, rax, rcx, rip) = (regs.add(12), regs.add(13), regs.add(14), regs.add(16));
    let code = *rip as *const u8;
    let len = match (*code, *code.add(1)) {
        (0x0F, 0x31) => 2,
        (0x0F, 0x01) if *code.add(2) == 0xF9 => 3,
        _ => return false,
    };
    let mut t = 0;
    if let Some(_g) = inside() {
        let mut ts = Timespec { sec: 0, nsec: 0 };
        clock(1, &mut ts);
        t = (ts.sec as u64).wrapping_mul(3_000_000_000).wrapping_add(ts.nsec as u64 * 3);
        if len == 3 {
            *rcx = env().map_or(0, |e| e.rng.below(e.cfg.cpus.max(1) as u64));
        }
    }
    *rax = t & 0xFFFF_FFFF;
    *rdx = t >> 32;
    *rip += len;
    true
}

core::arch::global_asm!(".globl sim_restore", "sim_restore:", "mov rax, 15", "syscall");

pub fn note_faults() {
    #[repr(C)]
    struct Act {
        handler: usize,
        flags: usize,
        restorer: usize,
        mask: u64,
    }
    extern "C" {
        fn sim_restore();
    }
    // siginfo, alternate stack, restorer
    let a = Act {
        handler: on_fault as *const () as usize,
        flags: 4 | 0x0800_0000 | 0x0400_0000,
        restorer: sim_restore as *const () as usize,
        mask: 0,
    };
    unsafe { raw6(157, 26, 2, 0, 0, 0, 0) };
    for sig in [11usize, 7] {
        unsafe { raw6(13, sig, &a as *const Act as usize, 0, 8, 0, 0) };
    }
}

/// The running thread's stack for fault handlers.
pub fn own_altstack() {
    unsafe {
        let p = raw6(9, 0, 16384, 3, 0x22, usize::MAX, 0);
        if p > 0 {
            let ss = [p as usize, 0, 16384];
            raw6(131, ss.as_ptr() as usize, 0, 0, 0, 0, 0);
        }
    }
}

/// Does this address belong to the stack of a simulated thread, or to the gap below it?
pub fn near_stack(a: usize) -> bool {
    let all = (crate::sched::MAX_THREADS + 4 + crate::sched::SPAWN_STACKS) * (STACK_SIZE + (1 << 20));
    a.wrapping_sub(STACK_BASE - (1 << 20)) < all + (1 << 20)
}

pub fn join_thread(t: usize) {
    unsafe {
        pthread_join(t, std::ptr::null_mut());
    }
}

unsafe fn next(name: &str) -> usize {
    let p = dlsym(usize::MAX, name.as_ptr());
    assert!(p != 0);
    p
}

/// where the next thread started by the simulator itself has its stack
pub static mut NEXT_STACK: (usize, usize) = (0, 0);

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut usize,
    attr: *const u8,
    f: extern "C" fn(usize) -> usize,
    arg: usize,
) -> i32 {
    if let Some(_g) = inside() {
        let mut size = 2 << 20;
        if !attr.is_null() {
            pthread_attr_getstacksize(attr, &mut size);
        }
        return match sched::sched().spawn(f as usize, arg, size) {
            Some(h) => {
                *t = h;
                0
            }
            None => 11,
        };
    }
    let real: unsafe extern "C" fn(*mut usize, *const u8, usize, usize) -> i32 =
        std::mem::transmute(next("pthread_create\0"));
    let (at, size) = NEXT_STACK;
    if at != 0 {
        NEXT_STACK = (0, 0);
        let mut attr = [0u8; 128];
        pthread_attr_init(attr.as_mut_ptr());
        pthread_attr_setstack(attr.as_mut_ptr(), at, size);
        return real(t, attr.as_ptr(), f as usize, arg);
    }
    real(t, attr, f as usize, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, r: *mut usize) -> i32 {
    if let Some(g) = inside() {
        if let Some(v) = sched::sched().join(&mut *g.0, t) {
            if !r.is_null() {
                *r = v;
            }
            return 0;
        }
    }
    let real: unsafe extern "C" fn(usize, *mut usize) -> i32 = std::mem::transmute(next("pthread_join\0"));
    real(t, r)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: usize) -> i32 {
    // the controller joins it all the same
    if sched::active() && sched::sched().detach(t) {
        return 0;
    }
    let real: unsafe extern "C" fn(usize) -> i32 = std::mem::transmute(next("pthread_detach\0"));
    real(t)
}

pub enum Ended {
    Code(i32),
    Signal(i32),
}

/// Run `f` in a forked process and wait for it.
pub fn in_child(f: impl FnOnce()) -> Ended {
    unsafe {
        let pid = real_fork();
        if pid < 0 {
            eprintln!("sim: fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            // die with the parent
            raw6(157, 1, 9, 0, 0, 0, 0);
            // no core files; 60 s of processor time, 150 s of real time
            let lim = [0usize, 0];
            raw6(160, 4, lim.as_ptr() as usize, 0, 0, 0, 0);
            let lim = [60usize, 61];
            raw6(160, 0, lim.as_ptr() as usize, 0, 0, 0, 0);
            raw6(37, 150, 0, 0, 0, 0, 0);
            f();
            raw6(231, 0, 0, 0, 0, 0, 0);
            loop {}
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if st & 127 == 0 {
            Ended::Code((st >> 8) & 255)
        } else {
            Ended::Signal(st & 127)
        }
    }
}

pub fn pin(cpu: usize) {
    unsafe {
        let mut mask = [0u8; 128];
        let mut have = [0u8; 128];
        let r = raw6(204, 0, 128, have.as_mut_ptr() as usize, 0, 0, 0);
        if r <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| have[i / 8] >> (i % 8) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let k = cpus[cpu % cpus.len()];
        mask[k / 8] |= 1 << (k % 8);
        raw6(203, 0, 128, mask.as_ptr() as usize, 0, 0, 0);
    }
}

/// A worker process in a process group of its own.
pub fn fork_worker(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = real_fork();
        if pid < 0 {
            eprintln!("sim: fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            raw6(109, 0, 0, 0, 0, 0, 0);
            raw6(157, 1, 9, 0, 0, 0, 0);
            // results of simulated processes go to a block of this worker's own
            crate::shared::map();
            let c = f();
            raw6(231, c as usize, 0, 0, 0, 0, 0);
            loop {}
        }
        pid
    }
}

/// (pid, exit status, or 1000 + signal)
pub fn wait_any() -> (i32, i32) {
    unsafe {
        let mut st = 0;
        loop {
            let p = waitpid(-1, &mut st, 0);
            if p > 0 {
                let code = if st & 127 == 0 { (st >> 8) & 255 } else { 1000 + (st & 127) };
                return (p, code);
            }
        }
    }
}

pub fn kill_group(pid: i32) {
    unsafe {
        raw6(62, -(pid as isize) as usize, 9, 0, 0, 0, 0);
    }
}

/// The standard library insists on a guard page; below the simulator's stacks there is
/// unmapped memory.
#[no_mangle]
pub unsafe extern "C" fn pthread_getattr_np(t: usize, a: *mut u8) -> i32 {
    extern "C" {
        fn pthread_attr_getguardsize(a: *const u8, n: *mut usize) -> i32;
        fn pthread_attr_setguardsize(a: *mut u8, n: usize) -> i32;
    }
    let real: unsafe extern "C" fn(usize, *mut u8) -> i32 = std::mem::transmute(next("pthread_getattr_np\0"));
    let r = real(t, a);
    let mut n = 0;
    if r == 0 && pthread_attr_getguardsize(a, &mut n) == 0 && n == 0 {
        pthread_attr_setguardsize(a, 4096);
    }
    r
}
