//! The simulated memory system. Everything the crate under test allocates while a
//! simulated thread is inside a call comes from here: placement, reuse, left-over
//! contents and refusals are decided by the run, and every block is shadowed, so
//! that double frees, wild frees, stale writes and stale accesses are noticed.
//! Allocations of the simulator itself go to the system allocator.
use crate::rng::Rng;
use crate::sched::{self, Ctx};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::VecDeque;

const HOME: usize = 0x1000_0000_0000;
pub const SUBS: usize = 48;
pub const SUB_SIZE: usize = 64 << 20;
/// Two of these can be in use, more than 2 GiB apart.
const BANK: usize = SUBS * SUB_SIZE;
const SHADOW: usize = 0x1800_0000_0000;

// A shadow byte stands for 16 bytes: the number of them that belong to a live block,
// with a mark on the first of the block; 0 if none ever did.
// where the memory of this run begins, and how much address space it takes
static mut BASE: usize = HOME;
static mut SPAN: usize = BANK;

const HEAD: u8 = 0x40;
const FREED: u8 = 0xFD;
const POISON: u8 = 0xDD;

#[derive(Clone, Debug, PartialEq)]
pub struct MemCfg {
    /// 0 reuse last freed first, 1 reuse oldest first, 2 never reuse, 3 reuse at random
    pub reuse: u8,
    /// 0 zero bytes, 1 0xA5, 2 random bytes
    pub garbage: u8,
    /// reallocation always moves
    pub moving: bool,
    /// all threads share one pool
    pub shared: bool,
    /// offset of the first block, and gaps between blocks
    pub seed: u64,
    /// random gaps between blocks
    pub gaps: bool,
    /// 0 always at the same place, 1 anywhere in 4 TiB, 2 also in two banks far apart
    pub spread: u8,
}

impl Default for MemCfg {
    fn default() -> Self {
        MemCfg {
            reuse: 0,
            garbage: 1,
            moving: false,
            shared: false,
            seed: 0,
            gaps: false,
            spread: 0,
        }
    }
}

struct Sub {
    bump: [usize; 2],
    free: Vec<VecDeque<usize>>,
}

pub struct Arena {
    subs: Vec<Sub>,
    cfg: MemCfg,
    rng: Rng,
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub total: u64,
    pub peak_bytes: i64,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();

pub fn arena() -> &'static mut Arena {
    unsafe { &mut *ARENA }
}

fn class_of(size: usize) -> (usize, usize) {
    // (class index, block size)
    if size <= 1024 {
        let c = (size.max(1) + 15) / 16;
        (c, c * 16)
    } else {
        let p = size.next_power_of_two();
        (64 + p.trailing_zeros() as usize, p)
    }
}

/// Reserve the address range once per process, before any run.
pub fn reserve() {
    unsafe {
        for (at, len) in [(HOME, BANK), (SHADOW, 2 * BANK / 16)] {
            let p = libc_mmap(at, len);
            if p != at {
                eprintln!("sim: cannot reserve memory at {:x}", at);
                std::process::exit(2);
            }
        }
    }
}

unsafe fn libc_mmap(at: usize, len: usize) -> usize {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    crate::sys::raw6(9, at, len, 3, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0) as usize
}

/// Start a run with this configuration (in a fresh process).
pub fn configure(cfg: &MemCfg) {
    let mut rng = Rng::new(cfg.seed ^ 0xA11C);
    if cfg.spread > 0 {
        let mut place = Rng::new(cfg.seed ^ 0x51AC);
        // HOME itself, which is already taken, is left out
        let at = HOME + 2 * BANK + (place.below(1 << 30) as usize) * 4096;
        let span = if cfg.spread > 1 { 2 * BANK } else { BANK };
        unsafe {
            if libc_mmap(at, span) != at {
                eprintln!("sim: cannot reserve memory at {:x}", at);
                std::process::exit(2);
            }
            BASE = at;
            SPAN = span;
        }
    }
    let base = unsafe { BASE };
    let mut subs = vec![];
    for i in 0..SUBS {
        let off = if cfg.gaps { rng.below(4096) as usize * 16 } else { 0 };
        subs.push(Sub {
            bump: [0, BANK].map(|bank| base + bank + i * SUB_SIZE + 4096 + off),
            free: (0..128).map(|_| VecDeque::new()).collect(),
        });
    }
    let a = Box::new(Arena {
        subs,
        cfg: cfg.clone(),
        rng,
        live_blocks: 0,
        live_bytes: 0,
        total: 0,
        peak_bytes: 0,
    });
    unsafe { ARENA = Box::into_raw(a) }
}

#[inline]
fn shadow(addr: usize) -> *mut u8 {
    (SHADOW + (addr - unsafe { BASE }) / 16) as *mut u8
}

#[inline]
pub fn contains(addr: usize) -> bool {
    unsafe { addr.wrapping_sub(BASE) < SPAN }
}

/// Does this access touch memory that was given back, or lies outside any block?
#[inline]
pub fn is_dead(addr: usize, len: usize) -> bool {
    unsafe {
        let off = addr & 15;
        let v = *shadow(addr);
        let k = (v & 31) as usize;
        if v == FREED || k == 0 {
            return true;
        }
        if off + len <= 16 {
            return off + len > k;
        }
        // the rest of the block up to the last byte
        if k < 16 {
            return true;
        }
        let mut at = addr - off + 16;
        let end = addr + len;
        while at < end {
            let v = *shadow(at);
            // a new block cannot start in the middle of an access
            if v == FREED || v & HEAD != 0 || ((v & 31) as usize) < (end - at).min(16) {
                return true;
            }
            at += 16;
        }
        false
    }
}

/// What kind of wrong access that was.
pub fn dead_kind(addr: usize) -> &'static str {
    if unsafe { *shadow(addr) } == FREED {
        "memory was accessed after it had been given back"
    } else {
        "memory outside of any block was accessed"
    }
}

pub fn sub_of(addr: usize) -> usize {
    (addr - unsafe { BASE }) / SUB_SIZE % SUBS
}

impl Arena {
    unsafe fn take(&mut self, owner: usize, layout: Layout, zero: bool) -> *mut u8 {
        let size = layout.size();
        let align = layout.align();
        let sub = if self.cfg.shared { 1 } else { owner % SUBS };
        let (class, block) = class_of(size + 16);
        let reuse = self.cfg.reuse;
        let mut addr = 0;
        if align <= 16 && reuse != 2 {
            let list = &mut self.subs[sub].free[class];
            addr = match reuse {
                0 => list.pop_back(),
                1 => {
                    if list.len() > 8 {
                        list.pop_front()
                    } else {
                        None
                    }
                }
                _ => {
                    if list.is_empty() || self.rng.chance(1, 3) {
                        None
                    } else {
                        let i = self.rng.below(list.len() as u64) as usize;
                        list.swap_remove_back(i)
                    }
                }
            }
            .unwrap_or(0);
        }
        if addr != 0 {
            let n = block.min(256);
            let s = std::slice::from_raw_parts(addr as *const u8, n);
            if s.iter().any(|b| *b != POISON) {
                sched::fail(
                    "memory",
                    "memory was written to after it had been given back",
                );
            }
        } else {
            let gap = if self.cfg.gaps { self.rng.below(8) as usize * 16 } else { 0 };
            let bank = (self.cfg.spread > 1 && self.rng.chance(1, 3)) as usize;
            let s = &mut self.subs[sub];
            let at = (s.bump[bank] + gap + align - 1) / align * align;
            let at = (at + 15) / 16 * 16;
            if at + block > BASE + bank * BANK + (sub + 1) * SUB_SIZE - 4096 {
                sched::fail("exhausted", "simulated memory exhausted");
            }
            s.bump[bank] = at + block + if align > 16 { 16 } else { 0 };
            addr = at;
        }
        let p = addr as *mut u8;
        if zero {
            std::ptr::write_bytes(p, 0, size);
        } else {
            match self.cfg.garbage {
                0 => std::ptr::write_bytes(p, 0, block.min(65536)),
                1 => std::ptr::write_bytes(p, 0xA5, block.min(65536)),
                _ => {
                    for i in 0..block.min(4096) {
                        if i % 8 == 0 {
                            *(p.add(i) as *mut u64) = self.rng.next();
                        }
                    }
                }
            }
        }
        self.mark(addr, size);
        self.live_blocks += 1;
        self.live_bytes += size as i64;
        self.peak_bytes = self.peak_bytes.max(self.live_bytes);
        self.total += 1;
        p
    }

    unsafe fn mark(&mut self, addr: usize, size: usize) {
        let n = (size.max(1) + 15) / 16;
        std::ptr::write_bytes(shadow(addr), 16, n);
        *shadow(addr + (n - 1) * 16) = (size.max(1) - (n - 1) * 16) as u8;
        *shadow(addr) |= HEAD;
    }

    /// Is this the start of a live block of that size?
    unsafe fn check(&self, addr: usize, size: usize, twice: &str) {
        let first = *shadow(addr);
        if first == FREED {
            sched::fail("memory", twice);
        }
        if addr % 16 != 0 || first & HEAD == 0 {
            sched::fail("memory", "memory that was never taken was given back");
        }
        let n = (size.max(1) + 15) / 16;
        let last = *shadow(addr + (n - 1) * 16);
        let after = *shadow(addr + n * 16);
        if (last & 31) as usize != size.max(1) - (n - 1) * 16
            || last == FREED
            || (after != FREED && after != 0 && after & HEAD == 0)
        {
            sched::fail("memory", "memory was given back with a different size");
        }
    }

    unsafe fn give(&mut self, p: *mut u8, layout: Layout) {
        let addr = p as usize;
        let size = layout.size();
        self.check(addr, size, "memory was given back twice");
        let n = (size.max(1) + 15) / 16;
        std::ptr::write_bytes(shadow(addr), FREED, n);
        let (class, block) = class_of(size + 16);
        std::ptr::write_bytes(p, POISON, block.min(4096));
        self.live_blocks -= 1;
        self.live_bytes -= size as i64;
        if layout.align() <= 16 {
            let sub = sub_of(addr);
            self.subs[sub].free[class].push_back(addr);
        }
    }

    unsafe fn regive(&mut self, owner: usize, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, layout.align());
        let same = class_of(layout.size() + 16).0 == class_of(new + 16).0;
        if same && !self.cfg.moving && layout.align() <= 16 {
            let addr = p as usize;
            self.check(addr, layout.size(), "memory was resized after it had been given back");
            let old_n = (layout.size().max(1) + 15) / 16;
            std::ptr::write_bytes(shadow(addr), 0, old_n);
            self.mark(addr, new);
            self.live_bytes += new as i64 - layout.size() as i64;
            self.peak_bytes = self.peak_bytes.max(self.live_bytes);
            self.total += 1;
            return p;
        }
        let q = self.take(owner, nl, false);
        std::ptr::copy_nonoverlapping(p, q, layout.size().min(new));
        self.give(p, layout);
        q
    }
}

pub struct SimAlloc;

#[inline]
fn in_call() -> *mut Ctx {
    let c = sched::cur();
    unsafe {
        if !c.is_null() && (*c).in_sut {
            c
        } else {
            std::ptr::null_mut()
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let c = in_call();
        if c.is_null() {
            return System.alloc(layout);
        }
        if sched::refuse(&mut *c, layout.size()) {
            return std::ptr::null_mut();
        }
        (*c).in_sut = false;
        let p = arena().take((*c).slot, layout, false);
        (*c).in_sut = true;
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let c = in_call();
        if c.is_null() {
            return System.alloc_zeroed(layout);
        }
        if sched::refuse(&mut *c, layout.size()) {
            return std::ptr::null_mut();
        }
        (*c).in_sut = false;
        let p = arena().take((*c).slot, layout, true);
        (*c).in_sut = true;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if !contains(p as usize) {
            return System.dealloc(p, layout);
        }
        let c = in_call();
        if c.is_null() {
            arena().give(p, layout)
        } else {
            sched::alloc_point(&mut *c);
            (*c).in_sut = false;
            arena().give(p, layout);
            (*c).in_sut = true;
        }
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let c = in_call();
        if !c.is_null() && sched::refuse(&mut *c, new) {
            return std::ptr::null_mut();
        }
        if !contains(p as usize) {
            return System.realloc(p, layout, new);
        }
        if c.is_null() {
            arena().regive(sub_of(p as usize), p, layout, new)
        } else {
            (*c).in_sut = false;
            let q = arena().regive((*c).slot, p, layout, new);
            (*c).in_sut = true;
            q
        }
    }
}
