//! What a simulated process reports back: a block of memory shared with its parent.
use crate::sched::Decision;

pub const LOG_CAP: usize = 20_000;
pub const TEXT_CAP: usize = 192 << 10;
pub const BASE_CAP: usize = 512 << 10;

/// Fault kinds, counted when they actually happen.
#[derive(Clone, Copy)]
pub enum FK {
    Preempt,
    Stall,
    Death,
    Oom,
    SinkError,
    SinkPanic,
    SinkShort,
    SinkEintr,
    Reenter,
    Undo,
    ClockJump,
    ClockRead,
    RandomRead,
    FileOpen,
    StdioFault,
    FutexWait,
    NaturalPanic,
    NaturalError,
    Abort,
    EnvRead,
    ThreadStart,
    StateRead,
}
pub const FKS: usize = 22;
pub const FK_NAMES: [&str; FKS] = [
    "preemption",
    "suspension",
    "caller_death",
    "allocation_refused",
    "writer_error",
    "writer_panic",
    "writer_short_write",
    "writer_interrupted",
    "reentrant_call_from_writer",
    "call_from_destructor_while_unwinding",
    "clock_jump",
    "clock_read_by_call",
    "randomness_read_by_call",
    "file_open_by_call",
    "std_stream_fault",
    "futex_wait",
    "call_ended_in_panic",
    "call_ended_in_error",
    "process_abort_on_refusal",
    "environment_read_by_call",
    "thread_started_by_call",
    "system_state_read_by_call",
];

#[repr(C)]
pub struct Shared {
    pub class: [u8; 32],
    pub class_len: usize,
    pub epoch: u32,
    pub thread: u32,
    pub item: u32,
    pub round: u32,
    pub got_len: usize,
    pub exp_len: usize,
    pub done: u32,
    pub any_oom: u32,
    pub points: u64,
    pub points_done: u64,
    pub switches: u64,
    pub hot_hits: u64,
    pub warm_hits: u64,
    pub tls_hits: u64,
    pub inter: u64,
    pub digest: u64,
    pub clock: u64,
    pub calls: u64,
    pub compared: u64,
    pub faults: [u64; FKS],
    pub end_blocks: i64,
    pub end_bytes: i64,
    /// held by the lent values
    pub pool_bytes: i64,
    /// held apart from them when the last thread had made its calls and was about to end
    pub late_bytes: i64,
    pub log_len: usize,
    // baseline results
    pub base_kind: u32,
    pub base_printed: u32,
    pub base_steps: u64,
    pub base_allocs: u32,
    pub base_text_len: usize,
    pub base_acc_len: usize,
    pub base_writes: u32,
    /// threads the call has started
    pub base_threads: u32,
    /// a print has begun
    pub base_begun: u32,
    /// address of an access the hardware refused
    pub fault_at: usize,
    pub log: [Decision; LOG_CAP],
    pub got: [u8; TEXT_CAP],
    pub exp: [u8; TEXT_CAP],
    pub base_text: [u8; BASE_CAP],
    pub base_acc: [u8; BASE_CAP],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();

pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

pub fn map() {
    let len = (std::mem::size_of::<Shared>() + 4095) / 4096 * 4096;
    let p = unsafe { crate::sys::raw6(9, 0, len, 3, 0x1 | 0x20, usize::MAX, 0) };
    if p < 0 {
        eprintln!("sim: cannot map shared memory");
        std::process::exit(2);
    }
    unsafe { SHARED = p as usize as *mut Shared }
}

impl Shared {
    pub fn clear(&mut self) {
        unsafe {
            // everything before the logs and texts
            let end = std::ptr::addr_of!(self.log) as usize;
            let start = self as *mut _ as usize;
            std::ptr::write_bytes(start as *mut u8, 0, end - start);
        }
    }
    pub fn count(&mut self, k: FK) {
        self.faults[k as usize] += 1;
    }
    pub fn class_str(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len]).into_owned()
    }
    pub fn verdict(
        &mut self,
        class: &str,
        epoch: u32,
        thread: u32,
        item: u32,
        round: u32,
        got: &[u8],
        exp: &[u8],
    ) {
        if self.class_len != 0 {
            return;
        }
        let n = class.len().min(32);
        self.class[..n].copy_from_slice(&class.as_bytes()[..n]);
        self.class_len = n;
        self.epoch = epoch;
        self.thread = thread;
        self.item = item;
        self.round = round;
        let n = got.len().min(TEXT_CAP);
        self.got[..n].copy_from_slice(&got[..n]);
        self.got_len = n;
        let n = exp.len().min(TEXT_CAP);
        self.exp[..n].copy_from_slice(&exp[..n]);
        self.exp_len = n;
    }
    pub fn put_log(&mut self, l: &[Decision]) {
        let n = l.len().min(LOG_CAP);
        self.log[..n].copy_from_slice(&l[..n]);
        self.log_len = n;
    }
}
