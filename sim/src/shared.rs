//! Memory shared between a worker and the forked children that execute its runs.
pub const STREAMS: usize = 3;
pub const GEN: usize = 0;
pub const FAULT: usize = 1;
pub const SCHED: usize = 2;
pub const STREAM_NAMES: [&str; STREAMS] = ["gen", "fault", "sched"];
pub const CAP: usize = 1 << 16;
pub const MAX_CONSTS: usize = 512;
pub const MAX_EDGES: usize = 1 << 14;

macro_rules! counters { ($($n:ident),* $(,)?) => {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy)]
    #[repr(usize)]
    pub enum C { $($n),*, _COUNT }
    pub const COUNTER_NAMES: &[&str] = &[$(stringify!($n)),*];
} }
counters!(
    call_open, call_read, call_write, call_lseek, call_sync, call_close, call_stat, call_clock, call_other,
    futex_wait, futex_wake, futex_block, fault_spurious_wake, preempt, switch,
    fault_eintr, fault_short_read, fault_short_write, fault_latency, fault_stall, fault_open_err, fault_read_err,
    fault_write_err, fault_lseek_err, fault_sync_err, fault_close_err, fault_stat_err, fault_emfile, fault_disk_full,
    fault_clock_jump, fault_replace, fault_remove, fault_inplace_change, fault_crash, fault_lost_write, fault_torn_write,
    fault_fsync_drop, fault_stream_err,
    ops, opens_ok, opens_refused, sim_ns, steps, cmp_fields, cmp_missing, unsupported, lib_threads,
);
pub const NC: usize = C::_COUNT as usize;

pub const PROBES: &[&str] = &[
    "tags_0", "tags_100", "shared_extent", "extent_at_end", "tag_dropped", "overflow_extent", "declared_smaller",
    "declared_larger", "bad_magic", "bad_date", "too_many_tags", "eof_directory", "leap_day",
    "hard_error_in_header", "hard_error_in_directory", "hard_error_in_size", "hard_error_in_open", "eintr_survived",
    "one_byte_reads", "lock_contended", "first_use_race", "recovered_after_failure", "crowd", "shared_file", "rush", "bystander_planted", "streams_on_threads", "stream_cloned", "stream_reopened", "opened_in_handler", "created_at_once", "refused_while_created", "huge_stream", "nested_access",
    "fd_limit_hit", "close_failed_released", "handle_while_alive", "global_and_private_mixed", "plugin_refused_deep", "plugin_chain_long", "plugin_chain_again",
    "plugin_accepted", "clone_isolated", "report_seen", "report_storage_error", "write_open_ok", "write_open_refused",
    "readonly_file_read", "directory_open", "acked_then_crash", "crash_in_write", "crash_in_sync", "sync_error_reported",
    "unacked_lost", "torn_observed", "hard_error_in_write", "hard_error_in_read_op", "disk_full_partial", "read_past_end",
    "seek_before_start", "sparse_growth", "stream_failed_first", "stream_failed_middle", "stream_failed_size",
    "s15_min", "s15_saturated", "mem_full", "mem_grow", "null_negative_seek", "null_past_end", "null_extreme",
    "clock_jump_in_call", "clock_far", "zone_set", "huge_file", "reopened_often", "huge_claim", "slow_device", "replaced_during_open",
    "removed_during_open", "reopened_after_replace", "stall_private", "stall_global", "others_done_while_stalled",
    "stall_waiters_released", "changed_in_place_during_open", "path_alias", "link_changed_during_open",
    "declared_equal", "second_epoch",
];

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_ERROR: u32 = 3;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub overflow: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub class: [u8; 128],
    pub msg: [u8; 4096],
    pub log_hash: u64,
    pub sched_hash: u64,
    pub case_hash: u64,
    pub nontrivial: u64,
    pub summary_len: u32,
    pub summary: [u8; 1024],
    pub counters: [u64; NC],
    pub probes: [u64; 128],
    pub len: [u32; STREAMS],
    pub rec: [[u32; CAP]; STREAMS],
    pub edges: [u8; MAX_EDGES],
    /// Constants compared with, while they are being collected.
    pub collect: u32,
    pub nconst: u32,
    pub consts: [u64; MAX_CONSTS],
}

impl Shared {
    pub fn map() -> &'static mut Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            &mut *(p as *mut Shared)
        }
    }
    /// Clears what one run writes (recorded streams are bounded by `len`).
    pub fn reset(&mut self) {
        self.status = ST_RUNNING;
        self.overflow = 0;
        self.class_len = 0;
        self.msg_len = 0;
        self.summary_len = 0;
        self.log_hash = 0;
        self.sched_hash = 0;
        self.case_hash = 0;
        self.nontrivial = 0;
        self.counters = [0; NC];
        self.probes = [0; 128];
        self.len = [0; STREAMS];
    }
    pub fn put(dst: &mut [u8], s: &str) -> u32 {
        let n = s.len().min(dst.len());
        dst[..n].copy_from_slice(&s.as_bytes()[..n]);
        n as u32
    }
    pub fn class_str(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn msg_str(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn summary_str(&self) -> String {
        String::from_utf8_lossy(&self.summary[..self.summary_len as usize]).into_owned()
    }
    pub fn streams(&self) -> Vec<Vec<u32>> {
        (0..STREAMS).map(|i| self.rec[i][..self.len[i] as usize].to_vec()).collect()
    }
}
