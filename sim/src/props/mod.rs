//! One module per property: generates a run, executes it under the simulator and judges it.
use crate::choice::*;
pub mod opens;
pub mod shared_ctx;
pub mod storage;
pub mod streams;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Gen),
    pub quick: u64,
    pub thorough: u64,
    /// What one run is, for the evidence.
    pub rule: &'static str,
    pub probes: &'static [&'static str],
}
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", run: opens::c01, quick: 200_000, thorough: 12_000_000,
        rule: "one run = (in an eighth of the runs on each of 2..3 threads) one or two well-formed images (field values, 0..100 tags, shared and end-aligned extents) opened 1..3 times through private or process-wide contexts under drawn short reads, interruptions, latencies, clock jumps and zones; non-trivial if a benign fault fired or the image has tags",
        probes: &["tags_0", "tags_100", "shared_extent", "extent_at_end", "declared_larger", "declared_equal", "leap_day", "eintr_survived", "one_byte_reads", "zone_set"] },
    Prop { id: "C02", run: opens::c02, quick: 240_000, thorough: 14_000_000,
        rule: "one run = (in an eighth of the runs on each of 2..3 threads) 1..3 damaged images (flips, truncation, blocks, dates, counts, extents, garbage; some in files of up to 2^62 bytes) opened under benign faults, in a quarter of the runs also changed in place between two storage calls; non-trivial if the reference decoder refuses an image, drops an entry, or a change hit an open",
        probes: &["tag_dropped", "overflow_extent", "declared_smaller", "bad_magic", "bad_date", "too_many_tags", "eof_directory", "changed_in_place_during_open", "huge_file"] },
    Prop { id: "C03", run: opens::c03, quick: 280_000, thorough: 16_000_000,
        rule: "one run = (in an eighth of the runs on each of 2..3 threads) 1..4 (1 in 25: up to 33) opens of intact or damaged images with a failing storage call planned at a drawn call of each (22 error codes) on top of interruptions and short reads; non-trivial if a failure was delivered to the library",
        probes: &["hard_error_in_header", "hard_error_in_directory", "hard_error_in_size", "hard_error_in_open", "eintr_survived"] },
    Prop { id: "C04", run: shared_ctx::c04, quick: 110_000, thorough: 4_000_000,
        rule: "one run = 1..3 (1 in 15: up to 20) threads with 2..8 opens that mostly fail (damage, missing files, storage errors, refused creation, descriptor limit), then all faults stop and new threads open intact profiles through every context; non-trivial if at least one open failed",
        probes: &["recovered_after_failure", "opened_in_handler", "fd_limit_hit", "global_and_private_mixed", "second_epoch", "crowd"] },
    Prop { id: "C05", run: shared_ctx::c05, quick: 180_000, thorough: 10_000_000,
        rule: "one run = 1..3 (1 in 15: up to 20) threads mixing opens, kept profiles, drops and streams used with any operation, with failures at drawn storage calls, descriptor table compared after every operation; non-trivial if a call failed or a profile was kept across other operations",
        probes: &["close_failed_released", "handle_while_alive", "fd_limit_hit", "crowd"] },
    Prop { id: "C06", run: shared_ctx::c06, quick: 150_000, thorough: 4_000_000,
        rule: "one run = 2..4 (1 in 15: up to 20) threads with 1..4 opens each through the process-wide or own contexts, preempted at drawn memory accesses and calls, with spurious wake-ups and storage errors; non-trivial if a thread was preempted or blocked on a lock",
        probes: &["lock_contended", "opened_in_handler", "first_use_race", "global_and_private_mixed", "crowd", "rush"] },
    Prop { id: "C07", run: shared_ctx::c07, quick: 150_000, thorough: 9_000_000,
        rule: "one run = 1..3 threads with 1..3 contexts each (plus clones made on the way, plus the process-wide one), each with its own recording handler, doing 2..8 opens and plugin registrations; non-trivial if a report was made or a plugin chain refused",
        probes: &["report_seen", "plugin_refused_deep", "plugin_accepted", "plugin_chain_long", "plugin_chain_again", "clone_isolated", "opened_in_handler"] },
    Prop { id: "C08", run: storage::c08, quick: 220_000, thorough: 9_000_000,
        rule: "one run = a disk with existing, read-only, write-only, missing, forbidden and directory paths and 2..8 (1 in 25: up to 67) opens in both modes, with failing opens and full disks; the whole disk is compared after every operation; or 1..3 threads creating the same files at once while they are removed or replaced; non-trivial if a write-mode open was made or an open failed",
        probes: &["write_open_ok", "write_open_refused", "readonly_file_read", "directory_open", "created_at_once", "refused_while_created"] },
    Prop { id: "C09", run: storage::c09, quick: 240_000, thorough: 14_000_000,
        rule: "one run = 1..15 threads writing through 1..3 streams each over files of their own or parts of one file and closing some, with short, interrupted and failing calls, until a drawn crash point or the end; then the disk as a crash leaves it is compared; non-trivial if data was written before the crash",
        probes: &["acked_then_crash", "crash_in_write", "crash_in_sync", "sync_error_reported", "unacked_lost", "torn_observed", "shared_file"] },
    Prop { id: "C10", run: streams::c10, quick: 200_000, thorough: 12_000_000,
        rule: "one run = (in a sixth of the runs on each of 2..3 threads) 1..3 disk streams over 1..2 files (some of up to 2^62 bytes) and 4..40 stream operations against a byte-array model, with short and interrupted transfers, failing calls and full disks; non-trivial if a transfer was split, interrupted or failed",
        probes: &["huge_stream", "hard_error_in_write", "hard_error_in_read_op", "disk_full_partial", "read_past_end", "seek_before_start", "sparse_growth", "streams_on_threads", "stream_cloned", "stream_reopened"] },
    Prop { id: "C11", run: streams::c11, quick: 300_000, thorough: 18_000_000,
        rule: "one run = (in a sixth of the runs on each of 2..3 threads) 1..20 typed accesses on a user-supplied stream that fails at drawn calls with distinguishable errors; non-trivial if a call of the stream failed",
        probes: &["stream_failed_first", "stream_failed_middle", "stream_failed_size", "s15_min", "s15_saturated", "streams_on_threads", "nested_access"] },
    Prop { id: "C12", run: streams::c12, quick: 260_000, thorough: 15_000_000,
        rule: "one run = (in a sixth of the runs on each of 2..3 threads) 2..40 operations on a growable, borrowed, boxed or fixed memory stream against a model and, operation by operation, against a disk stream; non-trivial if end of data or a full buffer was hit, or the disk split a transfer",
        probes: &["mem_full", "mem_grow", "read_past_end", "seek_before_start", "streams_on_threads"] },
    Prop { id: "C13", run: streams::c13, quick: 260_000, thorough: 15_000_000,
        rule: "one run = (in a sixth of the runs on each of 2..3 threads) 2..40 operations on a null stream against a model and, as long as a file accepts them, against a disk stream; non-trivial if a seek was relative or refused, or a position passed the end",
        probes: &["null_negative_seek", "null_past_end", "null_extreme", "seek_before_start", "streams_on_threads"] },
    Prop { id: "C14", run: opens::c14, quick: 220_000, thorough: 13_000_000,
        rule: "one run = (in a sixth of the runs on each of 2..3 threads) 1..4 (1 in 25: up to 34) creations (in memory or write mode) and read opens with drawn clock values from 1970 to 2232, zone and clock jumps at drawn calls; non-trivial if the clock jumped or a zone was set",
        probes: &["clock_jump_in_call", "clock_far", "zone_set"] },
    Prop { id: "C15", run: opens::c15, quick: 200_000, thorough: 12_000_000,
        rule: "one run = (in an eighth of the runs on each of 2..3 threads) 1..2 opens of images with drawn claims (counts, sizes, extents) in files of up to 2^62 bytes on a normal or one-byte-at-a-time interrupting device, with calls, bytes, heap and steps measured, in some runs repeated 24 times with the heap kept compared; non-trivial if the file was huge, the claims were, the device slow, or the opens repeated",
        probes: &["huge_file", "huge_claim", "slow_device", "reopened_often"] },
    Prop { id: "C16", run: opens::c16, quick: 160_000, thorough: 6_000_000,
        rule: "one run = 1..3 (1 in 30: up to 20) threads opening one or two paths 1..5 times while the files are replaced or removed at drawn calls; results are matched against the versions current during each call; non-trivial if a replacement or removal happened",
        probes: &["replaced_during_open", "removed_during_open", "reopened_after_replace", "crowd"] },
    Prop { id: "C17", run: shared_ctx::c17, quick: 150_000, thorough: 6_000_000,
        rule: "one run = 2..4 (1 in 15: up to 20) threads opening through own and process-wide contexts with 1..3 (up to 20) calls stalled until nothing else can run, then healed; non-trivial if a call stalled",
        probes: &["stall_private", "stall_global", "others_done_while_stalled", "stall_waiters_released", "crowd", "rush"] },
    Prop { id: "C20", run: c20, quick: 200_000, thorough: 10_000_000,
        rule: "one run = one run of C01 to C17 (drawn; half of them C01, C02 or C11), with the library built with its little-endian option and every oracle reading and writing multi-byte values least significant byte first; non-trivial as defined there",
        probes: &["shared_extent", "tag_dropped", "bad_magic", "bad_date", "too_many_tags", "declared_smaller", "huge_file", "hard_error_in_header", "stream_failed_middle", "s15_min", "acked_then_crash", "mem_full", "null_past_end", "hard_error_in_write", "plugin_accepted"] },
];
/// The little-endian build: everything that moves multi-byte values, judged by the same rules with the other byte order.
fn c20(g: &Gen) {
    let (n, b) = (g.u64(), g.known(0, u64::MAX - 1).unwrap_or(0));
    for v in [n, b] {
        if let Some(which) = sut::conversions_differ(v) {
            crate::sim::violate("conversion", &format!("{} of {:#x} is not the value itself in the other byte order, or in the stored one", which, v));
        }
    }
    let runs: [fn(&Gen); 17] = [
        opens::c01, opens::c02, streams::c11, streams::c10, streams::c12, streams::c13, opens::c03, opens::c14, storage::c09, shared_ctx::c07,
        shared_ctx::c04, shared_ctx::c05, shared_ctx::c06, storage::c08, opens::c15, opens::c16, shared_ctx::c17,
    ];
    runs[g.w(&[10, 10, 10, 4, 4, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1])](g);
}
