//! Scheduler, fault injection and event log. One simulated thread runs at a time; who runs next is drawn
//! from the `sched` stream.
use crate::choice::*;
use crate::disk::*;
use crate::shared::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum K {
    Open,
    Read,
    Write,
    Lseek,
    Sync,
    Close,
    Stat,
    Clock,
    Other,
}
pub const NK: usize = 9;

#[derive(Clone, Debug)]
pub enum Act {
    /// The call fails with this errno.
    Err(i32),
    /// The call does not return until healed.
    Stall,
    /// The path atomically gets new content (rename over it) just before the call.
    Replace(String, Image),
    Remove(String),
    /// A symbolic link atomically gets another target.
    Flip(String, String),
    /// The file is changed in place just before the call.
    Change(String, Vec<Rec>),
    /// The wall clock is set to this many nanoseconds since 1970 just before the call.
    ClockSet(u64),
    /// The machine stops, before or after the call takes effect.
    Crash { after: bool },
}
#[derive(Clone, Debug)]
pub struct Planned {
    pub tid: usize,
    pub op: u32,
    /// Counts calls of this kind only, or all calls of the operation.
    pub sys: Option<K>,
    pub nth: u32,
    pub act: Act,
    pub fired: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TState {
    Ready,
    Sleep(u64),
    Futex(usize, Option<u64>),
    Stalled,
    Done,
    Dead,
}
#[derive(Clone, Debug, Default)]
pub struct OpRec {
    pub calls: [u32; NK],
    pub total: u32,
    pub bytes_read: u64,
    pub read_end: u64,
    pub bytes_written: u64,
    /// The bytes reads delivered, in order (near the start of the file).
    pub view: Vec<(u64, Vec<u8>)>,
    /// Failures the library was given other than interruptions.
    pub hard: Vec<(K, i32)>,
    pub benign: u32,
    pub opened: Vec<i32>,
    pub closed: Vec<i32>,
    pub opened_inode: Option<usize>,
    pub bad_fd: Vec<i32>,
    pub seq0: u64,
    pub seq1: u64,
    pub now0: u64,
    pub now1: u64,
    pub steps0: u64,
    pub steps1: u64,
    pub heap_peak: u64,
    /// Allocated less released in the call.
    pub heap_left: i64,
    pub crashed_in: bool,
}
pub struct Th {
    pub state: TState,
    pub baton: Box<AtomicU32>,
    pub op: OpRec,
    pub op_idx: u32,
    pub quiet: u32,
    pub futex_ret: i32,
    pub blocked_futex: u32,
    /// The thread on whose behalf this one runs (itself, unless the library started it).
    pub owner: usize,
    pub pthread: u64,
}
impl Th {
    fn new(owner: usize) -> Th {
        Th {
            state: TState::Ready,
            baton: Box::new(AtomicU32::new(0)),
            op: OpRec::default(),
            op_idx: 0,
            quiet: 0,
            futex_ret: 0,
            blocked_futex: 0,
            owner,
            pthread: 0,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    AllDone,
    Deadlock,
    /// Nothing can run until a stalled call is healed.
    Quiescent,
    StepLimit,
    Crashed,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    /// Per mille of eligible calls.
    pub eintr: u32,
    pub short: u32,
    pub latency: u32,
    pub spurious: u32,
    pub one_byte: bool,
    pub max_eintr: u32,
    /// Preemption: 0 none, 1 at intercepted calls, 2 at every instrumented access.
    pub preempt: u32,
    pub gap: u32,
    pub step_budget: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            eintr: 0,
            short: 0,
            latency: 0,
            spurious: 0,
            one_byte: false,
            max_eintr: 200,
            preempt: 0,
            gap: 8,
            step_budget: 4_000_000,
        }
    }
}
pub const MAX_THREADS: usize = 256;
/// Steps a thread may take without giving way when others could run.
const FAIR: u64 = 30_000;
pub struct Sim {
    pub sh: &'static mut Shared,
    pub streams: [Stream; STREAMS],
    pub threads: Vec<Th>,
    pub first: usize,
    pub coord: AtomicU32,
    pub outcome: Outcome,
    pub now: u64,
    pub clock_log: Vec<(u64, i64)>,
    pub seq: u64,
    pub steps: u64,
    pub gap_left: u64,
    pub turn_from: u64,
    pub cfg: Cfg,
    pub disk: Disk,
    pub planned: Vec<Planned>,
    pub verbose: bool,
    pub futex_ids: Vec<usize>,
    pub eintr_count: u32,
    pub spurious_count: u32,
    pub rand_state: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static IN_RT: Cell<bool> = const { Cell::new(false) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static PANIC: Cell<Option<String>> = const { Cell::new(None) };
}
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline]
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}
/// Is this a call by code under simulation (not by the simulator itself)?
#[inline]
pub fn simulated() -> bool {
    tid() >= 0 && !IN_RT.with(|r| r.get())
}
pub struct Rt(bool);
impl Rt {
    #[inline]
    pub fn enter() -> Rt {
        Rt(IN_RT.with(|r| r.replace(true)))
    }
}
impl Drop for Rt {
    #[inline]
    fn drop(&mut self) {
        IN_RT.with(|r| r.set(self.0))
    }
}

pub fn init(sh: &'static mut Shared, seed: u64, replay: Option<Vec<Vec<u32>>>, verbose: bool) {
    let st = |i: usize| Stream::new(i, seed, replay.as_ref().map(|r| r[i].clone()));
    let s = Sim {
        sh,
        streams: [st(0), st(1), st(2)],
        threads: Vec::with_capacity(MAX_THREADS),
        first: 0,
        coord: AtomicU32::new(0),
        outcome: Outcome::AllDone,
        now: 1_000_000_000,
        clock_log: vec![(0, 1_500_000_000_000_000_000)],
        seq: 0,
        steps: 0,
        gap_left: 0,
        turn_from: 0,
        cfg: Cfg::default(),
        disk: Disk::new(),
        planned: vec![],
        verbose,
        futex_ids: vec![],
        eintr_count: 0,
        spurious_count: 0,
        rand_state: 0x5eed,
    };
    unsafe { SIM = Box::into_raw(Box::new(s)) };
    std::panic::set_hook(Box::new(|info| {
        let _rt = Rt::enter();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let text = format!("{} at {}", msg, loc);
        if !IN_SUT.with(|s| s.get()) || _rt.0 {
            // A panic located in the harness's own source is its bug; elsewhere the library raised it while a
            // result was being looked at.
            if loc.starts_with("src/") {
                finish(ST_ERROR, "harness-panic", &text);
            }
            finish(ST_VIOLATION, "panic", &text);
        }
        PANIC.with(|p| p.set(Some(text)));
    }));
}

pub fn count(c: C, n: u64) {
    sim().sh.counters[c as usize] += n;
}
pub fn probe(name: &str) {
    match PROBES.iter().position(|p| *p == name) {
        Some(i) => sim().sh.probes[i] += 1,
        None => finish(ST_ERROR, "harness-probe", name),
    }
}
/// Marks a distinct, non-trivial case for the evidence.
pub fn case(h: u64, nontrivial: bool) {
    let s = sim();
    s.sh.case_hash = mix(s.sh.case_hash ^ h);
    if nontrivial {
        s.sh.nontrivial += 1;
    }
}
pub fn summary(t: &str) {
    let sh = &mut sim().sh;
    sh.summary_len = Shared::put(&mut sh.summary, t);
}
pub fn log(text: &str) {
    let s = sim();
    s.seq += 1;
    s.sh.log_hash = fnv(fnv(s.sh.log_hash, text.as_bytes()), b"\n");
    if s.verbose {
        let line = format!("{:5} t={:<12} {}\n", s.seq, s.now, text);
        unsafe { crate::os::raw(1, 2, line.as_ptr() as isize, line.len() as isize, 0, 0, 0) };
    }
}
macro_rules! slog { ($($a:tt)*) => {{ let _rt = $crate::sim::Rt::enter(); $crate::sim::log(&format!($($a)*)) }} }
pub(crate) use slog;

pub fn finish(status: u32, class: &str, msg: &str) -> ! {
    unsafe {
        let _rt = Rt::enter();
        if !SIM.is_null() {
            let s = sim();
            if s.verbose && status != ST_OK {
                let line = format!("      {}: {}: {}\n", if status == ST_VIOLATION { "VIOLATION" } else { "ERROR" }, class, msg);
                crate::os::raw(1, 2, line.as_ptr() as isize, line.len() as isize, 0, 0, 0);
            }
            s.sh.class_len = Shared::put(&mut s.sh.class, class);
            s.sh.msg_len = Shared::put(&mut s.sh.msg, msg);
            s.sh.counters[C::sim_ns as usize] = s.now - 1_000_000_000;
            s.sh.counters[C::steps as usize] = s.steps;
            s.sh.status = status;
        }
        crate::os::raw(231, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
pub fn violate(class: &str, msg: &str) -> ! {
    finish(ST_VIOLATION, class, msg)
}

/// Calls the code under test; a panic in it becomes `Err(message)`.
pub fn sut_call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = IN_SUT.with(|s| s.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SUT.with(|s| s.set(old));
    r.map_err(|_| PANIC.with(|p| p.take()).unwrap_or_else(|| "panic".into()))
}

pub fn me() -> &'static mut Th {
    &mut sim().threads[tid() as usize]
}
/// The operation record calls of this thread belong to.
pub fn acct() -> &'static mut Th {
    let o = me().owner;
    &mut sim().threads[o]
}
/// Runs harness code that touches simulated descriptors without faults, log or preemption.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    if tid() < 0 {
        return f();
    }
    me().quiet += 1;
    let r = f();
    me().quiet -= 1;
    r
}
pub fn is_quiet() -> bool {
    tid() < 0 || me().quiet > 0 || acct().quiet > 0
}
pub fn ready() -> bool {
    unsafe { !SIM.is_null() }
}

pub fn begin_op() {
    let s = sim();
    s.seq += 1;
    let t = me();
    t.op = OpRec { seq0: s.seq, now0: s.now, steps0: s.steps, ..Default::default() };
    crate::os::heap_begin();
}
pub fn end_op() -> OpRec {
    let s = sim();
    s.seq += 1;
    let t = me();
    t.op.seq1 = s.seq;
    t.op.now1 = s.now;
    t.op.steps1 = s.steps;
    (t.op.heap_peak, t.op.heap_left) = crate::os::heap_end();
    t.op_idx += 1;
    s.sh.counters[C::ops as usize] += 1;
    t.op.clone()
}

// ---------------------------------------------------------------------------------------------------------
// Scheduling. Functions that can hand over control are free functions and refetch `sim()`.

fn baton_wait(b: &AtomicU32) {
    while b.swap(0, Ordering::AcqRel) == 0 {
        unsafe { crate::os::raw(202, b as *const _ as isize, 128, 0, 0, 0, 0) };
    }
}
fn baton_give(b: &AtomicU32) {
    b.store(1, Ordering::Release);
    unsafe { crate::os::raw(202, b as *const _ as isize, 129, 1, 0, 0, 0) };
}
fn park_forever() -> ! {
    let b = AtomicU32::new(0);
    loop {
        baton_wait(&b);
    }
}
fn is_ready(t: &Th, now: u64) -> bool {
    match t.state {
        TState::Ready => true,
        TState::Sleep(u) => u <= now,
        TState::Futex(_, Some(u)) => u <= now,
        _ => false,
    }
}
/// Picks who runs next, advancing the clock if everybody sleeps. `None`: nobody can run.
fn pick_next(exclude: Option<usize>) -> Option<usize> {
    let s = sim();
    loop {
        let mut ready = [0usize; MAX_THREADS];
        let mut n = 0;
        for (i, t) in s.threads.iter().enumerate() {
            if Some(i) != exclude && is_ready(t, s.now) {
                ready[n] = i;
                n += 1;
            }
        }
        if n > 0 {
            let i = if n == 1 { 0 } else { s.streams[SCHED].draw(s.sh, n as u32) as usize };
            let t = &mut s.threads[ready[i]];
            if let TState::Futex(_, Some(_)) = t.state {
                t.futex_ret = -libc::ETIMEDOUT;
            }
            t.state = TState::Ready;
            return Some(ready[i]);
        }
        let next = s
            .threads
            .iter()
            .enumerate()
            .filter(|(i, _)| Some(*i) != exclude)
            .filter_map(|(_, t)| match t.state {
                TState::Sleep(u) => Some(u),
                TState::Futex(_, Some(u)) => Some(u),
                _ => None,
            })
            .min();
        match next {
            Some(u) => s.now = s.now.max(u),
            None => return None,
        }
    }
}
fn new_gap() {
    let s = sim();
    s.gap_left = if s.cfg.preempt == 0 {
        u64::MAX
    } else {
        let v = s.streams[SCHED].draw_nz(s.sh, s.cfg.gap);
        if v == 0 {
            u64::MAX
        } else {
            v as u64
        }
    };
}
fn hand_to(n: usize) {
    let s = sim();
    s.turn_from = s.steps;
    s.sh.sched_hash = mix(s.sh.sched_hash ^ (n as u64 + 1));
    s.sh.counters[C::switch as usize] += 1;
    baton_give(&s.threads[n].baton);
}
fn stop(o: Outcome) {
    let s = sim();
    s.outcome = o;
    baton_give(&s.coord);
}
fn no_runner() {
    let s = sim();
    let alive = s.threads.iter().enumerate().any(|(i, t)| t.owner == i && !matches!(t.state, TState::Done | TState::Dead));
    let stalled = s.threads.iter().any(|t| t.state == TState::Stalled);
    stop(if stalled {
        Outcome::Quiescent
    } else if alive {
        Outcome::Deadlock
    } else {
        Outcome::AllDone
    });
}
/// Gives up the processor in the current state (already set) and returns when scheduled again.
fn block() {
    let my = tid() as usize;
    match pick_next(None) {
        Some(n) if n == my => {}
        Some(n) => {
            let b: *const AtomicU32 = &*sim().threads[my].baton;
            hand_to(n);
            baton_wait(unsafe { &*b });
        }
        None => {
            let b: *const AtomicU32 = &*sim().threads[my].baton;
            no_runner();
            baton_wait(unsafe { &*b });
        }
    }
}
/// A possible preemption.
fn preempt() {
    let my = tid() as usize;
    new_gap();
    let s = sim();
    s.threads[my].state = TState::Ready;
    let now = s.now;
    if !s.threads.iter().enumerate().any(|(i, t)| i != my && is_ready(t, now)) {
        return;
    }
    if let Some(n) = pick_next(Some(my)) {
        s.sh.counters[C::preempt as usize] += 1;
        let b: *const AtomicU32 = &*sim().threads[my].baton;
        hand_to(n);
        baton_wait(unsafe { &*b });
    }
}
/// Called by the instrumentation of the library at every basic block, load and store.
#[inline]
pub fn step() {
    if !simulated() {
        return;
    }
    let s = sim();
    s.steps += 1;
    if s.steps > s.cfg.step_budget {
        let _rt = Rt::enter();
        log(&format!("T{} exceeded the step budget", tid()));
        stop(Outcome::StepLimit);
        park_forever();
    }
    if s.steps - s.turn_from > FAIR && me().quiet == 0 {
        // Whoever waits by looking again and again gives way at last.
        let _rt = Rt::enter();
        s.turn_from = s.steps;
        preempt();
        return;
    }
    if s.cfg.preempt == 2 {
        s.gap_left -= 1;
        if s.gap_left == 0 {
            if me().quiet > 0 {
                s.gap_left = 1;
                return;
            }
            let _rt = Rt::enter();
            preempt();
        }
    }
}
fn call_tick() {
    if is_quiet() {
        return;
    }
    let s = sim();
    if s.cfg.preempt == 1 {
        s.gap_left -= 1;
        if s.gap_left == 0 {
            preempt();
        }
    } else if s.cfg.preempt == 2 && s.gap_left <= 20 {
        preempt();
    } else if s.cfg.preempt == 2 {
        s.gap_left -= 20;
    }
}
pub fn sleep_ns(d: u64) {
    let s = sim();
    me().state = TState::Sleep(s.now + d);
    block();
}
/// A thread has finished.
fn pass_on() {
    let s = sim();
    // Threads the library started and left behind may stay.
    if s.threads.iter().enumerate().all(|(i, t)| t.owner != i || matches!(t.state, TState::Done | TState::Dead)) {
        return stop(Outcome::AllDone);
    }
    match pick_next(None) {
        Some(n) => hand_to(n),
        None => no_runner(),
    }
}
/// Registers a thread the library starts; its calls count as the starting thread's.
pub fn adopt() -> Option<usize> {
    let s = sim();
    let id = s.threads.len();
    if id >= MAX_THREADS {
        return None;
    }
    let owner = s.threads[tid() as usize].owner;
    count(C::lib_threads, 1);
    log(&format!("T{} starts T{}", tid(), id));
    s.threads.push(Th::new(owner));
    Some(id)
}
/// Called on the new thread: waits for its turn.
pub fn adopted_begin(id: usize) {
    let b: *const AtomicU32 = &*sim().threads[id].baton;
    baton_wait(unsafe { &*b });
    TID.with(|t| t.set(id as i32));
    IN_SUT.with(|s| s.set(true));
}
fn join_word(id: usize) -> usize {
    &*sim().threads[id].baton as *const AtomicU32 as usize + 1
}
pub fn adopted_end(id: usize) {
    let _rt = Rt::enter();
    let word = join_word(id);
    let s = sim();
    s.threads[id].state = TState::Done;
    for t in s.threads.iter_mut() {
        if t.state == TState::Futex(word, None) {
            t.state = TState::Ready;
        }
    }
    log(&format!("T{} done", id));
    TID.with(|t| t.set(-1));
    pass_on();
}
pub fn join_adopted(pthread: u64) {
    let Some(id) = sim().threads.iter().position(|t| t.pthread == pthread && pthread != 0) else { return };
    log(&format!("T{} waits for T{} to end", tid(), id));
    while !matches!(sim().threads[id].state, TState::Done) {
        me().state = TState::Futex(join_word(id), None);
        block();
    }
    sim().threads[id].pthread = 0;
}
/// Runs the bodies as simulated threads until all are done or nothing can run.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let s = sim();
    s.first = s.threads.len();
    for body in bodies {
        let id = s.threads.len();
        s.threads.push(Th::new(id));
        let baton: usize = &*s.threads[id].baton as *const AtomicU32 as usize;
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                baton_wait(unsafe { &*(baton as *const AtomicU32) });
                TID.with(|t| t.set(id as i32));
                body();
                let _rt = Rt::enter();
                me().state = TState::Done;
                log(&format!("T{} done", id));
                TID.with(|t| t.set(-1));
                pass_on();
                park_forever();
            })
            .unwrap();
    }
    new_gap();
    resume()
}
/// Lets the scheduler go on after `run` returned `Quiescent` (the caller heals the stalls first).
pub fn resume() -> Outcome {
    match pick_next(None) {
        Some(n) => hand_to(n),
        None => no_runner(),
    }
    baton_wait(&sim().coord);
    sim().outcome
}
pub fn heal_stalls() {
    let s = sim();
    log("all stalled calls are answered");
    for t in s.threads.iter_mut() {
        if t.state == TState::Stalled {
            t.state = TState::Ready;
        }
    }
    for p in s.planned.iter_mut() {
        p.fired |= matches!(p.act, Act::Stall);
    }
}
pub fn thread(i: usize) -> &'static Th {
    let s = sim();
    &s.threads[s.first + i]
}

// ---------------------------------------------------------------------------------------------------------
// Intercepted calls: common entry.

pub enum Fault {
    None,
    Errno(i32),
    Short(u32),
    CrashAfter,
}
fn hard_counter(k: K) -> C {
    match k {
        K::Open => C::fault_open_err,
        K::Read => C::fault_read_err,
        K::Write => C::fault_write_err,
        K::Lseek => C::fault_lseek_err,
        K::Sync => C::fault_sync_err,
        K::Close => C::fault_close_err,
        _ => C::fault_stat_err,
    }
}
fn call_counter(k: K) -> C {
    match k {
        K::Open => C::call_open,
        K::Read => C::call_read,
        K::Write => C::call_write,
        K::Lseek => C::call_lseek,
        K::Sync => C::call_sync,
        K::Close => C::call_close,
        K::Stat => C::call_stat,
        K::Clock => C::call_clock,
        K::Other => C::call_other,
    }
}
pub fn realtime() -> u64 {
    let s = sim();
    (s.now as i128 + s.clock_log.last().unwrap().1 as i128) as u64
}
pub fn set_realtime(ns: u64) {
    let s = sim();
    let off = ns as i128 - s.now as i128;
    s.clock_log.push((s.now, off as i64));
}
pub fn crash() -> ! {
    let s = sim();
    count(C::fault_crash, 1);
    log(&format!("CRASH (in a call of T{})", tid()));
    acct().op.crashed_in = true;
    for t in s.threads.iter_mut() {
        if t.state != TState::Done {
            t.state = TState::Dead;
        }
    }
    stop(Outcome::Crashed);
    park_forever()
}
/// How long something takes: around `ns`, an odd or even number of them.
pub fn jitter(n: u64, ns: u64) -> u64 {
    let h = (n ^ 0x5bd1_e995).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33;
    ns - ns / 4 + h % (ns / 2)
}
/// Everything that can happen to a call before it takes effect.
pub fn enter(k: K, what: &str) -> Fault {
    let my = tid() as usize;
    if is_quiet() {
        return Fault::None;
    }
    {
        let s = sim();
        s.now += jitter(s.seq, 1000);
        s.seq += 1;
        count(call_counter(k), 1);
    }
    call_tick();
    let s = sim();
    let (op, nk, total) = {
        let t = acct();
        let nk = t.op.calls[k as usize];
        let total = t.op.total;
        t.op.calls[k as usize] += 1;
        t.op.total += 1;
        (t.op_idx, nk, total)
    };
    let mut fault = Fault::None;
    let owner = me().owner;
    for i in 0..s.planned.len() {
        let p = &s.planned[i];
        let at = match p.sys {
            Some(pk) => pk == k && p.nth == nk,
            None => p.nth == total,
        };
        if p.fired || p.tid != owner || p.op != op || !at {
            continue;
        }
        let act = p.act.clone();
        let mut fired = true;
        match act {
            Act::Err(e) => {
                if matches!(k, K::Clock | K::Other) {
                    fired = false
                } else {
                    count(hard_counter(k), 1);
                    fault = Fault::Errno(e);
                }
            }
            Act::Stall => {
                if matches!(k, K::Clock | K::Other) {
                    fired = false
                } else {
                    count(C::fault_stall, 1);
                    log(&format!("T{} {} STALLS", my, what));
                    s.planned[i].fired = true;
                    me().state = TState::Stalled;
                    block();
                }
            }
            Act::Replace(path, img) => {
                count(C::fault_replace, 1);
                log(&format!("environment: {} is replaced ({} bytes)", path, img.size));
                let seq = s.seq;
                s.disk.put(seq, &path, img);
            }
            Act::Remove(path) => {
                count(C::fault_remove, 1);
                log(&format!("environment: {} is removed", path));
                let seq = s.seq;
                s.disk.remove(seq, &path);
            }
            Act::Flip(path, target) => {
                count(C::fault_replace, 1);
                log(&format!("environment: {} now links to {}", path, target));
                let seq = s.seq;
                s.disk.link(seq, &path, &target);
            }
            Act::Change(path, recs) => {
                if let Some(ino) = s.disk.lookup(&path) {
                    count(C::fault_inplace_change, 1);
                    log(&format!("environment: {} is changed in place: {:?}", path, recs));
                    let n = &mut s.disk.inodes[ino];
                    for r in &recs {
                        n.img.apply(r);
                    }
                    n.version += 1;
                    n.max_size = n.max_size.max(n.img.size);
                    n.sizes.push(n.img.size);
                    n.mtime = tick();
                }
            }
            Act::ClockSet(ns) => {
                count(C::fault_clock_jump, 1);
                log(&format!("environment: wall clock set to {} ns", ns));
                set_realtime(ns);
            }
            Act::Crash { after } => {
                if after {
                    fault = Fault::CrashAfter
                } else {
                    log(&format!("T{} {}", my, what));
                    crash();
                }
            }
        }
        s.planned[i].fired = fired;
    }
    if let Fault::None = fault {
        let c = s.cfg.clone();
        let transfer = matches!(k, K::Read | K::Write);
        let intr = matches!(k, K::Open | K::Read | K::Write | K::Sync);
        let total = c.eintr + c.short + c.latency;
        if total > 0 && !matches!(k, K::Clock | K::Other) {
            let v = s.streams[FAULT].draw(s.sh, 1000);
            let mut lo = 1000 - c.eintr;
            if v >= lo {
                if intr && s.eintr_count < c.max_eintr {
                    s.eintr_count += 1;
                    count(C::fault_eintr, 1);
                    acct().op.benign += 1;
                    return fin(Fault::Errno(libc::EINTR), my, what);
                }
            } else if v >= lo - c.short {
                if transfer {
                    let n = s.streams[FAULT].draw(s.sh, 16);
                    fault = Fault::Short(1 + if n < 13 { n * n } else { n * n * n });
                }
            } else {
                lo -= c.short;
                if v >= lo - c.latency {
                    let d = s.streams[FAULT].draw(s.sh, 1000) as u64;
                    count(C::fault_latency, 1);
                    log(&format!("T{} {} is slow", my, what));
                    // Up to a second, at times hours.
                    sleep_ns(d * d * d * if d > 980 { 20_000 } else { 1 } + 1);
                }
            }
        }
        if let Fault::None = fault {
            if transfer && sim().cfg.one_byte {
                fault = Fault::Short(1);
            }
        }
    }
    fin(fault, my, what)
}
fn fin(f: Fault, my: usize, what: &str) -> Fault {
    match &f {
        Fault::Errno(e) => log(&format!("T{} {} -> injected errno {}", my, what, e)),
        _ => {}
    }
    f
}
/// After a call took effect.
pub fn leave(k: K, what: &str, ret: i64, err: i32) {
    if is_quiet() {
        return;
    }
    let my = tid();
    let s = sim();
    s.sh.sched_hash = mix(s.sh.sched_hash ^ ((my as u64 + 1) << 32 | k as u64));
    if ret < 0 {
        log(&format!("T{} {} -> errno {}", my, what, err));
    } else {
        log(&format!("T{} {} -> {}", my, what, ret));
    }
    call_tick();
}
pub fn note_hard(k: K, e: i32) {
    if !is_quiet() && e != libc::EINTR {
        acct().op.hard.push((k, e));
    }
}

// ---------------------------------------------------------------------------------------------------------
// Futex.

fn futex_id(addr: usize) -> usize {
    let s = sim();
    match s.futex_ids.iter().position(|a| *a == addr) {
        Some(i) => i,
        None => {
            s.futex_ids.push(addr);
            s.futex_ids.len() - 1
        }
    }
}
/// Returns 0 or -errno.
pub fn futex_wait(addr: usize, expected: u32, until: Option<u64>) -> i32 {
    let s = sim();
    count(C::futex_wait, 1);
    let id = futex_id(addr);
    if unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != expected {
        return -libc::EAGAIN;
    }
    if s.cfg.spurious > 0 && s.spurious_count < 50 {
        let v = s.streams[FAULT].draw(s.sh, 1000);
        if v >= 1000 - s.cfg.spurious {
            s.spurious_count += 1;
            count(C::fault_spurious_wake, 1);
            log(&format!("T{} woken spuriously from lock {}", tid(), id));
            call_tick();
            return 0;
        }
    }
    count(C::futex_block, 1);
    log(&format!("T{} waits for lock {}", tid(), id));
    let t = me();
    t.blocked_futex += 1;
    t.futex_ret = 0;
    t.state = TState::Futex(addr, until);
    block();
    me().futex_ret
}
pub fn futex_wake(addr: usize, n: u32) -> i32 {
    count(C::futex_wake, 1);
    let id = futex_id(addr);
    let mut woken = 0;
    while woken < n {
        let s = sim();
        let mut w = [0usize; MAX_THREADS];
        let mut k = 0;
        for (i, t) in s.threads.iter().enumerate() {
            if matches!(t.state, TState::Futex(a, _) if a == addr) {
                w[k] = i;
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        let i = if k == 1 { 0 } else { s.streams[SCHED].draw(s.sh, k as u32) as usize };
        s.threads[w[i]].state = TState::Ready;
        log(&format!("T{} releases lock {} to T{}", tid(), id, w[i]));
        woken += 1;
    }
    call_tick();
    woken as i32
}
