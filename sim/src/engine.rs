//! Histories of opens on simulated threads, and the contract every open has to meet.
use crate::choice::*;
use crate::disk::*;
use crate::refdec::*;
use crate::shared::*;
use crate::sim::*;
use lcms2::plugins::Plugin;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::Profile;
use std::io::ErrorKind;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cx {
    Global,
    /// Context number `n` of the thread.
    Own(usize),
}
#[derive(Clone)]
pub enum POp {
    Open { cx: Cx, path: String, write: bool, keep: bool },
    /// Drops the oldest kept profile.
    Drop,
    New,
    Plugin { cx: Cx, chain: Vec<PlugSpec> },
    /// Clones an own context; the clone becomes a new own context with its own handler.
    Clone { from: usize },
    Sleep(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub struct PlugSpec {
    pub magic: u32,
    pub version: u32,
    pub ty: u32,
}
impl std::fmt::Debug for POp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            POp::Open { cx, path, write, keep } => {
                write!(f, "open {} {} via {:?}{}", path, if *write { "w" } else { "r" }, cx, if *keep { " keep" } else { "" })
            }
            POp::Drop => write!(f, "drop"),
            POp::New => write!(f, "new"),
            POp::Plugin { cx, chain } => write!(f, "plugins {:x?} via {:?}", chain, cx),
            POp::Clone { from } => write!(f, "clone context {}", from),
            POp::Sleep(n) => write!(f, "sleep {}", n),
        }
    }
}
pub enum R {
    Opened(Box<Profile>),
    /// An opened profile that was dropped again after a look at it.
    Refused(ErrorKind, Option<i32>, String),
    Panicked(String),
    Plug(Result<(), String>),
    Unit,
}
impl R {
    pub fn text(&self) -> String {
        match self {
            R::Opened(_) => "opened".into(),
            R::Refused(k, c, _) => format!("refused {:?} {:?}", k, c),
            R::Panicked(m) => format!("PANICKED {}", m),
            R::Plug(r) => format!("plugin {:?}", r.is_ok()),
            R::Unit => "done".into(),
        }
    }
}
pub struct Done {
    pub op: POp,
    pub res: R,
    pub rec: OpRec,
    /// The profile was opened and not kept: it was dropped in this record's second half.
    pub drop_rec: Option<OpRec>,
    /// Differences seen by `look` while the profile was alive.
    pub look: Option<String>,
    /// Own descriptors right after the operation.
    pub held: Vec<i32>,
}
pub type Look = fn(usize, usize, &Profile) -> Option<String>;

#[derive(Clone, Debug)]
pub struct Report {
    pub seq: u64,
    pub tid: i32,
    pub handler: usize,
    pub code: ErrorCode,
    pub data_ok: bool,
}
pub struct Thr {
    pub ops: Vec<POp>,
    pub ctxs: Vec<Context>,
    pub kept: Vec<Box<Profile>>,
    pub done: Vec<Done>,
    /// First handler number for contexts created by this thread.
    pub handler0: usize,
    pub handlers: bool,
    pub data: Vec<Option<Vec<u8>>>,
    /// Chains of plugins that are still there.
    pub tails: Tails,
}
impl Thr {
    pub fn new(ops: Vec<POp>, ctxs: usize) -> Thr {
        Thr {
            ops,
            ctxs: (0..ctxs).map(|_| sut::new_context(None)).collect(),
            kept: vec![],
            done: vec![],
            handler0: 0,
            handlers: false,
            data: vec![None; ctxs],
            tails: vec![],
        }
    }
}
pub static mut THREADS: Vec<Thr> = vec![];
pub static mut REPORTS: Vec<Report> = vec![];
#[allow(static_mut_refs)]
pub fn threads() -> &'static mut Vec<Thr> {
    unsafe { &mut THREADS }
}
#[allow(static_mut_refs)]
pub fn reports() -> &'static mut Vec<Report> {
    unsafe { &mut REPORTS }
}
pub const GLOBAL_HANDLER: usize = 0;
fn handler<const N: usize>(c: &mut Context, code: ErrorCode, _text: String) {
    let _rt = Rt::enter();
    log(&format!("T{} report to handler {}: {:?}", tid(), N, code));
    let want = expected_data(N);
    let data_ok = sut::user_data(c) == want;
    reports().push(Report { seq: sim().seq, tid: tid(), handler: N, code, data_ok });
    drop(_rt);
    nested(N, c);
}
/// Opens made by error handlers, while the open that reports is still under way: path, what it holds, and the context
/// to use (a new one, the process-wide one, the reporting one). Reports take them in turn.
pub static mut NESTED: Vec<Option<(String, Want, u32)>> = vec![];
pub fn nest(v: Vec<Option<(String, Want, u32)>>) {
    unsafe { NESTED = v }
}
#[allow(static_mut_refs)]
fn nested(n: usize, c: &mut Context) {
    let v = unsafe { &NESTED };
    if v.is_empty() || me().op_idx >= 1 << 21 {
        return;
    }
    let Some((path, want, how)) = v[reports().len() % v.len()].clone() else { return };
    let idx = me().op_idx;
    let rec = std::mem::take(&mut me().op);
    me().op_idx = 1 << 21 | idx;
    begin_op();
    slog!("T{} the handler opens {}", tid(), path);
    let r = match how {
        0 => sut_call(|| {
            let mut x = sut::new_context(None);
            sut::open(Some(&mut x), &path, false)
        }),
        1 if n != GLOBAL_HANDLER => sut_call(|| sut::open(None, &path, false)),
        _ => sut_call(|| sut::open(Some(c), &path, false)),
    };
    let mut look = None;
    let res = match r {
        Ok(Ok(p)) => {
            look = quiet(|| {
                let _rt = Rt::enter();
                want.as_ref().ok().and_then(|w| diff(&p, w))
            });
            match sut_call(|| drop(p)) {
                Ok(()) => R::Unit,
                Err(m) => R::Panicked(m),
            }
        }
        Ok(Err(e)) => R::Refused(e.kind(), e.raw_os_error(), e.to_string()),
        Err(m) => R::Panicked(m),
    };
    let got = end_op();
    slog!("T{} in the handler: {}", tid(), res.text());
    probe("opened_in_handler");
    let opened = match &res {
        R::Refused(..) | R::Panicked(_) => None,
        _ => Some(&look),
    };
    if let Some((c, m)) = judge_read(&format!("an open of {} made by an error handler", path), &got, &res, opened, &want) {
        violate(&c, &m);
    }
    let left = minus(&got.opened, &got.closed);
    if !left.is_empty() {
        violate("handle-count", &format!("an open of {} made by an error handler left descriptors {:?} open", path, left));
    }
    me().op_idx = idx;
    me().op = rec;
}
fn expected_data(n: usize) -> Option<Vec<u8>> {
    if n == GLOBAL_HANDLER {
        return None;
    }
    for t in threads().iter() {
        if t.handlers && n >= t.handler0 && n - t.handler0 < t.data.len() {
            return t.data[n - t.handler0].clone();
        }
    }
    None
}
pub const HANDLERS: [sut::Handler; 25] = [
    handler::<0>, handler::<1>, handler::<2>, handler::<3>, handler::<4>, handler::<5>, handler::<6>, handler::<7>,
    handler::<8>, handler::<9>, handler::<10>, handler::<11>, handler::<12>, handler::<13>, handler::<14>, handler::<15>,
    handler::<16>, handler::<17>, handler::<18>, handler::<19>, handler::<20>, handler::<21>, handler::<22>, handler::<23>,
    handler::<24>,
];

mod unused {
    //! What plugins offer. Nothing calls it.
    use lcms2::plugins::*;
    use lcms2::state::Context;
    use lcms2::types::{Pipeline, Profile, Signature};
    pub fn interp(_: u32, _: u32, _: u32) -> InterpFunction {
        unreachable!()
    }
    pub fn curve(_: i32, _: &[f64], _: f64) -> f64 {
        unreachable!()
    }
    pub fn format(_: Signature, _: FormatterDirection, _: FormatterPrecision) -> Formatter {
        unreachable!()
    }
    pub fn link(_: &mut Context, _: usize, _: &[Signature], _: &[Profile], _: &[bool], _: &[f64], _: u32) -> std::sync::Arc<Pipeline> {
        unreachable!()
    }
    pub fn optimize(_: &mut Box<[Pipeline]>, _: Signature) -> Option<(Signature, Signature, u32)> {
        unreachable!()
    }
    pub fn transform(_: Transform2Fn, _: &mut Box<[u8]>, _: &mut Box<Pipeline>) -> Option<(Signature, Signature, u32)> {
        unreachable!()
    }
}
/// What the plugin is for, as far as a user can say it (type handlers and tag descriptors have private fields).
fn plug_data(ty: u32) -> lcms2::plugins::PluginType {
    use lcms2::plugins::{PluginType as T, TransformFactories};
    match &ty.to_be_bytes() {
        b"parH" => T::ParametricCurve { num_functions: 1, function_types: [1; 20], parameter_count: [1; 20], evaluator: unused::curve },
        b"frmH" => T::Formatter { formatters_factory: unused::format },
        b"intH" => T::RenderingIntent { intent: 300u32.into(), link: unused::link, description: "an intent".into() },
        b"optH" => T::Optimization { optimizer: unused::optimize },
        b"xfmH" => T::Transform { factory: TransformFactories::Modern(unused::transform) },
        _ => T::Interpolation { interpolation_factory: unused::interp },
    }
}
type Tails = Vec<(Vec<PlugSpec>, std::sync::Arc<Plugin>)>;
/// Builds the chain, with tails of earlier chains where they are the same and still there.
pub fn build_chain(chain: &[PlugSpec], tails: &mut Tails) -> Plugin {
    let mut next = None;
    for i in (0..chain.len()).rev() {
        if i > 0 {
            if let Some(t) = tails.iter().find(|t| t.0 == chain[i..]) {
                next = Some(t.1.clone());
                continue;
            }
        }
        let s = &chain[i];
        let p = Plugin {
            magic: s.magic.into(),
            expected_version: s.version,
            r#type: s.ty.into(),
            next: next.take(),
            data: plug_data(s.ty),
        };
        if i == 0 {
            return p;
        }
        let p = std::sync::Arc::new(p);
        if i == 1 {
            tails.push((chain[1..].to_vec(), p.clone()));
        }
        next = Some(p);
    }
    finish(ST_ERROR, "harness-chain", "empty chain")
}

fn own_fds(t: &Thr) -> Vec<i32> {
    // What this thread opened and has not closed, as the simulated system saw it.
    let mut v: Vec<i32> = vec![];
    for d in &t.done {
        for r in [Some(&d.rec), d.drop_rec.as_ref()].into_iter().flatten() {
            v.extend(&r.opened);
            v.retain(|f| !r.closed.contains(f));
        }
    }
    v
}
static mut BYSTANDER: Option<Vec<u8>> = None;
/// From now on somebody else's files, with this content, appear under the names the library looked for although no
/// operation named them.
pub fn bystander(content: Vec<u8>) {
    unsafe { BYSTANDER = Some(content) }
}
#[allow(static_mut_refs)]
pub fn plant_asked(dir: &str) {
    let Some(content) = (unsafe { &BYSTANDER }) else { return };
    let _rt = Rt::enter();
    let s = sim();
    let asked: Vec<String> = s.disk.asked.borrow().iter().filter(|p| p.starts_with(dir)).cloned().collect();
    for p in asked {
        s.disk.asked.borrow_mut().remove(&p);
        let named = threads().iter().flat_map(|t| &t.ops).any(|o| match o {
            POp::Open { path, .. } => *path == p || s.disk.resolve(path, true).as_ref() == Ok(&p),
            _ => false,
        });
        let target = s.disk.links.values().any(|t| p.starts_with(t) || p.strip_prefix("/sim/").map_or(false, |r| r.starts_with(t)));
        let planned = s.planned.iter().any(|x| match &x.act {
            Act::Replace(q, _) | Act::Remove(q) => *q == p,
            _ => false,
        });
        if !named && !target && !planned && s.disk.lookup(&p).is_none() && s.disk.parent_ok(&p) && !s.disk.in_ro_dir(&p) {
            probe("bystander_planted");
            put_file(&p, content);
        }
    }
}
/// Executes the plan of thread `i` (called on its simulated thread).
pub fn exec_thread(i: usize, look: Option<Look>) {
    let n = threads()[i].ops.len();
    for k in threads()[i].done.len()..n {
        plant_asked("/sim/");
        exec_op(i, k, look);
    }
}
pub fn exec_op(i: usize, k: usize, look: Option<Look>) {
    let t = &mut threads()[i];
    let op = t.ops[k].clone();
    slog!("T{} begins: {:?}", tid(), op);
    let mut drop_rec = None;
    let mut looked = None;
    begin_op();
    let res = match &op {
        POp::Open { cx, path, write, .. } => {
            let r = match cx {
                Cx::Global => sut_call(|| sut::open(None, path, *write)),
                Cx::Own(c) => {
                    let c = &mut threads()[i].ctxs[*c];
                    sut_call(|| sut::open(Some(c), path, *write))
                }
            };
            match r {
                Ok(Ok(p)) => R::Opened(p),
                Ok(Err(e)) => {
                    let r = {
                        let _rt = Rt::enter();
                        R::Refused(e.kind(), e.raw_os_error(), e.to_string())
                    };
                    drop(e);
                    r
                }
                Err(m) => R::Panicked(m),
            }
        }
        POp::Drop => {
            if t.kept.is_empty() {
                R::Unit
            } else {
                let p = t.kept.remove(0);
                match sut_call(|| drop(p)) {
                    Ok(()) => R::Unit,
                    Err(m) => R::Panicked(m),
                }
            }
        }
        POp::New => match sut_call(sut::new_profile) {
            Ok(p) => R::Opened(Box::new(p)),
            Err(m) => R::Panicked(m),
        },
        POp::Plugin { cx, chain } => {
            let mut tails = std::mem::take(&mut threads()[i].tails);
            let c = quiet(|| build_chain(chain, &mut tails));
            if tails.len() > 3 {
                tails.remove(0);
            }
            threads()[i].tails = tails;
            let r = match cx {
                // No public way to register plugins with the process-wide context exists.
                Cx::Global => Ok(Ok(())),
                Cx::Own(x) => {
                    let cx = &mut threads()[i].ctxs[*x];
                    sut_call(|| sut::init_plugin(cx, &c))
                }
            };
            match r {
                Ok(r) => R::Plug(r),
                Err(m) => R::Panicked(m),
            }
        }
        POp::Clone { from } => {
            let c = &threads()[i].ctxs[*from];
            match sut_call(|| sut::clone_context(c)) {
                Ok(mut c) => {
                    let _rt = Rt::enter();
                    let t = &mut threads()[i];
                    if t.handlers {
                        sut::set_handler(&mut c, HANDLERS[t.handler0 + t.ctxs.len()]);
                    }
                    let d = t.data[*from].clone();
                    t.data.push(d);
                    t.ctxs.push(c);
                    R::Unit
                }
                Err(m) => R::Panicked(m),
            }
        }
        POp::Sleep(d) => {
            std::thread::sleep(std::time::Duration::from_nanos(*d));
            R::Unit
        }
    };
    let rec = end_op();
    slog!("T{} {}", tid(), res.text());
    if let R::Opened(p) = &res {
        if let Some(l) = look {
            looked = quiet(|| {
                let _rt = Rt::enter();
                l(i, k, p)
            });
        }
    }
    let t = &mut threads()[i];
    let res = match (res, &op) {
        (R::Opened(p), POp::Open { keep: true, .. }) => {
            t.kept.push(p);
            R::Unit
        }
        (R::Opened(p), POp::Open { keep: false, .. }) if look.is_some() => {
            let idx = me().op_idx;
            me().op_idx = 1 << 20 | k as u32;
            begin_op();
            let r = sut_call(|| drop(p));
            drop_rec = Some(end_op());
            me().op_idx = idx;
            match r {
                Ok(()) => R::Unit,
                Err(m) => R::Panicked(m),
            }
        }
        (r, _) => r,
    };
    let t = &mut threads()[i];
    t.done.push(Done { op, res, rec, drop_rec, look: looked, held: vec![] });
    let held = own_fds(t);
    t.done.last_mut().unwrap().held = held;
}
/// Starts one simulated thread per planned thread from index `from` on.
pub fn run_threads(from: usize, look: Option<Look>) -> Outcome {
    let n = threads().len();
    let bodies = (from..n)
        .map(|i| {
            let b: Box<dyn FnOnce() + Send> = Box::new(move || exec_thread(i, look));
            b
        })
        .collect();
    run(bodies)
}
/// All threads have to finish.
pub fn expect_done(o: Outcome) {
    match o {
        Outcome::AllDone => {}
        Outcome::Deadlock => violate("deadlock", "no thread can run, but not all have finished"),
        Outcome::StepLimit => violate("no-progress", "step budget exceeded"),
        Outcome::Quiescent => finish(ST_ERROR, "harness-quiescent", "unexpected stall"),
        Outcome::Crashed => finish(ST_ERROR, "harness-crash", "unexpected crash"),
    }
}

pub fn kind_of(e: i32) -> ErrorKind {
    std::io::Error::from_raw_os_error(e).kind()
}
/// Errors that can be injected into calls of an open.
pub const ERRNOS: &[i32] = &[
    libc::EIO, libc::EACCES, libc::ENOMEM, libc::EPERM, libc::ENOSPC, libc::EAGAIN, libc::ETIMEDOUT, libc::ESTALE,
    libc::EINVAL, libc::EBUSY, libc::ENXIO, libc::EOVERFLOW, libc::ECONNRESET, libc::ENOTCONN, libc::EROFS, libc::EPIPE,
    libc::ENODATA, libc::ENOENT, libc::EEXIST, libc::EDEADLK, libc::EMLINK, libc::ENOTSUP,
];
/// Mostly an error from the list, at times any other, with a liking for those the code names.
pub fn errno(g: &Gen, list: &[i32]) -> i32 {
    let e = match g.w(&[12, 2, 2]) {
        0 => *g.pick(list),
        1 => g.known(1, 133).unwrap_or(5) as i32,
        _ => 1 + g.u(133) as i32,
    };
    match e {
        // An interruption is no failure; the others are errors of the program, or say that the call does not exist.
        libc::EINTR | libc::EBADF | libc::EFAULT | libc::ENOSYS => libc::EIO,
        e => e,
    }
}
/// One planned hard failure somewhere in an open of a profile with `tags` tags.
pub fn plan_hard(g: &Gen, tid: usize, op: u32, tags: usize) {
    let e = errno(g, ERRNOS);
    let (sys, nth) = match g.w(&[2, 2, 6, 4, 2]) {
        0 => (None, g.u(9 + tags as u32)),
        1 => (Some(K::Open), 0),
        2 => (Some(K::Read), g.u(tags as u32 + 2)),
        3 => (Some(K::Lseek), g.u(4)),
        _ => (Some(K::Stat), 0),
    };
    sim().planned.push(Planned { tid, op, sys, nth, act: Act::Err(e), fired: false });
}
pub fn benign_faults(g: &Gen) {
    let c = &mut sim().cfg;
    match g.w(&[6, 6, 2, 4, 1]) {
        0 => {}
        4 => {
            // Interruption after interruption.
            c.eintr = *g.pick(&[900, 970, 800]);
            c.short = *g.pick(&[0, 20]);
            c.max_eintr = 400;
        }
        1 => {
            c.eintr = *g.pick(&[0, 30, 100, 300]);
            c.short = *g.pick(&[0, 50, 200, 600]);
            c.latency = *g.pick(&[0, 20, 100]);
        }
        2 => {
            c.one_byte = true;
            c.eintr = *g.pick(&[0, 10, 50]);
        }
        _ => {
            c.short = 900;
            c.eintr = 50;
        }
    }
}
pub fn preemption(g: &Gen) {
    let c = &mut sim().cfg;
    match g.w(&[4, 3, 1]) {
        0 => {
            c.preempt = 2;
            c.gap = *g.pick(&[300, 20, 60, 1500, 6000]);
        }
        1 => {
            c.preempt = 1;
            c.gap = *g.pick(&[2, 1, 4, 16]);
        }
        _ => c.preempt = 0,
    }
    c.spurious = *g.pick(&[0, 0, 100, 400]);
}
/// The bytes the library was given by reads, laid out by offset (later reads win).
pub fn seen(rec: &OpRec) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let mut known: Vec<bool> = vec![];
    for (o, b) in &rec.view {
        let end = *o as usize + b.len();
        if v.len() < end {
            v.resize(end, 0);
            known.resize(end, false);
        }
        v[*o as usize..end].copy_from_slice(b);
        known[*o as usize..end].iter_mut().for_each(|k| *k = true);
    }
    let n = known.iter().position(|k| !*k).unwrap_or(v.len());
    v.truncate(n);
    v
}
/// What one open for reading must return, given what its storage did. `want`: what the file encodes.
/// `opened`: the profile's differences from `want` (`None`: equal), if the open succeeded.
pub fn judge_read(who: &str, rec: &OpRec, res: &R, opened: Option<&Option<String>>, want: &Result<RefProf, Defects>) -> Option<(String, String)> {
    let v = |c: &str, m: String| Some((c.to_string(), format!("{}: {}", who, m)));
    if let R::Panicked(m) = res {
        return v("panic", m.clone());
    }
    if !rec.hard.is_empty() {
        return match (res, opened) {
            (R::Refused(k, _, t), _) => {
                if rec.hard.iter().any(|(_, e)| kind_of(*e) == *k) {
                    None
                } else {
                    v("error-kind", format!("storage failed with {:?}, the open reported {:?} ({})", rec.hard, k, t))
                }
            }
            _ => v("error-swallowed", format!("storage failed with {:?}, but the open succeeded", rec.hard)),
        };
    }
    match (res, opened, want) {
        (R::Refused(..), _, Err(_)) => None,
        (R::Refused(k, _, t), _, Ok(_)) => v("wrong-refusal", format!("a valid profile was refused: {:?} {}", k, t)),
        (_, Some(_), Err(d)) => v("accepted-defect", format!("a profile with {:?} was accepted", d)),
        (_, Some(None), Ok(_)) => None,
        (_, Some(Some(t)), Ok(_)) => v("wrong-content", t.clone()),
        (_, None, _) => v("harness", "open neither succeeded nor failed".into()),
    }
}
/// Judges operation `k` of thread `i` against the file `want` decodes.
pub fn judge(i: usize, k: usize, want: &Result<RefProf, Defects>) {
    let d = &threads()[i].done[k];
    let opened = match &d.res {
        R::Refused(..) | R::Panicked(_) => None,
        _ => Some(&d.look),
    };
    if let Some((c, m)) = judge_read(&format!("thread {} operation {} ({:?})", i, k, d.op), &d.rec, &d.res, opened, want) {
        violate(&c, &m);
    }
}
pub type Want = Result<RefProf, Defects>;
static mut WANT: Vec<Vec<Option<Want>>> = vec![];
/// What each operation of each thread is expected to find.
#[allow(static_mut_refs)]
pub fn wants() -> &'static mut Vec<Vec<Option<Want>>> {
    unsafe { &mut WANT }
}
pub fn want_look(i: usize, k: usize, p: &Profile) -> Option<String> {
    match &wants()[i][k] {
        Some(Ok(w)) => diff(p, w).or_else(|| beyond(p)),
        _ => None,
    }
}
/// Adds a thread with operations and what each open should find.
pub fn add_thread(ops: Vec<(POp, Option<Want>)>, ctxs: usize) -> usize {
    let (o, w): (Vec<_>, Vec<_>) = ops.into_iter().unzip();
    threads().push(Thr::new(o, ctxs));
    wants().push(w);
    threads().len() - 1
}
/// Judges every open with a known expectation; panics anywhere are violations.
pub fn judge_all(from: usize) {
    for i in from..threads().len() {
        for k in 0..threads()[i].done.len() {
            match wants()[i].get(k).cloned().flatten() {
                Some(w) => judge(i, k, &w),
                None => {
                    if let R::Panicked(m) = &threads()[i].done[k].res {
                        violate("panic", &format!("thread {} operation {} ({:?}): {}", i, k, threads()[i].done[k].op, m));
                    }
                }
            }
            let d = &threads()[i].done[k];
            if let POp::Open { .. } = d.op {
                let ok = !matches!(d.res, R::Refused(..));
                count(if ok { C::opens_ok } else { C::opens_refused }, 1);
                for (kind, _) in &d.rec.hard {
                    match kind {
                        K::Open => probe("hard_error_in_open"),
                        K::Lseek | K::Stat => probe("hard_error_in_size"),
                        K::Read if d.rec.calls[K::Read as usize] <= 1 => probe("hard_error_in_header"),
                        K::Read => probe("hard_error_in_directory"),
                        _ => {}
                    }
                }
                if ok && d.rec.benign > 0 {
                    probe("eintr_survived");
                }
            }
        }
    }
}
pub fn open_op(cx: Cx, path: &str, write: bool, keep: bool) -> POp {
    POp::Open { cx, path: path.into(), write, keep }
}
pub fn put_file(path: &str, b: &[u8]) -> usize {
    let _rt = Rt::enter();
    log(&format!("file {}: {} bytes, content {:016x}", path, b.len(), fnv(0, b)));
    let s = sim();
    let seq = s.seq;
    s.disk.put(seq, path, Image::new(b.to_vec()))
}
/// How the files of a run are named. Mostly plainly; else in a way that tells apart partial or hashed keys.
pub struct Names(usize);
impl Names {
    pub fn new(g: &Gen) -> Names {
        Names(g.w(&[9, 2, 1, 1, 1, 1, 1]))
    }
    /// The name of file `i` (different for different numbers).
    pub fn get(&self, g: &Gen, i: usize) -> String {
        match self.0 {
            0 => format!("/sim/p{}.icc", i),
            1 => format!("/sim/p{}-{:x}.icc", i, g.u(1 << 16)),
            2 => {
                // The same name in different directories.
                let _rt = Rt::enter();
                let d = format!("/sim/d{}", i);
                sim().disk.dirs.insert(d.clone());
                format!("{}/p.icc", d)
            }
            3 => {
                let n: String = "pqrstuvwxyza".chars().enumerate().map(|(b, c)| if i >> b & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                format!("/sim/{}.icc", n)
            }
            4 => match i {
                0 => "/sim/p".into(),
                1 => "/sim/p.icc".into(),
                2 => "/sim/p.icm".into(),
                _ => format!("/sim/p.{}", i),
            },
            5 => format!("/sim/{}{}.icc", "x".repeat(240), i),
            // Names of which one is the beginning of the next.
            _ => format!("/sim/p{}", "'".repeat(i % 200) + &"~".repeat(i / 200)),
        }
    }
}
/// Another way to write the path of a file in /sim: doubled slashes, dots, a relative path, links of all kinds.
/// What it leads to is recorded like the path itself.
pub fn alias(g: &Gen, path: &str) -> String {
    let _rt = Rt::enter();
    let name = path.strip_prefix("/sim/").unwrap();
    let s = sim();
    let seq = s.seq;
    let n = s.disk.links.len() + s.disk.names.len();
    let a = match g.u(11) {
        0 => format!("/sim/./{}", name),
        1 => format!("/sim//{}", name),
        2 => {
            s.disk.dirs.insert("/sim/zd".into());
            format!("/sim/zd/../{}", name)
        }
        3 => name.to_string(),
        4 => format!("./{}", name),
        5 => {
            let l = format!("/sim/l{}.icc", n);
            s.disk.link(seq, &l, path);
            l
        }
        6 => {
            let l = format!("/sim/l{}.icc", n);
            s.disk.link(seq, &l, name);
            l
        }
        7 => {
            let l = format!("/sim/ld{}", n);
            s.disk.link(seq, &l, "/sim");
            format!("{}/{}", l, name)
        }
        8 => {
            // A link to a link.
            let l = format!("/sim/l{}.icc", n);
            s.disk.link(seq, &l, path);
            let m = format!("/sim/zl{}.icc", n);
            s.disk.link(seq, &m, &l);
            m
        }
        9 => {
            // A second name of the same file, if there is one.
            let l = format!("/sim/h{}.icc", n);
            match s.disk.lookup(path) {
                Some(i) => {
                    s.disk.names.insert(l.clone(), i);
                    l
                }
                None => path.to_string(),
            }
        }
        _ => format!("../sim/{}", name),
    };
    s.disk.watch(path);
    s.disk.watch(&a);
    s.disk.relog(seq);
    log(&format!("path {} for {}", a, path));
    probe("path_alias");
    a
}
pub fn minus(a: &[i32], b: &[i32]) -> Vec<i32> {
    let mut v = a.to_vec();
    for x in b {
        if let Some(i) = v.iter().position(|y| y == x) {
            v.remove(i);
        }
    }
    v
}
