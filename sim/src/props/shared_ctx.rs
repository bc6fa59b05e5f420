//! Properties of histories over several threads and contexts: C04, C05, C06, C07, C17.
use super::opens::pick_clock;
use crate::choice::*;
use crate::disk::*;
use crate::engine::*;
use crate::refdec::*;
use crate::shared::*;
use crate::sim::*;
use lcms2::state::ErrorCode;
use lcms2::types::Profile;

fn cx(g: &Gen, own: usize) -> Cx {
    match g.u(2) {
        0 => Cx::Global,
        _ => Cx::Own(g.u(own as u32) as usize),
    }
}
/// How many threads a run has: mostly few, now and then a crowd (limits on how many may be busy at once show there).
pub fn crowd(g: &Gen, least: u32) -> usize {
    if g.p(1, 15) {
        probe("crowd");
        match g.w(&[30, 1, 1]) {
            0 => (5 + g.u(*g.pick(&[4, 16]))) as usize,
            1 => 20 + g.u(60) as usize,
            _ => g.known(5, 150).map_or(33, |v| v as usize + 2),
        }
    } else {
        (least + g.u(3)) as usize
    }
}
fn warm(g: &Gen, num: u32, den: u32) {
    // In most runs the process-wide context has never been used when the threads start.
    if g.p(num, den) {
        let b = small(g, 99);
        put_file("/sim/warm.icc", &b);
        let from = threads().len();
        add_thread(vec![(open_op(Cx::Global, "/sim/warm.icc", false, false), Some(decode(&b, b.len() as u64)))], 0);
        expect_done(run_threads(from, Some(want_look)));
        judge_all(from);
    } else {
        probe("first_use_race");
    }
}
struct Files(Vec<(String, Want, usize)>);
/// A mix of intact, damaged and missing files.
fn files(g: &Gen, n: u32, bad: u32) -> Files {
    let names = Names::new(g);
    if g.p(1, 4) {
        bystander(small(g, 99));
    }
    let mut v: Vec<(String, Want, usize)> = vec![];
    let mut base: Option<Vec<u8>> = None;
    for f in 0..n {
        let mut b = match &base {
            // Files that differ in a few bytes only: a mix-up of anything shows, a partial key does not tell them apart.
            Some(b) if g.p(1, 3) => variant(g, b),
            _ => {
                if g.p(1, 8) {
                    intact(g)
                } else {
                    small(g, f)
                }
            }
        };
        base = Some(b.clone());
        let tags = crate::refdec::get32(&b, 128) as usize;
        if g.p(bad, 10) {
            damage(g, &mut b);
        }
        let path = names.get(g, f as usize);
        put_file(&path, &b);
        if g.p(1, 5) {
            v.push((alias(g, &path), decode(&b, b.len() as u64), tags));
        }
        v.push((path, decode(&b, b.len() as u64), tags));
    }
    Files(v)
}
/// In some runs error handlers open profiles themselves. `quietly`: only such that report nothing.
fn handlers_open(g: &Gen, fs: &Files, quietly: bool) -> bool {
    if !sut::HOOKS || !g.p(1, 4) {
        return false;
    }
    let mut v = vec![];
    for _ in 0..1 + g.u(4) {
        let f = g.pick(&fs.0);
        v.push(match g.u(4) {
            0 => None,
            k if quietly && f.1.is_err() => (k != 1).then(|| (f.0.clone(), f.1.clone(), 0)),
            _ => Some((f.0.clone(), f.1.clone(), g.u(3))),
        });
    }
    nest(v);
    true
}
fn give_handlers(g: &Gen, from: usize) {
    if g.p(1, 2) && !sut::set_global_handler(HANDLERS[GLOBAL_HANDLER]) {
        violate("poisoned", "the process-wide context is unusable");
    }
    for t in threads()[from..].iter_mut() {
        for c in t.ctxs.iter_mut() {
            sut::set_handler(c, HANDLERS[1]);
        }
    }
}
fn note_mix() {
    let (mut gl, mut ow) = (false, false);
    for t in threads().iter() {
        for o in &t.ops {
            match o {
                POp::Open { cx: Cx::Global, .. } => gl = true,
                POp::Open { .. } => ow = true,
                _ => {}
            }
        }
    }
    if gl && ow {
        probe("global_and_private_mixed");
    }
}
fn plans() -> String {
    let t: Vec<_> = threads().iter().map(|t| &t.ops).collect();
    let p: Vec<_> = sim().planned.iter().map(|p| (p.tid, p.op, p.sys, p.nth, short(&p.act))).collect();
    format!("threads {:?}, planned {:?}", t, p)
}
fn short(a: &Act) -> String {
    match a {
        Act::Replace(p, _) => format!("replace {}", p),
        a => format!("{:?}", a),
    }
}
fn contended() -> bool {
    let b = sim().threads.iter().any(|t| t.blocked_futex > 0);
    if b {
        probe("lock_contended");
    }
    b
}

/// How many threads are to have a call under way at the same instant, in runs that are about that.
fn rush(g: &Gen) -> Option<usize> {
    if !g.p(1, 60) {
        return None;
    }
    probe("rush");
    Some(match g.w(&[3, 2, 1]) {
        0 => 8 + g.u(30) as usize,
        1 => 30 + g.u(100) as usize,
        _ => g.known(5, 150).map_or(68, |v| v as usize + 3),
    })
}
fn plan_stall(g: &Gen, tid: usize, op: u32, tags: usize) {
    let (sys, nth) = match g.u(4) {
        0 => (None, g.u(8)),
        1 => (Some(K::Open), 0),
        2 => (Some(K::Read), g.u(tags as u32 + 2)),
        _ => (Some(K::Lseek), g.u(4)),
    };
    sim().planned.push(Planned { tid, op, sys, nth, act: Act::Stall, fired: false });
}
/// Many threads, each in the middle of an open when the last one gets there.
fn c06_rush(g: &Gen, nt: usize) {
    preemption(g);
    let nf = 1 + g.u(12);
    let fs = files(g, nf, 1);
    let base = threads().len();
    for t in 0..nt {
        let mut ops = vec![];
        for k in 0..1 + g.u(2) {
            let f = g.pick(&fs.0).clone();
            if k == 0 {
                plan_stall(g, base + t, k, f.2);
            }
            let c = if g.p(1, 30) { Cx::Global } else { Cx::Own(0) };
            ops.push((open_op(c, &f.0, false, false), Some(f.1)));
        }
        add_thread(ops, 1);
    }
    note_mix();
    summary(&format!("{}, {:?}", plans(), sim().cfg));
    let mut o = run_threads(base, Some(want_look));
    let mut most = 0;
    while o == Outcome::Quiescent {
        let n = (0..nt).filter(|i| thread(*i).state == TState::Stalled).count();
        if n == 0 {
            break;
        }
        most = most.max(n);
        heal_stalls();
        o = resume();
    }
    expect_done(o);
    judge_all(base);
    case(0, most > 1);
}
pub fn c06(g: &Gen) {
    if let Some(nt) = rush(g) {
        return c06_rush(g, nt);
    }
    warm(g, 1, 4);
    preemption(g);
    if g.p(1, 3) {
        benign_faults(g);
    }
    let nf = 1 + g.u(4);
    let fs = files(g, nf, 3);
    let nt = crowd(g, 2);
    let base = threads().len();
    let nest = handlers_open(g, &fs, false);
    for t in 0..nt {
        let mut ops = vec![];
        for k in 0..1 + super::streams::many(g, 4).min(if nt > 4 { 6 } else { 60 }) {
            let f = g.pick(&fs.0).clone();
            if g.p(1, 6) {
                plan_hard(g, base + t, k, f.2);
            }
            ops.push((open_op(cx(g, 1), &f.0, false, g.p(1, 3)), Some(f.1)));
        }
        add_thread(ops, 1);
    }
    if nest {
        give_handlers(g, base);
    }
    note_mix();
    summary(&format!("{}, {:?}", plans(), sim().cfg));
    expect_done(run_threads(base, Some(want_look)));
    judge_all(base);
    // Kept profiles are unharmed by what the others did.
    for i in base..threads().len() {
        let t = &threads()[i];
        let mut j = 0;
        for (k, d) in t.done.iter().enumerate() {
            if matches!(d.op, POp::Open { keep: true, .. }) && matches!(d.res, R::Unit) {
                if let Some(Ok(w)) = &wants()[i][k] {
                    if let Some(x) = diff(&t.kept[j], w) {
                        violate("kept-profile-changed", &format!("thread {} operation {}: {}", i, k, x));
                    }
                }
                j += 1;
            }
        }
    }
    let c = contended();
    case(0, c || sim().sh.counters[C::preempt as usize] > 0);
}

pub fn c04(g: &Gen) {
    let limit = *g.pick(&[64usize, 3, 2, 1, 5]);
    if g.p(2, 3) {
        preemption(g);
    }
    if g.p(1, 3) {
        benign_faults(g);
    }
    sim().disk.ro_dirs.insert("/sim/ro".into());
    sim().disk.dirs.insert("/sim/ro".into());
    let nf = 2 + g.u(3);
    let fs = files(g, nf, 7);
    sim().disk.fd_limit = limit;
    let nest = handlers_open(g, &fs, false);
    let nt = crowd(g, 1);
    let mut failed = false;
    for t in 0..nt {
        let mut ops = vec![];
        for k in 0..2 + super::streams::many(g, 7).min(if nt > 4 { 12 } else { 150 }) {
            match g.w(&[16, 2, 2, 2, 2, 1]) {
                0 => {
                    let f = g.pick(&fs.0).clone();
                    if g.p(1, 2) {
                        plan_hard(g, t, k, f.2);
                    }
                    ops.push((open_op(cx(g, 2), &f.0, false, g.p(1, 4)), Some(f.1)));
                }
                1 => ops.push((open_op(cx(g, 2), "/sim/none.icc", false, false), Some(Err(Defects { eof: true, ..Default::default() })))),
                2 => ops.push((open_op(cx(g, 2), *g.pick(&["/sim/ro/w.icc", "/sim/no/w.icc", "/sim"]), true, false), None)),
                3 => ops.push((open_op(cx(g, 2), "/sim/out.icc", true, g.p(1, 3)), None)),
                4 => ops.push((POp::Drop, None)),
                _ => ops.push((POp::Sleep(super::opens::long_time(g)), None)),
            }
        }
        add_thread(ops, 2);
    }
    if nest {
        give_handlers(g, 0);
    }
    note_mix();
    summary(&format!("descriptor limit {}, {}", limit, plans()));
    expect_done(run_threads(0, Some(want_look)));
    judge_all(0);
    for t in threads().iter_mut() {
        for d in &t.done {
            if matches!(d.res, R::Refused(..)) {
                failed = true;
            }
            if d.rec.hard.iter().any(|h| h.1 == libc::EMFILE) {
                probe("fd_limit_hit");
            }
        }
        // Kept profiles are let go: nothing may hold descriptors any more.
        t.kept.clear();
        t.done.iter_mut().for_each(|d| {
            if let R::Opened(_) = d.res {
                d.res = R::Unit
            }
        });
    }
    // The faults stop.
    sim().planned.clear();
    let old = sim().cfg.clone();
    sim().cfg = Cfg { preempt: old.preempt, gap: old.gap, step_budget: sim().steps + 600_000, ..Default::default() };
    log("all faults stop");
    probe("second_epoch");
    let base = threads().len();
    let b = small(g, 500);
    put_file("/sim/good.icc", &b);
    let w = decode(&b, b.len() as u64);
    let used: Vec<_> = (0..base).map(|i| std::mem::take(&mut threads()[i].ctxs)).collect();
    // As many at once as the descriptor limit allows.
    let many = limit.min(3);
    let mut pools: Vec<Vec<_>> = (0..many).map(|_| vec![]).collect();
    for (i, c) in used.into_iter().flatten().enumerate() {
        pools[i % many].push(c);
    }
    for p in pools {
        let mut ops = vec![];
        let n = p.len();
        ops.push((open_op(Cx::Global, "/sim/good.icc", false, false), Some(w.clone())));
        for c in 0..n {
            ops.push((open_op(Cx::Own(c), "/sim/good.icc", false, false), Some(w.clone())));
            if g.p(1, 2) {
                ops.push((open_op(Cx::Global, "/sim/good.icc", false, false), Some(w.clone())));
            }
        }
        let t = add_thread(ops, 0);
        threads()[t].ctxs = p;
        threads()[t].data = vec![None; n];
    }
    expect_done(run_threads(base, Some(want_look)));
    for i in base..threads().len() {
        for (k, d) in threads()[i].done.iter().enumerate() {
            let t = format!("after the faults stopped, thread {} operation {} ({:?}): {} {:?}", i, k, d.op, d.res.text(), d.rec.hard);
            match (&d.res, &d.look) {
                (R::Unit, None) | (R::Opened(_), None) => {}
                (_, Some(l)) => violate("stale-content", &format!("{} {}", t, l)),
                (R::Panicked(_), _) => violate("panic-after-faults", &t),
                _ => violate("not-recovered", &t),
            }
        }
    }
    if failed {
        probe("recovered_after_failure");
    }
    case(0, failed);
}

// ---------------------------------------------------------------------------------------------------------
// C05

pub fn c05(g: &Gen) {
    if g.p(1, 6) {
        return c05_streams(g);
    }
    let nt = crowd(g, 1);
    if nt > 1 {
        preemption(g);
    }
    if g.p(1, 3) {
        benign_faults(g);
    }
    if g.p(1, 5) {
        sim().disk.fd_limit = 1 + g.u(4) as usize;
    }
    let nf = 1 + g.u(4);
    let fs = files(g, nf, 5);
    for t in 0..nt {
        let mut ops = vec![];
        for k in 0..1 + super::streams::many(g, 8).min(if nt > 4 { 12 } else { 150 }) {
            match g.w(&[8, 3, 2, 1]) {
                0 => {
                    let f = g.pick(&fs.0).clone();
                    if g.p(2, 5) {
                        plan_hard(g, t, k, f.2);
                    }
                    if g.p(1, 4) {
                        let op = *g.pick(&[k, 1 << 20 | k]);
                        sim().planned.push(Planned { tid: t, op, sys: Some(K::Close), nth: 0, act: Act::Err(libc::EIO), fired: false });
                    }
                    ops.push((open_op(cx(g, 1), &f.0, false, g.p(1, 2)), Some(f.1)));
                }
                1 => ops.push((POp::Drop, None)),
                2 => {
                    let p = format!("/sim/w{}.icc", t);
                    if g.p(1, 4) {
                        plan_hard(g, t, k, 0);
                    }
                    ops.push((open_op(cx(g, 1), &p, true, g.p(1, 2)), None));
                }
                _ => ops.push((open_op(cx(g, 1), *g.pick(&["/sim/none", "/sim"]), false, true), None)),
            }
        }
        add_thread(ops, 1);
    }
    summary(&plans());
    expect_done(run_threads(0, Some(c05_look)));
    let mut nontrivial = false;
    for i in 0..nt {
        let t = &threads()[i];
        for (k, d) in t.done.iter().enumerate() {
            let who = format!("thread {} operation {} ({:?}: {})", i, k, d.op, d.res.text());
            if let R::Panicked(m) = &d.res {
                violate("panic", &format!("{}: {}", who, m));
            }
            let r = &d.rec;
            nontrivial |= !r.hard.is_empty();
            for r in [Some(r), d.drop_rec.as_ref()].into_iter().flatten() {
                if !r.bad_fd.is_empty() {
                    violate("foreign-descriptor", &format!("{}: used or closed descriptors {:?} that were not open", who, r.bad_fd));
                }
                if r.closed.len() > r.calls[K::Close as usize] as usize {
                    violate("harness", "closes");
                }
            }
            let left: Vec<i32> = minus(&r.opened, &r.closed);
            match (&d.op, &d.res) {
                (POp::Open { .. }, R::Refused(..)) => {
                    if !left.is_empty() {
                        violate("leak-on-failure", &format!("{}: the failed open left {:?} open", who, left));
                    }
                }
                (POp::Open { keep, .. }, _) => {
                    if left.len() != 1 {
                        violate("handle-count", &format!("{}: the open left descriptors {:?} open", who, left));
                    }
                    if let Some(t) = &d.look {
                        violate("wrong-handle", &format!("{}: {}", who, t));
                    }
                    if !keep {
                        let c = &d.drop_rec.as_ref().unwrap();
                        if c.closed != left || !c.opened.is_empty() {
                            violate("leak-on-drop", &format!("{}: open was {:?}, dropping closed {:?}", who, left, c.closed));
                        }
                        if sim().planned.iter().any(|p| p.fired && p.tid == i && p.op == (1 << 20 | k as u32)) {
                            probe("close_failed_released");
                        }
                    } else {
                        nontrivial = true;
                    }
                }
                (POp::Drop, _) => {
                    // The oldest kept profile is released: exactly one descriptor that was held before.
                    let before = if k == 0 { vec![] } else { t.done[k - 1].held.clone() };
                    let had = kept_before(i, k);
                    if had && (r.closed.len() != 1 || !before.contains(&r.closed[0]) || !r.opened.is_empty()) {
                        violate("leak-on-drop", &format!("{}: held {:?}, closed {:?}", who, before, r.closed));
                    }
                    if !had && (!r.closed.is_empty() || !r.opened.is_empty()) {
                        violate("foreign-descriptor", &format!("{}: closed {:?}", who, r.closed));
                    }
                }
                _ => {}
            }
            let mine: usize = kept_after(i, k);
            if d.held.len() != mine {
                violate("handle-count", &format!("{}: {} profiles alive, descriptors {:?} open", who, mine, d.held));
            }
            if mine > 0 {
                probe("handle-while-alive".replace('-', "_").as_str());
            }
            if r.hard.iter().any(|h| h.1 == libc::EMFILE) {
                probe("fd_limit_hit");
            }
        }
    }
    // Every profile still alive holds its own descriptor; dropping them all closes everything.
    let alive: usize = threads().iter().map(|t| t.kept.len()).sum();
    if sim().disk.fds.len() != alive {
        violate("handle-count", &format!("{} profiles alive, {} descriptors open", alive, sim().disk.fds.len()));
    }
    for t in threads().iter_mut() {
        t.kept.clear();
    }
    if !sim().disk.fds.is_empty() {
        violate("leak-on-drop", &format!("all profiles dropped, descriptors {:?} open", sim().disk.fds.keys()));
    }
    case(0, nontrivial);
}
fn kept_after(i: usize, k: usize) -> usize {
    let mut n = 0usize;
    for d in &threads()[i].done[..=k] {
        match (&d.op, &d.res) {
            (POp::Open { keep: true, .. }, R::Unit) => n += 1,
            (POp::Drop, _) => n = n.saturating_sub(1),
            _ => {}
        }
    }
    n
}
fn kept_before(i: usize, k: usize) -> bool {
    k > 0 && kept_after(i, k - 1) > 0
}
/// While the profile lives its descriptor names the file it was asked for.
fn c05_look(i: usize, k: usize, p: &Profile) -> Option<String> {
    let POp::Open { path, write, .. } = &threads()[i].ops[k] else { return None };
    if !quiet(|| sut::has_io(p)) {
        return Some("the profile has no stream".into());
    }
    let s = sim();
    let op = &me().op;
    for fd in minus(&op.opened, &op.closed) {
        match s.disk.ofd(fd).map(|o| (o.ino, o.dir, o.write)) {
            None => return Some(format!("descriptor {} is not open", fd)),
            Some((ino, dir, w)) => {
                if dir || s.disk.lookup(path) != Some(ino) {
                    return Some("the descriptor is open on another file".to_string());
                }
                if w != *write {
                    return Some("the descriptor has the wrong mode".to_string());
                }
            }
        }
    }
    None
}
/// Streams used on their own: closing releases the descriptor whatever it reports.
/// Streams on several threads: whatever is done with one, and however its calls fail, its descriptor is released
/// exactly once, by the close or drop, and no other is touched.
fn c05_streams(g: &Gen) {
    #[derive(Clone, Debug)]
    enum S {
        Open(u32),
        Op(usize, sut::SOp),
        Close(usize),
        Drop(usize),
    }
    let nt = if g.p(1, 4) { 2 + g.u(2) as usize } else { 1 };
    if nt > 1 {
        preemption(g);
    }
    if g.p(1, 3) {
        benign_faults(g);
    }
    let mut plans: Vec<Vec<S>> = vec![];
    for t in 0..nt {
        put_file(&format!("/sim/s{}.bin", t), &g.blob(20));
        let mut plan = vec![S::Open(0)];
        for k in 1..4 + super::streams::many(g, 14) {
            let i = g.u(4) as usize;
            let w = match g.w(&[6, 3, 1, 1]) {
                0 => S::Op(i, super::streams::gen_op(g, 40)),
                1 => S::Close(i),
                2 => S::Drop(i),
                _ => S::Open(g.u(4)),
            };
            let sys = match &w {
                S::Close(_) if g.p(1, 2) => Some(if g.p(1, 4) { K::Close } else { K::Sync }),
                S::Op(_, o) if g.p(1, 6) => match (super::storage::op_bytes(o).is_some(), super::streams::need(o).is_some()) {
                    (true, _) => Some(K::Write),
                    (_, true) => Some(K::Read),
                    _ => Some(K::Lseek),
                },
                _ => None,
            };
            if let Some(sys) = sys {
                let e = if sys == K::Close { libc::EIO } else { errno(g, super::storage::SYNC_ERRNOS) };
                sim().planned.push(Planned { tid: t, op: k, sys: Some(sys), nth: 0, act: Act::Err(e), fired: false });
            }
            plan.push(w);
        }
        plans.push(plan);
    }
    summary(&format!("streams {:?}, planned {:?}", plans, sim().planned));
    let bodies = plans.into_iter().enumerate().map(|(t, plan)| {
        let b: Box<dyn FnOnce() + Send> = Box::new(move || {
            let mut alive: Vec<(i32, sut::Stream<'static>)> = vec![];
            for w in plan {
                let who = format!("thread {}: {:?}", t, w);
                let mut gone: Option<i32> = None;
                match w {
                    S::Open(how) => {
                        let mut o = std::fs::File::options();
                        match how {
                            0 => o.read(true).write(true),
                            1 => o.read(true),
                            2 => o.write(true),
                            _ => o.read(true).append(true),
                        };
                        let f = quiet(|| o.open(format!("/sim/s{}.bin", t)));
                        let Ok(f) = f else { finish(ST_ERROR, "harness-open", "") };
                        alive.push((std::os::fd::AsRawFd::as_raw_fd(&f), sut::Stream::file(f)));
                        begin_op();
                        end_op();
                        continue;
                    }
                    _ if alive.is_empty() => {
                        begin_op();
                        end_op();
                        continue;
                    }
                    S::Op(i, op) => {
                        let i = i % alive.len();
                        begin_op();
                        if let Err(m) = sut_call(|| sut::exec(&mut alive[i].1, &op).is_ok()) {
                            violate("panic", &format!("{}: {}", who, m));
                        }
                    }
                    S::Close(i) => {
                        let (fd, s) = alive.remove(i % alive.len());
                        gone = Some(fd);
                        begin_op();
                        match sut_call(|| s.close()) {
                            Err(m) => violate("panic", &format!("{}: {}", who, m)),
                            Ok(r) => slog!("T{} close -> {:?}", t, r),
                        }
                    }
                    S::Drop(i) => {
                        let (fd, s) = alive.remove(i % alive.len());
                        gone = Some(fd);
                        begin_op();
                        let _ = sut_call(|| drop(s));
                    }
                }
                let rec = end_op();
                if !rec.bad_fd.is_empty() {
                    violate("foreign-descriptor", &format!("{} touched {:?}", who, rec.bad_fd));
                }
                let (left, released) = (minus(&rec.opened, &rec.closed), minus(&rec.closed, &rec.opened));
                if !left.is_empty() {
                    violate("leak", &format!("{} left {:?} open", who, left));
                }
                if gone.is_some() && released.is_empty() {
                    violate("leak-on-close", &format!("{} left descriptor {:?} open", who, gone));
                }
                if released != gone.into_iter().collect::<Vec<_>>() {
                    violate("foreign-descriptor", &format!("{} on {:?} closed {:?}", who, gone, released));
                }
                if gone.is_some() && !rec.hard.is_empty() {
                    probe("close_failed_released");
                }
            }
            quiet(|| drop(alive));
        });
        b
    });
    expect_done(run(bodies.collect()));
    case(0, sim().planned.iter().any(|p| p.fired));
}

// ---------------------------------------------------------------------------------------------------------
// C07

const TYPES: &[&[u8; 4]] = &[b"inpH", b"xfmH", b"typH", b"tagH", b"frmH", b"intH", b"parH", b"mpeH", b"optH"];
fn plug(g: &Gen) -> PlugSpec {
    PlugSpec {
        magic: u32::from_be_bytes(*b"acpp"),
        version: *g.pick(&[2131, 2130, 0, 2000, 2131]),
        ty: u32::from_be_bytes(**g.pick(TYPES)),
    }
}
fn chain(g: &Gen, last: &mut Vec<PlugSpec>) -> Vec<PlugSpec> {
    if last.len() > 1 && g.p(1, 4) {
        // What was registered before once more, behind another head or the same.
        if g.p(1, 2) {
            last[0] = plug(g);
        }
        probe("plugin_chain_again");
        return last.clone();
    }
    *last = new_chain(g);
    last.clone()
}
fn new_chain(g: &Gen) -> Vec<PlugSpec> {
    let n = match g.w(&[20, 1, 1]) {
        0 => 1 + g.u(4),
        1 => 5 + g.u(60),
        _ => g.known(1, 500).unwrap_or(9) as u32,
    } as usize;
    let mut v: Vec<_> = (0..n).map(|_| plug(g)).collect();
    // One bad plugin, or more.
    for _ in 0..g.w(&[4, 4, 2]) {
        let i = if g.p(1, 2) { n - 1 } else { g.u(n as u32) as usize };
        let p = &mut v[i];
        if n > 8 {
            probe("plugin_chain_long");
        }
        match g.u(3) {
            0 => p.magic = *g.pick(&[0, u32::from_be_bytes(*b"acsp"), u32::from_be_bytes(*b"accp"), u32::from_be_bytes(*b"ppca")]),
            1 => p.version = *g.pick(&[2132, 3000, u32::MAX, 2140]),
            _ => p.ty = *g.pick(&[0, u32::from_be_bytes(*b"inpI"), u32::from_be_bytes(*b"    "), u32::from_be_bytes(*b"Hfmx")]),
        }
    }
    v
}
fn chain_ok(c: &[PlugSpec]) -> bool {
    c.iter().all(|p| {
        p.magic == u32::from_be_bytes(*b"acpp") && p.version <= lcms2::LCMS_VERSION && TYPES.iter().any(|t| u32::from_be_bytes(**t) == p.ty)
    })
}

pub fn c07(g: &Gen) {
    if g.p(1, 2) {
        set_realtime(pick_clock(g));
    }
    let nt = *g.pick(&[1usize, 1, 2, 3]);
    if nt > 1 {
        preemption(g);
    }
    if g.p(1, 4) {
        benign_faults(g);
    }
    if !sut::set_global_handler(HANDLERS[GLOBAL_HANDLER]) {
        violate("poisoned", "the process-wide context is unusable");
    }
    let nf = 2 + g.u(4);
    let fs = files(g, nf, 6);
    handlers_open(g, &fs, true);
    let mut ctx_of: Vec<Vec<Vec<usize>>> = vec![];
    for t in 0..nt {
        let n0 = 1 + g.u(3) as usize;
        let mut have = n0;
        let mut ops = vec![];
        let mut last = vec![];
        let mut lens = vec![];
        for k in 0..2 + super::streams::many(g, 7).min(150) {
            lens.push((0..have).collect::<Vec<_>>());
            match g.w(&[8, 4, 2, 1]) {
                0 => {
                    let f = g.pick(&fs.0).clone();
                    if g.p(1, 5) {
                        plan_hard(g, t, k, f.2);
                    }
                    ops.push((open_op(cx(g, have), &f.0, false, false), Some(f.1)));
                }
                1 => ops.push((POp::Plugin { cx: Cx::Own(g.u(have as u32) as usize), chain: chain(g, &mut last) }, None)),
                2 if have < 6 => {
                    ops.push((POp::Clone { from: g.u(have as u32) as usize }, None));
                    have += 1;
                }
                _ => ops.push((open_op(cx(g, have), *g.pick(&["/sim/out.icc", "/sim/none/x", "/sim"]), true, false), None)),
            }
        }
        let i = add_thread(ops, 0);
        let th = &mut threads()[i];
        th.handlers = true;
        th.handler0 = 1 + 8 * t;
        th.data.clear();
        for c in 0..n0 {
            let d = if g.p(1, 4) { None } else { Some(vec![t as u8, c as u8, g.u(256) as u8]) };
            let mut x = sut::new_context(d.clone().map(|d| d.into_boxed_slice()));
            sut::set_handler(&mut x, HANDLERS[th.handler0 + c]);
            th.ctxs.push(x);
            th.data.push(d);
        }
        ctx_of.push(lens);
    }
    summary(&plans());
    expect_done(run_threads(0, Some(want_look)));
    judge_all(0);
    let mut nontrivial = false;
    let mut explained = 0;
    for i in 0..nt {
        let t = &threads()[i];
        for (k, d) in t.done.iter().enumerate() {
            let who = format!("thread {} operation {} ({:?}: {})", i, k, d.op, d.res.text());
            // Everything this thread reported during the operation.
            let sim_tid = sim().first + i;
            let got: Vec<&Report> =
                reports().iter().filter(|r| r.tid as usize == sim_tid && r.seq >= d.rec.seq0 && r.seq <= d.rec.seq1).collect();
            explained += got.len();
            let (target, codes, exact): (usize, Vec<ErrorCode>, Option<usize>) = match (&d.op, &d.res) {
                (POp::Open { cx, write, .. }, res) => {
                    let h = match cx {
                        Cx::Global => GLOBAL_HANDLER,
                        Cx::Own(c) => t.handler0 + c,
                    };
                    match res {
                        R::Refused(..) if !d.rec.hard.is_empty() => {
                            if !got.is_empty() {
                                probe("report_storage_error");
                            }
                            (h, vec![], None)
                        }
                        R::Refused(..) => match wants()[i].get(k).cloned().flatten() {
                            Some(Err(def)) if def.content() && !*write => {
                                let mut c = vec![];
                                if def.magic {
                                    c.push(ErrorCode::BadSignature);
                                }
                                if def.date {
                                    c.push(ErrorCode::CorruptionDetected);
                                }
                                if def.count {
                                    c.push(ErrorCode::Range);
                                }
                                if def.eof && d.rec.view.iter().map(|v| v.0 + v.1.len() as u64).max().unwrap_or(0) < 128 {
                                    // Refused because the header is incomplete.
                                    (h, vec![], None)
                                } else if def.eof {
                                    // Refused for the content, or for missing bytes before it was looked at.
                                    (h, vec![], None)
                                } else {
                                    (h, c, Some(1))
                                }
                            }
                            _ => (h, vec![], None),
                        },
                        _ => (h, vec![], Some(0)),
                    }
                }
                (POp::Plugin { cx: Cx::Own(c), chain }, R::Plug(r)) => {
                    let h = t.handler0 + c;
                    if chain_ok(chain) {
                        probe("plugin_accepted");
                        if let Err(m) = r {
                            violate("plugin-refused", &format!("{}: an acceptable chain was refused: {}", who, m));
                        }
                        (h, vec![], Some(0))
                    } else {
                        if chain_ok(&chain[..1]) {
                            probe("plugin_refused_deep");
                        }
                        nontrivial = true;
                        if r.is_ok() {
                            violate("plugin-accepted", &format!("{}: a chain with a bad plugin was accepted", who));
                        }
                        (h, vec![ErrorCode::UnknownExtension], Some(1))
                    }
                }
                _ => (GLOBAL_HANDLER, vec![], Some(0)),
            };
            if !sut::HOOKS {
                continue;
            }
            if !got.is_empty() {
                probe("report_seen");
                nontrivial = true;
            }
            for r in &got {
                if r.handler != target {
                    violate("wrong-context", &format!("{}: reported to handler {} instead of {}", who, r.handler, target));
                }
                if !r.data_ok {
                    violate("user-data-in-report", &format!("{}: the handler saw other user data", who));
                }
                if !codes.is_empty() && !codes.contains(&r.code) {
                    violate("wrong-category", &format!("{}: reported as {:?}, expected {:?}", who, r.code, codes));
                }
            }
            match exact {
                Some(n) if got.len() != n => {
                    violate(if got.len() < n { "not-reported" } else { "over-reported" }, &format!("{}: {} report(s), expected {}", who, got.len(), n))
                }
                None if got.len() > 1 => violate("over-reported", &format!("{}: {} reports", who, got.len())),
                _ => {}
            }
        }
        // The contexts are as they were.
        for (c, x) in t.ctxs.iter().enumerate() {
            if sut::user_data(x) != t.data[c] {
                violate("user-data", &format!("thread {} context {}: user data {:?}, given {:?}", i, c, sut::user_data(x), t.data[c]));
            }
        }
        if t.done.iter().any(|d| matches!(d.op, POp::Clone { .. })) {
            probe("clone_isolated");
        }
    }
    if explained != reports().len() {
        violate("stray-report", &format!("{} reports, {} belong to an operation", reports().len(), explained));
    }
    case(0, nontrivial);
}

// ---------------------------------------------------------------------------------------------------------
// C17

pub fn c17(g: &Gen) {
    if g.p(1, 3) {
        warm(g, 1, 1);
    }
    preemption(g);
    if g.p(1, 4) {
        benign_faults(g);
    }
    let nf = 1 + g.u(3);
    let fs = files(g, nf, 1);
    let rush = rush(g);
    let nt = rush.unwrap_or_else(|| crowd(g, 2));
    let most = if rush.is_some() { nt as u32 } else if nt > 4 { 1 + g.u(nt as u32) } else { 3 };
    let base = threads().len();
    let mut planned = 0;
    for t in 0..nt {
        let n = 1 + g.u(3);
        let mut ops = vec![];
        for k in 0..n {
            let f = g.pick(&fs.0).clone();
            let write = g.p(1, 8);
            let c = match g.w(&[3, 3, 1]) {
                0 if rush.is_some() && !g.p(1, 20) => Cx::Own(0),
                0 => Cx::Global,
                1 => Cx::Own(0),
                _ => Cx::Own(1),
            };
            let stall = if rush.is_some() { k == 0 && g.p(19, 20) } else { g.p(1, 2) };
            if stall && planned < most {
                planned += 1;
                plan_stall(g, base + t, k, f.2);
            }
            if write {
                ops.push((open_op(c, &format!("/sim/w{}.icc", t), true, false), None));
            } else {
                ops.push((open_op(c, &f.0, false, false), Some(f.1)));
            }
        }
        add_thread(ops, 2);
    }
    note_mix();
    summary(&format!("{}, {:?}", plans(), sim().cfg));
    let mut o = run_threads(base, Some(want_look));
    let mut stalled_any = false;
    let mut rounds = 0;
    while o == Outcome::Quiescent {
        rounds += 1;
        stalled_any = true;
        let s = sim();
        // Contexts given to stalled calls.
        let mut given: Vec<(usize, Cx)> = vec![];
        let mut all_done = true;
        for i in 0..nt {
            let th = thread(i);
            if th.state == TState::Stalled {
                let k = th.op_idx & !(1 << 20);
                if th.op_idx & 1 << 20 != 0 {
                    continue; // stalled in dropping a profile
                }
                if let POp::Open { cx, .. } = &threads()[base + i].ops[k as usize] {
                    given.push((i, *cx));
                    probe(if *cx == Cx::Global { "stall_global" } else { "stall_private" });
                }
            }
        }
        for i in 0..nt {
            let th = thread(i);
            if matches!(th.state, TState::Stalled | TState::Done) {
                continue;
            }
            all_done = false;
            let k = (th.op_idx & !(1 << 20)) as usize;
            let op = &threads()[base + i].ops[k];
            let waits_for_given = match op {
                POp::Open { cx: Cx::Global, .. } => given.iter().any(|x| x.1 == Cx::Global),
                _ => false,
            };
            if !waits_for_given {
                violate(
                    "held-up",
                    &format!("thread {} operation {} ({:?}) does not finish while {:?} are stalled", base + i, k, op, given),
                );
            }
            probe("stall_waiters_released");
        }
        if all_done {
            probe("others_done_while_stalled");
        }
        let _ = s;
        heal_stalls();
        o = resume();
        if rounds > 20 + planned {
            finish(ST_ERROR, "harness-stall", "stalls keep coming");
        }
    }
    expect_done(o);
    judge_all(base);
    for i in base..threads().len() {
        for d in &threads()[i].done {
            if let (POp::Open { write: true, .. }, R::Refused(k, _, m)) = (&d.op, &d.res) {
                violate("wrong-refusal", &format!("{:?}: {:?} {}", d.op, k, m));
            }
        }
    }
    contended();
    case(0, stalled_any);
}
#[allow(dead_code)]
fn unused(_: Image) {}
