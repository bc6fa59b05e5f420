//! Runs many simulated executions in forked children, minimises and replays violations, writes evidence.
use crate::choice::*;
use crate::props::{Prop, PROPS};
use crate::shared::*;
use crate::sim;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const WATCHDOG_S: u32 = 60;

/// What a run did, as seen by the process that forked it.
#[derive(Clone, PartialEq)]
struct Verdict {
    status: u32,
    class: String,
    msg: String,
    log: u64,
    sched: u64,
}
fn root() -> String {
    std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed ^ fnv(0, prop.as_bytes())) ^ mix(idx))
}

/// Forks a child that executes one run. `out`: where a verbose trace goes.
fn execute(sh: &mut Shared, p: &Prop, seed: u64, replay: Option<Vec<Vec<u32>>>, out: Option<i32>) -> Verdict {
    sh.reset();
    let shp = sh as *mut Shared;
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("dst: fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(WATCHDOG_S);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            match out {
                Some(fd) => {
                    libc::dup2(fd, 2);
                }
                None => {
                    let z = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
                    libc::dup2(z, 2);
                }
            }
            sim::init(&mut *shp, seed, replay, out.is_some());
            if Gen.p(1, 3) {
                sim::set_realtime(crate::props::opens::pick_clock(&Gen));
            }
            if Gen.p(1, 8) {
                sim::sim().disk.fd_step = *Gen.pick(&[64, 32, 16, 8, 128, 256, 1024, 4096, 10, 100, 1 << 16, 3]);
            }
            (p.run)(&Gen);
            sim::finish(ST_OK, "", "");
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let sh = &*shp;
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let (status, class) = match sig {
                libc::SIGALRM => (ST_VIOLATION, "hang".to_string()),
                // Ended by the environment, not by what the run did.
                libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP => (ST_ERROR, format!("harness-killed-{}", sig)),
                n => (ST_VIOLATION, format!("crash-signal-{}", n)),
            };
            return Verdict { status, class, msg: format!("the run ended with signal {}", sig), log: sh.log_hash, sched: sh.sched_hash };
        }
        if sh.status == ST_RUNNING {
            return Verdict { status: ST_ERROR, class: "harness-exit".into(), msg: format!("exit status {:x}", st), log: 0, sched: 0 };
        }
        Verdict { status: sh.status, class: sh.class_str(), msg: sh.msg_str(), log: sh.log_hash, sched: sh.sched_hash }
    }
}

/// Constants the code compares with, collected from the first runs (without and then with them in use).
fn collect_constants(p: &Prop, seed: u64) {
    let sh = Shared::map();
    dict().clear();
    sh.nconst = 0;
    for round in 0..2u64 {
        for i in 0..100 {
            sh.collect = 1;
            execute(sh, p, run_seed(seed, p.id, (round + 1) << 40 | i), None, None);
        }
        let mut v = sh.consts[..sh.nconst as usize].to_vec();
        v.sort_unstable();
        *dict() = v;
    }
    sh.collect = 0;
}

struct Known {
    class: String,
    contains: String,
    line: String,
}
/// `known: property=<id> class=<class> contains=<text>` lines of known_findings.txt.
fn known_findings(prop: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={} class=", prop)) {
            if let Some((class, contains)) = r.split_once(" contains=") {
                v.push(Known { class: class.into(), contains: contains.into(), line: l.into() });
            }
        }
    }
    v
}

#[repr(C)]
struct Common {
    first_bad: AtomicU64,
}
#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    counters: Vec<u64>,
    probes: Vec<u64>,
    edges: Vec<u8>,
    interleavings: HashSet<u64>,
    distinct: HashSet<u64>,
    samples: Vec<(u64, String)>,
    errors: Vec<String>,
    rechecked: u64,
    known: u64,
    overflow: u64,
    truncated: bool,
    bad: Option<(u64, Verdict, Vec<Vec<u32>>)>,
}
struct Plan {
    seed: u64,
    from: u64,
    runs: u64,
    workers: u64,
    recheck: u64,
    cap: Duration,
}

fn worker(w: u64, p: &Prop, plan: &Plan, common: &Common, known: &[Known], out: i32) {
    let sh = Shared::map();
    let mut t = Totals { counters: vec![0; NC], probes: vec![0; PROBES.len()], ..Default::default() };
    let start = Instant::now();
    let mut idx = plan.from + w;
    while idx < plan.from + plan.runs {
        if idx > common.first_bad.load(Ordering::Relaxed) {
            break;
        }
        if start.elapsed() > plan.cap {
            t.truncated = true;
            break;
        }
        let seed = run_seed(plan.seed, p.id, idx);
        let v = execute(sh, p, seed, None, None);
        t.runs += 1;
        for i in 0..NC {
            t.counters[i] += sh.counters[i];
        }
        for i in 0..PROBES.len() {
            t.probes[i] += (sh.probes[i] > 0) as u64;
        }
        t.interleavings.insert(sh.sched_hash);
        if sh.overflow != 0 {
            t.overflow += 1;
        }
        if sh.nontrivial > 0 {
            t.nontrivial += 1;
            t.distinct.insert(sh.log_hash);
            if t.samples.len() < 2 {
                t.samples.push((idx, sh.summary_str()));
            }
        }
        match v.status {
            ST_OK => {
                if plan.recheck > 0 && (idx / plan.workers) % plan.recheck == 0 {
                    let v2 = execute(sh, p, seed, None, None);
                    t.rechecked += 1;
                    if v2 != v {
                        t.errors.push(format!("run {} is not deterministic: {} {:x} vs {} {:x} {}", idx, v.status, v.log, v2.status, v2.log, v2.msg));
                        break;
                    }
                }
            }
            ST_VIOLATION => {
                if known.iter().any(|k| k.class == v.class && v.msg.contains(&k.contains)) {
                    t.known += 1;
                } else {
                    common.first_bad.fetch_min(idx, Ordering::Relaxed);
                    t.bad = Some((idx, v, sh.streams()));
                    break;
                }
            }
            _ => {
                t.errors.push(format!("run {}: {}: {}", idx, v.class, v.msg));
                break;
            }
        }
        idx += plan.workers;
    }
    t.edges = sh.edges.to_vec();
    let mut o = vec![];
    let put = |o: &mut Vec<u8>, v: u64| o.extend(v.to_le_bytes());
    let puts = |o: &mut Vec<u8>, s: &str| {
        o.extend((s.len() as u64).to_le_bytes());
        o.extend(s.as_bytes());
    };
    for v in [t.runs, t.nontrivial, t.rechecked, t.known, t.overflow, t.truncated as u64] {
        put(&mut o, v);
    }
    for v in t.counters.iter().chain(&t.probes) {
        put(&mut o, *v);
    }
    o.extend(&t.edges);
    for set in [&t.interleavings, &t.distinct] {
        put(&mut o, set.len() as u64);
        for v in set {
            put(&mut o, *v);
        }
    }
    put(&mut o, t.samples.len() as u64);
    for (i, s) in &t.samples {
        put(&mut o, *i);
        puts(&mut o, s);
    }
    put(&mut o, t.errors.len() as u64);
    for s in &t.errors {
        puts(&mut o, s);
    }
    put(&mut o, t.bad.is_some() as u64);
    if let Some((i, v, st)) = &t.bad {
        put(&mut o, *i);
        put(&mut o, v.status as u64);
        puts(&mut o, &v.class);
        puts(&mut o, &v.msg);
        put(&mut o, v.log);
        put(&mut o, v.sched);
        for s in st {
            put(&mut o, s.len() as u64);
            for x in s {
                put(&mut o, *x as u64);
            }
        }
    }
    let mut f = unsafe { std::fs::File::from_raw_fd(out) };
    let _ = f.write_all(&o);
}
struct Rd(Vec<u8>, usize);
impl Rd {
    fn bytes(&mut self, n: usize) -> Option<&[u8]> {
        let r = self.0.get(self.1..self.1 + n)?;
        self.1 += n;
        Some(r)
    }
    fn n(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.bytes(8)?.try_into().unwrap()))
    }
    fn s(&mut self) -> Option<String> {
        let n = self.n()? as usize;
        Some(String::from_utf8_lossy(self.bytes(n)?).into_owned())
    }
}
fn merge(t: &mut Totals, mut r: Rd) -> Option<()> {
    t.runs += r.n()?;
    t.nontrivial += r.n()?;
    t.rechecked += r.n()?;
    t.known += r.n()?;
    t.overflow += r.n()?;
    t.truncated |= r.n()? != 0;
    for i in 0..NC {
        t.counters[i] += r.n()?;
    }
    for i in 0..PROBES.len() {
        t.probes[i] += r.n()?;
    }
    let e = r.bytes(MAX_EDGES)?.to_vec();
    for i in 0..MAX_EDGES {
        t.edges[i] |= e[i];
    }
    for _ in 0..r.n()? {
        t.interleavings.insert(r.n()?);
    }
    for _ in 0..r.n()? {
        t.distinct.insert(r.n()?);
    }
    for _ in 0..r.n()? {
        let i = r.n()?;
        t.samples.push((i, r.s()?));
    }
    for _ in 0..r.n()? {
        t.errors.push(r.s()?);
    }
    if r.n()? != 0 {
        let i = r.n()?;
        let v = Verdict { status: r.n()? as u32, class: r.s()?, msg: r.s()?, log: r.n()?, sched: r.n()? };
        let mut st = vec![];
        for _ in 0..STREAMS {
            let mut s = vec![];
            for _ in 0..r.n()? {
                s.push(r.n()? as u32);
            }
            st.push(s);
        }
        if t.bad.as_ref().map_or(true, |b| i < b.0) {
            t.bad = Some((i, v, st));
        }
    }
    Some(())
}
fn explore(p: &Prop, plan: &Plan, known: &[Known]) -> Totals {
    let common = unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(m as *const Common)
    };
    common.first_bad.store(u64::MAX, Ordering::Relaxed);
    let mut pipes = vec![];
    for w in 0..plan.workers {
        let mut fds = [0i32; 2];
        unsafe {
            libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(w, p, plan, common, known, fds[1]);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut t = Totals {
        counters: vec![0; NC],
        probes: vec![0; PROBES.len()],
        edges: vec![0; MAX_EDGES],
        ..Default::default()
    };
    for (pid, fd) in pipes {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} };
        if merge(&mut t, Rd(b, 0)).is_none() {
            t.errors.push(format!("a worker ended early ({:x})", st));
        }
    }
    t.samples.sort();
    t
}

/// Shrinks the recorded choices while the run keeps failing in the same way.
fn minimise(sh: &mut Shared, p: &Prop, start: &Verdict, mut best: Vec<Vec<u32>>) -> (Verdict, Vec<Vec<u32>>, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut verdict = start.clone();
    if start.class == "hang" {
        return (verdict, best, 0);
    }
    let cost = |s: &Vec<Vec<u32>>| -> (u64, u64) {
        let n = s.iter().map(|x| x.iter().filter(|v| **v != 0).count() as u64).sum::<u64>();
        let l = s.iter().map(|x| x.len() as u64).sum::<u64>();
        (n + l, s.iter().flatten().map(|v| *v as u64).sum())
    };
    let limit = |tries: u64, t0: Instant| tries > 6000 || t0.elapsed() > Duration::from_secs(40);
    let mut attempt = |cand: Vec<Vec<u32>>, best: &mut Vec<Vec<u32>>, verdict: &mut Verdict, tries: &mut u64| -> bool {
        *tries += 1;
        let v = execute(sh, p, 0, Some(cand), None);
        if v.status == ST_VIOLATION && v.class == start.class {
            // What the run consumed, without the zeros a replay adds by itself.
            let mut s = sh.streams();
            for x in s.iter_mut() {
                while x.last() == Some(&0) {
                    x.pop();
                }
            }
            if cost(&s) < cost(best) {
                *best = s;
                *verdict = v;
                return true;
            }
        }
        false
    };
    loop {
        let before = cost(&best);
        for i in [SCHED, FAULT, GEN] {
            // Cut the tail.
            let mut keep = 0;
            while keep < best[i].len() && !limit(tries, t0) {
                let mut c = best.clone();
                c[i].truncate(keep);
                if attempt(c, &mut best, &mut verdict, &mut tries) {
                    break;
                }
                keep = keep * 2 + 1;
            }
            // Zero and delete chunks.
            for delete in [false, true] {
                let mut size = best[i].len().max(1);
                while size > 0 && !limit(tries, t0) {
                    let mut at = 0;
                    while at < best[i].len() && !limit(tries, t0) {
                        let end = (at + size).min(best[i].len());
                        let mut c = best.clone();
                        let changed = if delete {
                            c[i].drain(at..end);
                            true
                        } else {
                            let any = c[i][at..end].iter().any(|v| *v != 0);
                            c[i][at..end].iter_mut().for_each(|v| *v = 0);
                            any
                        };
                        if !(changed && attempt(c, &mut best, &mut verdict, &mut tries) && delete) {
                            at += size;
                        }
                    }
                    size /= 2;
                }
            }
            // Lower single values.
            let mut at = 0;
            while at < best[i].len() && !limit(tries, t0) {
                let (mut lo, mut hi) = (0, best[i][at]);
                while lo < hi && !limit(tries, t0) {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    c[i][at] = mid;
                    if attempt(c, &mut best, &mut verdict, &mut tries) {
                        hi = best[i].get(at).copied().unwrap_or(0).min(mid);
                    } else {
                        lo = mid + 1;
                    }
                    if at >= best[i].len() {
                        break;
                    }
                }
                at += 1;
            }
        }
        if cost(&best) >= before || limit(tries, t0) {
            return (verdict, best, tries);
        }
    }
}

fn join(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn trace(sh: &mut Shared, p: &Prop, streams: &[Vec<u32>]) -> (Verdict, String) {
    let mut fds = [0i32; 2];
    unsafe {
        let name = b"dst-trace\0";
        fds[0] = libc::memfd_create(name.as_ptr() as *const _, libc::MFD_CLOEXEC);
        let v = execute(sh, p, 0, Some(streams.to_vec()), Some(fds[0]));
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut text = String::new();
        use std::io::Seek;
        let _ = f.seek(std::io::SeekFrom::Start(0));
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        text.push_str(&String::from_utf8_lossy(&b));
        (v, text)
    }
}
fn write_replay(path: &str, p: &Prop, seed: u64, idx: u64, v: &Verdict, s: &[Vec<u32>], text: &str, note: &str) {
    let mut o = String::new();
    let _ = writeln!(o, "# Replay of a simulated execution. Run: /verif/check.sh replay {}", path);
    let _ = writeln!(o, "# {}", note);
    let _ = writeln!(o, "property {}\nseed {}\nrun {}\nclass {}\nmessage {}\nlog {:016x}", p.id, seed, idx, v.class, one_line(&v.msg), v.log);
    let _ = writeln!(o, "constants {}", dict().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    for i in 0..STREAMS {
        let _ = writeln!(o, "{} {}", STREAM_NAMES[i], join(&s[i]));
    }
    let _ = writeln!(o, "--- schedule and fault trace");
    o.push_str(text);
    let _ = std::fs::create_dir_all(format!("{}/replays", root()));
    if std::fs::write(path, o).is_err() {
        eprintln!("dst: cannot write {}", path);
    }
}
struct Replay {
    prop: String,
    class: String,
    log: u64,
    streams: Vec<Vec<u32>>,
}
fn read_replay(path: &str) -> Option<Replay> {
    let text = std::fs::read_to_string(path).ok()?;
    let mut r = Replay { prop: String::new(), class: String::new(), log: 0, streams: vec![vec![]; STREAMS] };
    for l in text.lines() {
        if l.starts_with("---") {
            break;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.prop = v.into(),
            "class" => r.class = v.into(),
            "constants" => *dict() = v.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
            "log" => r.log = u64::from_str_radix(v, 16).ok()?,
            _ => {
                if let Some(i) = STREAM_NAMES.iter().position(|n| *n == k) {
                    r.streams[i] = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                }
            }
        }
    }
    Some(r)
}
fn find(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) if p.id == "C20" && !crate::refdec::LE => {
            eprintln!("dst: C20 needs the little-endian build");
            std::process::exit(2);
        }
        Some(p) => p,
        None => {
            eprintln!("dst: unknown property {}", id);
            std::process::exit(2);
        }
    }
}
fn replay(path: &str, silent: bool) -> i32 {
    let r = match read_replay(path) {
        Some(r) => r,
        None => {
            eprintln!("dst: cannot read {}", path);
            return 2;
        }
    };
    let p = find(&r.prop);
    let sh = Shared::map();
    let (v, text) = trace(sh, p, &r.streams);
    if !silent {
        print!("{}", text);
    }
    let exact = v.status == ST_VIOLATION && v.class == r.class && v.log == r.log;
    if !silent {
        if exact {
            println!("reproduced exactly: {}: {}", v.class, v.msg);
        } else if v.status == ST_VIOLATION {
            println!("another execution violates the property: {}: {}", v.class, v.msg);
        } else {
            println!("not reproduced (status {} {} {})", v.status, v.class, v.msg);
        }
    }
    match v.status {
        ST_VIOLATION => {
            if !silent {
                println!("VIOLATION property={} replay={}", p.id, path);
            }
            if silent && !exact {
                3
            } else {
                1
            }
        }
        ST_OK => 0,
        _ => 2,
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn evidence(p: &Prop, tier: &str, plan: &Plan, t: &Totals, wall: f64, violations: u64, notes: &[String]) {
    let mut faults = BTreeMap::new();
    let mut calls = BTreeMap::new();
    let mut other = BTreeMap::new();
    for (i, n) in COUNTER_NAMES.iter().take(NC).enumerate() {
        let v = t.counters[i];
        if let Some(f) = n.strip_prefix("fault_") {
            faults.insert(f.to_string(), v);
        } else if let Some(f) = n.strip_prefix("call_") {
            calls.insert(f.to_string(), v);
        } else {
            other.insert(n.to_string(), v);
        }
    }
    let map = |m: &BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "))
    };
    let probes: Vec<String> = p
        .probes
        .iter()
        .map(|n| format!("{}: {}", js(n), t.probes[PROBES.iter().position(|x| x == n).unwrap_or(0)]))
        .collect();
    let samples: Vec<String> =
        t.samples.iter().take(6).map(|(i, s)| format!("{{\"seed\": {}, \"run\": {}, \"case\": {}}}", plan.seed, i, js(s))).collect();
    let edges = t.edges.iter().filter(|e| **e != 0).count();
    let per_hour = if wall > 0.0 { (t.runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let rule = format!(
        "{}; distinct: the complete event log (every call, fault, hand-over and result, in order) hashes differently",
        p.rule
    );
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        js(p.id),
        js(tier),
        plan.seed
    );
    let _ = writeln!(o, "  \"evaluations\": {},", t.runs);
    let _ = writeln!(o, "  \"distinct_nontrivial\": {},", t.distinct.len());
    let _ = writeln!(o, "  \"rule\": {},", js(&rule));
    let _ = writeln!(o, "  \"samples\": [{}],", samples.join(", "));
    let _ = writeln!(o, "  \"nontrivial_runs\": {},", t.nontrivial);
    let _ = writeln!(o, "  \"run_indices\": {},", js(&format!("{}..{} derived from VERIF_SEED={}", plan.from, plan.from + plan.runs, plan.seed)));
    let _ = writeln!(o, "  \"stopped_by_time\": {},", t.truncated);
    let _ = writeln!(o, "  \"simulated_runs_per_hour\": {},", per_hour);
    let _ = writeln!(o, "  \"simulated_seconds\": {:.3},", t.counters[C::sim_ns as usize] as f64 / 1e9);
    let _ = writeln!(o, "  \"distinct_interleavings\": {},", t.interleavings.len());
    let _ = writeln!(
        o,
        "  \"interleaving_measure\": \"hash of the sequence of (thread, intercepted call kind) and hand-overs of a run\","
    );
    let _ = writeln!(o, "  \"instrumented_blocks_reached\": {},", edges);
    let _ = writeln!(o, "  \"instrumented_blocks_total\": {},", crate::os::guards());
    let _ = writeln!(o, "  \"constants_of_the_code_in_use\": {},", dict().len());
    let _ = writeln!(o, "  \"faults_injected\": {},", map(&faults));
    let _ = writeln!(o, "  \"intercepted_calls\": {},", map(&calls));
    let _ = writeln!(o, "  \"counters\": {},", map(&other));
    let _ = writeln!(o, "  \"situations_reached_in_runs\": {{{}}},", probes.join(", "));
    let _ = writeln!(o, "  \"determinism_rechecked_runs\": {},", t.rechecked);
    let _ = writeln!(o, "  \"known_finding_runs\": {},", t.known);
    let _ = writeln!(o, "  \"choice_recordings_overflowed\": {},", t.overflow);
    let _ = writeln!(o, "  \"hooks_compiled\": {},", sut::HOOKS);
    let _ = writeln!(
        o,
        "  \"real_code\": [\"lcms2 (all of it, compiled from /repo)\", \"Rust std: fs, io, sync, time, fmt\", \"once_cell\", \"chrono\"],"
    );
    let _ = writeln!(
        o,
        "  \"stubs\": [\"file system, descriptors and page cache (simulated disk)\", \"clocks and zone file\", \"futex (lock waits and wake-ups)\", \"thread scheduling\", \"getrandom\", \"user-supplied streams of C11\"],"
    );
    let _ = writeln!(o, "  \"notes\": [{}]", notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, " }},");
    let _ = writeln!(
        o,
        " \"assumptions\": [\"the simulated system calls behave like Linux within what the checks rely on (DESIGN.md)\", \"one simulated thread runs at a time: sequentially consistent interleavings at instrumented accesses\"],"
    );
    let _ = writeln!(o, " \"wall_s\": {:.2},\n \"violations\": {}\n}}", wall, violations);
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, p.id), o) {
        eprintln!("dst: cannot write evidence: {}", e);
        std::process::exit(2);
    }
}
fn env_u64(n: &str) -> Option<u64> {
    std::env::var(n).ok().and_then(|v| v.trim().parse().ok())
}
fn check(id: &str) -> i32 {
    let p = find(id);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed = env_u64("VERIF_SEED").unwrap_or(1);
    let runs = env_u64("DST_RUNS").unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let cap = env_u64("DST_CAP_S").unwrap_or(if tier == "thorough" { 7200 } else { 240 });
    let workers = env_u64("DST_WORKERS")
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16));
    let plan = Plan {
        seed,
        from: env_u64("DST_FROM").unwrap_or(0),
        runs,
        workers,
        recheck: env_u64("DST_RECHECK").unwrap_or(50),
        cap: Duration::from_secs(cap),
    };
    let known = known_findings(p.id);
    let t0 = Instant::now();
    collect_constants(p, seed);
    let t = explore(p, &plan, &known);
    let wall = t0.elapsed().as_secs_f64();
    let mut notes = vec![];
    for n in p.probes {
        if t.probes[PROBES.iter().position(|x| x == n).unwrap_or(0)] == 0 {
            notes.push(format!("situation not reached: {}", n));
        }
    }
    println!(
        "{}: {} runs ({} non-trivial, {} distinct, {} interleavings), {:.1} s, {} rechecked",
        p.id,
        t.runs,
        t.nontrivial,
        t.distinct.len(),
        t.interleavings.len(),
        wall,
        t.rechecked
    );
    for n in &notes {
        println!("{}: {}", p.id, n);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.line);
    }
    if let Some((idx, v, streams)) = &t.bad {
        let sh = Shared::map();
        let again = execute(sh, p, 0, Some(streams.clone()), None);
        let (mv, ms, tries) = if again.status == ST_VIOLATION && again.class == v.class {
            minimise(sh, p, v, streams.clone())
        } else {
            (v.clone(), streams.clone(), 0)
        };
        let (tv, text) = trace(sh, p, &ms);
        let path = format!("{}/replays/{}-s{}-r{}.replay", root(), p.id, seed, idx);
        let mut fin = mv.clone();
        fin.log = tv.log;
        let old: usize = streams.iter().map(|s| s.len()).sum();
        let new: usize = ms.iter().map(|s| s.len()).sum();
        let note = format!("minimised from {} to {} recorded choices in {} attempts", old, new, tries);
        write_replay(&path, p, seed, *idx, &fin, &ms, &text, &note);
        let exact = std::env::current_exe()
            .ok()
            .and_then(|e| std::process::Command::new(e).arg("replay-quiet").arg(&path).status().ok())
            .and_then(|s| s.code());
        println!("{}: run {}: {}: {}", p.id, idx, mv.class, mv.msg);
        println!("{}: {}; fresh-process replay {}", p.id, note, if exact == Some(1) { "reproduces it exactly" } else { "DIFFERS" });
        evidence(p, tier, &plan, &t, wall, 1, &[notes, vec![format!("violation {} in run {}", mv.class, idx)]].concat());
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    evidence(p, tier, &plan, &t, wall, 0, &notes);
    if !t.errors.is_empty() {
        for e in &t.errors {
            eprintln!("dst: harness error: {}", e);
        }
        return 2;
    }
    0
}
/// Verbose trace of one seeded run.
fn show(id: &str, idx: u64) -> i32 {
    let p = find(id);
    let sh = Shared::map();
    collect_constants(p, env_u64("VERIF_SEED").unwrap_or(1));
    println!("constants {:?}", dict());
    let seed = run_seed(env_u64("VERIF_SEED").unwrap_or(1), p.id, idx);
    let v = execute(sh, p, seed, None, Some(1));
    println!("status {} {} {} log {:016x} choices {:?}", v.status, v.class, v.msg, v.log, sh.len);
    println!("case: {}", sh.summary_str());
    (v.status != ST_OK) as i32
}
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => check(arg(2)),
        "replay" => replay(arg(2), false),
        "replay-quiet" => replay(arg(2), true),
        "show" => show(arg(2), arg(3).parse().unwrap_or(0)),
        "list" => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check|show|replay ...");
            2
        }
    };
    std::process::exit(code);
}
