//! Properties about what reaches the disk: C08, C09.
use crate::choice::*;
use crate::disk::*;
use super::opens::some;
use crate::engine::*;
use crate::refdec::*;
use crate::shared::*;
use crate::sim::*;
use lcms2::types::Profile;
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------------------------
// C08

#[derive(Clone, PartialEq)]
struct Snap {
    names: BTreeMap<String, usize>,
    content: BTreeMap<String, Vec<u8>>,
    changes: BTreeMap<String, u64>,
    dirs: Vec<String>,
    links: BTreeMap<String, String>,
    /// What the paths in use lead to.
    leads: BTreeMap<String, String>,
}
impl Snap {
    fn real(&self, path: &str) -> String {
        self.leads.get(path).cloned().unwrap_or_else(|| path.to_string())
    }
}
fn snap(prefix: &str) -> Snap {
    let d = &sim().disk;
    let mut s = Snap {
        names: BTreeMap::new(),
        content: BTreeMap::new(),
        changes: BTreeMap::new(),
        dirs: vec![],
        links: d.links.iter().filter(|x| x.0.starts_with(prefix)).map(|x| (x.0.clone(), x.1.clone())).collect(),
        leads: BTreeMap::new(),
    };
    for t in threads().iter() {
        for o in &t.ops {
            if let POp::Open { path, .. } = o {
                if let Ok(r) = d.resolve(path, true) {
                    s.leads.insert(path.clone(), r);
                }
            }
        }
    }
    for (p, i) in d.names.iter().filter(|x| x.0.starts_with(prefix)) {
        s.names.insert(p.clone(), *i);
        s.content.insert(p.clone(), d.inodes[*i].img.full());
        s.changes.insert(p.clone(), d.inodes[*i].fd_changes);
    }
    s.dirs = d.dirs.iter().filter(|p| p.starts_with(prefix)).cloned().collect();
    s
}
fn snap_diff(a: &Snap, b: &Snap) -> Vec<(String, String)> {
    let mut v = vec![];
    for p in a.names.keys() {
        if !b.names.contains_key(p) {
            v.push((p.clone(), "was removed".into()));
        } else if a.content[p] != b.content[p] {
            v.push((p.clone(), format!("changed from {} to {} bytes", a.content[p].len(), b.content[p].len())));
        }
    }
    for p in b.names.keys() {
        if !a.names.contains_key(p) {
            v.push((p.clone(), "was created".into()));
        }
    }
    for (p, t) in &a.links {
        if b.links.get(p) != Some(t) {
            v.push((p.clone(), "is no longer that link".into()));
        }
    }
    for p in b.links.keys() {
        if !a.links.contains_key(p) {
            v.push((p.clone(), "link was created".into()));
        }
    }
    for p in &b.dirs {
        if !a.dirs.contains(p) {
            v.push((p.clone(), "directory was created".into()));
        }
    }
    v
}
static mut SNAPS: Vec<Vec<(Snap, Snap)>> = vec![];
#[allow(static_mut_refs)]
fn snaps() -> &'static mut Vec<Vec<(Snap, Snap)>> {
    unsafe { &mut SNAPS }
}
fn c08_look(i: usize, k: usize, p: &Profile) -> Option<String> {
    let POp::Open { path, write, .. } = &threads()[i].ops[k] else { return None };
    if !*write {
        return want_look(i, k, p);
    }
    if sut::tag_count(p) != 0 {
        return Some(format!("a write-mode profile with {} tags", sut::tag_count(p)));
    }
    match field(p, "is_write") {
        Some(v) if v != "true" => return Some(format!("is_write is {} after opening for writing", v)),
        Some(_) => count(C::cmp_fields, 1),
        None => count(C::cmp_missing, 1),
    }
    if !quiet(|| sut::has_io(p)) {
        return Some("a write-mode profile without a stream".into());
    }
    let want = sim().disk.lookup(path);
    let ok = me().op.opened.iter().any(|fd| sim().disk.ofd(*fd).map_or(false, |o| o.write && want == Some(o.ino)));
    if !ok {
        return Some("the write-mode profile holds no writable descriptor on its file".into());
    }
    None
}
/// Several creations of the same files at once, while others remove or replace them: each succeeds, for the file can be
/// created at every instant.
fn c08_race(g: &Gen) {
    let nt = 1 + g.u(3) as usize;
    if nt > 1 {
        preemption(g);
    }
    if g.p(1, 4) {
        benign_faults(g);
    }
    {
        let s = sim();
        s.disk.dirs.insert("/sim/o".into());
        let seq = s.seq;
        s.disk.link(seq, "/sim/o/lx.icc", "x.icc");
        s.disk.link(seq, "/sim/o/ln.icc", "/sim/o/n.icc");
    }
    let b = small(g, 7);
    let x = put_file("/sim/o/x.icc", &b);
    for p in ["/sim/o/a.icc", "/sim/o/x.icc.tmp", "/sim/o/x"] {
        put_file(p, &b);
    }
    let mut disturbed = false;
    for t in 0..nt {
        let mut ops = vec![];
        for k in 0..some(g, 3) {
            let path = *g.pick(&["/sim/o/x.icc", "/sim/o/n.icc", "/sim/o/lx.icc", "/sim/o/ln.icc", "/sim/o/n2.icc"]);
            if nt == 1 || g.p(1, 3) {
                disturbed = true;
                let p = g.pick(&["/sim/o/x.icc", "/sim/o/n.icc", "/sim/o/n2.icc"]).to_string();
                let act = if g.p(2, 3) { Act::Remove(p) } else { Act::Replace(p, Image::new(b.clone())) };
                sim().planned.push(Planned { tid: t, op: k, sys: None, nth: g.u(4), act, fired: false });
            }
            let c = if g.p(1, 3) { Cx::Global } else { Cx::Own(0) };
            ops.push((open_op(c, path, true, g.p(1, 4)), None));
        }
        add_thread(ops, 1);
    }
    summary(&format!("creations at once: {:?}, {:?}", threads().iter().map(|t| &t.ops).collect::<Vec<_>>(), sim().planned.len()));
    fn look(_: usize, _: usize, p: &Profile) -> Option<String> {
        if sut::tag_count(p) != 0 {
            return Some(format!("a write-mode profile with {} tags", sut::tag_count(p)));
        }
        match field(p, "is_write") {
            Some(v) if v != "true" => return Some(format!("is_write is {} after opening for writing", v)),
            _ => {}
        }
        let ok = me().op.opened.iter().any(|fd| sim().disk.ofd(*fd).map_or(false, |o| o.write));
        (!ok).then(|| "the write-mode profile holds no writable descriptor".into())
    }
    expect_done(run_threads(0, Some(look)));
    probe("created_at_once");
    let mut created = vec![];
    for i in 0..nt {
        for (k, d) in threads()[i].done.iter().enumerate() {
            let POp::Open { path, .. } = &d.op else { continue };
            let who = format!("thread {} operation {} ({:?}: {})", i, k, d.op, d.res.text());
            match &d.res {
                R::Panicked(m) => violate("panic", &format!("{}: {}", who, m)),
                R::Refused(..) => violate("wrong-refusal", &format!("{}: the file could be created at any time; {:?}", who, d.rec.hard)),
                _ => {}
            }
            if let Some(t) = &d.look {
                violate("write-profile", &format!("{}: {}", who, t));
            }
            created.push(match &path[..] {
                "/sim/o/lx.icc" => "/sim/o/x.icc".to_string(),
                "/sim/o/ln.icc" => "/sim/o/n.icc".to_string(),
                p => p.to_string(),
            });
        }
    }
    let s = sim();
    for p in ["/sim/o/a.icc", "/sim/o/x.icc.tmp", "/sim/o/x"] {
        if s.disk.lookup(p).map_or(true, |i| s.disk.inodes[i].img.full() != b) {
            violate("other-file-changed", &format!("{} is not as it was", p));
        }
    }
    let known = ["/sim/o/a.icc", "/sim/o/x.icc.tmp", "/sim/o/x", "/sim/o/x.icc", "/sim/o/n.icc", "/sim/o/n2.icc"];
    for p in s.disk.names.keys() {
        if p.starts_with("/sim/") && (!known.contains(&&p[..]) || p.contains("/n") && !disturbed && !created.contains(p)) {
            violate("other-file-changed", &format!("{} was created", p));
        }
    }
    if s.disk.links.len() != 2 {
        violate("other-file-changed", "the links are not what they were");
    }
    if !disturbed {
        for p in &created {
            match s.disk.lookup(p) {
                None => violate("not-created", p),
                Some(i) if s.disk.inodes[i].img.size != 0 => violate("not-emptied", p),
                Some(i) if p == "/sim/o/x.icc" && i != x => violate("replaced-file", p),
                _ => {}
            }
        }
    }
    case(0, true);
}
/// A creation that is refused, while somebody else puts a file of that name there.
fn c08_refused(g: &Gen) {
    sim().disk.dirs.insert("/sim/o".into());
    let b = small(g, 7);
    let path = *g.pick(&["/sim/o/n.icc", "/sim/o/x.icc", "/sim/n.icc", "n.icc"]);
    let real = if path.starts_with('/') { path.to_string() } else { format!("/sim/{}", path) };
    let old = path.ends_with("x.icc").then(|| put_file(path, &b));
    let mut new = small(g, 8);
    new.push(1);
    let e = errno(g, &[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EMFILE, libc::ENOMEM, libc::EDQUOT, libc::ETXTBSY]);
    let put = Act::Replace(real.clone(), Image::new(new.clone()));
    let mut plan = |sys, nth, act| sim().planned.push(Planned { tid: 0, op: 0, sys, nth, act, fired: false });
    if g.p(1, 4) {
        plan(Some(K::Stat), g.u(2), Act::Err(errno(g, &[libc::EIO, libc::EACCES, libc::ENOMEM])));
    }
    for n in 0..1 + g.u(2) {
        plan(Some(K::Open), n, Act::Err(e));
    }
    plan(if g.p(1, 2) { None } else { Some(*g.pick(&[K::Stat, K::Other, K::Open])) }, g.u(4), put);
    let c = if g.p(1, 3) { Cx::Global } else { Cx::Own(0) };
    add_thread(vec![(open_op(c, path, true, false), None)], 1);
    summary(&format!("refused creation of {}, which somebody puts there: {:?}", path, sim().planned));
    expect_done(run_threads(0, None));
    let d = &threads()[0].done[0];
    let who = format!("open for writing of {} ({}), refused with {:?}", path, d.res.text(), d.rec.hard);
    match &d.res {
        R::Panicked(m) => violate("panic", &format!("{}: {}", who, m)),
        R::Refused(kind, ..) if !d.rec.hard.iter().any(|h| kind_of(h.1) == *kind) => violate("error-kind", &who),
        R::Refused(..) => {}
        _ if d.rec.hard.iter().any(|h| h.0 == K::Open) => violate("error-swallowed", &who),
        _ => return case(0, false),
    }
    let s = sim();
    let put = s.planned.iter().any(|p| p.fired && matches!(p.act, Act::Replace(..)));
    let want = if put { Some(&new) } else { old.map(|_| &b) };
    let is = s.disk.lookup(&real).map(|i| s.disk.inodes[i].img.full());
    if is.as_ref() != want {
        violate("failed-open-changes-disk", &format!("{}; {:?} bytes are there instead of {:?}", who, is.map(|c| c.len()), want.map(|c| c.len())));
    }
    if put {
        probe("refused_while_created");
    }
    case(0, put);
}
pub fn c08(g: &Gen) {
    if g.p(1, 15) {
        return c08_refused(g);
    }
    if g.p(1, 10) {
        return c08_race(g);
    }
    let nt = if g.p(1, 4) { 2 } else { 1 };
    if nt > 1 {
        preemption(g);
    }
    if g.p(1, 4) {
        benign_faults(g);
    }
    for t in 0..nt {
        let d = format!("/sim/d{}", t);
        sim().disk.dirs.insert(d.clone());
        sim().disk.dirs.insert(format!("{}/ro", d));
        sim().disk.dirs.insert(format!("{}/sub", d));
        sim().disk.ro_dirs.insert(format!("{}/ro", d));
        // Directory entry, readable, writable, exists
        let mut files: Vec<(String, Option<Want>)> = vec![];
        for (f, r, w) in [("a.icc", true, true), ("b.icc", true, true), ("r.icc", true, false), ("w.icc", false, true), ("ro/x.icc", true, true), ("a.icc.tmp", true, true), ("a", true, true), ("A.icc", true, true), ("a.icc~", true, true), ("w\u{e9} x.icc", true, true)] {
            let path = format!("{}/{}", d, f);
            let mut b = small(g, 10 * t as u32 + files.len() as u32);
            if g.p(1, 5) {
                damage(g, &mut b);
            }
            let i = put_file(&path, &b);
            sim().disk.inodes[i].readable = r;
            sim().disk.inodes[i].writable = w;
            files.push((path, Some(decode(&b, b.len() as u64))));
        }
        for f in ["n1.icc", "n2.icc", "ro/n.icc", "no/n.icc", "sub", "a.icc/n.icc", "sub/n.icc"] {
            files.push((format!("{}/{}", d, f), None));
        }
        if g.p(1, 3) {
            // Links: to files, to missing files, to directories, to themselves, and a directory by another name.
            let s = sim();
            let seq = s.seq;
            for (l, t) in [("la.icc", "a.icc"), ("lr.icc", "r.icc"), ("ln.icc", "n3.icc"), ("lsub", "sub"), ("loop.icc", "loop.icc"), ("lno.icc", "no/q.icc")] {
                s.disk.link(seq, &format!("{}/{}", d, l), t);
            }
            let abs = format!("{}/b.icc", d);
            s.disk.link(seq, &format!("{}/lb.icc", d), &abs);
            let h = s.disk.lookup(&abs).unwrap();
            s.disk.names.insert(format!("{}/hb.icc", d), h);
            for l in ["la.icc", "lr.icc", "ln.icc", "lsub", "loop.icc", "lno.icc", "lb.icc", "hb.icc", "lsub/n4.icc", "lsub/../a.icc", "./b.icc", "/b.icc", "a.icc/"] {
                files.push((format!("{}/{}", d, l), None));
            }
            files.push((format!("{}/n5.icc", &d["/sim/".len()..]), None));
            probe("path_alias");
        }
        let n = 2 + super::streams::many(g, 7).min(60);
        let mut ops = vec![];
        for k in 0..n {
            let f = g.pick(&files).clone();
            let write = g.p(1, 2);
            if g.p(1, 4) {
                let e = errno(g, &[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EMFILE, libc::ENOMEM, libc::EDQUOT, libc::ETXTBSY]);
                sim().planned.push(Planned { tid: t, op: k, sys: Some(K::Open), nth: g.u(2), act: Act::Err(e), fired: false });
                if write && g.p(1, 6) {
                    let e = errno(g, &[libc::EIO, libc::EACCES, libc::ENOMEM]);
                    sim().planned.push(Planned { tid: t, op: k, sys: Some(K::Stat), nth: g.u(2), act: Act::Err(e), fired: false });
                }
            } else if !write && g.p(1, 4) {
                plan_hard(g, t, k, 3);
            }
            let c = if g.p(1, 3) { Cx::Global } else { Cx::Own(0) };
            ops.push((open_op(c, &f.0, write, g.p(1, 4)), f.1));
        }
        add_thread(ops, 1);
        snaps().push(vec![]);
    }
    match g.w(&[6, 1, 1]) {
        0 => {}
        1 => sim().disk.capacity = Some(0),
        _ => sim().disk.capacity = Some(sim().disk.used() + g.u(500) as u64),
    }
    if g.p(2, 3) {
        bystander(if g.p(1, 2) { b"somebody else's".to_vec() } else { small(g, 99) });
    }
    summary(&format!("{:?}, capacity {:?}", threads().iter().map(|t| &t.ops).collect::<Vec<_>>(), sim().disk.capacity));
    let bodies = (0..nt)
        .map(|i| {
            let b: Box<dyn FnOnce() + Send> = Box::new(move || {
                for k in 0..threads()[i].ops.len() {
                    let d = format!("/sim/d{}", i);
                    let before = {
                        let _rt = Rt::enter();
                        plant_asked(&d);
                        snap(if threads().len() == 1 { "/sim" } else { &d })
                    };
                    // What a read finds depends on the writes before it.
                    {
                        let _rt = Rt::enter();
                        if let POp::Open { path, write: false, .. } = &threads()[i].ops[k] {
                            wants()[i][k] = sim().disk.lookup(path).map(|n| decode_img(&sim().disk.inodes[n].img));
                        }
                    }
                    exec_op(i, k, Some(c08_look));
                    let _rt = Rt::enter();
                    let after = snap(if threads().len() == 1 { "/sim" } else { &d });
                    snaps()[i].push((before, after));
                }
            });
            b
        })
        .collect();
    expect_done(run(bodies));
    let mut nontrivial = false;
    for i in 0..nt {
        for (k, d) in threads()[i].done.iter().enumerate() {
            let POp::Open { path, write, .. } = &d.op else { continue };
            let (before, after) = &snaps()[i][k];
            let path = &before.real(path);
            let who = format!("thread {} operation {} ({:?}: {})", i, k, d.op, d.res.text());
            let changes = snap_diff(before, after);
            // A second name of the file is the file.
            let same_file = |p: &String| p == path || before.names.contains_key(p) && before.names.get(p) == before.names.get(path);
            let touched: Vec<_> = after
                .changes
                .iter()
                .filter(|(p, n)| before.changes.get(*p).map_or(false, |m| m != *n) && before.names.get(*p) == after.names.get(*p))
                .map(|x| x.0.clone())
                .collect();
            if let R::Panicked(m) = &d.res {
                violate("panic", &format!("{}: {}", who, m));
            }
            let ok = !matches!(d.res, R::Refused(..));
            nontrivial |= *write || !ok;
            if !*write {
                if let Some((p, what)) = changes.first() {
                    violate("read-changes-disk", &format!("{}: {} {}", who, p, what));
                }
                if let Some(p) = touched.first() {
                    violate("read-writes", &format!("{}: {} was written to", who, p));
                }
                match &wants()[i][k] {
                    Some(w) => judge(i, k, &w.clone()),
                    None => {
                        if ok && !d.rec.hard.is_empty() {
                            violate("error-swallowed", &format!("{}: {:?}", who, d.rec.hard));
                        }
                        if ok {
                            violate("opened-nothing", &who);
                        }
                        match &d.res {
                            R::Refused(kind, _, t) if !d.rec.hard.iter().any(|h| kind_of(h.1) == *kind) => {
                                violate("error-kind", &format!("{}: storage failed with {:?}, reported {:?} {}", who, d.rec.hard, kind, t))
                            }
                            _ => {}
                        }
                        if sim().disk.dirs.contains(path) {
                            probe("directory_open");
                        }
                    }
                }
                // A readable file needs no write permission.
                if let Some(n) = before.names.get(path) {
                    let nd = &sim().disk.inodes[*n];
                    if nd.readable && !nd.writable && ok {
                        probe("readonly_file_read");
                    }
                    let planned = sim().planned.iter().any(|p| p.fired && p.tid == i && p.op == k as u32);
                    if nd.readable && !planned && d.rec.hard.iter().any(|h| h.1 == libc::EACCES) {
                        violate("needs-write-permission", &who);
                    }
                }
                continue;
            }
            let cannot = d.rec.hard.iter().find(|h| h.0 == K::Open).cloned();
            match (&d.res, cannot) {
                (R::Refused(kind, _, t), Some((_, e))) => {
                    probe("write_open_refused");
                    if kind_of(e) != *kind {
                        violate("error-kind", &format!("{}: creating failed with errno {}, reported {:?} {}", who, e, kind, t));
                    }
                    if let Some((p, what)) = changes.first() {
                        violate("failed-open-changes-disk", &format!("{}: {} {}", who, p, what));
                    }
                }
                (R::Refused(kind, _, t), None) => violate("wrong-refusal", &format!("{}: the file could be created; {:?} {}", who, kind, t)),
                (_, Some((_, e))) => violate("error-swallowed", &format!("{}: creating failed with errno {}", who, e)),
                (_, None) => {
                    probe("write_open_ok");
                    if let Some(t) = &d.look {
                        violate("write-profile", &format!("{}: {}", who, t));
                    }
                    match after.content.get(path) {
                        None => violate("not-created", &who),
                        Some(c) if !c.is_empty() => violate("not-emptied", &format!("{}: {} bytes left", who, c.len())),
                        _ => {}
                    }
                    if before.names.contains_key(path) && before.names.get(path) != after.names.get(path) {
                        violate("replaced-file", &format!("{}: the name leads to another file now", who));
                    }
                    if let Some((p, what)) = changes.iter().find(|c| !same_file(&c.0)) {
                        violate("other-file-changed", &format!("{}: {} {}", who, p, what));
                    }
                }
            }
            if let Some(p) = touched.iter().find(|p| !same_file(p)) {
                violate("other-file-changed", &format!("{}: {} was written to", who, p));
            }
        }
    }
    case(0, nontrivial);
}

// ---------------------------------------------------------------------------------------------------------
// C09

#[derive(Clone, Debug)]
enum W {
    Open(usize),
    Op(usize, sut::SOp),
    Close(usize),
    Drop(usize),
}
/// One write as the model knows it: its stream, range, bytes, and whether it returned success.
#[derive(Clone, Debug)]
struct Wr {
    stream: usize,
    off: u64,
    bytes: Vec<u8>,
    ok: bool,
    acked: bool,
}
struct FileModel {
    path: String,
    initial: Vec<u8>,
    writes: Vec<Wr>,
    in_flight: bool,
    /// The part of the file this model is about, if the file has others.
    part: Option<(usize, usize)>,
}
static mut MODELS: Vec<FileModel> = vec![];
#[allow(static_mut_refs)]
fn models() -> &'static mut Vec<FileModel> {
    unsafe { &mut MODELS }
}
fn wop(g: &Gen, pos_max: u32) -> sut::SOp {
    use sut::SOp::*;
    match g.w(&[4, 4, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => {
            let n = g.len(&[1usize, 4, 12, 16, 40, 100, 300], if sim().cfg.one_byte { 3000 } else { 20_000 });
            Write(g.blob(n))
        }
        1 => Seek(std::io::SeekFrom::Start(g.u(pos_max) as u64)),
        2 => Seek(std::io::SeekFrom::End(-(g.u(20) as i64))),
        3 => WU32(g.u32()),
        4 => WU64(g.u64()),
        5 => {
            let n = g.len(&[3usize, 0, 1, 2, 4, 5, 6, 7], 1500);
            WU16A(g.blob(2 * n).chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect())
        }
        6 => WXYZ(0.5, -1.25, 2.0),
        7 => WU8(g.u(256) as u8),
        8 => Size,
        _ => Read(g.u(8) as usize),
    }
}
/// The bytes an operation writes.
pub fn op_bytes(op: &sut::SOp) -> Option<Vec<u8>> {
    use sut::SOp::*;
    use crate::refdec::stored;
    let fix = |v: f64| stored(super::streams::fixed(v) as u32 as u64, 4);
    Some(match op {
        Write(b) => b.clone(),
        WU8(v) => vec![*v],
        WU16(v) => stored(*v as u64, 2),
        WU16A(v) => v.iter().flat_map(|x| stored(*x as u64, 2)).collect(),
        WU32(v) => stored(*v as u64, 4),
        WF32(v) => stored(*v as u64, 4),
        WU64(v) => stored(*v, 8),
        WS15(v) => fix(*v),
        WXYZ(x, y, z) => [fix(*x), fix(*y), fix(*z)].concat(),
        _ => return None,
    })
}
pub const SYNC_ERRNOS: &[i32] = &[
    libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EIO, libc::EINVAL, libc::EROFS, libc::ENOTSUP, libc::ENOMEM, libc::ESTALE, libc::ETIMEDOUT,
    libc::EAGAIN, libc::EPERM, libc::ENXIO, libc::EBUSY,
];
pub const WRITE_ERRNOS: &[i32] = &[
    libc::EIO, libc::ENOSPC, libc::EFBIG, libc::EDQUOT, libc::EPIPE, libc::EAGAIN, libc::ENOMEM, libc::EINVAL, libc::EPERM, libc::ESTALE,
    libc::ETIMEDOUT, libc::EBUSY, libc::ENXIO, libc::EROFS, libc::ECONNRESET,
];
pub fn c09(g: &Gen) {
    benign_faults(g);
    let nt = match g.w(&[12, 3, 1]) {
        0 => 1,
        1 => 2usize,
        _ => 3 + g.u(*g.pick(&[3, 3, 10])) as usize,
    };
    if nt > 1 {
        preemption(g);
    }
    // Several threads write to one file, each to a part of its own.
    let shared = nt > 1 && g.p(2, 3);
    const PART: usize = 1500;
    if shared {
        probe("shared_file");
        put_file("/sim/shared.bin", &(0..PART * nt).map(|i| 0x80 | (i as u8 & 0x3f)).collect::<Vec<_>>());
    }
    let mut plans = vec![];
    let mut total_ops = 0;
    for t in 0..nt {
        let path = if shared { "/sim/shared.bin".to_string() } else { format!("/sim/f{}.bin", t) };
        let mut initial = vec![];
        if shared {
            initial = (0..PART * nt).map(|i| 0x80 | (i as u8 & 0x3f)).collect();
        } else if g.p(2, 3) {
            let n = *g.pick(&[10usize, 64, 500, 1000]);
            initial = (0..n).map(|i| 0x80 | (i as u8 & 0x3f)).collect();
            put_file(&path, &initial);
        }
        models().push(FileModel { path, initial, writes: vec![], in_flight: false, part: shared.then(|| (t * PART, (t + 1) * PART)) });
        let mut plan = vec![];
        let mut live: Vec<usize> = vec![];
        let mut next = 0;
        for _ in 0..3 + super::streams::many(g, 14) {
            if live.is_empty() || (live.len() < 3 && g.p(1, 8)) {
                plan.push(W::Open(next));
                live.push(next);
                next += 1;
                continue;
            }
            let s = *g.pick(&live);
            match g.w(&[8, 2, 1]) {
                0 if shared => {
                    use sut::SOp::*;
                    plan.push(W::Op(s, Seek(std::io::SeekFrom::Start((t * PART) as u64 + g.u(PART as u32 - 500) as u64))));
                    let n = g.len(&[1usize, 4, 40, 100, 300], 500);
                    plan.push(W::Op(s, match g.u(4) {
                        0 => WU32(g.u32()),
                        1 => WXYZ(0.5, -1.25, 2.0),
                        2 => WU64(g.u64()),
                        _ => Write(g.blob(n)),
                    }));
                }
                0 => plan.push(W::Op(s, wop(g, 600))),
                1 => {
                    live.retain(|x| *x != s);
                    plan.push(W::Close(s));
                }
                _ => {
                    live.retain(|x| *x != s);
                    plan.push(W::Drop(s));
                }
            }
        }
        // Faults at chosen operations.
        for (k, p) in plan.iter().enumerate() {
            let e = |v: &[i32]| errno(g, v);
            match p {
                W::Close(_) if g.p(1, 4) => {
                    let act = Act::Err(e(SYNC_ERRNOS));
                    sim().planned.push(Planned { tid: t, op: k as u32, sys: Some(K::Sync), nth: 0, act, fired: false });
                }
                W::Op(_, o) if op_bytes(o).is_some() && g.p(1, 8) => {
                    let act = Act::Err(e(WRITE_ERRNOS));
                    sim().planned.push(Planned { tid: t, op: k as u32, sys: Some(K::Write), nth: g.u(3), act, fired: false });
                }
                _ => {}
            }
        }
        total_ops += plan.len();
        plans.push(plan);
    }
    if g.p(2, 3) {
        let t = g.u(nt as u32) as usize;
        let op = g.u(plans[t].len() as u32);
        let nth = g.u(3);
        sim().planned.push(Planned { tid: t, op, sys: None, nth, act: Act::Crash { after: g.p(1, 2) }, fired: false });
    }
    if g.p(1, 6) {
        sim().disk.capacity = Some(sim().disk.used() + g.u(800) as u64);
    }
    // Asking the stream where it is, before every operation, would hide what depends on the order of operations.
    let asks = g.p(1, 2);
    summary(&format!("{} operations: {:?}; planned {:?}", total_ops, plans, sim().planned));
    let bodies = plans
        .into_iter()
        .enumerate()
        .map(|(t, plan)| {
            let b: Box<dyn FnOnce() + Send> = Box::new(move || c09_body(t, plan, asks));
            b
        })
        .collect();
    match run(bodies) {
        Outcome::Crashed | Outcome::AllDone => {}
        o => expect_done(o),
    }
    // Power is lost.
    let s = sim();
    let in_kind: Vec<&'static str> = s
        .threads
        .iter()
        .filter(|t| t.op.crashed_in)
        .map(|t| if t.op.calls[K::Sync as usize] > 0 { "crash_in_sync" } else { "crash_in_write" })
        .collect();
    for k in in_kind {
        probe(k);
    }
    let (sh, st) = (&mut s.sh, &mut s.streams[FAULT]);
    let (lost, torn) = s.disk.crash(|n| st.draw(sh, n));
    count(C::fault_lost_write, lost);
    count(C::fault_torn_write, torn);
    log(&format!("power lost: {} changes lost, {} torn", lost, torn));
    let mut wrote = false;
    for m in models().iter() {
        wrote |= !m.writes.is_empty();
        if m.writes.iter().any(|w| w.acked) {
            probe("acked_then_crash");
        }
        if lost > 0 {
            probe("unacked_lost");
        }
        if torn > 0 {
            probe("torn_observed");
        }
        let got = s.disk.names.get(&m.path).map(|i| s.disk.inodes[*i].img.full());
        if let Err(e) = compare(m, got.as_deref()) {
            violate(e.0, &format!("{} after the crash: {}", m.path, e.1));
        }
    }
    case(0, wrote);
}
fn c09_body(t: usize, plan: Vec<W>, asks: bool) {
    let mut fds: BTreeMap<usize, i32> = BTreeMap::new();
    let mut streams: BTreeMap<usize, sut::Stream<'static>> = BTreeMap::new();
    for w in plan {
        let m = &mut models()[t];
        match w {
            W::Open(s) => {
                let f = quiet(|| std::fs::File::options().read(true).write(true).create(true).open(&m.path));
                match f {
                    Ok(f) => {
                        fds.insert(s, std::os::fd::AsRawFd::as_raw_fd(&f));
                        streams.insert(s, sut::Stream::file(f));
                    }
                    Err(_) => {}
                }
                begin_op();
                end_op();
            }
            W::Op(s, op) => {
                let Some(st) = streams.get_mut(&s) else {
                    begin_op();
                    end_op();
                    continue;
                };
                let pos = match sim().disk.ofd(fds[&s]) {
                    Some(o) if !asks => o.pos,
                    _ => quiet(|| st.h().tell().unwrap_or(0)) as u64,
                };
                let bytes = op_bytes(&op);
                if let Some(b) = &bytes {
                    m.writes.push(Wr { stream: s, off: pos, bytes: b.clone(), ok: false, acked: false });
                    m.in_flight = true;
                }
                slog!("T{} {:?}", tid(), op);
                begin_op();
                let r = sut_call(|| sut::exec(st, &op));
                let rec = end_op();
                slog!("T{} -> {:?}", tid(), r.as_ref().map(|r| r.is_ok()));
                let r = match r {
                    Ok(r) => r,
                    Err(p) => violate("panic", &format!("{:?}: {}", op, p)),
                };
                let m = &mut models()[t];
                m.in_flight = false;
                if bytes.is_some() && r.is_ok() {
                    m.writes.last_mut().unwrap().ok = true;
                }
                let _ = rec;
            }
            W::Close(s) => {
                let Some(st) = streams.remove(&s) else {
                    begin_op();
                    end_op();
                    continue;
                };
                begin_op();
                let r = sut_call(|| st.close());
                let rec = end_op();
                slog!("T{} close -> {:?}", tid(), r);
                let m = &mut models()[t];
                match r {
                    Err(p) => violate("panic", &format!("close: {}", p)),
                    Ok(Err(_)) => {
                        if rec.hard.iter().any(|h| h.0 == K::Sync) {
                            probe("sync_error_reported");
                        }
                    }
                    Ok(Ok(())) => {
                        for w in m.writes.iter_mut() {
                            if w.stream == s && w.ok {
                                w.acked = true;
                            }
                        }
                        // What was acknowledged is on stable storage now: nothing pending may be needed for it.
                        let d = &sim().disk;
                        let got = d.names.get(&m.path).map(|i| d.inodes[*i].durable.full());
                        if let Err(e) = compare(m, got.as_deref()) {
                            violate(e.0, &format!("{} right after a successful close: {}", m.path, e.1));
                        }
                    }
                }
            }
            W::Drop(s) => {
                begin_op();
                let st = streams.remove(&s);
                quiet(|| drop(st));
                end_op();
            }
        }
    }
    quiet(|| drop(streams));
}
/// Checks content found on stable storage against the history.
fn compare(m: &FileModel, got: Option<&[u8]>) -> Result<(), (&'static str, String)> {
    let acked_end = m.writes.iter().filter(|w| w.acked && !w.bytes.is_empty()).map(|w| w.off + w.bytes.len() as u64).max().unwrap_or(0);
    let Some(got) = got else {
        return if acked_end > 0 || !m.initial.is_empty() { Err(("file-lost", "the file is gone".into())) } else { Ok(()) };
    };
    if (got.len() as u64) < acked_end {
        return Err(("acknowledged-data-lost", format!("{} bytes, acknowledged were {}", got.len(), acked_end)));
    }
    if got.len() < m.initial.len() {
        return Err(("other-bytes-changed", format!("{} bytes, {} were there before", got.len(), m.initial.len())));
    }
    let end = m.writes.iter().map(|w| w.off + w.bytes.len() as u64).max().unwrap_or(0).max(m.initial.len() as u64);
    if got.len() as u64 > end {
        return Err(("other-bytes-changed", format!("{} bytes, nothing was written beyond {}", got.len(), end)));
    }
    let (lo, hi) = m.part.unwrap_or((0, got.len()));
    for (i, b) in got.iter().enumerate().take(hi).skip(lo) {
        let o = i as u64;
        let mut allowed: Vec<u8> = vec![m.initial.get(i).copied().unwrap_or(0)];
        let mut acked = false;
        for w in &m.writes {
            if o >= w.off && o < w.off + w.bytes.len() as u64 {
                let v = w.bytes[(o - w.off) as usize];
                if w.acked {
                    allowed.clear();
                    acked = true;
                }
                allowed.push(v);
            }
        }
        if !allowed.contains(b) {
            let c = if acked { "acknowledged-data-lost" } else { "other-bytes-changed" };
            return Err((c, format!("byte {} is {:#04x}, allowed are {:x?}", i, b, allowed)));
        }
    }
    Ok(())
}
