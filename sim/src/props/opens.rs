//! Properties of single opens: C01, C02, C03, C14, C15, C16.
use crate::choice::*;
use crate::disk::*;
use crate::engine::*;
use crate::refdec::*;
use crate::shared::*;
use crate::sim::*;
use lcms2::types::Profile;

/// The wall clock at the start of the run, within 1970..2232.
pub fn pick_clock(g: &Gen) -> u64 {
    const S: u64 = 1_000_000_000;
    let nanos = |g: &Gen| match g.w(&[4, 1, 1, 1, 1]) {
        0 => g.u(1_000_000_000) as u64,
        1 => 0,
        2 => 999_999_999,
        3 => 1_000 * g.u(1_000_000) as u64,
        _ => 999_999_000 + g.u(1000) as u64,
    };
    match g.w(&[4, 2, 3, 3]) {
        0 => 1_500_000_000 * S + g.u(1_000_000_000) as u64,
        1 => {
            *g.pick(&[
                5 * S,
                951_782_399 * S + 999_999_999, // before a leap day
                2_147_483_647 * S + 999_999_000,
                4_102_444_799 * S + 999_999_999,
                4_294_967_295 * S + 999_999_500,
                8_000_000_000 * S,
                8_260_000_000 * S,
                1_483_228_799 * S + 999_999_999,
            ])
        }
        2 => (g.u(826_000_000) as u64 * 10 + g.u(10) as u64) * S + nanos(g),
        // A turn of a minute, an hour, a day, a quarter or a (leap) year.
        _ => {
            let at = match g.u(5) {
                0 => g.u(137_000_000) as u64 * 60,
                1 => g.u(2_290_000) as u64 * 3600,
                2 => g.u(95_600) as u64 * 86_400,
                // 1 January, 1 March or 31 December of a drawn year
                3 => {
                    let y = 1970 + g.u(261) as u64;
                    let leaps = |y: u64| (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400;
                    let days = (y - 1970) * 365 + leaps(y) - leaps(1970);
                    (days + *g.pick(&[0, 58, 59, 60, 364, 365])) * 86_400
                }
                _ => 1u64 << (20 + g.u(13)),
            };
            (at + *g.pick(&[0, 59, 1, 3599, 86_399])).max(1) * S + nanos(g)
        }
    }
}
pub fn set_zone(g: &Gen) {
    let z = *g.pick(&[
        "", "UTC0", "XXX-14", "YYY+12", "EST5EDT,M3.2.0,M11.1.0", "AAA-05:45", "BBB+03:30", "CCC-00:00:01",
    ]);
    if !z.is_empty() {
        probe("zone_set");
        log(&format!("time zone {}", z));
        let z = std::ffi::CString::new(z).unwrap();
        unsafe {
            extern "C" {
                fn tzset();
            }
            libc::setenv(c"TZ".as_ptr(), z.as_ptr(), 1);
            tzset();
        }
    } else {
        unsafe { libc::setenv(c"TZ".as_ptr(), c"UTC0".as_ptr(), 1) };
    }
}
/// From a microsecond to years.
pub fn long_time(g: &Gen) -> u64 {
    let d = *g.pick(&[1_000u64, 1_000_000, 1_000_000_000, 10_000_000_000, 100_000_000_000, 4_000_000_000_000, 100_000_000_000_000]);
    d * (1 + g.u(9) as u64)
}
fn cx(g: &Gen) -> Cx {
    if g.p(1, 3) {
        Cx::Global
    } else {
        Cx::Own(0)
    }
}

const NAMES: &[&str] = &[
    "P0.ICC", "x", ".hidden.icc", "with space .icc", "\u{dc}n\u{ef}c\u{f6}de \u{2603}.icc", "p0.icc.tmp", "p0", "-dash.icm", "100%d.icc",
    "quo\"te'.icc", "back\\slash.icc", "new\nline.icc",
    "long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name.icc",
];
/// Usually few, now and then a long history.
pub fn some(g: &Gen, usual: u32) -> u32 {
    if g.p(1, 25) {
        usual + g.u(30)
    } else {
        1 + g.u(usual)
    }
}
/// Usually one thread, now and then a few.
fn crew(g: &Gen) -> usize {
    if g.p(1, 8) {
        preemption(g);
        2 + g.u(2) as usize
    } else {
        1
    }
}
pub fn c01(g: &Gen) {
    set_realtime(pick_clock(g));
    set_zone(g);
    benign_faults(g);
    let nf = 1 + g.u(2);
    let names = Names::new(g);
    if g.p(1, 3) {
        bystander(small(g, 99));
    }
    let (mut files, mut bases) = (vec![], vec![]);
    let mut tagged = false;
    let mut first: Option<Vec<u8>> = None;
    for f in 0..nf {
        let b = match &first {
            Some(b) if g.p(1, 2) => {
                // Almost the same content: what differs must show, in every field and in comparisons.
                let v = variant(g, b);
                match decode(&v, v.len() as u64) {
                    Ok(_) => v,
                    Err(_) => b.clone(),
                }
            }
            _ => intact(g),
        };
        first.get_or_insert_with(|| b.clone());
        let path = if g.p(1, 8) { format!("/sim/{}", g.pick(NAMES)) } else { names.get(g, f as usize) };
        if bases.contains(&path) {
            continue;
        }
        bases.push(path.clone());
        put_file(&path, &b);
        let w = decode(&b, b.len() as u64);
        match &w {
            Ok(p) => tagged |= !p.tags.is_empty(),
            Err(d) => finish(ST_ERROR, "harness-intact", &format!("{:?}", d)),
        }
        let path = if g.p(1, 12) { alias(g, &path) } else { path };
        files.push((path, w));
    }
    let nf = files.len() as u32;
    for tid in 0..crew(g) {
        let n = nf.max(some(g, 3));
        let mut ops = vec![];
        for k in 0..n {
            let f = if k < nf { files[k as usize].clone() } else { g.pick(&files).clone() };
            if g.p(1, 6) {
                let at = g.u(6);
                let t = pick_clock(g);
                sim().planned.push(Planned { tid, op: k, sys: None, nth: at, act: Act::ClockSet(t), fired: false });
            }
            ops.push((open_op(cx(g), &f.0, false, true), Some(f.1)));
        }
        add_thread(ops, 1);
    }
    if sim().cfg.one_byte {
        probe("one_byte_reads");
    }
    let all: Vec<_> = threads().iter().map(|t| &t.ops).collect();
    summary(&format!("{} file(s), opens: {:?}, faults {:?}", nf, all, sim().cfg));
    expect_done(run_threads(0, Some(want_look)));
    judge_all(0);
    // Two opens of one file compare equal, opens of different contents do not.
    let kept: Vec<_> = threads().iter().zip(wants().iter()).flat_map(|(t, w)| t.kept.iter().zip(w.iter())).collect();
    for (i, x) in kept.iter().enumerate() {
        for (j, y) in kept.iter().enumerate() {
            if i.abs_diff(j) > 12 {
                continue;
            }
            let same = x.1 == y.1;
            let eq = match sut_call(|| sut::same(x.0, y.0)) {
                Ok(e) => e,
                Err(m) => violate("panic", &m),
            };
            if same && !eq {
                violate("unequal-opens", "two opens of the same content compare unequal");
            }
            if !same && eq {
                violate("equal-opens", "opens of different contents compare equal");
            }
        }
    }
    case(0, tagged || threads().iter().flat_map(|t| &t.done).any(|d| d.rec.benign > 0));
}

pub fn c02(g: &Gen) {
    benign_faults(g);
    let change_mode = g.p(1, 4);
    let names = Names::new(g);
    if g.p(1, 3) {
        bystander(small(g, 99));
    }
    let mut text = String::new();
    let mut interesting = false;
    for tid in 0..crew(g) {
        let n = some(g, 3);
        let mut ops = vec![];
        // Files that do not change, to be opened again.
        let mut files: Vec<String> = vec![];
        for k in 0..n {
            if !files.is_empty() && g.p(1, 3) {
                let path = g.pick(&files).clone();
                text += &format!("open {} again; ", path);
                ops.push((open_op(cx(g), &path, false, true), None));
                continue;
            }
            let mut b = intact(g);
            let stored = crate::refdec::get32(&b, 128) as usize;
            let times = *g.pick(&[1, 1, 1, 2, 3, 0]);
            for _ in 0..times {
                text += &damage(g, &mut b);
                text += "; ";
            }
            let path = names.get(g, tid * 64 + k as usize);
            let huge = !change_mode && b.len() >= 132 && g.p(1, 8);
            if huge && g.p(3, 4) {
                claims(g, &mut b);
            }
            let ino = put_file(&path, &b);
            if huge {
                enlarge(g, ino);
                probe("huge_file");
            }
            let w = decode_img(&sim().disk.inodes[ino].img);
            note_defects(&w, stored);
            interesting |= w.is_err() || w.as_ref().map_or(false, |p| p.tags.len() < stored);
            if change_mode && g.p(2, 3) {
                let mut recs = vec![];
                for _ in 0..1 + g.u(2) {
                    recs.push(match g.w(&[3, 1, 2]) {
                        0 => {
                            let off = g.u(b.len() as u32 + 1) as u64;
                            Rec::Write(off, g.bytes(1 + *g.pick(&[0usize, 3, 11, 40])))
                        }
                        1 => Rec::Trunc(g.u(b.len() as u32 + 30) as u64),
                        _ => {
                            let other = intact(g);
                            Rec::Write(0, other)
                        }
                    });
                }
                let nth = g.u(8 + stored.min(100) as u32);
                sim().planned.push(Planned { tid, op: k, sys: None, nth, act: Act::Change(path.clone(), recs), fired: false });
            } else {
                files.push(path.clone());
            }
            ops.push((open_op(cx(g), &path, false, true), None));
        }
        add_thread(ops, 1);
    }
    let n: usize = threads().iter().map(|t| t.ops.len()).sum();
    summary(&format!("{} opens on {} threads, damage: {}changes planned: {}", n, threads().len(), text, sim().planned.len()));
    expect_done(run_threads(0, Some(c02_look)));
    // Judge against the bytes the library was given.
    for (i, k) in (0..threads().len()).flat_map(|i| (0..threads()[i].ops.len()).map(move |k| (i, k))) {
        let d = &threads()[i].done[k];
        let ino = d.rec.opened_inode;
        let sizes = match ino {
            Some(i) => sim().disk.inodes[i].sizes.clone(),
            None => vec![0],
        };
        let changed = sim().planned.iter().any(|p| p.fired && p.tid == i && p.op == k as u32);
        if changed {
            probe("changed_in_place_during_open");
            interesting = true;
        }
        let who = format!("thread {} operation {} ({:?})", i, k, d.op);
        if let R::Panicked(m) = &d.res {
            violate("panic", &format!("{}: {}", who, m));
        }
        let p = match &d.res {
            R::Refused(..) => None,
            _ => Some(&threads()[i].kept[kept_index(i, k)]),
        };
        let Some(ino) = ino else { violate("wrong-refusal", &format!("{}: the file was never opened", who)) };
        if !changed {
            // The whole image counts, not only what was read: a refusal may come early.
            let w = decode_img(&sim().disk.inodes[ino].img);
            let opened = p.map(|p| w.as_ref().ok().and_then(|w| diff(p, w)));
            if let Some((c, m)) = judge_read(&who, &d.rec, &d.res, opened.as_ref(), &w) {
                violate(&c, &m);
            }
        } else {
            // The content is what reads delivered, the size any the file had.
            let given = seen(&d.rec);
            let w = decode(&given, u64::MAX);
            match (p, &w) {
                (None, Err(_)) => {}
                // A size asked for before or after the change may be what the bytes were held against.
                (None, Ok(_)) if sizes.iter().any(|sz| decode(&given, *sz).is_err()) => {}
                (None, Ok(_)) if sizes.windows(2).any(|w| w[1] < w[0]) && d.res.text().contains("UnexpectedEof") => {}
                (None, Ok(_)) => violate("wrong-refusal", &format!("{}: {}", who, d.res.text())),
                (Some(_), Err(e)) => violate("accepted-defect", &format!("{}: a profile with {:?} was accepted", who, e)),
                (Some(p), Ok(_)) => {
                    let mut why = None;
                    let ok = sizes.iter().any(|sz| match decode_sized(&given, *sz) {
                        Ok(w) => {
                            why = diff(p, &w);
                            why.is_none()
                        }
                        Err(_) => false,
                    });
                    if !ok {
                        violate("wrong-content", &format!("{}: {}", who, why.unwrap_or_default()));
                    }
                }
            }
        }
        match &d.res {
            R::Refused(..) => count(C::opens_refused, 1),
            _ => count(C::opens_ok, 1),
        }
    }
    case(0, interesting);
}
fn kept_index(i: usize, k: usize) -> usize {
    (0..k).filter(|j| matches!(threads()[i].done[*j].res, R::Unit)).count()
}
/// Like `decode`, with the bytes already known to be complete.
fn decode_sized(b: &[u8], size: u64) -> Result<RefProf, Defects> {
    let mut r = decode(b, u64::MAX)?;
    let limit = size.min(crate::refdec::get32(b, 0) as u64);
    let all = std::mem::take(&mut r.tags);
    for t in all {
        if t.off as u64 + t.size as u64 <= limit {
            let links = r.tags.iter().filter(|x: &&RefTag| x.off == t.off && x.size == t.size).map(|x| x.sig).collect();
            r.tags.push(RefTag { links, ..t });
        }
    }
    Ok(r)
}
fn c02_look(_: usize, _: usize, p: &Profile) -> Option<String> {
    if let Some(t) = beyond(p) {
        violate("accessor", &t);
    }
    None
}

pub fn c03(g: &Gen) {
    benign_faults(g);
    let names = Names::new(g);
    if g.p(1, 3) {
        bystander(small(g, 99));
    }
    for tid in 0..crew(g) {
        let n = some(g, 4);
        let mut ops = vec![];
        let mut files: Vec<(String, Want, usize)> = vec![];
        for k in 0..n {
            if !files.is_empty() && g.p(1, 3) {
                let (path, w, nt) = g.pick(&files).clone();
                if g.p(1, 2) {
                    plan_hard(g, tid, k, nt);
                }
                ops.push((open_op(cx(g), &path, false, false), Some(w)));
                continue;
            }
            let nt = tag_number(g);
            let nt = if g.p(1, 2) { nt.min(6) } else { nt };
            let mut b = intact_n(g, nt);
            if g.p(1, 4) {
                damage(g, &mut b);
            }
            let path = names.get(g, tid * 64 + k as usize);
            let missing = g.p(1, 12);
            if !missing {
                put_file(&path, &b);
            }
            let w = decode(&b, b.len() as u64);
            if !g.p(1, 5) {
                plan_hard(g, tid, k, nt);
                if g.p(1, 6) {
                    plan_hard(g, tid, k, nt);
                }
            }
            files.push((path.clone(), w.clone(), nt));
            ops.push((open_op(cx(g), &path, false, false), Some(w)));
        }
        add_thread(ops, 1);
    }
    let all: Vec<_> = threads().iter().map(|t| &t.ops).collect();
    summary(&format!("opens: {:?}, planned: {:?}", all, sim().planned));
    expect_done(run_threads(0, Some(want_look)));
    judge_all(0);
    case(0, threads().iter().flat_map(|t| &t.done).any(|d| !d.rec.hard.is_empty()));
}

// ---------------------------------------------------------------------------------------------------------

pub fn c14(g: &Gen) {
    set_realtime(pick_clock(g));
    set_zone(g);
    if g.p(1, 2) {
        benign_faults(g);
    }
    let nt = if g.p(1, 6) { 2 + g.u(2) as usize } else { 1 };
    if nt > 1 {
        preemption(g);
    }
    let mut far = false;
    for t in 0..nt {
        c14_thread(g, t, &mut far);
    }
    summary(&format!("clock starts at {} ns, operations: {:?}, planned: {:?}", realtime(), threads().iter().map(|t| &t.ops).collect::<Vec<_>>(), sim().planned));
    if far || realtime() > 4_000_000_000_000_000_000 {
        probe("clock_far");
    }
    expect_done(run_threads(0, Some(c14_look)));
    for d in threads().iter().flat_map(|t| &t.done) {
        if let Some(t) = &d.look {
            violate("creation-time", &format!("{:?}: {}", d.op, t));
        }
        match (&d.op, &d.res) {
            (_, R::Panicked(m)) => violate("panic", &format!("{:?}: {}", d.op, m)),
            (POp::Open { .. }, R::Refused(k, _, t)) => violate("wrong-refusal", &format!("{:?}: {:?} {}", d.op, k, t)),
            _ => {}
        }
    }
    let jumped = sim().planned.iter().any(|p| p.fired);
    if jumped {
        probe("clock_jump_in_call");
    }
    case(0, jumped || sim().sh.probes[PROBES.iter().position(|p| *p == "zone_set").unwrap()] > 0);
}
fn c14_thread(g: &Gen, tid: usize, far: &mut bool) {
    let n = some(g, 4);
    let mut ops = vec![];
    for k in 0..n {
        for _ in 0..*g.pick(&[1, 0, 2]) {
            let at = g.u(5);
            let t = match g.u(4) {
                0 => pick_clock(g),
                1 => realtime().saturating_sub(g.u(4_000_000_000) as u64).max(1),
                2 => realtime() + g.u(4_000_000_000) as u64,
                _ => realtime().saturating_sub(86_400_000_000_000 * g.u(4000) as u64).max(1),
            };
            *far |= t > 4_000_000_000_000_000_000;
            let op = if g.p(1, 8) { 1 << 20 | k } else { k };
            sim().planned.push(Planned { tid, op, sys: None, nth: at, act: Act::ClockSet(t), fired: false });
        }
        match g.w(&[3, 3, 2, 1]) {
            0 => ops.push((POp::New, None)),
            1 => ops.push((open_op(cx(g), &format!("/sim/w{}{}.icc", tid, g.u(2)), true, false), None)),
            2 => {
                let b = small(g, k);
                let path = format!("/sim/r{}_{}.icc", tid, k);
                put_file(&path, &b);
                ops.push((open_op(cx(g), &path, false, false), Some(decode(&b, b.len() as u64))));
            }
            _ => ops.push((POp::Sleep(g.u(1 << 30) as u64 * 1000), None)),
        }
    }
    add_thread(ops, 1);
}
fn c14_look(i: usize, k: usize, p: &Profile) -> Option<String> {
    if let Some(Ok(w)) = &wants()[i][k] {
        return diff(p, w);
    }
    let c = match created_ns(p) {
        None => {
            count(C::cmp_missing, 1);
            return None;
        }
        Some(Err(t)) => return Some(format!("creation time {} cannot be read", t)),
        Some(Ok(c)) => c,
    };
    count(C::cmp_fields, 1);
    // What the clock showed during the call: one interval per setting of the clock.
    let op = &me().op;
    let s = sim();
    let mut shown = vec![];
    for (j, (from, off)) in s.clock_log.iter().enumerate() {
        let to = s.clock_log.get(j + 1).map_or(u64::MAX, |x| x.0);
        let (a, b) = ((*from).max(op.now0), to.min(op.now1));
        if a <= b {
            shown.push((a as i128 + *off as i128, b as i128 + *off as i128));
        }
    }
    // Also accepted: the time cut to whole seconds, milli- or microseconds.
    let ok = shown.iter().any(|(a, b)| {
        [1i128, 1_000, 1_000_000, 1_000_000_000].iter().any(|u| c % u == 0 && a.div_euclid(*u) * u <= c && c <= *b)
    });
    if ok {
        None
    } else {
        Some(format!("creation time {} ns, the clock showed {:?}", c, shown))
    }
}

// ---------------------------------------------------------------------------------------------------------

/// Makes the file claim something large; false: damages it in some other way.
fn claims(g: &Gen, b: &mut Vec<u8>) -> bool {
    match g.u(4) {
        0 => put32(b, 0, *g.pick(&[0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_0000, 0x4000_0000, 0, 1 << 20])),
        1 => put32(b, 128, *g.pick(&[100, 101, 1000, 0xffff, 0x0010_0000, 0x0fff_ffff, 0x7fff_ffff, 0xffff_ffff])),
        2 => {
            let tags = crate::refdec::get32(b, 128).min(100) as usize;
            for i in 0..tags {
                if b.len() >= 144 + 12 * i && g.p(3, 4) {
                    put32(b, 136 + 12 * i, *g.pick(&[132, 0x1000, 0x7fff_0000, 0x8000_0000, 0xf000_0000]));
                    put32(b, 140 + 12 * i, *g.pick(&[0x0fff_ffff, 0x1000_0000, 4, 0, 0x7000_0000, 0x8000_0000]));
                }
            }
        }
        _ => {
            damage(g, b);
            return false;
        }
    }
    true
}
/// Makes the file a large one with nothing behind the data.
fn enlarge(g: &Gen, ino: usize) {
    let big = *g.pick(&[1u64 << 20, 1 << 31, (1 << 31) + 9, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 32) + 3000, 1 << 40, 1 << 62]);
    let nd = &mut sim().disk.inodes[ino];
    nd.img.size = nd.img.size.max(big);
    nd.sizes.push(nd.img.size);
}
pub fn c15(g: &Gen) {
    let slow = g.p(1, 3);
    {
        let c = &mut sim().cfg;
        c.max_eintr = 5000;
        if slow {
            c.one_byte = true;
            c.eintr = *g.pick(&[0, 100, 500]);
            probe("slow_device");
        } else if g.p(1, 3) {
            c.short = 300;
            c.eintr = 100;
        }
    }
    let n = 1 + g.u(2);
    let names = Names::new(g);
    if g.p(1, 3) {
        bystander(small(g, 99));
    }
    let mut ops = vec![];
    let (mut huge, mut claim) = (false, false);
    let mut text = String::new();
    for k in 0..n {
        let mut b = intact(g);
        for _ in 0..g.u(3) {
            if b.len() < 132 {
                break;
            }
            claim |= claims(g, &mut b);
        }
        let path = names.get(g, k as usize);
        let ino = put_file(&path, &b);
        if g.p(1, 2) {
            enlarge(g, ino);
            huge = true;
        }
        let img = &sim().disk.inodes[ino].img;
        text += &format!("size {}; ", img.size);
        let w = decode_img(img);
        ops.push((open_op(cx(g), &path, false, false), Some(w)));
    }
    // The same files over and over: memory must not pile up.
    let again = !slow && g.p(1, 5);
    if again {
        probe("reopened_often");
        while ops.len() < CYCLES * n as usize {
            ops.push(ops[ops.len() - n as usize].clone());
        }
    }
    if huge {
        probe("huge_file");
    }
    if claim {
        probe("huge_claim");
    }
    let nt = if again { 1 } else { crew(g) };
    for _ in 0..nt {
        add_thread(ops.clone(), 1);
    }
    sim().cfg.step_budget = 3_000_000 * nt as u64;
    summary(&format!("{}faults {:?}", text, sim().cfg));
    expect_done(run_threads(0, Some(want_look)));
    judge_all(0);
    for d in threads().iter().flat_map(|t| &t.done) {
        let r = &d.rec;
        let m = format!(
            "{:?}: {} calls, {} bytes read up to offset {}, heap peak {}, {} steps",
            d.op, r.total, r.bytes_read, r.read_end, r.heap_peak, r.steps1 - r.steps0
        );
        let eintr = sim().eintr_count;
        // 132 + 1200 bytes are needed; a page-sized or larger buffer is allowed for.
        let calls = if slow { 70_000 + eintr } else { 1500 + eintr };
        if r.bytes_read > 1 << 16 || r.read_end > 1 << 16 {
            violate("reads-too-much", &m);
        }
        if r.total > calls {
            violate("too-many-calls", &m);
        }
        if r.heap_peak > 256 << 10 {
            violate("too-much-memory", &m);
        }
        if nt == 1 && r.steps1 - r.steps0 > 1_500_000 {
            violate("too-many-steps", &m);
        }
    }
    if again {
        // Allocated and never released by the later half of the cycles.
        let left: i64 = threads()[0].done[CYCLES / 2 * n as usize..]
            .iter()
            .map(|d| d.rec.heap_left + d.drop_rec.as_ref().map_or(0, |r| r.heap_left))
            .sum();
        if left > 32 {
            violate("memory-piles-up", &format!("{} bytes are left after opening {} files {} times more", left, n, CYCLES / 2));
        }
    }
    case(0, huge || claim || slow || again);
}
/// How often C15 repeats the same opens.
const CYCLES: usize = 24;

// ---------------------------------------------------------------------------------------------------------

pub fn c16(g: &Gen) {
    let nt = match g.p(1, 2) {
        true => 1,
        false => super::shared_ctx::crowd(g, 1),
    };
    if nt > 1 || g.p(1, 3) {
        preemption(g);
    }
    if g.p(1, 3) {
        benign_faults(g);
    }
    let np = 1 + g.u(2);
    let names = Names::new(g);
    if g.p(1, 3) {
        bystander(small(g, 99));
    }
    let mut id = 0;
    let mut last: Option<Vec<u8>> = None;
    let mut version = |g: &Gen| {
        id += 1;
        if let Some(b) = &last {
            if g.p(2, 5) {
                let b = variant(g, b);
                last = Some(b.clone());
                return b;
            }
        }
        let mut b = small(g, id);
        if g.p(1, 3) {
            // Versions of different length make a mixture visible.
            let n = 20 + g.u(60) as usize;
            b = intact_n(g, n);
            put32(&mut b, 52, 0x3000_0000 + id);
        }
        if g.p(1, 8) {
            damage(g, &mut b);
        }
        last = Some(b.clone());
        b
    };
    // Each file is opened by one or more paths; replacing it renames over it, removes it, or moves a link.
    struct File {
        paths: Vec<String>,
        real: String,
        link: Option<(String, Vec<String>)>,
    }
    let mut files: Vec<File> = vec![];
    for p in 0..np {
        let path = names.get(g, p as usize);
        if g.p(1, 5) {
            // The usual way to switch whole directories or files: a link to the current one.
            let dirs = g.p(1, 2);
            let n = 2 + g.u(2);
            let mut targets = vec![];
            for v in 0..n {
                let (t, f) = if dirs {
                    sim().disk.dirs.insert(format!("/sim/v{}{}", p, v));
                    (format!("v{}{}", p, v), format!("/sim/v{}{}/p.icc", p, v))
                } else {
                    (format!("v{}{}.icc", p, v), format!("/sim/v{}{}.icc", p, v))
                };
                let b = version(g);
                put_file(&f, &b);
                targets.push(if g.p(1, 3) { format!("/sim/{}", t) } else { t });
            }
            let link = if dirs { format!("/sim/cur{}", p) } else { path.clone() };
            let real = if dirs { format!("{}/p.icc", link) } else { path.clone() };
            let _rt = Rt::enter();
            let s = sim();
            s.disk.watch(&real);
            let seq = s.seq;
            s.disk.link(seq, &link, &targets[0]);
            files.push(File { paths: vec![real.clone()], real, link: Some((link, targets)) });
            continue;
        }
        if !g.p(1, 10) {
            let b = version(g);
            put_file(&path, &b);
        }
        let mut paths = vec![path.clone(), path.clone()];
        if g.p(1, 4) {
            paths.push(alias(g, &path));
        }
        files.push(File { paths, real: path, link: None });
    }
    let long = nt <= 4 && g.p(1, 60);
    for th in 0..nt {
        let t = th;
        let n = if long { 30 + g.u(120) } else { 1 + g.u(5) };
        let mut ops = vec![];
        for k in 0..n {
            if g.p(1, 8) {
                ops.push((POp::Sleep(long_time(g)), None));
                continue;
            }
            let f = &files[g.u(np) as usize];
            let path = g.pick(&f.paths).clone();
            for _ in 0..*g.pick(&[1, 0, 2, 3]) {
                let f = if g.p(5, 6) { f } else { &files[g.u(np) as usize] };
                let act = match &f.link {
                    Some((l, t)) if g.p(4, 5) => Act::Flip(l.clone(), g.pick(t).clone()),
                    _ if g.p(1, 6) => Act::Remove(f.real.clone()),
                    _ => {
                        let b = version(g);
                        Act::Replace(f.real.clone(), Image::new(b))
                    }
                };
                let nth = if g.p(1, 2) { g.u(7) } else { g.u(60) };
                if let (Act::Flip(..), Some((_, t)), true) = (&act, &f.link, g.p(1, 4)) {
                    // The switched-off target goes soon after.
                    let old = g.pick(t).clone();
                    let old = if old.starts_with('/') { old } else { format!("/sim/{}", old) };
                    let old = if old.ends_with(".icc") { old } else { format!("{}/p.icc", old) };
                    let nth = nth + g.u(3);
                    sim().planned.push(Planned { tid: th, op: k, sys: None, nth, act: Act::Remove(old), fired: false });
                }
                // Also between two opens (at the first call of the next operation's clock reading).
                sim().planned.push(Planned { tid: t, op: k, sys: None, nth, act, fired: false });
            }
            let c = match g.w(&[3, 2, 1]) {
                0 => Cx::Global,
                1 => Cx::Own(0),
                _ => Cx::Own(1),
            };
            ops.push((open_op(c, &path, false, g.p(1, 4)), None));
        }
        add_thread(ops, 2);
    }
    summary(&format!("{} thread(s): {:?}", nt, threads().iter().map(|t| &t.ops).collect::<Vec<_>>()));
    expect_done(run_threads(0, Some(c16_look)));
    let mut seen_paths: Vec<(String, u64)> = vec![];
    for (i, t) in threads().iter().enumerate() {
        for (k, d) in t.done.iter().enumerate() {
            let who = format!("thread {} operation {} ({:?}, events {}..{})", i, k, d.op, d.rec.seq0, d.rec.seq1);
            let POp::Open { path, .. } = &d.op else { continue };
            let (versions, missing) = current(path, d.rec.seq0, d.rec.seq1);
            if versions.len() + missing as usize > 1 {
                probe(if missing { "removed_during_open" } else { "replaced_during_open" });
            }
            if seen_paths.iter().any(|(p, e)| p == path && *e < d.rec.seq0) {
                probe("reopened_after_replace");
            }
            seen_paths.push((path.clone(), d.rec.seq1));
            match &d.res {
                R::Panicked(m) => violate("panic", &format!("{}: {}", who, m)),
                R::Refused(kind, code, text) => {
                    let ok = (missing && *kind == std::io::ErrorKind::NotFound && d.rec.hard.iter().any(|h| h.1 == libc::ENOENT))
                        || (d.rec.hard.is_empty() && versions.iter().any(|v| decode_img(&sim().disk.inodes[*v].img).is_err()));
                    if !ok {
                        violate("wrong-refusal", &format!("{}: {:?} {:?} {}", who, kind, code, text));
                    }
                }
                _ => {
                    if let Some(t) = &d.look {
                        violate("no-such-version", &format!("{}: {}", who, t));
                    }
                }
            }
        }
    }
    case(0, sim().planned.iter().any(|p| p.fired));
}
/// The versions of a path current at some moment in a span of events, and whether it was missing at one.
fn current(path: &str, from: u64, to: u64) -> (Vec<usize>, bool) {
    let mut now = None;
    let (mut v, mut missing) = (vec![], false);
    let mut add = |x: Option<usize>| match x {
        Some(i) => v.push(i),
        None => missing = true,
    };
    let mut started = false;
    for (seq, p, ino) in &sim().disk.name_log {
        if p != path || *seq > to {
            continue;
        }
        if *seq > from && !started {
            add(now);
            started = true;
        }
        now = *ino;
        if *seq > from {
            add(now);
        }
    }
    if !started {
        add(now);
    }
    (v, missing)
}
fn c16_look(i: usize, k: usize, p: &Profile) -> Option<String> {
    let POp::Open { path, .. } = &threads()[i].ops[k] else { return None };
    let op = &me().op;
    let (versions, _) = current(path, op.seq0, op.seq1);
    let mut why = "the file was missing throughout".to_string();
    let mut good = vec![];
    for v in &versions {
        match decode_img(&sim().disk.inodes[*v].img) {
            Ok(w) => match diff(p, &w) {
                None => good.push(*v),
                Some(d) => why = d,
            },
            Err(d) => why = format!("{:?}", d),
        }
    }
    if good.is_empty() {
        return Some(format!("matches none of {} version(s); last: {}", versions.len(), why));
    }
    // What the profile keeps open belongs to the version it describes.
    let left = minus(&op.opened, &op.closed);
    if let [fd] = left[..] {
        if let Some(o) = sim().disk.ofd(fd) {
            let ino = o.ino;
            if !o.dir && !good.contains(&ino) && !good.iter().any(|v| sim().disk.inodes[*v].img.full() == sim().disk.inodes[ino].img.full()) {
                return Some(format!("the fields are those of one version, the stream kept open is on another (inode {}, not {:?})", ino, good));
            }
        }
    }
    None
}
