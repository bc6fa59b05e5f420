//! Properties of streams: C10, C11, C12, C13.
use super::storage::op_bytes;
use crate::choice::*;
use crate::engine::*;
use crate::shared::*;
use crate::sim::*;
use std::io::{ErrorKind, SeekFrom};
use sut::{SOp, Stream, Val};

/// The signed 15.16 fixed-point number nearest to `v`, halves upwards, limited to the range.
pub fn fixed(v: f64) -> i32 {
    let x = (v * 65536.0 + 0.5).floor();
    if x >= i32::MAX as f64 {
        i32::MAX
    } else if x <= i32::MIN as f64 {
        i32::MIN
    } else {
        x as i32
    }
}
pub fn fixed_value(g: &Gen) -> f64 {
    match g.w(&[6, 3, 1, 1]) {
        0 => {
            // Multiples of 2^-28 up to 2^20: exact in the model.
            let m = (g.u64() >> 16) as f64 / 268435456.0;
            let s = if g.p(1, 2) { -1.0 } else { 1.0 };
            if g.p(1, 2) {
                s * (m % 4.0)
            } else {
                s * (m % 32768.0)
            }
        }
        1 => *g.pick(&[
            0.0, 1.0, -1.0, 0.5, -0.5, 0.5 / 65536.0, -0.5 / 65536.0, 1.5 / 65536.0, -1.5 / 65536.0, 32767.0, -32768.0,
            32767.99998474121, -32767.99998474121, 0.9642, 0.8249, 1.0 / 65536.0, -1.0 / 65536.0,
        ]),
        2 => *g.pick(&[-32768.0, -32768.0, 32767.99998474121]),
        _ => {
            probe("s15_saturated");
            *g.pick(&[32768.0, -32769.0, 1e9, -1e9, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, 32768.5])
        }
    }
}
/// An operation on a stream whose interesting positions are below `span`.
pub fn gen_op(g: &Gen, span: u32) -> SOp {
    gen_op_max(g, span, if sim().cfg.one_byte { 3000 } else { 70_000 })
}
/// How many operations: at times hundreds.
pub fn many(g: &Gen, usual: u32) -> u32 {
    if g.p(1, 60) {
        usual + g.u(300)
    } else {
        g.u(usual)
    }
}
/// Far from the start, as a file and a position allow.
pub fn far(g: &Gen) -> u64 {
    *g.pick(&[1u64 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 40, 1 << 62, (1 << 16) - 1, 1 << 16])
}
fn gen_op_max(g: &Gen, span: u32, max: usize) -> SOp {
    let seek = |g: &Gen| match g.u(4) {
        0 => SOp::Seek(SeekFrom::Start(g.u(span + 8) as u64)),
        1 => SOp::Seek(SeekFrom::Current(g.u(2 * span) as i64 - span as i64)),
        2 => SOp::Seek(SeekFrom::End(g.u(2 * span) as i64 - span as i64 - span as i64 / 2)),
        3 if g.p(1, 20) => {
            let d = far(g) as i64;
            SOp::Seek(match g.u(5) {
                0 => SeekFrom::Start(d as u64),
                1 => SeekFrom::Current(d / 4),
                2 => SeekFrom::Current(-d),
                3 => SeekFrom::End(d / 4),
                _ => SeekFrom::End(-d),
            })
        }
        _ => SOp::Seek(*g.pick(&[SeekFrom::Start(0), SeekFrom::End(0), SeekFrom::Current(0), SeekFrom::End(-4), SeekFrom::Current(-8), SeekFrom::Current(-1)])),
    };
    match g.w(&[6, 3, 5, 2, 4, 6, 6]) {
        0 => seek(g),
        1 => SOp::Tell,
        2 => SOp::Read(g.len(&[1usize, 4, 0, 2, 8, 13, 40, 100, 3, 16, 12], max)),
        3 => SOp::Size,
        4 => {
            let n = g.len(&[1usize, 4, 0, 2, 8, 13, 40, 100, 3, 16, 12], max);
            SOp::Write(g.blob(n))
        }
        5 => match g.u(8) {
            0 => SOp::RU8,
            1 => SOp::RU16,
            2 => SOp::RU16A(g.len(&[3usize, 0, 1, 10, 2, 4, 7, 20], max / 2)),
            3 => SOp::RU32,
            4 => SOp::RF32,
            5 => SOp::RU64,
            6 => SOp::RS15,
            _ => SOp::RXYZ,
        },
        _ => match g.u(8) {
            0 => SOp::WU8(g.u(256) as u8),
            1 => SOp::WU16(g.u(65536) as u16),
            2 => {
                let n = g.len(&[3usize, 0, 1, 10, 2, 4, 7, 20], max / 2);
                SOp::WU16A(g.blob(2 * n).chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect())
            }
            3 => SOp::WU32(super::super::refdec::word(g)),
            4 => SOp::WF32(if g.p(1, 3) { *g.pick(&[0x3f80_0000, 0x7fc0_0001, 0xff80_0000, 0x7f80_0001, 0x8000_0000]) } else { g.u32() }),
            5 => SOp::WU64(g.u64()),
            6 => SOp::WS15(fixed_value(g)),
            _ => SOp::WXYZ(fixed_value(g), fixed_value(g), fixed_value(g)),
        },
    }
}
/// How many bytes a reading operation needs.
pub fn need(op: &SOp) -> Option<usize> {
    Some(match op {
        SOp::Read(n) => *n,
        SOp::RU8 => 1,
        SOp::RU16 => 2,
        SOp::RU16A(n) => 2 * n,
        SOp::RU32 | SOp::RF32 | SOp::RS15 => 4,
        SOp::RU64 => 8,
        SOp::RXYZ => 12,
        _ => return None,
    })
}
/// The value a reading operation gives on these bytes.
pub fn value(op: &SOp, b: &[u8]) -> Val {
    let num = crate::refdec::num;
    let fix = |b: &[u8]| {
        let raw = num(b) as u32 as i32;
        if raw == i32::MIN {
            probe("s15_min");
        }
        (raw as f64 / 65536.0).to_bits()
    };
    match op {
        SOp::Read(_) => Val::Bytes(b.to_vec()),
        SOp::RU16A(_) => Val::Words(b.chunks(2).map(|c| num(c) as u16).collect()),
        SOp::RF32 => Val::F(vec![num(b)]),
        SOp::RS15 => Val::F(vec![fix(b)]),
        SOp::RXYZ => Val::F(vec![fix(&b[0..4]), fix(&b[4..8]), fix(&b[8..12])]),
        _ => Val::N(num(b)),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Ok(Val),
    /// Reads past the end: the position may move up to the end.
    Eof,
    /// Refused without any effect.
    Refused,
    /// A write that does not fit: a leading part may be written.
    Full,
}
/// The reference: an array of bytes and a position.
#[derive(Clone, Debug)]
pub struct Model {
    pub data: Vec<u8>,
    /// Zeros behind the data.
    pub tail: u64,
    pub pos: u64,
    pub grow: bool,
}
impl Model {
    pub fn len(&self) -> u64 {
        self.data.len() as u64 + self.tail
    }
    pub fn apply(&mut self, op: &SOp) -> Exp {
        let len = self.len();
        if let Some(n) = need(op) {
            if n == 0 {
                return Exp::Ok(value(op, &[]));
            }
            if self.pos + n as u64 > len {
                probe("read_past_end");
                return Exp::Eof;
            }
            let p = self.pos as usize;
            let b: Vec<u8> = match self.data.get(p..p + n) {
                Some(b) => b.to_vec(),
                None => (p..p + n).map(|i| self.data.get(i).copied().unwrap_or(0)).collect(),
            };
            let v = value(op, &b);
            self.pos += n as u64;
            return Exp::Ok(v);
        }
        if let Some(b) = op_bytes(op) {
            if b.is_empty() {
                return Exp::Ok(Val::Unit);
            }
            let end = self.pos as usize + b.len();
            if end > self.data.len() {
                // The simulated disk has no files larger than this.
                if !self.grow || end > 64 << 20 {
                    return Exp::Full;
                }
                if self.pos > len {
                    probe("sparse_growth");
                }
                self.tail = self.tail.saturating_sub((end - self.data.len()) as u64);
                self.data.resize(end, 0);
            }
            self.data[self.pos as usize..end].copy_from_slice(&b);
            self.pos = end as u64;
            return Exp::Ok(Val::Unit);
        }
        match op {
            SOp::Tell => Exp::Ok(Val::N(self.pos)),
            SOp::Size => Exp::Ok(Val::N(len)),
            SOp::Seek(s) => {
                let t = match s {
                    SeekFrom::Start(v) => *v as i128,
                    SeekFrom::Current(v) => self.pos as i128 + *v as i128,
                    SeekFrom::End(v) => len as i128 + *v as i128,
                };
                if t < 0 {
                    probe("seek_before_start");
                    return Exp::Refused;
                }
                self.pos = t as u64;
                Exp::Ok(Val::Unit)
            }
            _ => unreachable!(),
        }
    }
}
type Res = Result<Result<Val, std::io::Error>, String>;
fn show(r: &Res) -> String {
    match r {
        Ok(Ok(v)) => format!("{:?}", v),
        Ok(Err(e)) => format!("error {:?} ({})", e.kind(), e),
        Err(p) => format!("PANIC {}", p),
    }
}
type Body = Box<dyn FnOnce() + Send>;
/// One thread with streams of its own, or at times several: what one does must not show in the other.
fn parts(g: &Gen, part: fn(&Gen, usize, usize) -> (Body, String)) {
    let nt = if g.p(1, 6) { 2 + g.u(2) as usize } else { 1 };
    if nt > 1 {
        preemption(g);
        probe("streams_on_threads");
    }
    // Long arrays take many steps, one by one.
    sim().cfg.step_budget = 80_000_000;
    let (bodies, texts): (Vec<Body>, Vec<String>) = (0..nt).map(|t| part(g, t, nt)).unzip();
    summary(&format!("{}; planned {:?}", texts.join(" || "), sim().planned));
    expect_done(run(bodies));
}
fn tell(s: &mut Stream) -> u64 {
    match quiet(|| sut_call(|| s.h().tell())) {
        Ok(Ok(p)) => p as u64,
        r => violate("tell-failed", &format!("{:?}", r)),
    }
}
/// Asking for the position after every operation would hide what depends on the order of operations: in half of the
/// runs it is not asked for; where it is open (failures), the harness asks or seeks, as drawn.
fn looks(g: &Gen, n: usize) -> Vec<Option<bool>> {
    let watch = g.p(1, 2);
    (0..n).map(|_| if watch { None } else { Some(g.p(1, 2)) }).collect()
}
fn look(how: Option<bool>, open: bool, ok: bool, pos0: u64, expected: u64, who: &str, s: &mut Stream) -> u64 {
    match how {
        None => tell(s),
        Some(_) if !open => {
            if ok {
                expected
            } else {
                pos0
            }
        }
        Some(true) => tell(s),
        Some(false) => {
            let r = quiet(|| sut_call(|| sut::exec(s, &SOp::Seek(SeekFrom::Start(pos0)))));
            if !matches!(r, Ok(Ok(_))) {
                violate("stuck-after-failure", &format!("{}; seeking back: {}", who, show(&r)));
            }
            pos0
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// C10

pub fn c10(g: &Gen) {
    benign_faults(g);
    parts(g, c10_part);
}
fn c10_part(g: &Gen, t: usize, nt: usize) -> (Body, String) {
    let nf = 1 + g.u(2) as usize;
    let mut inos = vec![];
    let mut content: Vec<(Vec<u8>, u64)> = vec![];
    for f in 0..nf {
        let n = g.len(&[20usize, 0, 5, 64, 200], 70_000);
        let b = g.blob(n);
        inos.push(put_file(&format!("/sim/f{}{}", t, f), &b));
        let mut tail = 0;
        if g.p(1, 12) {
            // A large file, with nothing but zeros behind the data.
            tail = far(g);
            let i = &mut sim().disk.inodes[inos[f]].img;
            i.size += tail;
            log(&format!("the file is {} bytes large", i.size));
            probe("huge_stream");
        }
        content.push((b, tail));
    }
    let ns = 1 + g.u(3) as usize;
    // (file, readable, writable)
    let modes: Vec<(usize, bool, bool)> =
        (0..ns).map(|_| (g.u(nf as u32) as usize, g.p(9, 10), g.p(4, 5))).map(|(f, r, w)| (f, r || !w, w)).collect();
    let n = 4 + many(g, 37);
    let span = *g.pick(&[40u32, 10, 200, 1000, 1000, 70_000]);
    let plan: Vec<(usize, SOp)> = (0..n).map(|_| (g.u(ns as u32) as usize, gen_op(g, span))).collect();
    // Before an operation its stream may be replaced: by a new one on the same file or another (dropped or closed
    // before), or by a clone of the handle of another stream, with which it shares the position from then on.
    let swaps: Vec<Option<(u32, usize, bool, bool)>> = (0..n)
        .map(|_| match g.w(&[14, 1, 1, 1]) as u32 {
            0 => None,
            3 => Some((3, g.u(ns as u32) as usize, false, false)),
            how => Some((how, g.u(nf as u32) as usize, g.p(9, 10), g.p(4, 5))).map(|(h, f, r, w)| (h, f, r || !w, w)),
        })
        .collect();
    for k in 0..n {
        if g.p(1, 9) {
            let (sys, errs): (K, &[i32]) = match &plan[k as usize].1 {
                o if op_bytes(o).is_some() => (K::Write, super::storage::WRITE_ERRNOS),
                o if need(o).is_some() => (K::Read, ERRNOS),
                _ => (K::Lseek, &[libc::EIO, libc::ESTALE, libc::EOVERFLOW, libc::EINVAL, libc::ESPIPE, libc::ENXIO]),
            };
            let act = Act::Err(errno(g, errs));
            sim().planned.push(Planned { tid: t, op: k, sys: Some(sys), nth: g.u(4), act, fired: false });
        }
    }
    if t + 1 == nt && g.p(1, 4) {
        sim().disk.capacity = Some(sim().disk.used() + g.u(300) as u64);
    }
    let looks = looks(g, n as usize);
    let text = format!("streams {:?}, {:?}, capacity {:?}", modes, plan, sim().disk.capacity);
    let body = move || {
        let open = |f: usize, r: bool, w: bool| {
            match quiet(|| std::fs::File::options().read(r).write(w).open(format!("/sim/f{}{}", t, f))) {
                Ok(x) => Stream::file(x),
                Err(_) => finish(ST_ERROR, "harness-open", ""),
            }
        };
        // Which position each stream has, and the positions.
        let mut at: Vec<usize> = (0..ns).collect();
        let mut poss: Vec<u64> = vec![0; ns];
        let mut st: Vec<(usize, bool, bool, Option<Stream<'static>>)> =
            modes.iter().map(|(f, r, w)| (*f, *r, *w, Some(open(*f, *r, *w)))).collect();
        let mut nontrivial = false;
        for (k, (s, op)) in plan.into_iter().enumerate() {
            match swaps[k] {
                None => {}
                Some((3, o, ..)) => {
                    let x = st[o].3.as_ref().and_then(|x| x.file_ref()).map(|f| quiet(|| f.try_clone()));
                    match x {
                        Some(Ok(x)) => {
                            slog!("T{} stream {} is a clone of stream {} now", t, s, o);
                            let x = (st[o].0, st[o].1, st[o].2, Some(Stream::file(x)));
                            quiet(|| st[s] = x);
                            at[s] = at[o];
                            probe("stream_cloned");
                        }
                        _ => finish(ST_ERROR, "harness-clone", ""),
                    }
                }
                Some((how, f, r, w)) => {
                    slog!("T{} stream {} is on file {} now ({}, {})", t, s, f, r, w);
                    let old = st[s].3.take();
                    let gone = quiet(|| sut_call(|| if how == 1 { drop(old) } else { drop(old.map(Stream::close)) }));
                    if let Err(m) = gone {
                        violate("panic", &format!("closing stream {} panicked: {}", s, m));
                    }
                    st[s] = (f, r, w, Some(open(f, r, w)));
                    poss.push(0);
                    at[s] = poss.len() - 1;
                    probe("stream_reopened");
                }
            }
            let (f, can_r, can_w, stream) = &mut st[s];
            let Some(stream) = stream else { finish(ST_ERROR, "harness-stream", "") };
            let pos0 = &mut poss[at[s]];
            let before = content[*f].clone();
            let mut m = Model { data: before.0.clone(), tail: before.1, pos: *pos0, grow: true };
            let mut exp = m.apply(&op);
            let bytes = op_bytes(&op);
            // Access the descriptor does not allow.
            if bytes.as_ref().map_or(false, |b| !b.is_empty()) && !*can_w || need(&op).map_or(false, |n| n > 0) && !*can_r {
                exp = Exp::Refused;
                m = Model { data: before.0.clone(), tail: before.1, pos: *pos0, grow: true };
            }
            slog!("T{} stream {} at {}: {:?}", t, s, pos0, op);
            begin_op();
            let r = sut_call(|| sut::exec(stream, &op));
            let rec = end_op();
            slog!("T{} -> {}", t, show(&r));
            let who = format!("operation {} on stream {} at {}: {:?} gave {}", k, s, pos0, op, show(&r));
            let now = {
                let i = &sim().disk.inodes[inos[*f]].img;
                (i.data.clone(), i.size - i.data.len() as u64)
            };
            let r = match r {
                Err(_) => violate("panic", &who),
                Ok(r) => r,
            };
            let open = exp != Exp::Refused && (!rec.hard.is_empty() || matches!(exp, Exp::Eof | Exp::Full));
            let pos = look(looks[k], open, r.is_ok(), *pos0, m.pos, &who, stream);
            nontrivial |= rec.benign > 0 || !rec.hard.is_empty();
            if !rec.hard.is_empty() && exp != Exp::Refused {
                let e = match r {
                    Ok(_) => violate("error-swallowed", &format!("{}, but the system reported {:?}", who, rec.hard)),
                    Err(e) => e,
                };
                if !rec.hard.iter().any(|(_, x)| kind_of(*x) == e.kind()) {
                    violate("error-kind", &format!("{}, the system reported {:?}", who, rec.hard));
                }
                match &bytes {
                    Some(b) => {
                        probe("hard_error_in_write");
                        // Some leading part has been written, and nothing else.
                        let ok = (0..=b.len()).rev().any(|j| {
                            let mut x = Model { data: before.0.clone(), tail: before.1, pos: *pos0, grow: true };
                            x.apply(&SOp::Write(b[..j].to_vec()));
                            (x.data, x.tail) == now
                        });
                        if !ok {
                            violate("failed-write-effect", &format!("{}; the file went from {:x?} to {:x?}", who, before, now));
                        }
                        if now.0.len() > before.0.len() && sim().disk.capacity.is_some() {
                            probe("disk_full_partial");
                        }
                        if pos < *pos0 || pos > *pos0 + b.len() as u64 {
                            violate("position", &format!("{}; the position is {}", who, pos));
                        }
                    }
                    None => {
                        probe("hard_error_in_read_op");
                        if now != before {
                            violate("content", &format!("{} changed the file", who));
                        }
                        if let Some(n) = need(&op) {
                            if pos < *pos0 || pos > *pos0 + n as u64 {
                                violate("position", &format!("{}; the position is {}", who, pos));
                            }
                        } else if !matches!(op, SOp::Size) && pos != *pos0 {
                            violate("position", &format!("{}; the position is {}", who, pos));
                        }
                    }
                }
                content[*f] = now;
                *pos0 = pos;
                continue;
            }
            judge_op(&who, &op, &exp, &r, *pos0, pos, &mut m);
            if now.0 != m.data || now.1 != m.tail {
                violate("content", &format!("{}; the file is {:x?}, expected {:x?} {}", who, now, m.data, m.tail));
            }
            content[*f] = (m.data, m.tail);
            *pos0 = m.pos;
        }
        quiet(|| drop(st));
        case(0, nontrivial);
    };
    (Box::new(body), text)
}
/// Compares a fault-free operation with the model; the model adopts the position where it is left open.
fn judge_op(who: &str, op: &SOp, exp: &Exp, r: &Result<Val, std::io::Error>, pos0: u64, pos: u64, m: &mut Model) {
    match (exp, r) {
        (Exp::Ok(v), Ok(x)) => {
            if v != x {
                violate("value", &format!("{}, expected {:?}", who, v));
            }
            if pos != m.pos {
                violate("position", &format!("{}; the position is {}, expected {}", who, pos, m.pos));
            }
        }
        (Exp::Ok(v), Err(_)) => violate("wrong-refusal", &format!("{}, expected {:?}", who, v)),
        (Exp::Eof, Err(e)) => {
            if e.kind() != ErrorKind::UnexpectedEof {
                violate("error-kind", &format!("{}, expected an end-of-file error", who));
            }
            // A failed read leaves the position unspecified within what was addressed: a stream may consume what
            // is left, and one that stands past the end may fall back to the end.
            let len = m.len();
            if pos < pos0.min(len) || pos > pos0.max(len) {
                violate("position", &format!("{}; the position is {}", who, pos));
            }
            m.pos = pos;
        }
        (Exp::Refused, Err(_)) => {
            if pos != pos0 {
                violate("position", &format!("{}; the position moved from {} to {}", who, pos0, pos));
            }
        }
        (Exp::Full, Err(_)) => {
            let n = op_bytes(op).map_or(0, |b| b.len() as u64);
            if pos < pos0 || pos > pos0 + n {
                violate("position", &format!("{}; the position is {}", who, pos));
            }
            m.pos = pos;
        }
        (e, Ok(_)) => violate("not-refused", &format!("{}, expected {:?}", who, e)),
    }
}

// ---------------------------------------------------------------------------------------------------------
// C11

#[derive(Debug)]
struct Tagged(u32);
impl std::fmt::Display for Tagged {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "failure {}", self.0)
    }
}
impl std::error::Error for Tagged {}
#[derive(Clone, Debug, PartialEq)]
enum Id {
    Tag(u32),
    Raw(i32),
    Kind(ErrorKind),
}
fn id_of(e: &std::io::Error) -> Id {
    if let Some(t) = e.get_ref().and_then(|r| r.downcast_ref::<Tagged>()) {
        return Id::Tag(t.0);
    }
    match e.raw_os_error() {
        Some(c) => Id::Raw(c),
        None => Id::Kind(e.kind()),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Read(usize),
    Write(usize),
    Seek,
    Tell,
}
#[derive(Default, Debug)]
struct MockState {
    data: Vec<u8>,
    len: u64,
    pos: u64,
    /// (call of the current operation, kind of error, leading part transferred)
    fail: Vec<(usize, u32, usize)>,
    calls: Vec<(Call, Option<Id>)>,
    moved: Vec<u8>,
    serial: u32,
    yields: bool,
    /// An access to another stream, its content and the value expected.
    nested: Option<(SOp, Vec<u8>, Val)>,
}
static mut MOCKS: Vec<MockState> = Vec::new();
#[allow(static_mut_refs)]
fn mock(i: usize) -> &'static mut MockState {
    unsafe { &mut MOCKS[i] }
}
/// The stream of thread `.0`.
#[derive(Debug)]
struct Mock(usize);
impl Mock {
    /// What a user's stream may do before it answers: let others run, use other streams of the library, give up.
    fn enter(&self) {
        let m = mock(self.0);
        if m.yields {
            std::thread::yield_now();
        }
        if let Some((op, b, want)) = m.nested.clone() {
            let mut inner = Stream::mem_vec(b);
            let r = sut::exec(&mut inner, &op);
            if !matches!(&r, Ok(v) if *v == want) {
                violate("nested-access", &format!("{:?} on another stream gave {:?}, expected {:?}", op, r, want));
            }
        }
    }
}
const KINDS: [ErrorKind; 10] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::Interrupted, ErrorKind::InvalidData,
    ErrorKind::WriteZero, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::InvalidInput,
];
impl MockState {
    fn call(&mut self, c: Call) -> Option<(std::io::Error, usize)> {
        let n = self.calls.len();
        self.calls.push((c, None));
        let f = self.fail.iter().find(|f| f.0 == n)?.clone();
        Some((self.error(f.1), f.2))
    }
    fn error(&mut self, what: u32) -> std::io::Error {
        self.serial += 1;
        let kind = KINDS[(what % 10) as usize];
        let e = match what / 10 {
            0 => std::io::Error::new(kind, Tagged(self.serial)),
            1 => std::io::Error::from_raw_os_error(5 + what as i32),
            _ => std::io::Error::from(kind),
        };
        self.calls.last_mut().unwrap().1 = Some(id_of(&e));
        count(C::fault_stream_err, 1);
        e
    }
    fn byte(&self, o: u64) -> u8 {
        self.data.get(o as usize).copied().unwrap_or(0)
    }
}
impl sut::Backend for Mock {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<()> {
        self.enter();
        let _rt = Rt::enter();
        let m = mock(self.0);
        let mut fail = m.call(Call::Read(buf.len()));
        let mut n = buf.len();
        // A read of nothing needs nothing, wherever it is.
        if fail.is_none() && n > 0 && m.pos + n as u64 > m.len {
            fail = Some((m.error(1), (m.len.saturating_sub(m.pos)) as usize));
        }
        if let Some((_, k)) = &fail {
            n = n.min(*k).min(m.len.saturating_sub(m.pos) as usize);
        }
        for b in buf[..n].iter_mut() {
            *b = m.byte(m.pos);
            m.moved.push(*b);
            m.pos += 1;
        }
        match fail {
            Some((e, _)) => Err(e),
            None => Ok(()),
        }
    }
    fn write(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.enter();
        let _rt = Rt::enter();
        let m = mock(self.0);
        let fail = m.call(Call::Write(buf.len()));
        let n = fail.as_ref().map_or(buf.len(), |f| f.1.min(buf.len()));
        for b in &buf[..n] {
            let p = m.pos as usize;
            if m.data.len() <= p {
                m.data.resize(p + 1, 0);
            }
            m.data[p] = *b;
            m.moved.push(*b);
            m.pos += 1;
            m.len = m.len.max(m.pos);
        }
        match fail {
            Some((e, _)) => Err(e),
            None => Ok(()),
        }
    }
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<()> {
        self.enter();
        let _rt = Rt::enter();
        let m = mock(self.0);
        if let Some((e, k)) = m.call(Call::Seek) {
            if k > 4 {
                m.pos = m.len / 2;
            }
            return Err(e);
        }
        let t = match pos {
            SeekFrom::Start(v) => v as i128,
            SeekFrom::Current(v) => m.pos as i128 + v as i128,
            SeekFrom::End(v) => m.len as i128 + v as i128,
        };
        if t < 0 || t > u64::MAX as i128 {
            return Err(m.error(9));
        }
        m.pos = t as u64;
        Ok(())
    }
    fn tell(&mut self) -> std::io::Result<usize> {
        self.enter();
        let _rt = Rt::enter();
        let m = mock(self.0);
        match m.call(Call::Tell) {
            Some((e, _)) => Err(e),
            None => Ok(m.pos as usize),
        }
    }
    fn close(&mut self) -> std::io::Result<()> {
        let _rt = Rt::enter();
        Ok(())
    }
}
pub fn c11(g: &Gen) {
    parts(g, c11_part);
}
fn c11_part(g: &Gen, t: usize, nt: usize) -> (Body, String) {
    let n0 = g.len(&[64usize, 8, 0, 3, 200], 70_000);
    let mut data = g.blob(n0);
    if g.p(1, 3) {
        // The most negative fixed-point number, and runs of equal bytes.
        for c in data.chunks_mut(4) {
            if c.len() == 4 && g.p(1, 2) {
                c.copy_from_slice(g.pick(&[[0x80, 0, 0, 0], [0xff; 4], [0x7f, 0xff, 0xff, 0xff], [0x80, 0, 0, 1], [0, 0, 0x80, 0]]));
            }
        }
    }
    let len = if g.p(1, 10) { *g.pick(&[1u64 << 31, 1 << 32, (1 << 32) + 77, 1 << 40, i64::MAX as u64]) } else { n0 as u64 };
    let n = 1 + many(g, 20);
    let plan: Vec<(SOp, Vec<(usize, u32, usize)>, u64)> = (0..n)
        .map(|_| {
            let op = loop_op(g);
            let mut f = vec![];
            if g.p(2, 5) {
                let at = match &op {
                    SOp::Size => g.u(4),
                    SOp::RXYZ | SOp::WXYZ(..) => g.u(3),
                    SOp::RU16A(n) => g.u(*n as u32 + 1),
                    SOp::WU16A(v) => g.u(v.len() as u32 + 1),
                    _ => 0,
                };
                f.push((at as usize, g.u(30), g.u(9) as usize));
                if g.p(1, 5) {
                    f.push((at as usize + 1 + g.u(2) as usize, g.u(30), g.u(9) as usize));
                }
            }
            let at = g.u(n0 as u32 + 6) as u64;
            (op, f, if g.p(1, 3) { at } else { u64::MAX })
        })
        .collect();
    let yields = nt > 1 && g.p(1, 2);
    let nested = g.p(1, 8).then(|| {
        let op = g.pick(&[SOp::RU64, SOp::RU8, SOp::RU16, SOp::RU16A(5), SOp::RU32, SOp::RXYZ, SOp::RF32]).clone();
        let b = g.blob(16);
        let want = value(&op, &b[..need(&op).unwrap()]);
        (op, b, want)
    });
    // Reading back at once what was written would hide what depends on the order of operations.
    let back = g.p(1, 2);
    let text = format!("{} bytes, length {}, in between {:?}: {:?}", n0, len, nested.as_ref().map(|n| &n.0), plan);
    if nested.is_some() {
        probe("nested_access");
    }
    #[allow(static_mut_refs)]
    unsafe {
        MOCKS.push(MockState { data, len, yields, nested, ..Default::default() })
    };
    let body = move || {
        let mut s = Stream::user(Box::new(Mock(t)));
        let mut nontrivial = false;
        for (k, (op, fail, at)) in plan.into_iter().enumerate() {
            let m = mock(t);
            if at != u64::MAX {
                m.pos = at;
            }
            if op_bytes(&op).is_some() && m.pos > 100_000 {
                m.pos = 0;
            }
            m.fail = fail;
            m.calls.clear();
            m.moved.clear();
            let (pos0, len0) = (m.pos, m.len);
            let before = m.data.clone();
            slog!("T{} at {} of {}: {:?} failing {:?}", t, pos0, len0, op, m.fail);
            begin_op();
            let r = sut_call(|| sut::exec(&mut s, &op));
            end_op();
            slog!("T{} -> {} after {:?}", t, show(&r), mock(t).calls);
            let m = mock(t);
            let who = format!("operation {} at {} of {}: {:?} gave {}; calls {:?}", k, pos0, len0, op, show(&r), m.calls);
            let r = match r {
                Err(_) => violate("panic", &who),
                Ok(r) => r,
            };
            let bytes = op_bytes(&op);
            let first = m.calls.iter().position(|c| c.1.is_some());
            if let Some(fi) = first {
                nontrivial = true;
                probe(match (&op, fi) {
                    (SOp::Size, _) => "stream_failed_size",
                    (_, 0) => "stream_failed_first",
                    _ => "stream_failed_middle",
                });
                let e = match &r {
                    Ok(_) => violate("error-swallowed", &who),
                    Err(e) => id_of(e),
                };
                let ids: Vec<&Id> = m.calls.iter().filter_map(|c| c.1.as_ref()).collect();
                let right = if let SOp::Size = op { ids.contains(&&e) } else { *ids[0] == e };
                if !right {
                    violate("other-error", &format!("{}; returned {:?}", who, e));
                }
                if m.calls[fi + 1..].iter().any(|c| matches!(c.0, Call::Read(_) | Call::Write(_))) {
                    violate("transfer-after-failure", &who);
                }
                if let Some(b) = &bytes {
                    if !b.starts_with(&m.moved) {
                        violate("bytes-written", &format!("{}; wrote {:x?} of {:x?}", who, m.moved, b));
                    }
                    let mut x = before.clone();
                    put(&mut x, pos0, &m.moved);
                    if x != m.data {
                        violate("bytes-written", &format!("{}; content {:x?} -> {:x?}", who, before, m.data));
                    }
                } else if m.data != before {
                    violate("bytes-written", &who);
                }
                continue;
            }
            // No call failed.
            let v = match r {
                Err(_) => violate("invented-error", &who),
                Ok(v) => v,
            };
            if let Some(n) = need(&op) {
                let b: Vec<u8> = (0..n as u64).map(|i| m.byte(pos0 + i)).collect();
                if m.moved.len() != n || m.pos != pos0 + n as u64 {
                    violate("bytes-read", &format!("{}; read {} bytes, the value has {}", who, m.moved.len(), n));
                }
                let want = value(&op, &b);
                if v != want {
                    violate("value", &format!("{}, expected {:?}", who, want));
                }
                if m.data != before {
                    violate("bytes-written", &who);
                }
            } else if let Some(b) = bytes {
                let mut x = before.clone();
                put(&mut x, pos0, &b);
                if m.moved != b || x != m.data {
                    violate("bytes-written", &format!("{}; wrote {:x?}, expected {:x?}", who, m.moved, b));
                }
                // What was written reads back as the same value.
                if let Some((back, want)) = read_back(&op).filter(|_| back) {
                    m.pos = pos0;
                    m.fail.clear();
                    m.calls.clear();
                    let r = sut_call(|| sut::exec(&mut s, &back));
                    match r {
                        Ok(Ok(v)) if v == want => {}
                        r => violate("round-trip", &format!("{}; read back {}, expected {:?}", who, show(&r), want)),
                    }
                }
            } else if let SOp::Size = op {
                if v != Val::N(len0) {
                    violate("size", &format!("{}, the stream has {} bytes", who, len0));
                }
                if m.pos != pos0 {
                    violate("size-moves", &format!("{}; the position went to {}", who, m.pos));
                }
                if m.data != before || m.len != len0 {
                    violate("bytes-written", &who);
                }
            }
        }
        case(0, nontrivial);
    };
    (Box::new(body), text)
}
fn loop_op(g: &Gen) -> SOp {
    // Typed accesses and size queries only.
    match g.w(&[7, 7, 3]) {
        0 => match g.u(8) {
            0 => SOp::RU8,
            1 => SOp::RU16,
            2 => SOp::RU16A(g.len(&[3usize, 0, 1, 10, 2, 4, 7, 20], 35_000)),
            3 => SOp::RU32,
            4 => SOp::RF32,
            5 => SOp::RU64,
            6 => SOp::RS15,
            _ => SOp::RXYZ,
        },
        1 => loop {
            let o = gen_op(g, 10);
            if op_bytes(&o).is_some() && !matches!(o, SOp::Write(_)) {
                break o;
            }
            if g.u(50) == 0 {
                break SOp::WU32(g.u32());
            }
        },
        _ => SOp::Size,
    }
}
fn put(d: &mut Vec<u8>, pos: u64, b: &[u8]) {
    if b.is_empty() {
        return;
    }
    let end = pos as usize + b.len();
    if d.len() < end {
        d.resize(end, 0);
    }
    d[pos as usize..end].copy_from_slice(b);
}
fn read_back(op: &SOp) -> Option<(SOp, Val)> {
    let f = |v: &f64| (fixed(*v) as f64 / 65536.0).to_bits();
    Some(match op {
        SOp::WU8(v) => (SOp::RU8, Val::N(*v as u64)),
        SOp::WU16(v) => (SOp::RU16, Val::N(*v as u64)),
        SOp::WU16A(v) => (SOp::RU16A(v.len()), Val::Words(v.clone())),
        SOp::WU32(v) => (SOp::RU32, Val::N(*v as u64)),
        SOp::WF32(v) => (SOp::RF32, Val::F(vec![*v as u64])),
        SOp::WU64(v) => (SOp::RU64, Val::N(*v)),
        SOp::WS15(v) => (SOp::RS15, Val::F(vec![f(v)])),
        SOp::WXYZ(x, y, z) => (SOp::RXYZ, Val::F(vec![f(x), f(y), f(z)])),
        _ => return None,
    })
}

// ---------------------------------------------------------------------------------------------------------
// C12

/// The content of a memory stream, read through the stream itself.
fn content(s: &mut Stream) -> Vec<u8> {
    quiet(|| {
        let r = sut_call(|| -> std::io::Result<Vec<u8>> {
            let h = s.h();
            let pos = h.tell()?;
            let n = h.reported_size()?;
            let mut b = vec![0; n.min(1 << 24)];
            h.seek(SeekFrom::Start(0))?;
            h.read(&mut b)?;
            h.seek(SeekFrom::Start(pos as u64))?;
            Ok(b)
        });
        match r {
            Ok(Ok(b)) => b,
            r => violate("unreadable", &format!("reading the whole stream: {:?}", r)),
        }
    })
}
pub fn c12(g: &Gen) {
    benign_faults(g);
    parts(g, c12_part);
}
fn c12_part(g: &Gen, t: usize, _: usize) -> (Body, String) {
    let kind = g.u(4);
    let grow = kind < 2;
    let n0 = g.len(&[16usize, 0, 1, 4, 33, 100], 70_000);
    let initial = g.blob(n0);
    let twin_at = format!("/sim/twin{}", t);
    let ino = put_file(&twin_at, &initial);
    let n = 2 + many(g, 39);
    let span = *g.pick(&[20u32, 4, 60, 300, 300, 70_000]);
    let plan: Vec<(SOp, bool)> = (0..n).map(|_| (gen_op(g, span), g.p(1, 2))).collect();
    // 0 closed, 1 dropped, 2 forgotten
    let end = g.w(&[2, 2, 1]);
    let looks = looks(g, n as usize);
    let name = ["Vec<u8>", "&mut Vec<u8>", "Box<[u8]>", "&mut [u8]"][kind as usize];
    let text = format!("{} of {} bytes, {:?}", name, n0, plan);
    let body = move || {
        let mut vec = initial.clone();
        let mut arr = initial.clone().into_boxed_slice();
        let (vec_at, arr_at, arr_len) = (&mut vec as *mut Vec<u8>, arr.as_mut_ptr(), arr.len());
        // The caller's buffer as it is while the stream borrows it.
        let peek = move || -> Option<Vec<u8>> {
            unsafe {
                match kind {
                    1 => {
                        let v = std::ptr::read_volatile(&(*vec_at).as_ptr());
                        let n = std::ptr::read_volatile(&(*vec_at).len());
                        Some((0..n).map(|i| std::ptr::read_volatile(v.add(i))).collect())
                    }
                    3 => Some((0..arr_len).map(|i| std::ptr::read_volatile(arr_at.add(i))).collect()),
                    _ => None,
                }
            }
        };
        let mut m = Model { data: initial.clone(), tail: 0, pos: 0, grow };
        let mut nontrivial = false;
        {
            let mut s = match kind {
                0 => Stream::mem_vec(initial.clone()),
                1 => Stream::mem_vec_mut(unsafe { &mut *vec_at }),
                2 => Stream::mem_box(initial.clone().into_boxed_slice()),
                _ => Stream::mem_slice(unsafe { std::slice::from_raw_parts_mut(arr_at, arr_len) }),
            };
            let f = quiet(|| std::fs::File::options().read(true).write(true).open(&twin_at));
            let Ok(f) = f else { finish(ST_ERROR, "harness-open", "") };
            let mut twin = Some(Stream::file(f));
            for (k, (mut op, resync)) in plan.into_iter().enumerate() {
                if m.pos > 1 << 20 && op_bytes(&op).is_some() {
                    op = SOp::Seek(SeekFrom::Start(m.pos % 100));
                }
                let pos0 = m.pos;
                let before = m.data.clone();
                let exp = m.apply(&op);
                slog!("T{} memory stream at {}: {:?}", t, pos0, op);
                begin_op();
                let r = sut_call(|| sut::exec(&mut s, &op));
                end_op();
                slog!("T{} -> {}", t, show(&r));
                let who = format!("operation {} on {} at {} of {}: {:?} gave {}", k, name, pos0, before.len(), op, show(&r));
                let r = match r {
                    Err(_) => violate("panic", &who),
                    Ok(r) => r,
                };
                let open = matches!(exp, Exp::Eof | Exp::Full);
                let pos = look(looks[k], open, r.is_ok(), pos0, m.pos, &who, &mut s);
                judge_op(&who, &op, &exp, &r, pos0, pos, &mut m);
                let now = match peek() {
                    Some(b) => b,
                    None if looks[k].is_none() || exp == Exp::Full => content(&mut s),
                    // Judged at the end.
                    None => m.data.clone(),
                };
                match exp {
                    Exp::Full => {
                        nontrivial = true;
                        probe("mem_full");
                        let b = op_bytes(&op).unwrap();
                        let lo = (pos0 as usize).min(before.len());
                        // A leading part of its own bytes, in place.
                        let ok = now.len() == before.len()
                            && (0..=before.len() - lo).any(|j| {
                                j <= b.len() && now[lo..lo + j] == b[..j] && now[..lo] == before[..lo] && now[lo + j..] == before[lo + j..]
                            });
                        if !ok {
                            violate("full-write-effect", &format!("{}; the buffer went from {:x?} to {:x?}", who, before, now));
                        }
                        m.data = now;
                        twin = None;
                    }
                    _ => {
                        if now != m.data {
                            violate("content", &format!("{}; the buffer is {:x?}, expected {:x?}", who, now, m.data));
                        }
                        if m.data.len() > before.len() {
                            probe("mem_grow");
                        }
                        nontrivial |= exp == Exp::Eof;
                    }
                }
                // The same operation on a file with the same content.
                if let Some(tw) = &mut twin {
                    begin_op();
                    let x = sut_call(|| sut::exec(tw, &op));
                    let rec = end_op();
                    nontrivial |= rec.benign > 0;
                    slog!("T{} file -> {}", t, show(&x));
                    match (&r, &x) {
                        (Ok(a), Ok(Ok(b))) if a == b => {}
                        (Err(_), Ok(Err(_))) => {}
                        _ => violate("differs-from-file", &format!("{}, a file gives {}", who, show(&x))),
                    }
                    let tp = look(looks[k], open, r.is_ok(), pos0, m.pos, &who, tw);
                    if tp != m.pos {
                        if r.is_ok() {
                            violate("differs-from-file", &format!("{}; positions {} and {} (file)", who, m.pos, tp));
                        }
                    }
                    if r.is_err() && (resync || tp != m.pos) {
                        let a = quiet(|| sut_call(|| sut::exec(&mut s, &SOp::Seek(SeekFrom::Start(pos0)))));
                        let b = quiet(|| sut_call(|| sut::exec(tw, &SOp::Seek(SeekFrom::Start(pos0)))));
                        if !matches!((&a, &b), (Ok(Ok(_)), Ok(Ok(_)))) {
                            violate("stuck-after-failure", &format!("{}; seeking back: {} and {}", who, show(&a), show(&b)));
                        }
                        m.pos = pos0;
                    }
                    let img = sim().disk.inodes[ino].img.full();
                    if img != m.data {
                        violate("differs-from-file", &format!("{}; the file holds {:x?}", who, img));
                    }
                }
            }
            quiet(|| drop(twin));
            if matches!(kind, 0 | 2) {
                let now = content(&mut s);
                if now != m.data {
                    violate("content", &format!("at the end the buffer is {:x?}, expected {:x?}", now, m.data));
                }
            }
            let r = sut_call(|| match end {
                0 => s.close(),
                1 => {
                    drop(s);
                    Ok(())
                }
                _ => {
                    std::mem::forget(s);
                    Ok(())
                }
            });
            match r {
                Ok(Ok(())) => {}
                r => violate("close", &format!("closing the stream: {:?}", r)),
            }
        }
        if let Some(b) = peek() {
            if b != m.data {
                violate("buffer-after-close", &format!("{} holds {:x?}, written was {:x?}", name, b, m.data));
            }
        }
        drop((vec, arr));
        case(0, nontrivial);
    };
    (Box::new(body), text)
}

// ---------------------------------------------------------------------------------------------------------
// C13

pub fn c13(g: &Gen) {
    benign_faults(g);
    parts(g, c13_part);
}
fn c13_part(g: &Gen, t: usize, _: usize) -> (Body, String) {
    let n = 2 + many(g, 39);
    let span = *g.pick(&[20u32, 4, 100, 1000, 1000, 100_000]);
    let extreme = g.p(1, 4);
    let def = g.p(1, 2);
    let plan: Vec<SOp> = (0..n)
        .map(|_| {
            if extreme && g.p(1, 3) {
                SOp::Seek(match g.u(3) {
                    0 => SeekFrom::Start(*g.pick(&[u64::MAX, i64::MAX as u64, 1 << 63, 1 << 32, u64::MAX - 3])),
                    1 => SeekFrom::Current(*g.pick(&[i64::MAX, i64::MIN, -1, i64::MIN + 1])),
                    _ => SeekFrom::End(*g.pick(&[i64::MAX, i64::MIN, -1, 1])),
                })
            } else {
                gen_op(g, span)
            }
        })
        .collect();
    let twin_at = format!("/sim/twin{}", t);
    let ino = put_file(&twin_at, &[]);
    let looks = looks(g, n as usize);
    let text = format!("{:?}", plan);
    let body = move || {
        let f = quiet(|| std::fs::File::options().read(true).write(true).open(&twin_at));
        let Ok(f) = f else { finish(ST_ERROR, "harness-open", "") };
        // The file that would accept the same history (writes and positions; its reads may hit the end).
        let mut twin = Some(Stream::file(f));
        let mut s = Stream::null(def);
        let (mut pos, mut size) = (0u64, 0u64);
        let mut nontrivial = false;
        for (k, op) in plan.into_iter().enumerate() {
            let (pos0, size0) = (pos, size);
            slog!("T{} null stream at {} of {}: {:?}", t, pos0, size0, op);
            begin_op();
            let r = sut_call(|| sut::exec(&mut s, &op));
            end_op();
            slog!("T{} -> {}", t, show(&r));
            let who = format!("operation {} at {} of {}: {:?} gave {}", k, pos0, size0, op, show(&r));
            let r = match r {
                Err(_) => violate("panic", &who),
                Ok(r) => r,
            };
            let mut expect: Option<Val> = Some(Val::Unit);
            // Beyond what a file can have, only the general rules apply.
            let mut outside = false;
            if let Some(n) = need(&op) {
                outside |= pos0 + n as u64 > i64::MAX as u64;
                pos = pos0.saturating_add(n as u64);
                expect = Some(value(&op, &vec![0; n]));
            } else if let Some(b) = op_bytes(&op) {
                outside |= pos0.saturating_add(b.len() as u64) > i64::MAX as u64;
                if !b.is_empty() {
                    pos = pos0.saturating_add(b.len() as u64);
                    size = size.max(pos);
                    if pos0 > size0 {
                        probe("null_past_end");
                        nontrivial = true;
                    }
                }
            } else {
                match &op {
                    SOp::Tell => expect = Some(Val::N(pos0)),
                    SOp::Size => expect = Some(Val::N(size0)),
                    SOp::Seek(to) => {
                        let t = match to {
                            SeekFrom::Start(v) => *v as i128,
                            SeekFrom::Current(v) => pos0 as i128 + *v as i128,
                            SeekFrom::End(v) => size0 as i128 + *v as i128,
                        };
                        if !matches!(to, SeekFrom::Start(_)) {
                            nontrivial = true;
                        }
                        if t < 0 {
                            expect = None;
                            probe("seek_before_start");
                        } else if t > i64::MAX as i128 {
                            outside = true;
                        } else {
                            pos = t as u64;
                            if matches!(to, SeekFrom::Current(v) | SeekFrom::End(v) if *v < 0) {
                                probe("null_negative_seek");
                            }
                        }
                    }
                    _ => {}
                }
            }
            if outside {
                // No file accepts this; it must not panic, and the history goes on from where it is.
                probe("null_extreme");
                if let (Some(_), Ok(v)) = (need(&op), &r) {
                    if Some(v) != expect.as_ref() {
                        violate("value", &format!("{}, expected zeros", who));
                    }
                }
                twin = None;
                pos = tell(&mut s);
                size = match quiet(|| sut_call(|| s.h().reported_size())) {
                    Ok(Ok(n)) => n as u64,
                    Ok(Err(_)) => size,
                    Err(p) => violate("panic", &format!("{}; then the size query: {}", who, p)),
                };
                if pos > i64::MAX as u64 {
                    let r = quiet(|| sut_call(|| sut::exec(&mut s, &SOp::Seek(SeekFrom::Start(3)))));
                    if !matches!(r, Ok(Ok(_))) {
                        violate("stuck", &format!("{}; then seeking to 3: {}", who, show(&r)));
                    }
                    pos = 3;
                }
                if size > i64::MAX as u64 {
                    break;
                }
                continue;
            }
            match (&expect, &r) {
                (Some(v), Ok(x)) if v == x => {}
                (None, Err(_)) => {}
                (Some(v), _) => violate("value", &format!("{}, expected {:?}", who, v)),
                (None, Ok(_)) => violate("not-refused", &who),
            }
            let now = look(looks[k], false, true, pos0, pos, &who, &mut s);
            if now != pos {
                violate("position", &format!("{}; the position is {}, expected {}", who, now, pos));
            }
            let big = match &op {
                SOp::Seek(_) => false,
                o => op_bytes(o).map_or(false, |b| !b.is_empty()) && pos > 1 << 20,
            };
            if big {
                twin = None;
            }
            if let Some(tw) = &mut twin {
                begin_op();
                let x = sut_call(|| sut::exec(tw, &op));
                end_op();
                slog!("T{} file -> {}", t, show(&x));
                match (&op, &x) {
                    (_, Err(p)) => violate("panic", p),
                    (SOp::Tell | SOp::Size, Ok(Ok(v))) => {
                        if Some(v) != expect.as_ref() {
                            violate("differs-from-file", &format!("{}, a file gives {:?}", who, v));
                        }
                    }
                    (SOp::Seek(_), Ok(a)) => {
                        if a.is_ok() != r.is_ok() {
                            violate("differs-from-file", &format!("{}, a file gives {}", who, show(&x)));
                        }
                    }
                    _ => {}
                }
                if need(&op).is_some() {
                    // A read past the end is refused by the file; both go on from the same place.
                    let _ = quiet(|| sut_call(|| sut::exec(tw, &SOp::Seek(SeekFrom::Start(pos)))));
                }
                let tp = tell(tw);
                if tp != now {
                    violate("differs-from-file", &format!("{}; positions {} and {} (file)", who, now, tp));
                }
                let fs = sim().disk.inodes[ino].img.size;
                if fs != size {
                    violate("harness", &format!("{}; model size {}, file size {}", who, size, fs));
                }
            }
        }
        quiet(|| drop(twin));
        case(0, nontrivial);
    };
    (Box::new(body), text)
}
