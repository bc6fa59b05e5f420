//! An independent decoder of profile files, used as the oracle, with generators of images and damage.
use crate::choice::Gen;
use crate::sim::*;
use lcms2::types::{Profile, ProfileID, Signature};

#[derive(Clone, Debug, PartialEq)]
pub struct RefTag {
    pub sig: u32,
    pub off: u32,
    pub size: u32,
    /// Signatures of the earlier entries with this extent; empty: not linked.
    pub links: Vec<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RefProf {
    /// (year, month, day, hour, minute, second)
    pub created: [u16; 6],
    pub version: u32,
    pub device_class: u32,
    pub color_space: u32,
    pub pcs: u32,
    pub rendering_intent: u32,
    pub flags: u32,
    pub manufacturer: u32,
    pub model: u32,
    pub attributes: u64,
    pub creator: u32,
    pub profile_id: [u8; 16],
    pub tags: Vec<RefTag>,
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Defects {
    pub eof: bool,
    pub magic: bool,
    pub date: bool,
    pub count: bool,
}
impl Defects {
    pub fn any(&self) -> bool {
        self.eof || self.content()
    }
    pub fn content(&self) -> bool {
        self.magic || self.date || self.count
    }
}
pub const HEADER: usize = 128;
pub const DIR: usize = 132;
pub const MAX_TAGS: u32 = 100;

/// The library under test was built with its little-endian option (property C20).
pub const LE: bool = cfg!(feature = "le");

/// A number of 1 to 8 stored bytes.
pub fn num(b: &[u8]) -> u64 {
    let take = |a: u64, x: &u8| a << 8 | *x as u64;
    if LE {
        b.iter().rev().fold(0, take)
    } else {
        b.iter().fold(0, take)
    }
}
/// The `n` bytes that store a number.
pub fn stored(v: u64, n: usize) -> Vec<u8> {
    (0..n).map(|i| (v >> (8 * if LE { i } else { n - 1 - i })) as u8).collect()
}
pub fn get16(b: &[u8], o: usize) -> u16 {
    num(&b[o..o + 2]) as u16
}
pub fn get32(b: &[u8], o: usize) -> u32 {
    num(&b[o..o + 4]) as u32
}
pub fn put16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&stored(v as u64, 2));
}
pub fn put32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&stored(v as u64, 4));
}
pub fn days_in(y: u32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 0,
    }
}
pub fn date_ok(d: &[u16; 6]) -> bool {
    let (y, m, day) = (d[0] as u32, d[1] as u32, d[2] as u32);
    day >= 1 && day <= days_in(y, m) && d[3] < 24 && d[4] < 60 && d[5] < 60
}
/// Decodes the first bytes of a file of the given size.
pub fn decode(b: &[u8], size: u64) -> Result<RefProf, Defects> {
    let mut bad = Defects::default();
    let n = (b.len() as u64).min(size) as usize;
    let b = &b[..n];
    if n < HEADER {
        bad.eof = true;
        return Err(bad);
    }
    let mut created = [0u16; 6];
    for (i, c) in created.iter_mut().enumerate() {
        *c = get16(b, 24 + 2 * i);
    }
    bad.magic = get32(b, 36) != u32::from_be_bytes(*b"acsp");
    bad.date = !date_ok(&created);
    let mut tags: Vec<RefTag> = vec![];
    if n < DIR {
        bad.eof = true;
    } else {
        let count = get32(b, HEADER);
        bad.count = count > MAX_TAGS;
        if !bad.count && n < DIR + 12 * count as usize {
            bad.eof = true;
        } else if !bad.count {
            let limit = size.min(get32(b, 0) as u64);
            for i in 0..count as usize {
                let (sig, off, sz) = (get32(b, DIR + 12 * i), get32(b, DIR + 12 * i + 4), get32(b, DIR + 12 * i + 8));
                let end = off as u64 + sz as u64;
                // An extent overflows if its end is no 32-bit offset.
                if end > u32::MAX as u64 || end > limit {
                    continue;
                }
                let links = tags.iter().filter(|t| t.off == off && t.size == sz).map(|t| t.sig).collect();
                tags.push(RefTag { sig, off, size: sz, links });
            }
        }
    }
    if bad.any() {
        return Err(bad);
    }
    let mut profile_id = [0; 16];
    profile_id.copy_from_slice(&b[84..100]);
    Ok(RefProf {
        created,
        version: get32(b, 8),
        device_class: get32(b, 12),
        color_space: get32(b, 16),
        pcs: get32(b, 20),
        flags: get32(b, 44),
        manufacturer: get32(b, 48),
        model: get32(b, 52),
        attributes: num(&b[56..64]),
        rendering_intent: get32(b, 64),
        creator: get32(b, 80),
        profile_id,
        tags,
    })
}
pub fn decode_img(img: &crate::disk::Image) -> Result<RefProf, Defects> {
    decode(&img.data_padded(1 << 12), img.size)
}

// ---------------------------------------------------------------------------------------------------------
// Reading a profile through its accessors and its debug rendering.

/// Splits `a, b, c` at depth 0.
fn split(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let (mut depth, mut i, mut start, mut out) = (0i32, 0, 0, vec![]);
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            b'(' | b'[' | b'{' => depth += 1,
            b')' | b']' | b'}' => depth -= 1,
            b',' if depth == 0 => {
                out.push(s[start..i].trim());
                start = i + 1;
            }
            _ => {}
        }
        i += 1;
    }
    let last = s[start.min(s.len())..].trim();
    if !last.is_empty() {
        out.push(last);
    }
    out
}
/// Collects `field: value` pairs of a struct rendering, also of structs nested in it.
fn fields<'a>(text: &'a str, out: &mut Vec<(&'a str, &'a str)>) {
    let Some(open) = text.find('{') else { return };
    let name = text[..open].trim();
    if name.contains('"') || name.contains('[') || !text.ends_with('}') {
        return;
    }
    for f in split(&text[open + 1..text.len() - 1]) {
        let Some(c) = f.find(':') else { continue };
        let (k, v) = (f[..c].trim(), f[c + 1..].trim());
        if k.is_empty() || !k.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
            continue;
        }
        out.push((k, v));
        if k != "io" && !v.starts_with("Signature") && !v.starts_with("ProfileID") {
            fields(v, out);
        }
    }
}
pub struct View {
    text: String,
}
impl View {
    pub fn of(p: &Profile) -> View {
        View { text: quiet(|| sut::debug(p)) }
    }
    fn all(&self) -> Vec<(&str, &str)> {
        let mut v = vec![];
        fields(&self.text, &mut v);
        v
    }
}
pub fn sig_text(v: u32) -> String {
    format!("{:?}", Signature::from(v))
}
fn array(v: &str) -> Option<Vec<&str>> {
    let v = v.strip_prefix('[')?.strip_suffix(']')?;
    Some(split(v))
}
pub struct Cmp<'a> {
    f: Vec<(&'a str, &'a str)>,
    pub diff: Option<String>,
}
impl<'a> Cmp<'a> {
    fn get(&self, name: &str) -> Option<&'a str> {
        let r = self.f.iter().find(|x| x.0 == name).map(|x| x.1);
        count(if r.is_some() { crate::shared::C::cmp_fields } else { crate::shared::C::cmp_missing }, 1);
        r
    }
    fn note(&mut self, t: String) {
        if self.diff.is_none() {
            self.diff = Some(t);
        }
    }
    fn any(&mut self, name: &str, want: &[String]) {
        if let Some(v) = self.get(name) {
            if !want.iter().any(|w| w == v) {
                self.note(format!("{} is {}, stored is {}", name, v, want[0]));
            }
        }
    }
    fn word(&mut self, name: &str, v: u32) {
        self.any(name, &[v.to_string(), sig_text(v)]);
    }
    fn sig(&mut self, name: &str, v: u32) {
        self.any(name, &[sig_text(v), v.to_string()]);
    }
    fn list(&mut self, name: &str, n: usize, ok: impl Fn(usize, &str) -> bool, want: impl Fn(usize) -> String) {
        if let Some(v) = self.get(name).and_then(array) {
            if v.len() < n {
                return self.note(format!("{} has {} elements, {} tags are stored", name, v.len(), n));
            }
            for i in 0..n {
                if !ok(i, v[i]) {
                    return self.note(format!("{}[{}] is {}, stored is {}", name, i, v[i], want(i)));
                }
            }
        }
    }
}
/// The creation time a profile reports, in nanoseconds since 1970, or as text if it cannot be parsed.
pub fn created_ns(p: &Profile) -> Option<Result<i128, String>> {
    let v = View::of(p);
    let a = v.all();
    let t = a.iter().find(|x| x.0 == "created")?.1;
    let t = t.strip_suffix('Z').unwrap_or(t);
    match chrono::NaiveDateTime::parse_from_str(t, "%Y-%m-%dT%H:%M:%S%.f") {
        Ok(d) => Some(Ok(d.timestamp() as i128 * 1_000_000_000 + d.timestamp_subsec_nanos() as i128)),
        Err(_) => Some(Err(t.to_string())),
    }
}
pub fn field(p: &Profile, name: &str) -> Option<String> {
    let v = View::of(p);
    let r = v.all().iter().find(|x| x.0 == name).map(|x| x.1.to_string());
    r
}
/// Compares a profile opened for reading with what is stored.
pub fn diff(p: &Profile, want: &RefProf) -> Option<String> {
    let n = quiet(|| sut::tag_count(p));
    if n != want.tags.len() {
        return Some(format!("{} tags reported, {} stored", n, want.tags.len()));
    }
    for (i, t) in want.tags.iter().enumerate() {
        let s: u32 = quiet(|| sut::tag_signature(p, i)).into();
        if s != t.sig {
            return Some(format!("tag {} has signature {:08x}, stored is {:08x}", i, s, t.sig));
        }
    }
    let v = View::of(p);
    let mut c = Cmp { f: v.all(), diff: None };
    let d = &want.created;
    let date = chrono::NaiveDate::from_ymd_opt(d[0] as i32, d[1] as u32, d[2] as u32)
        .and_then(|x| x.and_hms_opt(d[3] as u32, d[4] as u32, d[5] as u32));
    match date {
        Some(x) => c.any("created", &[format!("{:?}", x), format!("{:?}Z", x)]),
        None => finish(crate::shared::ST_ERROR, "harness-date", &format!("{:?}", d)),
    }
    c.word("version", want.version);
    c.sig("device_class", want.device_class);
    c.sig("color_space", want.color_space);
    c.sig("pcs", want.pcs);
    c.word("rendering_intent", want.rendering_intent);
    c.word("flags", want.flags);
    c.word("manufacturer", want.manufacturer);
    c.word("model", want.model);
    c.any("attributes", &[want.attributes.to_string()]);
    c.word("creator", want.creator);
    c.any("profile_id", &[format!("{:?}", ProfileID { id8: want.profile_id })]);
    let t = &want.tags;
    c.list("tag_names", n, |i, v| v == sig_text(t[i].sig), |i| sig_text(t[i].sig));
    c.list("tag_offsets", n, |i, v| v == t[i].off.to_string(), |i| t[i].off.to_string());
    c.list("tag_sizes", n, |i, v| v == t[i].size.to_string(), |i| t[i].size.to_string());
    c.list(
        "tag_linked",
        n,
        |i, v| match t[i].links.is_empty() {
            true => v == "None",
            false => t[i].links.iter().any(|l| v == format!("Some({})", sig_text(*l))),
        },
        |i| format!("{:?}", t[i].links.iter().map(|l| sig_text(*l)).collect::<Vec<_>>()),
    );
    c.any("is_write", &["false".into()]);
    c.diff
}
/// Beyond the tag count every signature is blank.
pub fn beyond(p: &Profile) -> Option<String> {
    let n = quiet(|| sut::tag_count(p));
    let wide = [n, 0, 1].into_iter().flat_map(|k| [8, 16, 31, 32, 63].map(|b| (1usize << b) + k));
    let near = [n, n + 1, n + 99, n + 100, n + 128, 99, 100, 101, 127, 128, 255, usize::MAX, usize::MAX - 99, usize::MAX / 12 + 1];
    for k in near.into_iter().chain(wide) {
        if k < n {
            continue;
        }
        let r = quiet(|| sut_call(|| u32::from(sut::tag_signature(p, k))));
        match r {
            Ok(v) if v == u32::from_be_bytes(*b"    ") => {}
            Ok(v) => return Some(format!("tag {} of {} has signature {:08x}", k, n, v)),
            Err(m) => return Some(format!("asking for tag {} of {} panicked: {}", k, n, m)),
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------------------
// Generators.

const SIGS: &[&[u8; 4]] = &[
    b"desc", b"A2B0", b"A2B1", b"B2A0", b"B2A1", b"rig0", b"wtpt", b"cprt", b"chad", b"rXYZ", b"rTRC", b"    ", b"acsp",
    b"\0\0\0\0", b"\xff\xff\xff\xff", b"\"}{]",
];
pub fn word(g: &Gen) -> u32 {
    match g.w(&[6, 6, 4, 1]) {
        0 => g.u32(),
        3 => g.known(0, u32::MAX as u64).unwrap_or(0) as u32,
        1 => *g.pick(&[0, 1, 0xff, 0x100, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0102_0304, 0xff00_0000]),
        _ => u32::from_be_bytes(**g.pick(SIGS)),
    }
}
pub fn gen_date(g: &Gen) -> [u16; 6] {
    let y = match g.w(&[12, 8, 1]) {
        2 => g.known(0, 65535).unwrap_or(0) as u16,
        0 => *g.pick(&[2007u16, 0, 1, 4, 100, 400, 1582, 1600, 1900, 1970, 1999, 2000, 2004, 2038, 2100, 2400, 9999, 65535]),
        _ => g.u(65536) as u16,
    };
    let m = 1 + g.u(12) as u16;
    let last = days_in(y as u32, m as u32) as u16;
    let m2 = if g.p(1, 6) { 2 } else { m };
    let last = if m2 == 2 { days_in(y as u32, 2) as u16 } else { last };
    let d = match g.u(3) {
        0 => 1 + g.u(last as u32) as u16,
        1 => last,
        _ => 1,
    };
    let h = *g.pick(&[0, 23, 11, 12, g.u(24) as u16]);
    let mi = *g.pick(&[5, 59, 0, g.u(60) as u16]);
    let s = *g.pick(&[37, 59, 0, g.u(60) as u16]);
    [y, m2, d, h, mi, s]
}
pub fn put_date(b: &mut [u8], d: &[u16; 6]) {
    for (i, v) in d.iter().enumerate() {
        put16(b, 24 + 2 * i, *v);
    }
}
pub fn tag_number(g: &Gen) -> usize {
    match g.w(&[16, 6, 4, 2, 1]) {
        4 => g.known(0, 100).unwrap_or(17) as usize,
        0 => g.u(12) as usize,
        1 => 0,
        2 => *g.pick(&[100, 99, 64, 33]),
        _ => g.u(101) as usize,
    }
}
/// A well-formed profile with `n` tags.
pub fn intact_n(g: &Gen, n: usize) -> Vec<u8> {
    let payload = match g.w(&[60, 1, 1]) {
        // A length next to a constant of the code or a power of two.
        1 => g.known((DIR + 12 * n) as u64, 70_000).map_or(0, |v| v as usize - DIR - 12 * n),
        2 => ((1usize << (9 + g.u(8))) + g.u(3) as usize - 1).saturating_sub(DIR + 12 * n),
        _ => *g.pick(&[0usize, 1, 12, 40, 200, 700]),
    };
    let size = DIR + 12 * n + payload;
    let mut b = vec![0u8; size];
    for o in (0..HEADER).step_by(4) {
        put32(&mut b, o, word(g));
    }
    let declared = match g.w(&[8, 2, 1, 1]) {
        0 => size as u32,
        1 => size as u32 + 1 + g.u(5000),
        2 => 0xffff_ffff,
        _ => size as u32 + 1,
    };
    put32(&mut b, 0, declared);
    if declared as usize == size {
        probe("declared_equal");
    }
    if declared as usize > size {
        probe("declared_larger");
    }
    put32(&mut b, 36, u32::from_be_bytes(*b"acsp"));
    let d = gen_date(g);
    if d[1] == 2 && d[2] == 29 {
        probe("leap_day");
    }
    put_date(&mut b, &d);
    put32(&mut b, HEADER, n as u32);
    if n == 0 {
        probe("tags_0");
    }
    if n == 100 {
        probe("tags_100");
    }
    let mut ext: Vec<(u32, u32)> = vec![];
    for i in 0..n {
        let lim = size as u32;
        let (off, sz) = match g.w(&[6, 2, 3, 1, 1, 2]) {
            1 if !ext.is_empty() => {
                probe("shared_extent");
                *g.pick(&ext)
            }
            2 => {
                let s = g.u(lim.min(300) + 1);
                probe("extent_at_end");
                (lim - s, s)
            }
            3 => (0, 0),
            4 => (g.u(lim + 1), 0),
            5 if !ext.is_empty() => {
                // Same offset or same size as another entry, but not the same extent.
                let (o, s) = *g.pick(&ext);
                if g.p(1, 2) {
                    (o, g.u(lim - o + 1))
                } else {
                    (g.u(lim - s + 1), s)
                }
            }
            _ => {
                let o = g.u(lim + 1);
                (o, g.u(lim - o + 1))
            }
        };
        ext.push((off, sz));
        let sig = if g.p(2, 3) { u32::from_be_bytes(**g.pick(SIGS)) } else { word(g) };
        put32(&mut b, DIR + 12 * i, sig);
        put32(&mut b, DIR + 12 * i + 4, off);
        put32(&mut b, DIR + 12 * i + 8, sz);
    }
    for i in DIR + 12 * n..size {
        b[i] = (i * 7 + 13) as u8;
    }
    b
}
pub fn intact(g: &Gen) -> Vec<u8> {
    let n = tag_number(g);
    intact_n(g, n)
}
/// A well-formed profile almost like `base`: same length as a rule, a few bytes different.
fn some_tag(g: &Gen, n: usize) -> usize {
    match g.w(&[5, 3, 1]) {
        0 => g.u(n as u32) as usize,
        1 => n - 1,
        _ => 0,
    }
}
pub fn variant(g: &Gen, base: &[u8]) -> Vec<u8> {
    let mut b = base.to_vec();
    if b.len() < DIR {
        return b;
    }
    let n = get32(&b, HEADER).min(((b.len() - DIR) / 12) as u32) as usize;
    for _ in 0..*g.pick(&[1, 1, 1, 2, 3]) {
        match g.w(&[6, 6, 1, 1, 1, 2, 1, 3, 2, 2]) {
            0 => {
                // One bit of the header, the magic and the date apart.
                let at = *g.pick(&[
                    8usize, 11, 12, 15, 16, 19, 20, 23, 44, 47, 48, 51, 52, 55, 56, 59, 60, 63, 64, 67, 80, 83, 84, 90, 91, 99,
                ]);
                b[at] ^= 1 << g.u(8);
            }
            1 if n > 0 => {
                // One field of one tag.
                let at = DIR + 12 * some_tag(g, n);
                match g.u(4) {
                    0 => b[at + g.u(4) as usize] ^= 1 << g.u(8),
                    1 => {
                        let o = get32(&b, at + 4);
                        put32(&mut b, at + 4, o.saturating_sub(1 + g.u(3)));
                    }
                    2 => {
                        let s = get32(&b, at + 8);
                        put32(&mut b, at + 8, s.saturating_sub(1 + g.u(3)));
                    }
                    _ => {
                        let (o, s) = (get32(&b, at + 4), get32(&b, at + 8));
                        if s > 0 && o < u32::MAX {
                            put32(&mut b, at + 4, o + 1);
                            put32(&mut b, at + 8, s - 1);
                        }
                    }
                }
            }
            2 => {
                let at = 24 + 2 * *g.pick(&[5usize, 4, 3, 0]);
                let v = get16(&b, at);
                put16(&mut b, at, if v > 0 { v - 1 } else { 1 });
                let mut d = [0u16; 6];
                for (i, x) in d.iter_mut().enumerate() {
                    *x = get16(&b, 24 + 2 * i);
                }
                if !date_ok(&d) {
                    put16(&mut b, at, v);
                }
            }
            3 => {
                // Bytes no profile keeps.
                let at = *g.pick(&[4usize, 40, 43, 68, 79, 100, 127]);
                b[at] ^= 1 << g.u(8);
            }
            4 if b.len() > DIR + 12 * n => {
                let last = b.len() - 1;
                b[last] ^= 0x55;
            }
            5 if n > 0 => put32(&mut b, HEADER, n as u32 - 1),
            6 if n > 1 => {
                let i = DIR + 12 * g.u(n as u32 - 1) as usize;
                for k in 0..12 {
                    b.swap(i + k, i + 12 + k);
                }
            }
            8 => {
                // Two words of the header change places.
                let (i, j) = (*g.pick(&[8usize, 12, 16, 20, 44, 48, 52, 56, 60, 64, 80, 84, 88]), *g.pick(&[12usize, 20, 48, 52, 60, 84, 92, 96]));
                for k in 0..4 {
                    b.swap(i + k, j + k);
                }
            }
            9 if n > 1 => {
                // Two entries exchange one field, or move something from one to the other.
                let i = DIR + 12 * some_tag(g, n);
                let j = DIR + 12 * some_tag(g, n);
                let f = 4 * g.u(3) as usize;
                if g.p(1, 2) {
                    for k in f..f + 4 {
                        b.swap(i + k, j + k);
                    }
                } else {
                    let (x, y) = (get32(&b, i + f), get32(&b, j + f));
                    let d = (1 + g.u(4)).min(x);
                    put32(&mut b, i + f, x - d);
                    put32(&mut b, j + f, y.saturating_add(d));
                }
            }
            _ if n < 100 && b.len() >= DIR + 12 * n + 12 => {
                // What follows the directory becomes an entry.
                put32(&mut b, HEADER, n as u32 + 1);
                let at = DIR + 12 * n;
                let (sig, off, size) = match g.u(3) {
                    0 => (0, 0, 0),
                    1 if n > 0 => (get32(&b, at - 12), get32(&b, at - 8), get32(&b, at - 4)),
                    _ => (word(g), 128, 4),
                };
                put32(&mut b, at, sig);
                put32(&mut b, at + 4, off);
                put32(&mut b, at + 8, size);
            }
            _ => b[83] ^= 1,
        }
    }
    b
}
/// A small well-formed profile, distinct for every `id`.
pub fn small(g: &Gen, id: u32) -> Vec<u8> {
    let n = g.u(5) as usize;
    let mut b = intact_n(g, n);
    put32(&mut b, 52, 0x1000_0000 + id);
    put32(&mut b, 80, 0x2000_0000 + id);
    b
}
/// Damages an image; returns a description.
pub fn damage(g: &Gen, b: &mut Vec<u8>) -> String {
    let n = if b.len() >= DIR { get32(b, HEADER).min(MAX_TAGS) as usize } else { 0 };
    let have_dir = n > 0 && b.len() >= DIR + 12 * n;
    match g.w(&[4, 4, 3, 3, 3, 4, 2, 2, 2, 2, 4, 1]) {
        11 if b.len() >= DIR => {
            // A field in the wrong byte order, or with its bytes or words exchanged.
            let (n, w) = (b.len().min(DIR + 12 * n), *g.pick(&[4usize, 2, 8]));
            let at = w * g.u((n / w) as u32) as usize;
            match g.u(3) {
                0 => b[at..at + w].reverse(),
                1 => b[at..at + w].rotate_left(w / 2),
                _ => b[at..at + w].rotate_left(1),
            }
            format!("bytes {}..{} exchanged", at, at + w)
        }
        10 if have_dir => {
            // Extents ending around the declared and the actual size, which differ a little.
            let len = b.len() as u32;
            let d = match g.u(3) {
                0 => len.saturating_sub(1 + g.u(12)),
                1 => len + 1 + g.u(12),
                _ => len,
            };
            put32(b, 0, d);
            let mut t = format!("declared size {} of {}, ends", d, len);
            for _ in 0..1 + g.u(3) {
                let i = g.u(n as u32) as usize;
                let (lo, hi) = (d.min(len), d.max(len));
                let end = match g.u(4) {
                    0 => lo,
                    1 => lo + 1,
                    2 => hi + g.u(2),
                    _ => lo + g.u(hi - lo + 1),
                };
                let s = *g.pick(&[1u32, 0, 4, 20]);
                let s = s.min(end);
                put32(b, DIR + 12 * i + 4, end - s);
                put32(b, DIR + 12 * i + 8, s);
                t += &format!(" [{}]={}", i, end);
            }
            t
        }
        0 if !b.is_empty() => {
            let k = 1 + g.u(3);
            let mut t = "flip".to_string();
            for _ in 0..k {
                let lim = b.len().min(DIR + 12 * n) as u32;
                let at = g.u(lim.max(1)) as usize;
                let bit = g.u(8);
                b[at] ^= 1 << bit;
                t += &format!(" {}.{}", at, bit);
            }
            t
        }
        1 => {
            let at = match g.u(6) {
                0 => g.u(b.len() as u32 + 1) as usize,
                1 => *g.pick(&[0, 1, 127, 128, 129, 131, 132, 133]),
                2 => DIR + 12 * g.u(n as u32 + 1) as usize,
                3 => (DIR + 12 * g.u(n as u32 + 1) as usize).saturating_sub(1),
                4 => DIR + 12 * g.u(n as u32 + 1) as usize + 1,
                _ => b.len().saturating_sub(1),
            };
            b.truncate(at);
            format!("truncate to {}", b.len())
        }
        2 if b.len() >= 40 => {
            match g.w(&[6, 1, 1, 1, 1, 1, 1]) {
                0 => {
                    let i = 36 + g.u(4) as usize;
                    b[i] = b[i].wrapping_add(1 + g.u(255) as u8);
                }
                1 => b[36..40].reverse(),
                2 => b[36..40].make_ascii_uppercase(),
                3 => b[36..40].rotate_left(2),
                4 => {
                    let v = *g.pick(&[0, u32::MAX, 0x2020_2020, get32(b, 4), get32(b, 12)]);
                    put32(b, 36, v);
                }
                5 => put32(b, 36, g.known(0, u32::MAX as u64).unwrap_or(0) as u32),
                _ => {
                    for i in 36..40 {
                        b[i] ^= g.pick(&[0u8, 0x20, 0x80, 1]);
                    }
                }
            }
            "magic".into()
        }
        3 if b.len() >= 36 => {
            let mut d = [0u16; 6];
            for (i, x) in d.iter_mut().enumerate() {
                *x = get16(b, 24 + 2 * i);
            }
            match g.u(10) {
                0 => d[1] = 0,
                1 => d[1] = 13,
                2 => d[2] = 0,
                3 => d[2] = 32,
                4 => {
                    d[1] = 2;
                    d[2] = 29;
                    d[0] = *g.pick(&[1900, 2001, 2100, 100, 2007]);
                }
                5 => {
                    d[1] = *g.pick(&[4, 6, 9, 11]);
                    d[2] = 31;
                }
                6 => d[3] = *g.pick(&[24, 25, 0x1800, 65535]),
                7 => d[4] = *g.pick(&[60, 61, 65535]),
                8 => d[5] = *g.pick(&[60, 61, 65535]),
                _ => d = [g.u(65536) as u16, g.u(16) as u16, g.u(34) as u16, g.u(26) as u16, g.u(62) as u16, g.u(62) as u16],
            }
            put_date(b, &d);
            format!("date {:?}", d)
        }
        4 if b.len() >= DIR => {
            let mut c = *g.pick(&[101, 100, 102, 128, 200, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0100_0000, n as u32 + 1, 1, 2]);
            match c {
                1 => c = g.known(0, u32::MAX as u64).unwrap_or(103) as u32,
                2 => c = word(g),
                _ => {}
            }
            put32(b, HEADER, c);
            format!("count {}", c)
        }
        5 if have_dir => {
            let k = 1 + g.u(n.min(5) as u32);
            let mut t = "extents".to_string();
            for _ in 0..k {
                let i = g.u(n as u32) as usize;
                let lim = (b.len() as u32).min(get32(b, 0));
                let (o, s) = match g.u(9) {
                    0 => {
                        let o = g.u(lim + 1);
                        (o, lim - o + 1)
                    }
                    1 => (lim, 1),
                    2 => (lim + 1, 0),
                    3 => (0xffff_ffff, 1),
                    4 => (0xffff_ffff, 0xffff_ffff),
                    5 => (0x8000_0000, 0x8000_0000),
                    6 => {
                        let o = 1 + g.u(lim.clamp(1, 0xffff_fff0));
                        (o, 0u32.wrapping_sub(o).wrapping_add(g.u(2)))
                    }
                    7 => (word(g), word(g)),
                    _ => {
                        let o = g.u(lim + 1);
                        (o, lim - o)
                    }
                };
                if o as u64 + s as u64 > u32::MAX as u64 {
                    probe("overflow_extent");
                }
                put32(b, DIR + 12 * i + 4, o);
                put32(b, DIR + 12 * i + 8, s);
                t += &format!(" [{}]={}+{}", i, o, s);
            }
            t
        }
        6 if b.len() >= 4 => {
            let v = match g.u(4) {
                0 => *g.pick(&[0, 1, 128, 131, 132]),
                1 => g.u(b.len() as u32 + 1),
                2 => (b.len() as u32).wrapping_sub(1),
                _ => word(g),
            };
            if (v as usize) < b.len() {
                probe("declared_smaller");
            }
            put32(b, 0, v);
            format!("declared size {}", v)
        }
        7 => {
            let n = b.len().min(1 + g.u(200) as usize);
            *b = g.bytes(n);
            format!("garbage {}", n)
        }
        8 if !b.is_empty() => {
            // A sector-like block replaced by zeros or noise.
            let sec = *g.pick(&[16usize, 64, 512]);
            let at = g.u((b.len() / sec) as u32 + 1) as usize * sec;
            let end = (at + sec).min(b.len());
            let zero = g.p(1, 2);
            for i in at.min(end)..end {
                b[i] = if zero { 0 } else { g.u(256) as u8 };
            }
            format!("block {}..{}", at, end)
        }
        _ => {
            let extra = g.u(40) as usize;
            b.extend(std::iter::repeat(0x5a).take(extra));
            format!("append {}", extra)
        }
    }
}
/// Counts what an image exercises.
pub fn note_defects(r: &Result<RefProf, Defects>, stored: usize) {
    match r {
        Ok(p) => {
            if p.tags.len() < stored {
                probe("tag_dropped");
            }
        }
        Err(d) => {
            if d.magic {
                probe("bad_magic");
            }
            if d.date {
                probe("bad_date");
            }
            if d.count {
                probe("too_many_tags");
            }
            if d.eof {
                probe("eof_directory");
            }
        }
    }
}
