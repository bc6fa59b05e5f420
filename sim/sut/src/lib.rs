//! Thin wrappers over lcms2's public API. This crate is compiled with the same instrumentation as lcms2, so
//! that the library's generic functions and default trait methods, which are instantiated here, have
//! preemption points too. Nothing here adds behaviour.
#![allow(unexpected_cfgs)]

use lcms2::io::{AccessMode, FileMem, FileNull, IOHandler};
use lcms2::plugins::Plugin;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::{Profile, Signature, CIEXYZ};
use std::fs::File;
use std::io::{Result, SeekFrom};

pub fn open(ctx: Option<&mut Context>, path: &str, write: bool) -> Result<Box<Profile>> {
    let mode = if write { AccessMode::Write } else { AccessMode::Read };
    match ctx {
        Some(c) => Profile::open_from_file_thr(c, path, mode),
        None => Profile::open_from_file(path, mode),
    }
}
pub fn new_profile() -> Profile {
    Profile::new()
}
pub fn tag_count(p: &Profile) -> usize {
    p.get_tag_count()
}
pub fn tag_signature(p: &Profile, n: usize) -> Signature {
    p.get_tag_signature(n)
}
pub fn has_io(p: &Profile) -> bool {
    p.get_io_handler().is_some()
}
pub fn same(a: &Profile, b: &Profile) -> bool {
    a == b
}
pub fn debug(p: &Profile) -> String {
    format!("{:?}", p)
}

pub fn new_context(data: Option<Box<[u8]>>) -> Context {
    Context::new(data)
}
pub fn clone_context(c: &Context) -> Context {
    c.clone()
}
pub fn init_plugin(c: &mut Context, p: &Plugin) -> std::result::Result<(), String> {
    c.init_plugin(p)
}
pub fn user_data(c: &Context) -> Option<Vec<u8>> {
    c.get_user_data().map(|d| d.to_vec())
}
pub type Handler = fn(&mut Context, ErrorCode, String);

pub const HOOKS: bool = cfg!(lcms2_dst);

#[cfg(lcms2_dst)]
pub fn set_handler(c: &mut Context, h: Handler) {
    lcms2::dst_hooks::set_error_handler(c, h)
}
#[cfg(lcms2_dst)]
pub fn set_global_handler(h: Handler) -> bool {
    lcms2::dst_hooks::set_global_error_handler(h)
}
#[cfg(not(lcms2_dst))]
pub fn set_handler(_: &mut Context, _: Handler) {}
#[cfg(not(lcms2_dst))]
pub fn set_global_handler(_: Handler) -> bool {
    true
}

/// A user-supplied stream: forwards the required methods, inherits every default method.
#[derive(Debug)]
pub struct User<B: Backend>(pub B);
pub trait Backend: std::fmt::Debug {
    fn read(&mut self, buf: &mut [u8]) -> Result<()>;
    fn seek(&mut self, pos: SeekFrom) -> Result<()>;
    fn close(&mut self) -> Result<()>;
    fn tell(&mut self) -> Result<usize>;
    fn write(&mut self, buf: &[u8]) -> Result<()>;
}
impl Backend for Box<dyn Backend> {
    fn read(&mut self, buf: &mut [u8]) -> Result<()> {
        (**self).read(buf)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<()> {
        (**self).seek(pos)
    }
    fn close(&mut self) -> Result<()> {
        (**self).close()
    }
    fn tell(&mut self) -> Result<usize> {
        (**self).tell()
    }
    fn write(&mut self, buf: &[u8]) -> Result<()> {
        (**self).write(buf)
    }
}
impl<B: Backend> IOHandler for User<B> {
    fn read(&mut self, buf: &mut [u8]) -> Result<()> {
        self.0.read(buf)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<()> {
        self.0.seek(pos)
    }
    fn close(mut self) -> Result<()> {
        self.0.close()
    }
    fn tell(&mut self) -> Result<usize> {
        self.0.tell()
    }
    fn write(&mut self, buf: &[u8]) -> Result<()> {
        self.0.write(buf)
    }
}

/// The streams under test. Typed accesses go through the trait object made here.
pub enum Stream<'a> {
    File(File),
    MemVec(FileMem<Vec<u8>>),
    MemVecMut(FileMem<&'a mut Vec<u8>>),
    MemBox(FileMem<Box<[u8]>>),
    MemSlice(FileMem<&'a mut [u8]>),
    Null(FileNull),
    User(User<Box<dyn Backend>>),
}
impl<'a> Stream<'a> {
    pub fn file(f: File) -> Self {
        Stream::File(f)
    }
    pub fn mem_vec(v: Vec<u8>) -> Self {
        Stream::MemVec(FileMem::new(v))
    }
    pub fn mem_vec_mut(v: &'a mut Vec<u8>) -> Self {
        Stream::MemVecMut(FileMem::new(v))
    }
    pub fn mem_box(v: Box<[u8]>) -> Self {
        Stream::MemBox(FileMem::new(v))
    }
    pub fn mem_slice(v: &'a mut [u8]) -> Self {
        Stream::MemSlice(FileMem::new(v))
    }
    pub fn null(default: bool) -> Self {
        Stream::Null(if default { FileNull::default() } else { FileNull::new() })
    }
    pub fn user(b: Box<dyn Backend>) -> Self {
        Stream::User(User(b))
    }
    pub fn h(&mut self) -> &mut dyn IOHandler {
        match self {
            Stream::File(x) => x,
            Stream::MemVec(x) => x,
            Stream::MemVecMut(x) => x,
            Stream::MemBox(x) => x,
            Stream::MemSlice(x) => x,
            Stream::Null(x) => x,
            Stream::User(x) => x,
        }
    }
    pub fn close(self) -> Result<()> {
        match self {
            Stream::File(x) => x.close(),
            Stream::MemVec(x) => x.close(),
            Stream::MemVecMut(x) => x.close(),
            Stream::MemBox(x) => x.close(),
            Stream::MemSlice(x) => x.close(),
            Stream::Null(x) => x.close(),
            Stream::User(x) => x.close(),
        }
    }
    pub fn file_ref(&self) -> Option<&File> {
        match self {
            Stream::File(f) => Some(f),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum SOp {
    Read(usize),
    Write(Vec<u8>),
    Seek(SeekFrom),
    Tell,
    Size,
    RU8,
    RU16,
    RU16A(usize),
    RU32,
    RF32,
    RU64,
    RS15,
    RXYZ,
    WU8(u8),
    WU16(u16),
    WU16A(Vec<u16>),
    WU32(u32),
    WF32(u32),
    WU64(u64),
    WS15(f64),
    WXYZ(f64, f64, f64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    N(u64),
    Bytes(Vec<u8>),
    Words(Vec<u16>),
    /// Bit patterns.
    F(Vec<u64>),
}

/// Runs one operation on a stream. Buffers are pre-filled with a pattern so that an access that succeeds
/// without delivering data is seen.
pub fn exec(s: &mut Stream, op: &SOp) -> Result<Val> {
    let h = s.h();
    Ok(match op {
        SOp::Read(n) => {
            let mut b = vec![0xA5u8; *n];
            h.read(&mut b)?;
            Val::Bytes(b)
        }
        SOp::Write(b) => {
            h.write(b)?;
            Val::Unit
        }
        SOp::Seek(p) => {
            h.seek(*p)?;
            Val::Unit
        }
        SOp::Tell => Val::N(h.tell()? as u64),
        SOp::Size => Val::N(h.reported_size()? as u64),
        SOp::RU8 => Val::N(h.read_u8()? as u64),
        SOp::RU16 => Val::N(h.read_u16()? as u64),
        SOp::RU16A(n) => {
            let mut b = vec![0xA5A5u16; *n];
            h.read_u16_array(&mut b)?;
            Val::Words(b)
        }
        SOp::RU32 => Val::N(h.read_u32()? as u64),
        SOp::RF32 => Val::F(vec![h.read_f32()?.to_bits() as u64]),
        SOp::RU64 => Val::N(h.read_u64()?),
        SOp::RS15 => Val::F(vec![h.read_s15f16()?.to_bits()]),
        SOp::RXYZ => {
            let v = h.read_xyz()?;
            Val::F(vec![v.X.to_bits(), v.Y.to_bits(), v.Z.to_bits()])
        }
        SOp::WU8(v) => {
            h.write_u8(*v)?;
            Val::Unit
        }
        SOp::WU16(v) => {
            h.write_u16(*v)?;
            Val::Unit
        }
        SOp::WU16A(v) => {
            h.write_u16_array(v)?;
            Val::Unit
        }
        SOp::WU32(v) => {
            h.write_u32(*v)?;
            Val::Unit
        }
        SOp::WF32(v) => {
            h.write_f32(f32::from_bits(*v))?;
            Val::Unit
        }
        SOp::WU64(v) => {
            h.write_u64(*v)?;
            Val::Unit
        }
        SOp::WS15(v) => {
            h.write_s15f16(*v)?;
            Val::Unit
        }
        SOp::WXYZ(x, y, z) => {
            h.write_xyz(CIEXYZ { X: *x, Y: *y, Z: *z })?;
            Val::Unit
        }
    })
}

/// The public conversion helpers against the standard library. `None` if all agree.
pub fn conversions_differ(v: u64) -> Option<&'static str> {
    use lcms2::io;
    let (a, b, c) = (v as u16, v as u32, v);
    macro_rules! check {
        ($m:path, $to:ident, $name:literal) => {{
            use $m as m;
            if m::adjust_endianness_u16(a) != a.$to() || m::adjust_endianness_16(a.to_ne_bytes()) != a.$to().to_ne_bytes() {
                return Some(concat!($name, " 16-bit conversion"));
            }
            if m::adjust_endianness_u32(b) != b.$to() || m::adjust_endianness_32(b.to_ne_bytes()) != b.$to().to_ne_bytes() {
                return Some(concat!($name, " 32-bit conversion"));
            }
            if m::adjust_endianness_u64(c) != c.$to() || m::adjust_endianness_64(c.to_ne_bytes()) != c.$to().to_ne_bytes() {
                return Some(concat!($name, " 64-bit conversion"));
            }
        }};
    }
    check!(io::little_endian, to_le, "the little-endian");
    check!(io::big_endian, to_be, "the big-endian");
    if cfg!(feature = "le") {
        check!(io, to_le, "the default");
    } else {
        check!(io, to_be, "the default");
    }
    None
}
