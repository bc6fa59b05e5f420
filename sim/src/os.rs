//! The operating system as the simulated code sees it: libc entry points defined in this executable take
//! precedence over the C library's for everything linked into it, the Rust standard library included.
//! Calls that do not concern simulated files, clocks or threads go to the real kernel.
use crate::disk::*;
use crate::shared::*;
use crate::sim::*;
use libc::{c_char, c_int, c_uint, c_long, c_void};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// A real system call; returns -errno on failure.
pub unsafe fn raw(n: isize, a: isize, b: isize, c: isize, d: isize, e: isize, f: isize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}
macro_rules! pass {
    ($n:expr) => { ret(raw($n as isize, 0, 0, 0, 0, 0, 0)) };
    ($n:expr, $a:expr) => { ret(raw($n as isize, $a as isize, 0, 0, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr) => { ret(raw($n as isize, $a as isize, $b as isize, 0, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr) => { ret(raw($n as isize, $a as isize, $b as isize, $c as isize, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr) => {
        ret(raw($n as isize, $a as isize, $b as isize, $c as isize, $d as isize, 0, 0))
    };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => {
        ret(raw($n as isize, $a as isize, $b as isize, $c as isize, $d as isize, $e as isize, 0))
    };
}
unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if p.is_null() || !ready() {
        return None;
    }
    let b = std::ffi::CStr::from_ptr(p).to_bytes();
    // Relative to the working directory of simulated code.
    if b.first().map_or(false, |c| *c != b'/') && tid() >= 0 {
        let _rt = Rt::enter();
        return Some(format!("/sim/{}", String::from_utf8_lossy(b)));
    }
    if !(b.starts_with(b"/sim/") || b == b"/sim") {
        return None;
    }
    let _rt = Rt::enter();
    Some(String::from_utf8_lossy(b).into_owned())
}
fn sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE && ready()
}
/// Runs the model of a call inside the runtime, quietly unless simulated code made it.
fn model(f: impl FnOnce() -> isize) -> isize {
    let outer = simulated();
    let r = {
        let _rt = Rt::enter();
        if outer {
            f()
        } else {
            quiet(f)
        }
    };
    ret(r)
}
fn natural(k: K, e: i32) -> isize {
    if !(k == K::Lseek && e == libc::EINVAL) {
        note_hard(k, e);
    }
    -(e as isize)
}
/// Fault handling around the model of one call.
fn call(k: K, what: String, body: impl FnOnce(Option<u32>) -> isize) -> isize {
    let f = enter(k, &what);
    let (short, crash_after) = match f {
        Fault::Errno(e) => {
            note_hard(k, e);
            leave(k, &what, -1, e);
            return -(e as isize);
        }
        Fault::Short(n) => (Some(n), false),
        Fault::CrashAfter => (None, true),
        Fault::None => (None, false),
    };
    let r = body(short);
    if crash_after {
        log(&format!("T{} {} -> took effect", tid(), what));
        crash();
    }
    leave(k, &what, r as i64, if r < 0 { -r as i32 } else { 0 });
    r
}
fn bad_fd(fd: c_int) -> isize {
    if !is_quiet() {
        acct().op.bad_fd.push(fd);
    }
    -(libc::EBADF as isize)
}

// ---------------------------------------------------------------------------------------------------------
// Files.

fn do_open(path: &str, flags: c_int) -> isize {
    let s = sim();
    let seq = s.seq;
    let d = &mut s.disk;
    let excl = flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0;
    let path = match d.resolve(path, !excl && flags & libc::O_NOFOLLOW == 0) {
        Ok(p) => p,
        Err(e) => return natural(K::Open, e),
    };
    let path = &path[..];
    if d.links.contains_key(path) {
        return natural(K::Open, if excl { libc::EEXIST } else { libc::ELOOP });
    }
    let acc = flags & libc::O_ACCMODE;
    let write = acc != libc::O_RDONLY;
    let read = acc != libc::O_WRONLY;
    if d.fds.len() >= d.fd_limit {
        count(C::fault_emfile, 1);
        return natural(K::Open, libc::EMFILE);
    }
    let mut ofd = Ofd {
        ino: usize::MAX,
        pos: 0,
        read,
        write,
        append: flags & libc::O_APPEND != 0,
        dir: false,
        refs: 1,
        wb_err: false,
        lock: 0,
        path: path.to_string(),
    };
    if d.dirs.contains(path) {
        if write || flags & libc::O_CREAT != 0 {
            return natural(K::Open, libc::EISDIR);
        }
        ofd.dir = true;
    } else {
        if let Some(i) = path.rfind('/') {
            if d.names.contains_key(&path[..i]) {
                return natural(K::Open, libc::ENOTDIR);
            }
        }
        match d.names.get(path).copied() {
            Some(ino) => {
                if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                    return natural(K::Open, libc::EEXIST);
                }
                if flags & libc::O_DIRECTORY != 0 {
                    return natural(K::Open, libc::ENOTDIR);
                }
                let n = &mut d.inodes[ino];
                if write && !n.writable || read && !n.readable {
                    return natural(K::Open, libc::EACCES);
                }
                if flags & libc::O_TRUNC != 0 {
                    change(ino, Rec::Trunc(0));
                }
                ofd.ino = ino;
            }
            None => {
                if flags & libc::O_CREAT == 0 || !d.parent_ok(path) {
                    return natural(K::Open, libc::ENOENT);
                }
                if d.in_ro_dir(path) {
                    return natural(K::Open, libc::EACCES);
                }
                if d.capacity.map_or(false, |c| d.used() >= c) {
                    count(C::fault_disk_full, 1);
                    return natural(K::Open, libc::ENOSPC);
                }
                ofd.ino = d.put(seq, path, Image::default());
                d.inodes[ofd.ino].fd_changes = 1;
            }
        }
    }
    let d = &mut sim().disk;
    let ino = ofd.ino;
    d.ofds.push(ofd);
    let i = d.ofds.len() - 1;
    let fd = d.new_fd(i);
    if !is_quiet() {
        let op = &mut acct().op;
        op.opened.push(fd);
        op.opened_inode = Some(ino);
    }
    fd as isize
}
fn change(ino: usize, r: Rec) {
    let n = &mut sim().disk.inodes[ino];
    n.img.apply(&r);
    n.pending.push(r);
    n.version += 1;
    n.fd_changes += 1;
    n.max_size = n.max_size.max(n.img.size);
    n.sizes.push(n.img.size);
    n.mtime = tick();
}
fn flags_text(f: c_int) -> String {
    let mut t = match f & libc::O_ACCMODE {
        libc::O_RDONLY => "r",
        libc::O_WRONLY => "w",
        _ => "rw",
    }
    .to_string();
    for (b, n) in [(libc::O_CREAT, "+creat"), (libc::O_TRUNC, "+trunc"), (libc::O_APPEND, "+append"), (libc::O_EXCL, "+excl")] {
        if f & b != 0 {
            t.push_str(n);
        }
    }
    t
}
unsafe fn open_impl(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    match sim_path(path) {
        Some(p) => model(|| call(K::Open, format!("open({}, {})", p, flags_text(flags)), |_| do_open(&p, flags))) as c_int,
        None => pass!(2, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_impl(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_impl(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if sim_path(path).is_some() {
        return open_impl(path, flags, mode);
    }
    pass!(257, dir, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: c_int) -> c_int {
    open_impl(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: c_int) -> c_int {
    creat(path, mode)
}

fn do_read(fd: c_int, buf: &mut [u8], off: Option<u64>, short: Option<u32>) -> isize {
    let s = sim();
    let Some(o) = s.disk.ofd(fd) else { return bad_fd(fd) };
    if o.dir {
        return natural(K::Read, libc::EISDIR);
    }
    if !o.read {
        return natural(K::Read, libc::EBADF);
    }
    let (ino, pos) = (o.ino, off.unwrap_or(o.pos));
    let size = s.disk.inodes[ino].img.size;
    let avail = size.saturating_sub(pos).min(buf.len() as u64) as usize;
    let mut n = avail;
    if let Some(k) = short {
        n = n.min(k as usize);
        if n < avail {
            count(C::fault_short_read, 1);
            if !is_quiet() {
                acct().op.benign += 1;
            }
        }
    }
    // A length the file never has (a gigabyte-sized buffer) is still served: only what exists is copied.
    s.disk.inodes[ino].img.read(pos, &mut buf[..n]);
    if off.is_none() {
        s.disk.ofd(fd).unwrap().pos = pos + n as u64;
    }
    if !is_quiet() {
        let op = &mut acct().op;
        op.bytes_read += n as u64;
        if pos < 1 << 16 && op.view.len() < 1 << 16 {
            op.view.push((pos, buf[..n.min(1 << 14)].to_vec()));
        }
        op.read_end = op.read_end.max(pos + n as u64);
    }
    n as isize
}
unsafe fn slice_mut<'a>(p: *mut c_void, n: usize) -> &'a mut [u8] {
    if n == 0 {
        &mut []
    } else {
        std::slice::from_raw_parts_mut(p as *mut u8, n)
    }
}
unsafe fn slice<'a>(p: *const c_void, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p as *const u8, n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if !sim_fd(fd) {
        return pass!(0, fd, buf, n);
    }
    model(|| call(K::Read, format!("read({}, {})", fdn(fd), n), |s| do_read(fd, slice_mut(buf, n), None, s)))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if !sim_fd(fd) {
        return pass!(17, fd, buf, n, off);
    }
    model(|| {
        call(K::Read, format!("pread({}, {}, at {})", fdn(fd), n, off), |s| do_read(fd, slice_mut(buf, n), Some(off as u64), s))
    })
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if !sim_fd(fd) {
        return pass!(19, fd, iov, cnt);
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return read(fd, v.iov_base, v.iov_len);
        }
    }
    0
}

fn do_write(fd: c_int, buf: &[u8], off: Option<u64>, short: Option<u32>) -> isize {
    let s = sim();
    let Some(o) = s.disk.ofd(fd) else { return bad_fd(fd) };
    if !o.write || o.dir {
        return natural(K::Write, libc::EBADF);
    }
    let (ino, append) = (o.ino, o.append);
    let size = s.disk.inodes[ino].img.size;
    let pos = off.unwrap_or(if append { size } else { s.disk.ofd(fd).unwrap().pos });
    if buf.is_empty() {
        return 0;
    }
    if pos + buf.len() as u64 > 64 << 20 {
        return natural(K::Write, libc::EFBIG);
    }
    let mut n = buf.len();
    if let Some(k) = short {
        if (k as usize) < n {
            n = k as usize;
            count(C::fault_short_write, 1);
            if !is_quiet() {
                acct().op.benign += 1;
            }
        }
    }
    if let Some(cap) = s.disk.capacity {
        let have = s.disk.inodes[ino].img.data.len() as u64;
        let room = have + cap.saturating_sub(s.disk.used());
        let room = room.saturating_sub(pos);
        if (n as u64) > room {
            count(C::fault_disk_full, 1);
            if room == 0 {
                return natural(K::Write, libc::ENOSPC);
            }
            n = room as usize;
        }
    }
    change(ino, Rec::Write(pos, buf[..n].to_vec()));
    if off.is_none() {
        s.disk.ofd(fd).unwrap().pos = pos + n as u64;
    }
    if !is_quiet() {
        acct().op.bytes_written += n as u64;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if !sim_fd(fd) {
        return pass!(1, fd, buf, n);
    }
    model(|| call(K::Write, format!("write({}, {})", fdn(fd), n), |s| do_write(fd, slice(buf, n), None, s)))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if !sim_fd(fd) {
        return pass!(18, fd, buf, n, off);
    }
    model(|| {
        call(K::Write, format!("pwrite({}, {}, at {})", fdn(fd), n, off), |s| do_write(fd, slice(buf, n), Some(off as u64), s))
    })
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if !sim_fd(fd) {
        return pass!(20, fd, iov, cnt);
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
fn fdn(fd: c_int) -> String {
    let s = sim();
    let fds = &s.disk.fds;
    match fds.get(&fd) {
        Some(i) => format!("#{}:{}", fd - FD_BASE, s.disk.ofds[*i].path.trim_start_matches("/sim/")),
        None => format!("#{}", fd - FD_BASE),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if !sim_fd(fd) {
        return pass!(8, fd, off, whence) as i64;
    }
    let wt = match whence {
        libc::SEEK_SET => "start",
        libc::SEEK_CUR => "current",
        _ => "end",
    };
    model(|| {
        call(K::Lseek, format!("lseek({}, {} {:+})", fdn(fd), wt, off), |_| {
            let s = sim();
            let Some(o) = s.disk.ofd(fd) else { return bad_fd(fd) };
            let (ino, pos, dir) = (o.ino, o.pos, o.dir);
            let base = match whence {
                libc::SEEK_SET => 0i128,
                libc::SEEK_CUR => pos as i128,
                libc::SEEK_END => {
                    if dir {
                        i64::MAX as i128
                    } else {
                        s.disk.inodes[ino].img.size as i128
                    }
                }
                _ => return natural(K::Lseek, libc::EINVAL),
            };
            let t = base + off as i128;
            if t < 0 {
                return natural(K::Lseek, libc::EINVAL);
            }
            if t > i64::MAX as i128 {
                return natural(K::Lseek, libc::EOVERFLOW);
            }
            s.disk.ofd(fd).unwrap().pos = t as u64;
            t as isize
        })
    }) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}
fn do_sync(fd: c_int) -> isize {
    let s = sim();
    let Some(o) = s.disk.ofd(fd) else { return bad_fd(fd) };
    if o.dir {
        return 0;
    }
    let ino = o.ino;
    if o.wb_err {
        o.wb_err = false;
        return natural(K::Sync, libc::EIO);
    }
    s.disk.sync(ino);
    0
}
unsafe fn sync_impl(fd: c_int, name: &str) -> c_int {
    model(|| {
        let what = format!("{}({})", name, fdn(fd));
        let f = enter(K::Sync, &what);
        if let Fault::Errno(e) = f {
            if e != libc::EINTR {
                note_hard(K::Sync, e);
                // Like Linux, the failed pages may be marked clean: a retry then succeeds without them.
                let s = sim();
                if let Some(ino) = s.disk.ofd(fd).map(|o| o.ino) {
                    if ino != usize::MAX && s.streams[FAULT].draw(s.sh, 2) == 1 {
                        count(C::fault_fsync_drop, 1);
                        log("the data that could not be written is dropped");
                        s.disk.inodes[ino].pending.clear();
                        for (i, o) in s.disk.ofds.iter_mut().enumerate() {
                            if o.ino == ino && s.disk.fds.values().any(|x| *x == i) {
                                o.wb_err = true;
                            }
                        }
                        s.disk.ofd(fd).unwrap().wb_err = false;
                    }
                }
            }
            leave(K::Sync, &what, -1, e);
            return -(e as isize);
        }
        let r = do_sync(fd);
        if let Fault::CrashAfter = f {
            log(&format!("T{} {} -> took effect", tid(), what));
            crash();
        }
        leave(K::Sync, &what, r as i64, -r as i32);
        r
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return sync_impl(fd, "fsync");
    }
    pass!(74, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return sync_impl(fd, "fdatasync");
    }
    pass!(75, fd) as c_int
}
/// Starts or awaits writing of pages, but neither of the file's size nor out of the device's cache: no guarantee.
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, off: i64, n: i64, flags: c_uint) -> c_int {
    if !sim_fd(fd) {
        return pass!(277, fd, off, n, flags) as c_int;
    }
    model(|| {
        call(K::Sync, format!("sync_file_range({})", fdn(fd)), |_| match sim().disk.ofd(fd) {
            None => bad_fd(fd),
            Some(_) => 0,
        })
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if !sim_fd(fd) {
        return pass!(306, fd) as c_int;
    }
    model(|| {
        call(K::Sync, format!("syncfs({})", fdn(fd)), |_| {
            let s = sim();
            if s.disk.ofd(fd).is_none() {
                return bad_fd(fd);
            }
            for i in 0..s.disk.inodes.len() {
                s.disk.sync(i);
            }
            0
        })
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !sim_fd(fd) {
        return pass!(3, fd) as c_int;
    }
    model(|| {
        let what = format!("close({})", fdn(fd));
        let f = enter(K::Close, &what);
        // The descriptor is gone whatever close reports.
        let s = sim();
        let r = match s.disk.fds.remove(&fd) {
            Some(i) => {
                s.disk.ofds[i].refs -= 1;
                if s.disk.ofds[i].refs == 0 && s.disk.ofds[i].lock != 0 {
                    s.disk.ofds[i].lock = 0;
                    file_locks_changed(s.disk.ofds[i].ino);
                }
                if !is_quiet() {
                    acct().op.closed.push(fd);
                }
                0
            }
            None => bad_fd(fd),
        };
        match f {
            Fault::Errno(e) => {
                leave(K::Close, &what, -1, e);
                return -(e as isize);
            }
            Fault::CrashAfter => {
                log(&format!("T{} {} -> took effect", tid(), what));
                crash()
            }
            _ => {}
        }
        leave(K::Close, &what, r as i64, -r as i32);
        r
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if !sim_fd(fd) {
        return pass!(77, fd, n) as c_int;
    }
    model(|| {
        call(K::Write, format!("ftruncate({}, {})", fdn(fd), n), |_| {
            let s = sim();
            let Some(o) = s.disk.ofd(fd) else { return bad_fd(fd) };
            if !o.write || n < 0 {
                return natural(K::Write, libc::EINVAL);
            }
            let ino = o.ino;
            change(ino, Rec::Trunc(n as u64));
            0
        })
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}

enum Target {
    Path(String),
    /// The link itself.
    Link(String),
    Fd(c_int),
}
const LINK: usize = usize::MAX - 1;
/// (directory?, size, inode, writable) or -errno.
fn do_stat(t: &Target) -> Result<(bool, u64, usize, bool), isize> {
    let d = &mut sim().disk;
    match t {
        Target::Path(p) | Target::Link(p) => {
            let p = match d.resolve(p, matches!(t, Target::Path(_))) {
                Ok(p) => p,
                Err(e) => return Err(natural(K::Stat, e)),
            };
            if d.dirs.contains(&p) {
                return Ok((true, 4096, 0, true));
            }
            if let Some(l) = d.links.get(&p) {
                return Ok((false, l.len() as u64, LINK, true));
            }
            match d.names.get(&p) {
                Some(i) => Ok((false, d.inodes[*i].img.size, *i, d.inodes[*i].writable)),
                None => Err(natural(K::Stat, libc::ENOENT)),
            }
        }
        Target::Fd(fd) => match d.ofd(*fd) {
            None => Err(bad_fd(*fd)),
            Some(o) if o.dir => Ok((true, 4096, 0, true)),
            Some(o) => {
                let i = o.ino;
                Ok((false, d.inodes[i].img.size, i, d.inodes[i].writable))
            }
        },
    }
}
/// Inode number and time of last change.
fn identity(dir: bool, ino: usize) -> (u64, u64) {
    let d = &sim().disk;
    match d.inodes.get(ino) {
        Some(n) if !dir => (n.num, n.mtime),
        _ => (1, 1_400_000_000_000_000_000),
    }
}
fn stat_call(t: Target, fill: impl FnOnce(u64, (u64, u64), u32)) -> isize {
    model(|| {
        let what = match &t {
            Target::Path(p) => format!("stat({})", p),
            Target::Link(p) => format!("lstat({})", p),
            Target::Fd(fd) => format!("fstat({})", fdn(*fd)),
        };
        call(K::Stat, what, |_| match do_stat(&t) {
            Ok((dir, size, ino, w)) => {
                let perm = if w { 0o644 } else { 0o444 };
                let ty = if dir { libc::S_IFDIR } else if ino == LINK { libc::S_IFLNK } else { libc::S_IFREG };
                fill(size, identity(dir, ino), perm | ty);
                0
            }
            Err(e) => e,
        })
    })
}
unsafe fn fill_stat(st: *mut libc::stat64, size: u64, (ino, time): (u64, u64), mode: u32) {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_size = size as i64;
    (*st).st_ino = ino;
    (*st).st_dev = 99;
    (*st).st_mtime = (time / 1_000_000_000) as i64;
    (*st).st_mtime_nsec = (time % 1_000_000_000) as i64;
    (*st).st_ctime = (*st).st_mtime;
    (*st).st_ctime_nsec = (*st).st_mtime_nsec;
    (*st).st_mode = mode;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !sim_fd(fd) {
        return pass!(5, fd, st) as c_int;
    }
    stat_call(Target::Fd(fd), |size, id, mode| fill_stat(st, size, id, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(path) {
        Some(p) => stat_call(Target::Path(p), |size, id, mode| fill_stat(st, size, id, mode)) as c_int,
        None => pass!(4, path, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(path) {
        Some(p) => stat_call(Target::Link(p), |size, id, mode| fill_stat(st, size, id, mode)) as c_int,
        None => pass!(6, path, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    let t = match sim_path(path) {
        Some(p) if flags & libc::AT_SYMLINK_NOFOLLOW != 0 => Target::Link(p),
        Some(p) => Target::Path(p),
        None if sim_fd(dir) => Target::Fd(dir),
        None => return pass!(262, dir, path, st, flags) as c_int,
    };
    stat_call(t, |size, id, mode| fill_stat(st, size, id, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    let t = match sim_path(path) {
        Some(p) if flags & libc::AT_SYMLINK_NOFOLLOW != 0 => Target::Link(p),
        // "" with AT_EMPTY_PATH
        Some(p) if p != "/sim/" || !sim_fd(dir) => Target::Path(p),
        _ if sim_fd(dir) => Target::Fd(dir),
        _ => return pass!(332, dir, path, flags, mask, st) as c_int,
    };
    stat_call(t, |size, (ino, time), mode| {
        std::ptr::write_bytes(st, 0, 1);
        (*st).stx_mask = 0x7ff;
        (*st).stx_size = size;
        (*st).stx_ino = ino;
        (*st).stx_dev_minor = 99;
        (*st).stx_mtime.tv_sec = (time / 1_000_000_000) as i64;
        (*st).stx_mtime.tv_nsec = (time % 1_000_000_000) as u32;
        (*st).stx_ctime = (*st).stx_mtime;
        (*st).stx_btime = (*st).stx_mtime;
        (*st).stx_mode = mode as u16;
        (*st).stx_nlink = 1;
        (*st).stx_blksize = 4096;
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    match sim_path(path) {
        Some(p) => model(|| {
            call(K::Stat, format!("access({})", p), |_| match do_stat(&Target::Path(p.clone())) {
                Ok((_, _, _, w)) if mode & libc::W_OK != 0 && !w => natural(K::Stat, libc::EACCES),
                Ok(_) => 0,
                Err(e) => e,
            })
        }) as c_int,
        None => pass!(21, path, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if !sim_fd(fd) {
        return pass!(72, fd, cmd, arg) as c_int;
    }
    model(|| match cmd {
        libc::F_DUPFD_CLOEXEC | libc::F_DUPFD => call(K::Other, format!("dup({})", fdn(fd)), |_| {
            let s = sim();
            let d = &mut s.disk;
            let Some(&o) = d.fds.get(&fd) else { return bad_fd(fd) };
            if d.fds.len() >= d.fd_limit {
                return natural(K::Other, libc::EMFILE);
            }
            d.ofds[o].refs += 1;
            let n = d.new_fd(o);
            if !is_quiet() {
                acct().op.opened.push(n);
            }
            n as isize
        }),
        libc::F_GETFL => match sim().disk.ofd(fd) {
            Some(o) => match (o.read, o.write) {
                (true, true) => libc::O_RDWR as isize,
                (false, true) => libc::O_WRONLY as isize,
                _ => libc::O_RDONLY as isize,
            },
            None => -(libc::EBADF as isize),
        },
        libc::F_GETFD => match sim().disk.ofd(fd) {
            Some(_) => libc::FD_CLOEXEC as isize,
            None => -(libc::EBADF as isize),
        },
        _ => 0,
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
static LOCK_WORDS: [std::sync::atomic::AtomicU32; 64] = [const { std::sync::atomic::AtomicU32::new(0) }; 64];
fn file_lock_word(ino: usize) -> usize {
    &LOCK_WORDS[ino % 64] as *const _ as usize
}
fn file_locks_changed(ino: usize) {
    LOCK_WORDS[ino % 64].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    if !is_quiet() {
        futex_wake(file_lock_word(ino), u32::MAX);
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !sim_fd(fd) {
        return pass!(73, fd, op) as c_int;
    }
    model(|| {
        let what = format!("flock({}, {})", fdn(fd), op);
        loop {
            let s = sim();
            let Some(&i) = s.disk.fds.get(&fd) else { return bad_fd(fd) };
            let ino = s.disk.ofds[i].ino;
            if op & libc::LOCK_UN != 0 {
                s.disk.ofds[i].lock = 0;
                log(&what);
                file_locks_changed(ino);
                return 0;
            }
            let excl = op & libc::LOCK_EX != 0;
            let held = |o: &Ofd| o.refs > 0 && o.ino == ino && (o.lock == 2 || o.lock == 1 && excl);
            if !s.disk.ofds.iter().enumerate().any(|(k, o)| k != i && held(o)) {
                s.disk.ofds[i].lock = if excl { 2 } else { 1 };
                log(&what);
                return 0;
            }
            if op & libc::LOCK_NB != 0 {
                return natural(K::Other, libc::EWOULDBLOCK);
            }
            if is_quiet() {
                return natural(K::Other, libc::EDEADLK);
            }
            let w = file_lock_word(ino);
            let v = unsafe { (*(w as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) };
            futex_wait(w, v, None);
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: i64, b: i64, c: c_int) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    pass!(221, fd, a, b, c) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, f: u32) -> isize {
    if sim_fd(a) || sim_fd(b) {
        return ret(-(libc::ENOSYS as isize));
    }
    ret(raw(326, a as isize, ao as isize, b as isize, bo as isize, n as isize, f as isize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: usize) -> isize {
    if sim_fd(a) || sim_fd(b) {
        return ret(-(libc::EINVAL as isize));
    }
    pass!(40, a, b, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    match sim_path(path) {
        Some(p) => {
            let r = stat_call(Target::Path(p.clone()), |_, _, _| ());
            if r < 0 {
                return std::ptr::null_mut();
            }
            let _rt = Rt::enter();
            let real = sim().disk.resolve(&p, true).unwrap_or(p);
            let real = std::ffi::CString::new(real).unwrap();
            if out.is_null() {
                libc::strdup(real.as_ptr())
            } else {
                libc::strcpy(out, real.as_ptr())
            }
        }
        None => libc::strdup(path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if tid() >= 0 && ready() {
        if buf.is_null() || n < 5 {
            *libc::__errno_location() = libc::ERANGE;
            return std::ptr::null_mut();
        }
        return libc::strcpy(buf, c"/sim".as_ptr());
    }
    if pass!(79, buf, n) < 0 {
        return std::ptr::null_mut();
    }
    buf
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: usize) -> isize {
    match sim_path(p) {
        Some(p) => model(|| {
            call(K::Stat, format!("readlink({})", p), |_| {
                let d = &sim().disk;
                let p = match d.resolve(&p, false) {
                    Ok(p) => p,
                    Err(e) => return natural(K::Stat, e),
                };
                match d.links.get(&p) {
                    Some(t) => {
                        let k = t.len().min(n);
                        std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                        k as isize
                    }
                    None if d.names.contains_key(&p) || d.dirs.contains(&p) => -libc::EINVAL as isize, // not a link: an answer, no failure
                    None => natural(K::Stat, libc::ENOENT),
                }
            })
        }),
        None => pass!(89, p, buf, n),
    }
}
/// A change of a name. `f` gets the resolved path.
fn name_call(what: &str, p: &str, f: impl FnOnce(&str) -> isize) -> c_int {
    model(|| {
        call(K::Other, format!("{}({})", what, p), |_| match sim().disk.resolve(p, false) {
            Ok(p) if sim().disk.in_ro_dir(&p) => natural(K::Other, libc::EACCES),
            Ok(p) => f(&p),
            Err(e) => natural(K::Other, e),
        })
    }) as c_int
}
fn other(e: c_int) -> isize {
    natural(K::Other, e)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => name_call(&format!("rename({})", a), &b, |b| {
            let s = sim();
            let seq = s.seq;
            let d = &mut s.disk;
            let a = match d.resolve(&a, false) {
                Ok(a) => a,
                Err(e) => return other(e),
            };
            if !d.parent_ok(b) {
                return other(libc::ENOENT);
            }
            if let Some(t) = d.links.remove(&a) {
                d.link(seq, b, &t);
                d.relog(seq);
                return 0;
            }
            let Some(i) = d.names.remove(&a) else { return other(libc::ENOENT) };
            d.links.remove(b);
            d.names.insert(b.to_string(), i);
            d.inodes[i].fd_changes += 1;
            d.relog(seq);
            0
        }),
        _ => pass!(82, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char) -> c_int {
    if sim_path(a).is_some() && sim_path(b).is_some() {
        return rename(a, b);
    }
    pass!(264, ad, a, bd, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(p) => name_call("unlink", &p, |p| {
            let s = sim();
            let seq = s.seq;
            if s.disk.dirs.contains(p) {
                return other(libc::EISDIR);
            }
            if !s.disk.names.contains_key(p) && !s.disk.links.contains_key(p) {
                return other(libc::ENOENT);
            }
            s.disk.remove(seq, p);
            0
        }),
        None => pass!(87, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if sim_path(p).is_some() {
        return if flags & libc::AT_REMOVEDIR != 0 { rmdir(p) } else { unlink(p) };
    }
    pass!(263, d, p, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(p) => name_call("rmdir", &p, |p| {
            let d = &mut sim().disk;
            if !d.dirs.contains(p) {
                return other(libc::ENOENT);
            }
            let inside = format!("{}/", p);
            let used = |x: &String| x.starts_with(&inside);
            if d.names.keys().any(used) || d.links.keys().any(used) || d.dirs.iter().any(used) {
                return other(libc::ENOTEMPTY);
            }
            d.dirs.remove(p);
            0
        }),
        None => pass!(84, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: c_int) -> c_int {
    match sim_path(p) {
        Some(p) => name_call("mkdir", &p, |p| {
            let d = &mut sim().disk;
            if !d.parent_ok(p) {
                return other(libc::ENOENT);
            }
            if d.names.contains_key(p) || d.links.contains_key(p) || !d.dirs.insert(p.to_string()) {
                return other(libc::EEXIST);
            }
            0
        }),
        None => pass!(83, p, m) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(p) => {
            let t = std::ffi::CStr::from_ptr(t).to_string_lossy().into_owned();
            name_call("symlink", &p, |p| {
                let s = sim();
                let seq = s.seq;
                let d = &mut s.disk;
                if !d.parent_ok(p) {
                    return other(libc::ENOENT);
                }
                if d.names.contains_key(p) || d.links.contains_key(p) || d.dirs.contains(p) {
                    return other(libc::EEXIST);
                }
                d.link(seq, p, &t);
                0
            })
        }
        None => pass!(88, t, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char, flags: c_int) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => name_call(&format!("link({})", a), &b, |b| {
            let s = sim();
            let seq = s.seq;
            let d = &mut s.disk;
            let Some(&i) = d.resolve(&a, false).ok().and_then(|a| d.names.get(&a)) else { return other(libc::ENOENT) };
            if !d.parent_ok(b) {
                return other(libc::ENOENT);
            }
            if d.names.contains_key(b) || d.links.contains_key(b) {
                return other(libc::EEXIST);
            }
            d.names.insert(b.to_string(), i);
            d.relog(seq);
            0
        }),
        _ => pass!(265, ad, a, bd, b, flags) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
/// Permissions, owners and times count as changes of the file.
fn meta_fd(fd: c_int, what: &str) -> c_int {
    model(|| {
        call(K::Other, format!("{}({})", what, fdn(fd)), |_| {
            let Some(o) = sim().disk.ofd(fd) else { return bad_fd(fd) };
            let i = o.ino;
            if let Some(n) = sim().disk.inodes.get_mut(i) {
                n.fd_changes += 1;
            }
            0
        })
    }) as c_int
}
fn meta_path(p: &str, what: &str) -> c_int {
    model(|| {
        call(K::Other, format!("{}({})", what, p), |_| match sim().disk.lookup(p) {
            Some(i) => {
                sim().disk.inodes[i].fd_changes += 1;
                0
            }
            None => other(libc::ENOENT),
        })
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: c_int) -> c_int {
    if sim_fd(fd) {
        let r = meta_fd(fd, "fchmod");
        if let (0, Some(o)) = (r, sim().disk.ofd(fd).map(|o| o.ino)) {
            if let Some(n) = sim().disk.inodes.get_mut(o) {
                n.writable = m & 0o200 != 0;
            }
        }
        return r;
    }
    pass!(91, fd, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: c_int) -> c_int {
    match sim_path(p) {
        Some(p) => {
            let r = meta_path(&p, "chmod");
            if let (0, Some(i)) = (r, sim().disk.lookup(&p)) {
                sim().disk.inodes[i].writable = m & 0o200 != 0;
            }
            r
        }
        None => pass!(90, p, m) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, m: c_int, flags: c_int) -> c_int {
    if sim_path(p).is_some() {
        return chmod(p, m);
    }
    let _ = flags;
    pass!(268, d, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if sim_fd(fd) {
        return meta_fd(fd, "futimens");
    }
    pass!(280, fd, 0usize, t, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const libc::timespec, flags: c_int) -> c_int {
    match sim_path(p) {
        Some(p) => meta_path(&p, "utimensat"),
        None => pass!(280, d, p, t, flags) as c_int,
    }
}

// ---------------------------------------------------------------------------------------------------------
// Time, randomness, threads.

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if !simulated() {
        return pass!(228, id, ts) as c_int;
    }
    model(|| {
        let t = match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                enter(K::Clock, "clock");
                let t = realtime();
                leave(K::Clock, "clock", t as i64, 0);
                t
            }
            _ => {
                let s = sim();
                s.now += jitter(s.now, 60);
                s.now
            }
        };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        0
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if !simulated() {
        return pass!(96, tv, tz) as c_int;
    }
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !simulated() {
        return -raw(230, id as isize, flags as isize, ts as isize, rem as isize, 0, 0) as c_int;
    }
    model(|| {
        let d = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
        let d = if flags & libc::TIMER_ABSTIME != 0 { d.saturating_sub(sim().now) } else { d };
        log(&format!("T{} sleeps {} ns", tid(), d));
        sleep_ns(d);
        0
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !simulated() {
        return pass!(35, ts, rem) as c_int;
    }
    clock_nanosleep(libc::CLOCK_MONOTONIC, 0, ts, rem)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !simulated() {
        return pass!(24) as c_int;
    }
    model(|| {
        // Time passes for a spinning thread, so that one waiting for a sleeper does not spin forever.
        sleep_ns(1000);
        0
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    if !simulated() {
        return pass!(318, buf, n, flags);
    }
    let s = sim();
    for b in slice_mut(buf, n) {
        s.rand_state = crate::choice::mix(s.rand_state);
        *b = s.rand_state as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let pass = |n| ret(raw(n, a as isize, b as isize, c as isize, d as isize, e as isize, f as isize)) as c_long;
    if !simulated() {
        return pass(n as isize);
    }
    match n {
        libc::SYS_futex => {
            let cmd = (b & 0x7f) as c_int;
            match cmd {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => model(|| {
                    let until = if d == 0 {
                        None
                    } else {
                        let ts = &*(d as *const libc::timespec);
                        let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                        Some(if cmd == libc::FUTEX_WAIT { sim().now + t } else { t })
                    };
                    futex_wait(a as usize, c as u32, until) as isize
                }) as c_long,
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => model(|| futex_wake(a as usize, c as u32) as isize) as c_long,
                _ => {
                    count(C::unsupported, 1);
                    ret(-(libc::ENOSYS as isize)) as c_long
                }
            }
        }
        libc::SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
        libc::SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long,
        libc::SYS_copy_file_range => {
            copy_file_range(a as c_int, b as *mut i64, c as c_int, d as *mut i64, e as usize, f as u32) as c_long
        }
        _ => pass(n as isize),
    }
}

// Threads the library starts become simulated threads.
type Start = unsafe extern "C" fn(*mut c_void) -> *mut c_void;
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static REAL_CREATE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static REAL_JOIN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn real(cell: &std::sync::atomic::AtomicUsize, name: &std::ffi::CStr) -> usize {
    use std::sync::atomic::Ordering::SeqCst;
    let mut v = cell.load(SeqCst);
    if v == 0 {
        v = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) } as usize;
        cell.store(v, SeqCst);
    }
    v
}
struct Adopted {
    id: usize,
    start: Start,
    arg: *mut c_void,
}
unsafe extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let a = {
        let _rt = Rt::enter();
        let a = Box::from_raw(p as *mut Adopted);
        adopted_begin(a.id);
        a
    };
    let r = (a.start)(a.arg);
    adopted_end(a.id);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const c_void, start: Start, arg: *mut c_void) -> c_int {
    let create: Create = std::mem::transmute(real(&REAL_CREATE, c"pthread_create"));
    if !simulated() || is_quiet() {
        return create(t, attr, start, arg);
    }
    let _rt = Rt::enter();
    let Some(id) = adopt() else { return libc::EAGAIN };
    let a = Box::into_raw(Box::new(Adopted { id, start, arg }));
    let r = create(t, attr, trampoline, a as *mut c_void);
    if r != 0 {
        finish(ST_ERROR, "harness-thread", "no thread could be created");
    }
    sim().threads[id].pthread = *t as u64;
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let join: Join = std::mem::transmute(real(&REAL_JOIN, c"pthread_join"));
    if simulated() && !is_quiet() {
        let _rt = Rt::enter();
        join_adopted(t as u64);
    }
    join(t, out)
}

// ---------------------------------------------------------------------------------------------------------
// Heap.

thread_local! {
    static HEAP_ON: Cell<bool> = const { Cell::new(false) };
    static HEAP_CUR: Cell<i64> = const { Cell::new(0) };
    static HEAP_PEAK: Cell<i64> = const { Cell::new(0) };
}
pub fn heap_begin() {
    HEAP_CUR.with(|c| c.set(0));
    HEAP_PEAK.with(|c| c.set(0));
    HEAP_ON.with(|c| c.set(true));
}
/// The peak, and what is still allocated.
pub fn heap_end() -> (u64, i64) {
    HEAP_ON.with(|c| c.set(false));
    (HEAP_PEAK.with(|c| c.get()).max(0) as u64, HEAP_CUR.with(|c| c.get()))
}
#[inline]
fn heap(delta: i64) {
    if HEAP_ON.with(|c| c.get()) && simulated() {
        let v = HEAP_CUR.with(|c| {
            c.set(c.get() + delta);
            c.get()
        });
        HEAP_PEAK.with(|c| {
            if v > c.get() {
                c.set(v)
            }
        });
    }
}
/// The simulated machine refuses single allocations of a gigabyte and more.
fn too_big(n: usize) -> bool {
    n >= 1 << 30 && HEAP_ON.with(|c| c.get()) && simulated()
}
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if too_big(l.size()) {
            heap(l.size() as i64);
            return std::ptr::null_mut();
        }
        heap(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        heap(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        heap(l.size() as i64);
        if too_big(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if too_big(n) {
            return std::ptr::null_mut();
        }
        heap(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Alloc = Alloc;

// ---------------------------------------------------------------------------------------------------------
// Instrumentation callbacks.

static mut GUARDS: u32 = 0;
pub fn guards() -> u32 {
    unsafe { GUARDS }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        GUARDS += 1;
        *start = GUARDS;
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if simulated() {
        let g = *guard as usize;
        if g < MAX_EDGES {
            sim().sh.edges[g] = 1;
        }
        step();
    }
}
macro_rules! cb { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(_: *const u8) { step() })* } }
cb!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

#[inline]
fn constant(c: u64) {
    // Small numbers come up anyway.
    if c < 16 || !simulated() {
        return;
    }
    let sh = &mut sim().sh;
    if sh.collect == 0 {
        return;
    }
    let n = sh.nconst as usize;
    if n < MAX_CONSTS && !sh.consts[..n].contains(&c) {
        sh.consts[n] = c;
        sh.nconst += 1;
    }
}
macro_rules! cmp { ($($n:ident $c:ident $t:ty;)*) => { $(
    #[no_mangle] pub extern "C" fn $n(_: $t, _: $t) {}
    #[no_mangle] pub extern "C" fn $c(a: $t, _: $t) { constant(a as u64) }
)* } }
cmp!(__sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64;);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_: u64, cases: *const u64) {
    if simulated() && sim().sh.collect != 0 {
        for i in 0..(*cases).min(64) as usize {
            constant(*cases.add(2 + i));
        }
    }
}
