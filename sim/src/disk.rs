//! The simulated disk: inodes with a cached and a durable image, names, and what a crash leaves behind.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Rec {
    Write(u64, Vec<u8>),
    Trunc(u64),
}
#[derive(Clone, Debug, Default)]
pub struct Image {
    /// Bytes from offset 0; anything after them up to `size` reads as zero.
    pub data: Vec<u8>,
    pub size: u64,
}
impl Image {
    pub fn new(data: Vec<u8>) -> Self {
        let size = data.len() as u64;
        Image { data, size }
    }
    pub fn write(&mut self, off: u64, b: &[u8]) {
        let end = off as usize + b.len();
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[off as usize..end].copy_from_slice(b);
        self.size = self.size.max(end as u64);
    }
    pub fn trunc(&mut self, n: u64) {
        if (self.data.len() as u64) > n {
            self.data.truncate(n as usize);
        }
        self.size = n;
    }
    pub fn read(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.size {
            return 0;
        }
        let n = (buf.len() as u64).min(self.size - off) as usize;
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = self.data.get(off as usize + i).copied().unwrap_or(0);
        }
        n
    }
    pub fn apply(&mut self, r: &Rec) {
        match r {
            Rec::Write(o, b) => self.write(*o, b),
            Rec::Trunc(n) => self.trunc(*n),
        }
    }
    /// The first bytes, at most `n`, zero-extended as far as the size goes.
    pub fn data_padded(&self, n: usize) -> Vec<u8> {
        let mut v = vec![0; (n as u64).min(self.size) as usize];
        self.read(0, &mut v);
        v
    }
    /// The whole content.
    pub fn full(&self) -> Vec<u8> {
        let mut v = self.data.clone();
        v.truncate(self.size as usize);
        v.resize(self.size as usize, 0);
        v
    }
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub img: Image,
    pub durable: Image,
    pub pending: Vec<Rec>,
    pub readable: bool,
    pub writable: bool,
    /// Bumped by every change of content.
    pub version: u64,
    /// Largest size this inode ever had.
    pub max_size: u64,
    /// Number of changes made through descriptors (not by the environment).
    pub fd_changes: u64,
    /// Every size this inode ever had.
    pub sizes: Vec<u64>,
    /// What stat reports: numbers of freed inodes are used again, times have the kernel's tick resolution.
    pub num: u64,
    pub mtime: u64,
}
pub struct Ofd {
    pub ino: usize,
    pub pos: u64,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub dir: bool,
    pub refs: u32,
    /// A writeback error of the inode that this description has not been told yet.
    pub wb_err: bool,
    /// File lock held: 1 shared, 2 exclusive.
    pub lock: u8,
    pub path: String,
}
#[derive(Default)]
pub struct Disk {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    pub dirs: BTreeSet<String>,
    pub ro_dirs: BTreeSet<String>,
    /// Symbolic links.
    pub links: BTreeMap<String, String>,
    /// Paths whose meaning is recorded in `name_log`, and what they lead to now.
    pub watched: Vec<(String, Option<usize>)>,
    pub fds: BTreeMap<i32, usize>,
    pub ofds: Vec<Ofd>,
    pub fd_limit: usize,
    /// Descriptors of others in between: only every so many-th number is free.
    pub fd_step: i32,
    /// Names that were looked up and that nothing has, in existing directories.
    pub asked: std::cell::RefCell<BTreeSet<String>>,
    pub capacity: Option<u64>,
    /// (sequence number, path, inode or none) for every change of what a watched path leads to.
    pub name_log: Vec<(u64, String, Option<usize>)>,
}
pub fn tick() -> u64 {
    let t = if crate::sim::ready() { crate::sim::realtime() } else { 0 };
    t - t % 4_000_000
}
pub const FD_BASE: i32 = 1 << 20;

impl Disk {
    pub fn new() -> Self {
        let mut d = Disk { fd_limit: 1 << 16, fd_step: 1, ..Default::default() };
        d.dirs.insert("/sim".into());
        d
    }
    pub fn add_inode(&mut self, img: Image) -> usize {
        let live = |i: usize| {
            self.names.values().any(|n| *n == i) || self.fds.values().any(|o| self.ofds[*o].ino == i)
        };
        let used: Vec<u64> = (0..self.inodes.len()).filter(|i| live(*i)).map(|i| self.inodes[i].num).collect();
        let num = (2..).find(|n| !used.contains(n)).unwrap();
        self.inodes.push(Inode {
            num,
            mtime: tick(),
            durable: img.clone(),
            max_size: img.size,
            sizes: vec![img.size],
            img,
            pending: vec![],
            readable: true,
            writable: true,
            version: 0,
            fd_changes: 0,
        });
        self.inodes.len() - 1
    }
    pub fn put(&mut self, seq: u64, path: &str, img: Image) -> usize {
        let i = self.add_inode(img);
        let real = self.resolve(path, false).unwrap_or_else(|_| path.to_string());
        self.links.remove(&real);
        self.names.insert(real, i);
        self.watch(path);
        self.relog(seq);
        i
    }
    pub fn remove(&mut self, seq: u64, path: &str) {
        let real = self.resolve(path, false).unwrap_or_else(|_| path.to_string());
        if self.names.remove(&real).is_none() {
            self.links.remove(&real);
        }
        self.relog(seq);
    }
    /// Makes (or atomically changes) a symbolic link.
    pub fn link(&mut self, seq: u64, path: &str, target: &str) {
        self.names.remove(path);
        self.links.insert(path.to_string(), target.to_string());
        self.watch(path);
        self.relog(seq);
    }
    pub fn watch(&mut self, path: &str) {
        if !self.watched.iter().any(|w| w.0 == path) {
            self.watched.push((path.to_string(), None));
        }
    }
    pub fn relog(&mut self, seq: u64) {
        for k in 0..self.watched.len() {
            let now = self.lookup(&self.watched[k].0);
            if now != self.watched[k].1 {
                self.watched[k].1 = now;
                self.name_log.push((seq, self.watched[k].0.clone(), now));
            }
        }
    }
    /// The path without links, `.`, `..` and doubled slashes; the last component may be missing.
    pub fn resolve(&self, path: &str, follow_last: bool) -> Result<String, i32> {
        if path.len() > 4095 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut todo: Vec<String> = path.split('/').rev().map(|c| c.to_string()).collect();
        // The working directory is /sim.
        let mut out = if path.starts_with('/') { String::new() } else { "/sim".to_string() };
        let mut hops = 0;
        while let Some(c) = todo.pop() {
            if c.is_empty() || c == "." {
                continue;
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if !out.is_empty() && !self.dirs.contains(&out) {
                return Err(if self.names.contains_key(&out) { libc::ENOTDIR } else { libc::ENOENT });
            }
            if c == ".." {
                out.truncate(out.rfind('/').unwrap_or(0));
                continue;
            }
            let next = format!("{}/{}", out, c);
            let last = todo.iter().all(|c| c.is_empty());
            match self.links.get(&next) {
                Some(t) if !last || follow_last || todo.len() > 0 => {
                    hops += 1;
                    if hops > 40 {
                        return Err(libc::ELOOP);
                    }
                    if t.starts_with('/') {
                        out.clear();
                    }
                    todo.extend(t.split('/').rev().map(|c| c.to_string()));
                }
                _ => out = next,
            }
        }
        // A trailing slash asks for a directory.
        if path.ends_with('/') && self.names.contains_key(&out) {
            return Err(libc::ENOTDIR);
        }
        if !self.names.contains_key(&out) && !self.dirs.contains(&out) && !self.links.contains_key(&out) {
            let mut a = self.asked.borrow_mut();
            if a.len() < 50 {
                a.insert(out.clone());
            }
        }
        Ok(out)
    }
    pub fn lookup(&self, path: &str) -> Option<usize> {
        self.names.get(&self.resolve(path, true).ok()?).copied()
    }
    pub fn used(&self) -> u64 {
        self.inodes.iter().map(|i| i.img.data.len() as u64).sum()
    }
    pub fn ofd(&mut self, fd: i32) -> Option<&mut Ofd> {
        let i = *self.fds.get(&fd)?;
        Some(&mut self.ofds[i])
    }
    pub fn new_fd(&mut self, ofd: usize) -> i32 {
        // Like the kernel, the lowest free number: a stale descriptor soon names someone else's file.
        let mut fd = FD_BASE;
        while self.fds.contains_key(&fd) {
            fd += if self.fds.len() < 1000 { self.fd_step } else { 1 };
        }
        self.fds.insert(fd, ofd);
        fd
    }
    pub fn parent_ok(&self, path: &str) -> bool {
        match path.rfind('/') {
            Some(i) => self.dirs.contains(&path[..i]),
            None => false,
        }
    }
    pub fn in_ro_dir(&self, path: &str) -> bool {
        match path.rfind('/') {
            Some(i) => self.ro_dirs.contains(&path[..i]),
            None => false,
        }
    }
    /// What the disk holds after power was lost: of the changes not yet synced, each may be lost, torn or
    /// complete. `draw(n)` gives a choice in 0..n. Returns (lost, torn).
    pub fn crash(&mut self, mut draw: impl FnMut(u32) -> u32) -> (u64, u64) {
        let (mut lost, mut torn) = (0, 0);
        for n in self.inodes.iter_mut() {
            let pending = std::mem::take(&mut n.pending);
            let mut img = n.durable.clone();
            for r in &pending {
                match (r, draw(4)) {
                    (_, 1) => lost += 1,
                    (Rec::Write(o, b), 2) => {
                        let k = draw(b.len() as u32 + 1) as usize;
                        torn += 1;
                        if k > 0 {
                            img.write(*o, &b[..k]);
                        }
                    }
                    (Rec::Write(o, b), 3) => {
                        torn += 1;
                        for (i, c) in b.chunks(16).enumerate() {
                            if draw(2) == 0 {
                                img.write(*o + 16 * i as u64, c);
                            }
                        }
                    }
                    _ => img.apply(r),
                }
            }
            n.durable = img.clone();
            n.img = img;
            n.version += 1;
        }
        self.fds.clear();
        (lost, torn)
    }
    pub fn sync(&mut self, ino: usize) {
        let n = &mut self.inodes[ino];
        let p = std::mem::take(&mut n.pending);
        for r in &p {
            n.durable.apply(r);
        }
    }
}
