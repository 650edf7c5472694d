//! An in-memory file system under the C library calls, so that the command-line
//! tool's `main` can be executed symbolically: names and contents may be symbolic.
use super::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    File,
    Dir,
}

#[derive(Clone)]
pub struct Node {
    path: Rc<Vec<Bv>>,
    kind: Kind,
    data: Rc<Vec<Bv>>,
}

#[derive(Clone)]
struct Fd {
    node: usize,
    pos: usize,
    r: bool,
    w: bool,
    append: bool,
}

#[derive(Clone, Default)]
pub struct Fs {
    nodes: Vec<Option<Node>>,
    fds: Vec<Option<Fd>>,
    /// fault schedule, see sym::Fault; u64::MAX = none
    fault: [u64; 6],
    reads: u64,
    writes: u64,
    written: u64,
    errno: u64,
    argv: (u64, u64),
    /// caller frame to return to when the tool leaves the process
    pub catch: Option<(usize, Option<u32>)>,
    stderr0: u32,
    /// text sent to standard error is kept
    keep_err: bool,
    err: Rc<Vec<Bv>>,
}

const RD_CHUNK: usize = 0;
const RD_EINTR: usize = 1;
const RD_FAIL: usize = 2;
const WR_CHUNK: usize = 3;
const WR_EINTR: usize = 4;
const WR_FAIL: usize = 5;

const ENOENT: i32 = 2;
const EINTR: i32 = 4;
const EIO: i32 = 5;
const EBADF: i32 = 9;
const EEXIST: i32 = 17;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;
const ENOSPC: i32 = 28;
const ENAMETOOLONG: i32 = 36;
const ENOSYS: i32 = 38;
const ENOTEMPTY: i32 = 39;

const FD0: u64 = 3;

const CWD: &[u8] = b"/cwd/";

fn c8(v: u8) -> Bv {
    Bv::C { w: 8, v: v as u128 }
}
fn c32(v: i32) -> Option<Val> {
    Some(Val::B(Bv::C { w: 32, v: v as u32 as u128 }))
}
fn c64(v: u64) -> Option<Val> {
    Some(Val::B(Bv::C { w: 64, v: v as u128 }))
}

impl Fs {
    /// the text written to standard error is wanted
    pub(super) fn heard(&self) -> bool {
        self.keep_err
    }

    pub fn new() -> Fs {
        Fs { fault: [u64::MAX; 6], ..Default::default() }
    }
}

impl<'m> Exec<'m> {
    fn is(&mut self, s: &mut State, b: Bv, v: u8) -> X<bool> {
        let b = self.simp(s, b);
        let e = self.ctx.bin(Op::Eq, b, c8(v));
        Ok(self.concrete(s, e)? != 0)
    }

    /// a NUL-terminated string with symbolic characters; its length becomes concrete
    fn path_at(&mut self, s: &mut State, p: u64) -> X<Vec<Bv>> {
        let mut v = vec![];
        loop {
            let b = self.bytes_at(s, p + v.len() as u64, 1)?[0];
            if self.is(s, b, 0)? {
                break;
            }
            v.push(b);
        }
        while v.len() > 2 && v[0] == c8(b'.') && v[1] == c8(b'/') {
            v.drain(..2);
        }
        // what realpath and getcwd hand out
        if v.len() > CWD.len() && CWD.iter().enumerate().all(|(i, b)| v[i] == c8(*b)) {
            v.drain(..CWD.len());
        }
        if v.first() == Some(&c8(b'/')) {
            return unsup("absolute path in the file system model");
        }
        Ok(v)
    }

    fn same_path(&mut self, s: &mut State, x: &[Bv], y: &[Bv]) -> X<bool> {
        if x.len() != y.len() {
            return Ok(false);
        }
        let mut eq = Bv::C { w: 1, v: 1 };
        for i in 0..x.len() {
            let (u, v) = (self.simp(s, x[i]), self.simp(s, y[i]));
            let e = self.ctx.bin(Op::Eq, u, v);
            eq = self.ctx.bin(Op::And, eq, e);
        }
        Ok(self.concrete(s, eq)? != 0)
    }

    fn lookup(&mut self, s: &mut State, p: &[Bv]) -> X<Option<usize>> {
        let paths: Vec<_> = s.fs.nodes.iter().enumerate().filter_map(|(i, n)| n.as_ref().map(|n| (i, n.path.clone()))).collect();
        for (i, q) in paths {
            if self.same_path(s, p, &q)? {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }

    /// is the directory the path names an entry of there? -> errno
    fn parent(&mut self, s: &mut State, p: &[Bv]) -> X<i32> {
        if p.is_empty() {
            return Ok(ENOENT);
        }
        for i in (0..p.len()).rev() {
            if self.is(s, p[i], b'/')? {
                if i + 1 == p.len() {
                    return unsup("path ending in a slash");
                }
                return Ok(match self.lookup(s, &p[..i])? {
                    None => ENOENT,
                    Some(n) if s.fs.nodes[n].as_ref().unwrap().kind == Kind::Dir => 0,
                    Some(_) => ENOTDIR,
                });
            }
        }
        if p.len() > 255 {
            return Ok(ENAMETOOLONG);
        }
        if p.len() <= 2 {
            let mut dots = true;
            for b in p {
                dots = dots && self.is(s, *b, b'.')?;
            }
            if dots {
                return unsup("path . or ..");
            }
        }
        Ok(0)
    }

    fn errno(&mut self, s: &mut State) -> X<u64> {
        if s.fs.errno == 0 {
            let a = self.alloc(s, 4, 0)?;
            Rc::make_mut(&mut s.fs).errno = a;
        }
        Ok(s.fs.errno)
    }

    fn fail(&mut self, s: &mut State, e: i32, w: u16) -> X<Option<Val>> {
        let a = self.errno(s)?;
        self.store_int(s, Bv::C { w: 64, v: a as u128 }, Bv::C { w: 32, v: e as u128 })?;
        Ok(if w == 32 { c32(-1) } else { c64(u64::MAX) })
    }

    fn fd_of(&mut self, s: &mut State, a: Bv) -> X<Option<usize>> {
        let n = self.concrete(s, a)? as u32 as u64;
        Ok(if n >= FD0 && ((n - FD0) as usize) < s.fs.fds.len() && s.fs.fds[(n - FD0) as usize].is_some() { Some((n - FD0) as usize) } else { None })
    }

    fn put(&mut self, s: &mut State, path: Vec<Bv>, kind: Kind, data: Vec<Bv>) -> usize {
        let fs = Rc::make_mut(&mut s.fs);
        fs.nodes.push(Some(Node { path: Rc::new(path), kind, data: Rc::new(data) }));
        fs.nodes.len() - 1
    }

    fn stat_buf(&mut self, s: &mut State, n: usize, buf: u64, stx: bool) -> X<()> {
        let nd = s.fs.nodes[n].clone().unwrap();
        let (mode, size) = match nd.kind {
            Kind::File => (0o100644u64, nd.data.len() as u64),
            Kind::Dir => (0o40755, 4096),
        };
        let (len, om, wm, os) = if stx { (256, 28, 16, 40) } else { (144, 24, 32, 48) };
        for i in 0..len {
            self.store_int(s, Bv::C { w: 64, v: (buf + i) as u128 }, c8(0))?;
        }
        if stx {
            self.store_int(s, Bv::C { w: 64, v: buf as u128 }, Bv::C { w: 32, v: 0xfff })?;
        }
        let ino = if stx { 32 } else { 8 };
        self.store_int(s, Bv::C { w: 64, v: (buf + ino) as u128 }, Bv::C { w: 64, v: n as u128 + 101 })?;
        self.store_int(s, Bv::C { w: 64, v: (buf + om) as u128 }, Bv::C { w: wm, v: mode as u128 })?;
        self.store_int(s, Bv::C { w: 64, v: (buf + os) as u128 }, Bv::C { w: 64, v: size as u128 })?;
        Ok(())
    }

    /// file-related C library calls; None = not one of them
    pub(super) fn libc_fs(&mut self, s: &mut State, name: &str, a: &[Bv]) -> X<Option<Option<Val>>> {
        let r = match name {
            "__errno_location" => {
                let e = self.errno(s)?;
                c64(e)
            }
            "open" | "open64" => {
                let p = self.concrete(s, a[0])? as u64;
                let p = self.path_at(s, p)?;
                let fl = self.concrete(s, a[1])? as u32;
                let (r, w) = match fl & 3 {
                    0 => (true, false),
                    1 => (false, true),
                    _ => (true, true),
                };
                let pe = self.parent(s, &p)?;
                if pe != 0 {
                    return Ok(Some(self.fail(s, pe, 32)?));
                }
                let n = match self.lookup(s, &p)? {
                    Some(n) => {
                        if fl & 0xc0 == 0xc0 {
                            return Ok(Some(self.fail(s, EEXIST, 32)?));
                        }
                        if s.fs.nodes[n].as_ref().unwrap().kind == Kind::Dir {
                            if w || fl & 0x40 != 0 {
                                return Ok(Some(self.fail(s, EISDIR, 32)?));
                            }
                        } else if fl & 0x10000 != 0 {
                            return Ok(Some(self.fail(s, ENOTDIR, 32)?));
                        } else if fl & 0x200 != 0 && w {
                            Rc::make_mut(&mut s.fs).nodes[n].as_mut().unwrap().data = Rc::new(vec![]);
                        }
                        n
                    }
                    None if fl & 0x40 != 0 => self.put(s, p, Kind::File, vec![]),
                    None => return Ok(Some(self.fail(s, ENOENT, 32)?)),
                };
                let fs = Rc::make_mut(&mut s.fs);
                let k = fs.fds.iter().position(|x| x.is_none()).unwrap_or(fs.fds.len());
                if k == fs.fds.len() {
                    fs.fds.push(None);
                }
                fs.fds[k] = Some(Fd { node: n, pos: 0, r, w, append: fl & 0x400 != 0 });
                c32((k as u64 + FD0) as i32)
            }
            "close" => match self.fd_of(s, a[0])? {
                Some(k) => {
                    Rc::make_mut(&mut s.fs).fds[k] = None;
                    c32(0)
                }
                None => self.fail(s, EBADF, 32)?,
            },
            "read" => {
                let Some(k) = self.fd_of(s, a[0])? else { return unsup("read from an unknown descriptor") };
                let buf = self.concrete(s, a[1])? as u64;
                let mut n = self.concrete(s, a[2])? as u64 as usize;
                let fd = s.fs.fds[k].clone().unwrap();
                let Some(nd) = s.fs.nodes[fd.node].clone() else { return unsup("read from a removed file") };
                if !fd.r {
                    return Ok(Some(self.fail(s, EBADF, 64)?));
                }
                if nd.kind == Kind::Dir {
                    return Ok(Some(self.fail(s, EISDIR, 64)?));
                }
                let fs = Rc::make_mut(&mut s.fs);
                fs.reads += 1;
                if fs.reads - 1 == fs.fault[RD_EINTR] {
                    return Ok(Some(self.fail(s, EINTR, 64)?));
                }
                if fs.fault[RD_FAIL] != u64::MAX {
                    if fd.pos as u64 >= fs.fault[RD_FAIL] {
                        return Ok(Some(self.fail(s, EIO, 64)?));
                    }
                    n = n.min((fs.fault[RD_FAIL] - fd.pos as u64) as usize);
                }
                n = n.min(fs.fault[RD_CHUNK].min(1 << 40) as usize);
                n = n.min(nd.data.len().saturating_sub(fd.pos));
                fs.fds[k].as_mut().unwrap().pos += n;
                for i in 0..n {
                    self.store_int(s, Bv::C { w: 64, v: (buf + i as u64) as u128 }, nd.data[fd.pos + i])?;
                }
                c64(n as u64)
            }
            "write" => {
                let f = self.concrete(s, a[0])? as u32;
                if f == 1 || f == 2 {
                    s.eprints += (f == 2) as u32;
                    if f == 2 && s.fs.keep_err {
                        let p = self.concrete(s, a[1])? as u64;
                        let n = self.concrete(s, a[2])? as usize;
                        self.err_push(s, p, n)?;
                    }
                    return Ok(Some(Some(Val::B(a[2]))));
                }
                let Some(k) = self.fd_of(s, a[0])? else { return unsup("write to an unknown descriptor") };
                let buf = self.concrete(s, a[1])? as u64;
                let mut n = self.concrete(s, a[2])? as u64 as usize;
                let fd = s.fs.fds[k].clone().unwrap();
                if !fd.w {
                    return Ok(Some(self.fail(s, EBADF, 64)?));
                }
                {
                    let fs = Rc::make_mut(&mut s.fs);
                    fs.writes += 1;
                    if fs.writes - 1 == fs.fault[WR_EINTR] {
                        return Ok(Some(self.fail(s, EINTR, 64)?));
                    }
                    if fs.fault[WR_FAIL] != u64::MAX {
                        if fs.written >= fs.fault[WR_FAIL] && n > 0 {
                            return Ok(Some(self.fail(s, ENOSPC, 64)?));
                        }
                        n = n.min((fs.fault[WR_FAIL] - fs.written) as usize);
                    }
                    n = n.min(fs.fault[WR_CHUNK].min(1 << 40) as usize);
                    fs.written += n as u64;
                }
                let bytes = self.bytes_at(s, buf, n)?;
                let fs = Rc::make_mut(&mut s.fs);
                let Some(nd) = fs.nodes[fd.node].as_mut() else { return unsup("write to a removed file") };
                let d = Rc::make_mut(&mut nd.data);
                let pos = if fd.append { d.len() } else { fd.pos };
                if d.len() < pos + n {
                    d.resize(pos + n, c8(0));
                }
                d[pos..pos + n].copy_from_slice(&bytes);
                fs.fds[k].as_mut().unwrap().pos = pos + n;
                c64(n as u64)
            }
            "lseek" | "lseek64" => {
                let Some(k) = self.fd_of(s, a[0])? else { return Ok(Some(self.fail(s, EBADF, 64)?)) };
                let off = self.concrete(s, a[1])? as u64 as i64;
                let wh = self.concrete(s, a[2])? as u32;
                let fd = s.fs.fds[k].clone().unwrap();
                let len = s.fs.nodes[fd.node].as_ref().map_or(0, |n| n.data.len());
                let base = match wh {
                    0 => 0,
                    1 => fd.pos as i64,
                    2 => len as i64,
                    _ => return unsup("lseek whence"),
                };
                let np = base + off;
                if np < 0 {
                    return Ok(Some(self.fail(s, EINVAL, 64)?));
                }
                Rc::make_mut(&mut s.fs).fds[k].as_mut().unwrap().pos = np as usize;
                c64(np as u64)
            }
            "fstat" | "fstat64" => {
                let Some(k) = self.fd_of(s, a[0])? else { return Ok(Some(self.fail(s, EBADF, 32)?)) };
                let buf = self.concrete(s, a[1])? as u64;
                let n = s.fs.fds[k].as_ref().unwrap().node;
                self.stat_buf(s, n, buf, false)?;
                c32(0)
            }
            "stat" | "stat64" | "lstat" | "lstat64" => {
                let p = self.concrete(s, a[0])? as u64;
                let p = self.path_at(s, p)?;
                let buf = self.concrete(s, a[1])? as u64;
                match self.lookup(s, &p)? {
                    Some(n) => {
                        self.stat_buf(s, n, buf, false)?;
                        c32(0)
                    }
                    None => self.fail(s, ENOENT, 32)?,
                }
            }
            "statx" => {
                let d = self.concrete(s, a[0])? as u32;
                let p = self.concrete(s, a[1])? as u64;
                if p == 0 {
                    return Ok(Some(self.fail(s, 14, 32)?));
                }
                let p = self.path_at(s, p)?;
                let buf = self.concrete(s, a[4])? as u64;
                let n = if p.is_empty() {
                    match self.fd_of(s, Bv::C { w: 32, v: d as u128 })? {
                        Some(k) => Some(s.fs.fds[k].as_ref().unwrap().node),
                        None => return Ok(Some(self.fail(s, EBADF, 32)?)),
                    }
                } else {
                    self.lookup(s, &p)?
                };
                match n {
                    Some(n) => {
                        self.stat_buf(s, n, buf, true)?;
                        c32(0)
                    }
                    None => self.fail(s, ENOENT, 32)?,
                }
            }
            "realpath" => {
                let p = self.concrete(s, a[0])? as u64;
                let p = self.path_at(s, p)?;
                let pe = self.parent(s, &p)?;
                let mut to = self.concrete(s, a[1])? as u64;
                match if pe == 0 { self.lookup(s, &p)? } else { None } {
                    Some(n) => {
                        let at = s.fs.nodes[n].as_ref().unwrap().path.clone();
                        let v: Vec<Bv> = CWD.iter().map(|b| c8(*b)).chain(at.iter().copied()).chain([c8(0)]).collect();
                        if to == 0 {
                            to = self.alloc(s, v.len() as u64, 0)?;
                        }
                        for (i, b) in v.iter().enumerate() {
                            self.store_int(s, Bv::C { w: 64, v: (to + i as u64) as u128 }, *b)?;
                        }
                        c64(to)
                    }
                    None => {
                        self.fail(s, if pe == 0 { ENOENT } else { pe }, 64)?;
                        c64(0)
                    }
                }
            }
            "getcwd" => {
                let to = self.concrete(s, a[0])? as u64;
                for (i, b) in CWD[..CWD.len() - 1].iter().chain(&[0]).enumerate() {
                    self.store_int(s, Bv::C { w: 64, v: (to + i as u64) as u128 }, c8(*b))?;
                }
                c64(to)
            }
            "access" => {
                let p = self.concrete(s, a[0])? as u64;
                let p = self.path_at(s, p)?;
                match self.lookup(s, &p)? {
                    Some(_) => c32(0),
                    None => self.fail(s, ENOENT, 32)?,
                }
            }
            "unlink" => {
                let p = self.concrete(s, a[0])? as u64;
                let p = self.path_at(s, p)?;
                match self.lookup(s, &p)? {
                    Some(n) if s.fs.nodes[n].as_ref().unwrap().kind == Kind::Dir => self.fail(s, EISDIR, 32)?,
                    Some(n) => {
                        if s.fs.fds.iter().flatten().any(|f| f.node == n) {
                            return unsup("unlink of an open file");
                        }
                        Rc::make_mut(&mut s.fs).nodes[n] = None;
                        c32(0)
                    }
                    None => self.fail(s, ENOENT, 32)?,
                }
            }
            "mkdir" => {
                let p = self.concrete(s, a[0])? as u64;
                let p = self.path_at(s, p)?;
                let pe = self.parent(s, &p)?;
                if pe != 0 {
                    return Ok(Some(self.fail(s, pe, 32)?));
                }
                if self.lookup(s, &p)?.is_some() {
                    return Ok(Some(self.fail(s, EEXIST, 32)?));
                }
                self.put(s, p, Kind::Dir, vec![]);
                c32(0)
            }
            "rename" => {
                let p = self.concrete(s, a[0])? as u64;
                let q = self.concrete(s, a[1])? as u64;
                let p = self.path_at(s, p)?;
                let q = self.path_at(s, q)?;
                let Some(n) = self.lookup(s, &p)? else { return Ok(Some(self.fail(s, ENOENT, 32)?)) };
                let pe = self.parent(s, &q)?;
                if pe != 0 {
                    return Ok(Some(self.fail(s, pe, 32)?));
                }
                if s.fs.nodes[n].as_ref().unwrap().kind == Kind::Dir {
                    return unsup("rename of a directory");
                }
                let o = self.lookup(s, &q)?;
                if o == Some(n) {
                    return Ok(Some(c32(0)));
                }
                if let Some(o) = o {
                    if s.fs.nodes[o].as_ref().unwrap().kind == Kind::Dir {
                        return Ok(Some(self.fail(s, EISDIR, 32)?));
                    }
                    if s.fs.fds.iter().flatten().any(|f| f.node == o) {
                        return unsup("rename over an open file");
                    }
                    Rc::make_mut(&mut s.fs).nodes[o] = None;
                }
                Rc::make_mut(&mut s.fs).nodes[n].as_mut().unwrap().path = Rc::new(q);
                c32(0)
            }
            "rmdir" => self.fail(s, ENOTEMPTY, 32)?,
            "ftruncate" | "ftruncate64" => {
                let Some(k) = self.fd_of(s, a[0])? else { return Ok(Some(self.fail(s, EBADF, 32)?)) };
                let n = self.concrete(s, a[1])? as u64 as usize;
                let fd = s.fs.fds[k].clone().unwrap();
                if !fd.w || n > 64 << 20 {
                    return Ok(Some(self.fail(s, EINVAL, 32)?));
                }
                let fs = Rc::make_mut(&mut s.fs);
                Rc::make_mut(&mut fs.nodes[fd.node].as_mut().unwrap().data).resize(n, c8(0));
                c32(0)
            }
            "fsync" | "fdatasync" | "fchmod" | "fcntl" | "fcntl64" | "flock" | "posix_fadvise" | "posix_fadvise64" => c32(0),
            "chmod" => c32(0),
            "copy_file_range" | "sendfile" | "sendfile64" | "splice" => self.fail(s, ENOSYS, 64)?,
            "isatty" => c32(0),
            "getpid" => c32(4242),
            "__xpg_strerror_r" => {
                let e = self.concrete(s, a[0])? as u32 as i32;
                let m: &[u8] = match e {
                    ENOENT => b"No such file or directory\0",
                    EINTR => b"Interrupted system call\0",
                    EIO => b"Input/output error\0",
                    EBADF => b"Bad file descriptor\0",
                    EEXIST => b"File exists\0",
                    ENOTDIR => b"Not a directory\0",
                    EISDIR => b"Is a directory\0",
                    EINVAL => b"Invalid argument\0",
                    ENOSPC => b"No space left on device\0",
                    ENAMETOOLONG => b"File name too long\0",
                    _ => return unsup("message of an unexpected errno"),
                };
                let p = self.concrete(s, a[1])? as u64;
                for (i, c) in m.iter().enumerate() {
                    self.store_int(s, Bv::C { w: 64, v: (p + i as u64) as u128 }, c8(*c))?;
                }
                c32(0)
            }
            _ => return Ok(None),
        };
        Ok(Some(r))
    }

    /// harness functions about files and the tool; None = not one of them
    pub(super) fn sym_fs(&mut self, s: &mut State, name: &str, a: &[Bv], dst: Option<u32>, normal: Option<u32>) -> X<Option<Option<Val>>> {
        let mut n = vec![];
        for b in a {
            n.push(self.concrete(s, *b)? as u64);
        }
        let r = match name {
            "sym_file_put" => {
                let p = self.bytes_at(s, n[0], n[1] as usize)?;
                let d = self.bytes_at(s, n[2], n[3] as usize)?;
                if self.lookup(s, &p)?.is_some() {
                    return end(End::Assume);
                }
                self.put(s, p, Kind::File, d);
                None
            }
            "sym_file_dir" => {
                let p = self.bytes_at(s, n[0], n[1] as usize)?;
                if self.lookup(s, &p)?.is_some() {
                    return end(End::Assume);
                }
                self.put(s, p, Kind::Dir, vec![]);
                None
            }
            "sym_file_len" => {
                let p = self.bytes_at(s, n[0], n[1] as usize)?;
                match self.lookup(s, &p)? {
                    Some(i) => match s.fs.nodes[i].as_ref().unwrap() {
                        Node { kind: Kind::Dir, .. } => c64(-2i64 as u64),
                        nd => c64(nd.data.len() as u64),
                    },
                    None => c64(u64::MAX),
                }
            }
            "sym_file_read" => {
                let p = self.bytes_at(s, n[0], n[1] as usize)?;
                if let Some(i) = self.lookup(s, &p)? {
                    let d = s.fs.nodes[i].as_ref().unwrap().data.clone();
                    for i in 0..d.len().min(n[3] as usize) {
                        self.store_int(s, Bv::C { w: 64, v: (n[2] + i as u64) as u128 }, d[i])?;
                    }
                }
                None
            }
            "sym_err_keep" => {
                let fs = Rc::make_mut(&mut s.fs);
                fs.keep_err = n[0] != 0;
                fs.err = Rc::new(vec![]);
                None
            }
            "sym_err_text" => {
                self.err_push(s, n[0], n[1] as usize)?;
                None
            }
            "sym_err_len" => c64(s.fs.err.len() as u64),
            "sym_err_read" => {
                let d = s.fs.err.clone();
                for i in 0..d.len().min(n[1] as usize) {
                    self.store_int(s, Bv::C { w: 64, v: (n[0] + i as u64) as u128 }, d[i])?;
                }
                None
            }
            "sym_file_count" => c64(s.fs.nodes.iter().flatten().count() as u64),
            "sym_fault" => {
                Rc::make_mut(&mut s.fs).fault[n[0] as usize] = n[1];
                None
            }
            "sym_cli_args" => {
                // packed NUL-terminated strings -> argument vector, handed to the
                // standard library's start-up hook as the C runtime does
                let b = self.bytes_at(s, n[0], n[1] as usize)?;
                let mut ps = vec![];
                let prog = self.alloc(s, 7, 0)?;
                for (i, c) in b"at-asm".iter().enumerate() {
                    self.store_int(s, Bv::C { w: 64, v: (prog + i as u64) as u128 }, c8(*c))?;
                }
                ps.push(prog);
                let mut i = 0;
                while i < b.len() {
                    let mut j = i;
                    while !self.is(s, b[j], 0)? {
                        j += 1;
                    }
                    let m = self.alloc(s, (j - i + 1) as u64, 0)?;
                    for k in i..j {
                        self.store_int(s, Bv::C { w: 64, v: (m + (k - i) as u64) as u128 }, b[k])?;
                    }
                    ps.push(m);
                    i = j + 1;
                }
                let v = self.alloc(s, 8 * (ps.len() as u64 + 1), 0)?;
                for (i, p) in ps.iter().enumerate() {
                    self.store_int(s, Bv::C { w: 64, v: (v + 8 * i as u64) as u128 }, Bv::C { w: 64, v: *p as u128 })?;
                }
                Rc::make_mut(&mut s.fs).argv = (ps.len() as u64, v);
                let Some(init) = self.m.funcs.keys().find(|k| k.contains("ARGV_INIT_ARRAY") && k.contains("init_wrapper")).cloned() else {
                    return unsup("no argument vector hook in the program");
                };
                self.enter(s, &init, vec![Val::B(Bv::C { w: 32, v: ps.len() as u128 }), Val::B(Bv::C { w: 64, v: v as u128 }), Val::B(Bv::C { w: 64, v: 0 })], None, normal)?;
                return Ok(None);
            }
            "sym_cli_run" => {
                let d = s.stack.len();
                let e = s.eprints;
                let fs = Rc::make_mut(&mut s.fs);
                fs.catch = Some((d, dst));
                fs.stderr0 = e;
                self.enter(s, &Rc::from("cli_entry"), vec![], dst, normal)?;
                return Ok(None);
            }
            "sym_cli_end" => {
                let e = (s.eprints - s.fs.stderr0) as u64;
                let fs = Rc::make_mut(&mut s.fs);
                fs.catch = None;
                fs.fds.clear();
                fs.fault = [u64::MAX; 6];
                (fs.reads, fs.writes, fs.written) = (0, 0, 0);
                c64((e > 0) as u64)
            }
            _ => return unsup(format!("harness function {}", name)),
        };
        Ok(Some(r))
    }

    fn err_push(&mut self, s: &mut State, p: u64, n: usize) -> X<()> {
        let b = self.bytes_at(s, p, n)?;
        let fs = Rc::make_mut(&mut s.fs);
        Rc::make_mut(&mut fs.err).extend_from_slice(&b);
        Ok(())
    }

    pub(super) fn err_bytes(&mut self, s: &mut State, args: &[Opd]) -> X<()> {
        if s.fs.keep_err {
            let p = self.bv(s, &args[args.len() - 2])?;
            let n = self.bv(s, &args[args.len() - 1])?;
            let (p, n) = (self.concrete(s, p)? as u64, self.concrete(s, n)? as usize);
            self.err_push(s, p, n)?;
        }
        Ok(())
    }

    /// format text for standard error with the harness's own function, where it is wanted
    pub(super) fn capture(&mut self, s: &mut State, args: &[Opd], skip: usize, dst: Option<u32>, normal: Option<u32>) -> X<bool> {
        if !s.fs.keep_err || args.len() < skip + 2 {
            return Ok(false);
        }
        let v: Vec<Val> = args[args.len() - 2..].iter().map(|o| self.val(s, o)).collect();
        self.enter(s, &Rc::from("verif_eprint"), v, dst, normal)?;
        Ok(true)
    }

    fn enter(&mut self, s: &mut State, name: &Rc<str>, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) -> X<()> {
        let f = match self.m.func(name) {
            Ok(f) => f,
            Err(e) => return unsup(e),
        };
        let mut regs = vec![Val::Unset; f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            regs[*p as usize] = args[i].clone();
        }
        let fr = Frame { f: f.clone(), regs, blk: 0, ip: 0, dst, normal, allocas: vec![] };
        let old = std::mem::replace(&mut s.cur, fr);
        s.stack.push(Rc::new(old));
        self.cover(&f, 0);
        Ok(())
    }

    /// the tool leaves the process: back to the harness with the status
    pub(super) fn left(&mut self, s: &mut State, e: &End) -> bool {
        let Some((d, dst)) = s.fs.catch else { return false };
        if s.stack.len() <= d {
            return false;
        }
        let code = match e {
            End::Exit(Some(c)) => *c as i32,
            End::Panic(_) => {
                s.eprints += 1;
                101
            }
            _ => return false,
        };
        let normal = {
            let f = if s.stack.len() == d + 1 { &s.cur } else { &s.stack[d + 1] };
            f.normal
        };
        s.stack.truncate(d + 1);
        let f = s.stack.pop().unwrap();
        s.cur = (*f).clone();
        Rc::make_mut(&mut s.fs).catch = None;
        self.done(s, dst, normal, c32(code)).is_ok()
    }
}
