//! An in-memory file system behind the libc functions that Rust's std uses for what zippity does.
//! Names, contents, modes, times, sizes and failures are the symbolic environment's choice.
//! Nothing here touches the real file system, neither symbolically nor in a native replay.
#![allow(static_mut_refs)]
use crate::world::w;
use crate::zs;

pub const DIR: u16 = 0o040000;
pub const REG: u16 = 0o100000;
pub const LNK: u16 = 0o120000;
pub const FIFO: u16 = 0o010000;

const ENOENT: i32 = 2;
const EBADF: i32 = 9;
const EFAULT: i32 = 14;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;
const ELOOP: i32 = 40;

pub struct Node {
    pub parent: usize,
    pub name: Vec<u8>,
    pub kind: u16,
    pub bits: u16,
    /// what stat says
    pub size: u64,
    pub sec: i64,
    pub nsec: u32,
    /// content of a file, target of a symlink
    pub data: Vec<u8>,
    /// a file of that many bytes that follow a formula
    pub synth: Option<u64>,
    /// errno of operations that fail
    pub no_open: i32,
    pub no_stat: i32,
    pub no_link: i32,
    pub gone: bool,
    pub opens: u32,
    pub lists: u32,
    /// the world's source that stands for this object
    pub src: Option<usize>,
}
struct Fd {
    node: usize,
    pos: i64,
    open: bool,
}
#[repr(C)]
struct Ent {
    ino: u64,
    off: i64,
    reclen: u16,
    ty: u8,
    name: [u8; 256],
}
struct Dir {
    node: usize,
    next: usize,
    /// entry index after which listing fails
    fail: Option<(usize, i32)>,
    e: Ent,
}
pub struct Fs {
    pub n: Vec<Node>,
    pub cwd: usize,
    fds: Vec<Fd>,
    pub dirs: i32,
    /// node whose listing fails, after how many objects, errno
    pub list_fails: Option<(usize, usize, i32)>,
    pub unknown_types: bool,
}
static mut F: Option<Fs> = None;
pub fn fs() -> &'static mut Fs {
    unsafe { F.as_mut().unwrap() }
}
pub fn new_fs() {
    unsafe {
        F = Some(Fs { n: vec![], cwd: 0, fds: vec![], dirs: 0, list_fails: None, unknown_types: false });
    }
    node(0, b"", DIR);
}
pub fn node(parent: usize, name: &[u8], kind: u16) -> usize {
    let f = fs();
    f.n.push(Node {
        parent,
        name: name.to_vec(),
        kind,
        bits: 0o644,
        size: 0,
        sec: 1_000_000_000,
        nsec: 0,
        data: vec![],
        synth: None,
        no_open: 0,
        no_stat: 0,
        no_link: 0,
        gone: false,
        opens: 0,
        lists: 0,
        src: None,
    });
    f.n.len() - 1
}
pub fn fill(i: usize, d: Vec<u8>) {
    let n = &mut fs().n[i];
    n.size = d.len() as u64;
    n.data = d;
}
pub fn open_fds() -> usize {
    fs().fds.iter().filter(|f| f.open).count() + fs().dirs as usize
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn strlen(p: *const i8) -> usize;
}
fn fail(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}
unsafe fn path(p: *const u8) -> Vec<u8> {
    let n = strlen(p as *const i8);
    std::slice::from_raw_parts(p, n).to_vec()
}
fn find(dir: usize, name: &[u8]) -> Option<usize> {
    let f = fs();
    for i in 1..f.n.len() {
        let n = &f.n[i];
        if n.parent == dir && !n.gone && n.name.len() == name.len() && zs::same(&n.name, name) {
            return Some(i);
        }
    }
    None
}
fn walk(start: usize, p: &[u8], follow: bool, depth: u32) -> Result<usize, i32> {
    if p.is_empty() {
        return Err(ENOENT);
    }
    if depth > 8 {
        return Err(ELOOP);
    }
    let mut at = if p[0] == b'/' { 0 } else { start };
    let mut i = 0;
    while i < p.len() {
        if p[i] == b'/' {
            i += 1;
            if fs().n[at].kind != DIR {
                return Err(ENOTDIR);
            }
            continue;
        }
        let mut k = i;
        while k < p.len() && p[k] != b'/' {
            k += 1;
        }
        let c = &p[i..k];
        if fs().n[at].kind != DIR {
            return Err(ENOTDIR);
        }
        if c.len() == 1 && c[0] == b'.' {
        } else if c.len() == 2 && c[0] == b'.' && c[1] == b'.' {
            at = fs().n[at].parent;
        } else {
            let t = find(at, c).ok_or(ENOENT)?;
            if fs().n[t].kind == LNK && (k < p.len() || follow) {
                let target = fs().n[t].data.clone();
                at = walk(at, &target, true, depth + 1)?;
            } else {
                at = t;
            }
        }
        i = k;
    }
    Ok(at)
}
fn resolve(fd: i32, p: &[u8], follow: bool) -> Result<usize, i32> {
    let start = if fd == -100 {
        fs().cwd
    } else if fd >= 5000 {
        (fd - 5000) as usize
    } else {
        return Err(EBADF);
    };
    walk(start, p, follow, 0)
}
fn stat_into(i: usize, out: *mut u8) -> i32 {
    let n = &fs().n[i];
    if n.no_stat != 0 {
        w().total_errs += 1;
        return fail(n.no_stat);
    }
    unsafe {
        for k in 0..32 {
            (out as *mut u64).add(k).write(0);
        }
        (out as *mut u32).write(0x17ff);
        (out.add(4) as *mut u32).write(4096);
        (out.add(16) as *mut u32).write(1);
        (out.add(28) as *mut u16).write(n.kind | n.bits);
        (out.add(32) as *mut u64).write(100 + i as u64);
        (out.add(40) as *mut u64).write(n.size);
        // access, birth and change times differ from the modification time
        for (o, d) in [(64, 1), (80, 2), (96, 3)] {
            (out.add(o) as *mut i64).write(n.sec.wrapping_add(d));
            (out.add(o + 8) as *mut u32).write(7);
        }
        (out.add(112) as *mut i64).write(n.sec);
        (out.add(120) as *mut u32).write(n.nsec);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, p: *const u8, flags: i32, _mask: u32, out: *mut u8) -> i32 {
    if p.is_null() || out.is_null() {
        return fail(EFAULT);
    }
    let p = path(p);
    if p.is_empty() && flags & 0x1000 != 0 {
        // an open file
        let Some(f) = fs().fds.get((fd - 100) as usize) else { return fail(EBADF) };
        return stat_into(f.node, out);
    }
    match resolve(fd, &p, flags & 0x100 == 0) {
        Ok(i) => stat_into(i, out),
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const u8, buf: *mut u8, n: usize) -> isize {
    match resolve(-100, &path(p), false) {
        Ok(i) if fs().n[i].kind == LNK => {
            let d = &fs().n[i];
            if d.no_link != 0 {
                w().total_errs += 1;
                return fail(d.no_link) as isize;
            }
            let k = d.data.len().min(n);
            std::ptr::copy_nonoverlapping(d.data.as_ptr(), buf, k);
            k as isize
        }
        Ok(_) => fail(EINVAL) as isize,
        Err(e) => fail(e) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, _mode: u32) -> i32 {
    if flags & 3 != 0 || flags & (0o100 | 0o1000) != 0 {
        zs::fail("a file is opened for writing");
    }
    let i = match resolve(-100, &path(p), true) {
        Ok(i) => i,
        Err(e) => {
            w().total_errs += 1;
            w().err_code = e;
            return fail(e);
        }
    };
    let n = &mut fs().n[i];
    n.opens += 1;
    if let Some(k) = n.src {
        w().s[k].opens += 1;
        if w().err > 0 && w().err_kinds & crate::world::OPEN != 0 && zs::choose(2, "open fails") == 1 {
            w().err -= 1;
            w().errs += 1;
            w().total_errs += 1;
            w().err_code = 24;
            return fail(24);
        }
    }
    if n.no_open != 0 {
        w().total_errs += 1;
        w().err_code = n.no_open;
        return fail(n.no_open);
    }
    fs().fds.push(Fd { node: i, pos: 0, open: true });
    99 + fs().fds.len() as i32
}
fn file(fd: i32) -> Option<&'static mut Fd> {
    let f = fs().fds.get_mut((fd as usize).wrapping_sub(100))?;
    if f.open {
        Some(f)
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize {
    let buf = buf as *mut u8;
    let Some(f) = file(fd) else {
        zs::fail("a closed file is read");
    };
    let d = &fs().n[f.node];
    if d.kind == DIR {
        return fail(EISDIR) as isize;
    }
    let w = w();
    if w.err > 0 && zs::choose(2, "read fails") == 1 {
        w.err -= 1;
        w.errs += 1;
        w.total_errs += 1;
        w.err_code = 5;
        return fail(5) as isize;
    }
    let len = d.synth.unwrap_or(d.data.len() as u64) as i64;
    if f.pos >= len || n == 0 {
        return 0;
    }
    let left = (len - f.pos) as usize;
    let mut k = left.min(n).min(w.chunk);
    if w.short > 0 && k >= 2 && zs::choose(2, "short") == 1 {
        w.short -= 1;
        k = 1;
    }
    if d.synth.is_some() {
        for i in 0..k {
            buf.add(i).write(crate::world::byte_at(f.node as u32, f.pos as u64 + i as u64));
        }
    } else {
        std::ptr::copy_nonoverlapping(d.data.as_ptr().add(f.pos as usize), buf, k);
    }
    f.pos += k as i64;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    let Some(f) = file(fd) else {
        zs::fail("a closed file is seeked");
    };
    let w = w();
    if w.err > 0 && zs::choose(2, "seek fails") == 1 {
        w.err -= 1;
        w.errs += 1;
        w.total_errs += 1;
        w.err_code = 29;
        return fail(29) as i64;
    }
    let base = match whence {
        0 => 0,
        1 => f.pos,
        _ => fs().n[f.node].synth.unwrap_or(fs().n[f.node].data.len() as u64) as i64,
    };
    match base.checked_add(off) {
        Some(p) if p >= 0 => {
            f.pos = p;
            p
        }
        _ => fail(EINVAL) as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    let Some(f) = file(fd) else {
        zs::fail("a file is closed twice");
    };
    f.open = false;
    0
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const u8) -> *mut u8 {
    let i = match resolve(-100, &path(p), true) {
        Ok(i) if fs().n[i].kind == DIR => i,
        Ok(_) => {
            fail(ENOTDIR);
            return std::ptr::null_mut();
        }
        Err(e) => {
            fail(e);
            return std::ptr::null_mut();
        }
    };
    let n = &mut fs().n[i];
    if n.no_open != 0 {
        w().total_errs += 1;
        fail(n.no_open);
        return std::ptr::null_mut();
    }
    n.lists += 1;
    fs().dirs += 1;
    let bad = match fs().list_fails {
        Some((d, k, e)) if d == i => Some((k, e)),
        _ => None,
    };
    Box::into_raw(Box::new(Dir { node: i, next: 0, fail: bad, e: Ent { ino: 0, off: 0, reclen: 0, ty: 0, name: [0; 256] } })) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
    let d = &mut *(d as *mut Dir);
    let put = |d: &mut Dir, s: &[u8], ty: u16| {
        d.e.ino = 1 + d.next as u64;
        d.e.reclen = (20 + s.len()) as u16;
        d.e.ty = if fs().unknown_types { 0 } else { (ty >> 12) as u8 };
        d.e.name[..s.len()].copy_from_slice(s);
        d.e.name[s.len()] = 0;
    };
    loop {
        let k = d.next;
        if let Some((n, e)) = d.fail {
            if k == n {
                w().total_errs += 1;
                fail(e);
                d.fail = None;
                return std::ptr::null_mut();
            }
        }
        d.next += 1;
        if k < 2 {
            put(d, &b".."[..k + 1], DIR);
            break;
        }
        let k = k - 1;
        if k >= fs().n.len() {
            return std::ptr::null_mut();
        }
        if fs().n[k].parent == d.node && !fs().n[k].gone {
            let s = fs().n[k].name.clone();
            put(d, &s, fs().n[k].kind);
            break;
        }
    }
    &mut d.e as *mut Ent as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut u8) -> i32 {
    5000 + (*(d as *mut Dir)).node as i32
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut u8) -> i32 {
    drop(Box::from_raw(d as *mut Dir));
    fs().dirs -= 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn memchr(p: *const u8, c: i32, n: usize) -> *const u8 {
    for i in 0..n {
        if *p.add(i) == c as u8 {
            return p.add(i);
        }
    }
    std::ptr::null()
}
/// tokio's blocking work (see blocking.rs): done, but may be reported later.
#[no_mangle]
pub extern "C" fn zh_blocking_pending(waker: usize) -> u8 {
    let w = w();
    if waker != w.call {
        w.bad_waker = true;
    }
    if w.each_pend > 0 {
        w.script += 1;
        if w.script <= w.each_pend {
            w.suspended += 1;
            return 1;
        }
        w.script = 0;
        return 0;
    }
    if w.pend > 0 && zs::choose(2, "pending") == 1 {
        w.pend -= 1;
        w.suspended += 1;
        return 1;
    }
    0
}
/// std asserts in debug builds that a descriptor it closes is open.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, _cmd: i32) -> i32 {
    if file(fd).is_some() {
        1
    } else {
        fail(EBADF)
    }
}
