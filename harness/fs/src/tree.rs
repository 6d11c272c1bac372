//! C21 and C22: names, contents and metadata of file system objects.
use crate::model::*;
use crate::world::*;
use crate::{zip, zs};
use std::future::Future;
use std::io;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::task::Poll;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use zippity::{AddDirectoryRecursiveError, AddEntryError, AddFilesystemEntryError, Builder, FilesystemEntry, ReadError, Reader};

pub type B = Builder<FilesystemEntry>;
pub type Rd = Reader<FilesystemEntry>;

pub fn get<T: Copy>(v: &[T]) -> T {
    v[zs::pick(v.len() as u64, "one of")]
}
/// Drive a future to its end; it may suspend only when blocking work it waits for is not done.
pub fn wait<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    loop {
        let p = with_cx(|cx| f.as_mut().poll(cx));
        zs::check(!w().bad_waker, "blocking work is polled with another waker than the current one");
        match p {
            Poll::Ready(v) => return v,
            Poll::Pending => zs::check(w().suspended > 0, "suspended although no work it waits for is pending"),
        }
    }
}
pub fn lstat(p: &Path) -> std::fs::Metadata {
    std::fs::symlink_metadata(p).unwrap_or_else(|_| zs::fail("model: no such object"))
}
pub fn keys(b: &B) -> Vec<Vec<u8>> {
    b.get_entries().keys().map(|k| k.as_bytes().to_vec()).collect()
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && zs::same(a, b)
}
/// Any string of n bytes, if it is UTF-8.
fn text(n: usize, what: &'static str) -> Option<String> {
    String::from_utf8(zs::vec(n, what)).ok()
}
pub fn read_all(r: &mut Rd) -> Vec<u8> {
    let sv = (w().pend, w().short, w().err);
    (w().pend, w().short, w().err) = (0, 0, 0);
    let mut out = vec![];
    loop {
        match poll_once(r, 70000, 0) {
            Out::Data(d) if d.is_empty() => break,
            Out::Data(d) => out.extend_from_slice(&d),
            Out::Pending(_) => zs::fail("suspended although nothing is pending"),
            Out::Err(..) => zs::fail("reading good objects fails"),
        }
    }
    (w().pend, w().short, w().err) = sv;
    zs::obs_bytes(1, &out);
    out
}

// ---- C21 ----------------------------------------------------------------------------------

fn is_dup(e: &AddEntryError, name: &[u8]) -> bool {
    matches!(e, AddEntryError::DuplicateEntryName { entry_name } if eq(entry_name.as_bytes(), name))
}
/// One object under any name.
pub fn c21_one(props: u32) {
    let level = zs::pick(2, "level");
    new_world(props);
    new_fs();
    let kind = get(&[REG, DIR, LNK, FIFO]);
    let o = node(0, b"o", kind);
    fill(o, if kind == DIR { vec![] } else { b"x".to_vec() });
    let n = zs::pick(if level > 0 { 7 } else { 5 }, "length");
    let Some(name) = text(n, "name") else {
        zs::reach("not utf-8");
        return;
    };
    let mut k = n;
    while k > 0 && name.as_bytes()[k - 1] == b'/' {
        k -= 1;
    }
    let mut want = name.as_bytes()[..k].to_vec();
    if kind == DIR {
        want.push(b'/');
    }
    let meta = lstat(Path::new("/o"));
    let mut b = B::new();
    let before = zs::pick(2, "existing");
    if before == 1 {
        for (n, p) in [("a", "/o"), ("b/", "/o")] {
            let e = wait(FilesystemEntry::with_metadata(p.into(), &meta)).unwrap_or_else(|_| zs::fail("with_metadata"));
            if b.add_entry(n.to_string(), e).is_err() {
                zs::fail("valid entry refused");
            }
        }
    }
    let size = b.size();
    w().pend = 1;
    let r = wait(b.add_filesystem_entry(name, "/o".into(), &meta)).map(|_| ());
    let dup = before == 1 && (eq(&want, b"a") || eq(&want, b"b/"));
    match r {
        Ok(()) => {
            zs::check(!dup, "a name already there is accepted");
            let ks = keys(&b);
            zs::obs_bytes(2, &ks[ks.len() - 1]);
            zs::check(ks.len() == 2 * before as usize + 1, "number of entries added for one object");
            chk(P21, eq(&ks[ks.len() - 1], &want), "entry name of a single object");
            zs::reach("added");
        }
        Err(AddFilesystemEntryError::AddEntryError(e)) => {
            zs::check(dup && is_dup(&e, &want), "an object is refused, or with the wrong error");
            zs::check(keys(&b).len() == 2 && b.size() == size, "a refused object changes the builder");
            zs::reach("refused");
        }
        Err(_) => zs::fail("an object is refused, or with the wrong error"),
    }
}
/// Names around the limit: it applies to the name after normalisation.
pub fn c21_long(props: u32) {
    new_world(props);
    new_fs();
    let kind = get(&[REG, DIR]);
    node(0, b"o", kind);
    let n = 65533 + zs::pick(5, "length");
    let mut v = vec![b'x'; n];
    v[7] = zs::int(0x30, 0x7f, "character") as u8;
    let slashes = get(&[0, 1, 3]);
    for _ in 0..slashes {
        v.push(b'/');
    }
    let mut b = B::new();
    let r = wait(b.add_filesystem_entry(String::from_utf8(v.clone()).unwrap_or_else(|_| zs::fail("ascii")), "/o".into(), &lstat(Path::new("/o")))).map(|_| ());
    v.truncate(n);
    if kind == DIR {
        v.push(b'/');
    }
    match r {
        Ok(()) => {
            zs::check(v.len() <= 65535, "a name that is too long is accepted");
            chk(P21, eq(&keys(&b)[0], &v), "entry name of a single object");
        }
        Err(AddFilesystemEntryError::AddEntryError(AddEntryError::TooLongEntryName { entry_name })) => {
            zs::check(v.len() > 65535, "a name of at most 65535 bytes is refused");
            zs::check(eq(entry_name.as_bytes(), &v), "the error does not give the name");
        }
        Err(_) => zs::fail("an object is refused, or with the wrong error"),
    }
    zs::reach("end");
}
/// Expected entries of a recursive addition: (name, node), the root last.
pub fn expected(root: usize, prefix: Option<&[u8]>) -> Vec<(Vec<u8>, usize)> {
    fn below(dir: usize, p: &[u8], out: &mut Vec<(Vec<u8>, usize)>) {
        for i in 1..fs().n.len() {
            let n = &fs().n[i];
            if n.parent != dir || n.gone || i == dir {
                continue;
            }
            let mut q = p.to_vec();
            q.extend_from_slice(&n.name);
            if n.kind == DIR {
                q.push(b'/');
                below(i, &q, out);
            }
            out.push((q, i));
        }
    }
    let mut out = vec![];
    let p = prefix.map(|p| {
        let (mut a, mut z) = (0, p.len());
        while a < z && p[a] == b'/' {
            a += 1;
        }
        while z > a && p[z - 1] == b'/' {
            z -= 1;
        }
        let mut v = p[a..z].to_vec();
        v.push(b'/');
        v
    });
    below(root, p.as_deref().unwrap_or(b""), &mut out);
    if let Some(p) = p {
        out.push((p, root));
    }
    out
}
pub fn same_names(b: &B, want: &[(Vec<u8>, usize)]) {
    let ks = keys(b);
    for k in &ks {
        zs::obs_bytes(2, k);
    }
    zs::check(ks.len() == want.len(), "number of entries of a recursive addition");
    for (x, _) in want {
        let mut hit = 0;
        for k in &ks {
            hit += eq(k, x) as u32;
        }
        zs::check(hit == 1, "an object of the tree has no entry with its name");
    }
}
/// The archive of a tree: every entry has its object's type and content.
pub fn same_archive(b: B, want: &[(Vec<u8>, usize)]) {
    let mut r = b.build();
    let img = read_all(&mut r);
    zs::check(img.len() as u64 == r.size(), "announced size of a tree");
    let z = zip::parse(&img);
    zs::check(z.e.len() == want.len(), "number of entries of a tree's archive");
    for e in &z.e {
        for (x, i) in want {
            if eq(&e.name, x) {
                let n = &fs().n[*i];
                content(&img, e, n);
                let ty = if n.kind == FIFO { REG } else { n.kind };
                zs::check(e.ext >> 28 == ty as u32 >> 12, "type of an entry");
            }
        }
    }
}
pub fn content(img: &[u8], e: &zip::Ent, n: &Node) {
    if n.kind == DIR {
        zs::check(e.size == 0, "an entry of a directory has content");
    } else {
        zs::check(eq(&img[e.data..e.data_end], &n.data), "content of an entry is not the object's");
    }
}
fn tree(shape: usize) -> usize {
    let r = node(0, b"r", DIR);
    let out = node(0, b"x", DIR);
    let outf = node(out, b"of", REG);
    fill(outf, b"outside".to_vec());
    let file = |p: usize, n: &str, d: &str| {
        let i = node(p, n.as_bytes(), REG);
        fill(i, d.as_bytes().to_vec());
        i
    };
    let link = |p: usize, n: &str, t: &str| {
        let i = node(p, n.as_bytes(), LNK);
        fill(i, t.as_bytes().to_vec());
        i
    };
    match shape {
        0 => {}
        1 => {
            file(r, "f", "abc");
        }
        2 => {
            let d = node(r, b"d", DIR);
            file(r, "g", "");
            file(d, "f", "ab");
            node(d, b"e", DIR);
            link(r, "l", "d");
            file(d, "g", "c");
        }
        3 => {
            let a = node(r, b"a", DIR);
            let b = node(a, b"a", DIR);
            let c = node(b, b"a.b", DIR);
            file(c, "a", "1");
            file(b, "b", "2");
            link(c, "up", "..");
            let s = node(r, b"z z", DIR);
            file(s, "a", "3");
        }
        4 => {
            link(r, "self", "/r");
            link(r, "no", "missing");
            link(r, "of", "../x/of");
            link(r, "ox", "/x");
            link(r, ".", "");
            fs().n.pop();
            let p = node(r, b"p", FIFO);
            fill(p, vec![]);
            file(r, ".h", "h");
            file(r, "...", "i");
        }
        // everything is called like the root
        6 => {
            let d = node(r, b"r", DIR);
            let e = node(d, b"r", DIR);
            file(e, "r", "1");
            link(d, "rr", "r");
            let x = node(r, b"x", DIR);
            file(x, "r", "22");
            let x = node(d, b"x", DIR);
            file(x, "x", "3");
        }
        _ => {
            for i in 0..37 {
                file(r, &format!("f{i}"), if i % 2 == 0 { "x" } else { "" });
            }
            let d = node(r, b"d", DIR);
            for i in 0..34 {
                file(d, &format!("{i}"), "y");
            }
        }
    }
    r
}
const ROOTS: [(&str, u8); 15] = [
    ("/r", 0),
    ("/r/", 0),
    ("/r//", 0),
    ("/r/.", 0),
    ("//./r", 0),
    ("r", 0),
    ("./r", 0),
    (".", 1),
    ("/x/../r", 0),
    ("..", 2),
    ("r/../r/", 0),
    ("/", 3),
    ("//", 3),
    ("/r/..", 3),
    (".", 3),
];
fn in_root() -> (PathBuf, usize) {
    let (p, cwd) = get(&ROOTS);
    fs().cwd = match cwd {
        0 | 3 => 0,
        1 => find_name(b"r"),
        _ => {
            let r = find_name(b"r");
            node(r, b"inner", DIR)
        }
    };
    (p.into(), if cwd == 3 { 0 } else { find_name(b"r") })
}
fn find_name(n: &[u8]) -> usize {
    (1..fs().n.len()).find(|&i| fs().n[i].name == n).unwrap_or_else(|| zs::fail("model"))
}
/// Trees of several shapes, roots given in several forms, root names of any few bytes.
pub fn c21_tree() {
    let level = zs::pick(2, "level");
    new_world(0);
    new_fs();
    let shape = zs::pick(7, "shape");
    tree(shape);
    let (root, r) = in_root();
    let form = zs::pick(if r == 0 { 2 } else { 3 }, "root name");
    let name = match form {
        0 => None,
        1 => Some(get(&["p", "/a/b//", ""]).to_string()),
        _ => {
            let n = 1 + zs::pick(if level > 0 { 4 } else { 2 }, "length");
            match text(n, "root name") {
                Some(t) => Some(t),
                None => return,
            }
        }
    };
    fs().unknown_types = level > 0 && zs::pick(2, "unknown types") == 1;
    w().pend = if shape == 5 { 0 } else { 1 + level as u32 };
    let mut b = B::new();
    if wait(b.add_directory_recursive(root, name.as_deref())).is_err() {
        zs::fail("adding a good tree fails");
    }
    let want = expected(r, name.as_deref().map(|s| s.as_bytes()));
    same_names(&b, &want);
    zs::check(open_fds() == 0, "a directory is left open");
    w().pend = 0;
    same_archive(b, &want);
    zs::check(open_fds() == 0, "a file is left open");
    zs::reach("end");
}
/// Objects with any names.
pub fn c21_names() {
    let level = zs::pick(2, "level");
    new_world(0);
    new_fs();
    let r = node(0, b"r", DIR);
    let na = 1 + zs::pick(2 + level as u64, "length");
    let nb = 1 + zs::pick(2 + level as u64, "length");
    let (a, c) = (zs::vec(na, "name"), zs::vec(nb, "name"));
    for n in [&a, &c] {
        let mut ok = true;
        for &x in n {
            ok &= (x != 0) & (x != b'/');
        }
        if n.len() == 1 {
            ok &= n[0] != b'.';
        }
        if n.len() == 2 {
            ok &= (n[0] != b'.') | (n[1] != b'.');
        }
        zs::assume(ok);
    }
    if na == nb {
        zs::assume(!zs::same(&a, &c));
    }
    if std::str::from_utf8(&a).is_err() || std::str::from_utf8(&c).is_err() {
        return;
    }
    let i = node(r, &a, get(&[DIR, LNK]));
    if fs().n[i].kind == DIR {
        let f = node(i, &c, REG);
        fill(f, zs::vec(1, "data"));
    } else {
        fill(i, zs::vec(2, "target"));
    }
    let j = node(r, &c, get(&[REG, DIR]));
    fill(j, if fs().n[j].kind == DIR { vec![] } else { zs::vec(2, "data") });
    let prefix = get(&[None, Some("q/")]);
    let mut b = B::new();
    if wait(b.add_directory_recursive(get(&["/r", "/r/"]).into(), prefix)).is_err() {
        zs::fail("adding a good tree fails");
    }
    let want = expected(r, prefix.map(|s| s.as_bytes()));
    same_names(&b, &want);
    same_archive(b, &want);
    zs::reach("end");
}
fn raw(e: &io::Error) -> i32 {
    e.raw_os_error().unwrap_or(0)
}
/// Failures on the way, and roots that are no directories.
pub fn c21_fail() {
    new_world(0);
    new_fs();
    let shape = get(&[2, 3]);
    let r = tree(shape);
    let prefix = get(&[None, Some("p")]);
    w().pend = 1;
    let mut b = B::new();
    let mut path: PathBuf = "/r".into();
    // nodes below the root, without the root itself and what is outside
    let below: Vec<usize> = expected(r, None).iter().map(|x| x.1).collect();
    let i = get(&below);
    let errno = get(&[2, 13]);
    let mut dup = vec![];
    let mut nodir = false;
    match zs::pick(8, "what fails") {
        0 => fs().n[i].no_stat = errno,
        1 if fs().n[i].kind == DIR => fs().n[i].no_open = errno,
        2 if fs().n[i].kind == LNK => fs().n[i].no_link = errno,
        3 => fs().list_fails = Some((get(&[r, below[0]]), zs::pick(5, "after"), errno)),
        4 => {
            path = get(&["/missing", "/x/of/y", ""]).into();
        }
        5 => {
            let l = node(0, b"ln", LNK);
            fill(l, b"r".to_vec());
            path = get(&["/ln", "/x/of"]).into();
            nodir = true;
        }
        6 => {
            let names = expected(r, prefix.map(|s| s.as_bytes()));
            dup = names[zs::pick(names.len() as u64, "duplicate")].0.clone();
            let e = wait(FilesystemEntry::with_metadata("/x".into(), &lstat(Path::new("/x")))).unwrap_or_else(|_| zs::fail("with_metadata"));
            if b.add_entry(String::from_utf8(dup.clone()).unwrap_or_default(), e).is_err() {
                zs::fail("valid entry refused");
            }
        }
        7 => {
            // a symlink followed by a slash is the directory it leads to
            let l = node(0, b"ln", LNK);
            fill(l, b"r".to_vec());
            if wait(b.add_directory_recursive(get(&["/ln/", "/ln/."]).into(), prefix)).is_err() {
                zs::fail("adding a good tree fails");
            }
            same_names(&b, &expected(r, prefix.map(|s| s.as_bytes())));
            zs::reach("through a link");
            return;
        }
        _ => return,
    }
    w().total_errs = 0;
    let res = wait(b.add_directory_recursive(path.clone(), prefix));
    zs::check(open_fds() == 0, "a directory is left open");
    match res {
        Ok(()) => {
            zs::check(!nodir && dup.is_empty() && path.as_os_str() == "/r" && w().total_errs == 0, "a failure is swallowed by a recursive addition");
            same_names(&b, &expected(r, prefix.map(|s| s.as_bytes())));
            zs::reach("good");
        }
        Err(AddDirectoryRecursiveError::NotADirectory { path: p, .. }) => {
            zs::check(nodir && p == path, "a directory is taken for something else");
            zs::check(keys(&b).is_empty(), "entries are added although the root is no directory");
            zs::reach("not a directory");
        }
        Err(AddDirectoryRecursiveError::AddEntryError(e)) => {
            zs::check(!dup.is_empty() && is_dup(&e, &dup), "an object is refused");
            zs::reach("duplicate");
        }
        Err(AddDirectoryRecursiveError::IOError(e)) => {
            let want = match path.as_os_str().as_bytes() {
                b"/r" => errno,
                b"/x/of/y" => 20,
                _ => 2,
            };
            zs::check(raw(&e) == want && !nodir && dup.is_empty(), "a failure of the file system is returned as another error");
            zs::reach("failure");
        }
        Err(_) => zs::fail("another error"),
    }
}

// ---- C22 ----------------------------------------------------------------------------------

pub fn by(b: &mut B, how: usize, name: &str, path: &str) {
    let p: PathBuf = path.into();
    let m = lstat(&p);
    if how == 0 {
        if wait(b.add_filesystem_entry(name.to_string(), p, &m)).is_err() {
            zs::fail("a good object is refused");
        }
    } else {
        let e = wait(FilesystemEntry::with_metadata(p, &m)).unwrap_or_else(|_| zs::fail("with_metadata"));
        match b.add_entry(name.to_string(), e) {
            Ok(e) => {
                e.metadata(&m);
            }
            Err(_) => zs::fail("a good object is refused"),
        }
    }
}
/// A directory, two files and a symlink with any contents; sequential reads.
pub fn c22() {
    let level = zs::pick(2, "level");
    new_world(0);
    new_fs();
    let how = zs::pick(2, "added by");
    let (la, lb) = get(&[(0, 3), (3, 1), (5, 0)]);
    let lt = if level > 0 { get(&[0, 1, 3, 255, 256, 300]) } else { get(&[1, 3, 256]) };
    node(0, b"d", DIR);
    let a = node(1, b"a", REG);
    fill(a, zs::vec(la, "data"));
    let l = node(1, b"l", LNK);
    let mut t = vec![b't'; lt];
    let k = lt.min(3);
    zs::bytes(&mut t[..k], "target");
    for &x in &t[..k] {
        zs::assume(x != 0);
    }
    fill(l, t);
    fs().n[l].size = 4096; // some file systems announce something else for links
    let c = node(0, b"b", REG);
    fill(c, zs::vec(lb, "data"));
    let mut b = B::new();
    w().pend = 1;
    for (n, p) in [("x/", "/d"), ("x/a", "/d/a"), ("x/l", "/d/l"), ("y", "/b")] {
        by(&mut b, how, n, p);
    }
    zs::check(fs().n[a].opens + fs().n[c].opens == 0, "adding a file opens it");
    let mut r = b.build();
    w().pend = 2 + level as u32;
    w().short = 1;
    let cap = get(&[1, 50, 5000]);
    let mut out = vec![];
    loop {
        match poll_once(&mut r, cap, out.len() % 2) {
            Out::Data(d) if d.is_empty() => break,
            Out::Data(d) => out.extend_from_slice(&d),
            Out::Pending(n) => zs::check(n == 0 && w().suspended > 0, "suspended although no work it waits for is pending"),
            Out::Err(..) => zs::fail("reading good objects fails"),
        }
        zs::check(!w().bad_waker, "blocking work is polled with another waker than the current one");
    }
    zs::obs_bytes(1, &out);
    zs::check(out.len() as u64 == r.size(), "announced size");
    let z = zip::parse(&out);
    zs::check(z.e.len() == 4, "number of entries");
    for (e, i) in z.e.iter().zip([1, a, l, c]) {
        content(&out, e, &fs().n[i]);
        zs::check(e.ext >> 28 == fs().n[i].kind as u32 >> 12, "type of an entry");
        zs::check(e.crc_cd == crc_ref(&out[e.data..e.data_end]), "CRC of an object");
    }
    zs::check(fs().n[a].opens == (la > 0) as u32 && fs().n[c].opens == (lb > 0) as u32, "a file is opened more than once, or an empty one");
    zs::check(fs().n[l].opens == 0, "a symlink is opened");
    drop(r);
    zs::check(open_fds() == 0, "a file is left open");
    zs::reach("end");
}
type Fields = (i32, u32, u32, u32, u32, u32);
fn fields_ok(f: &Fields) -> bool {
    (f.0 >= 1980) & (f.0 <= 2107) & (f.1 >= 1) & (f.1 <= 12) & (f.2 >= 1) & (f.2 <= 31) & (f.3 <= 23) & (f.4 <= 59) & (f.5 <= 59)
}
const DEFAULT_TIME: u32 = 0x0021_0000;
fn dos(f: &Fields) -> u32 {
    let d = (f.0.wrapping_sub(1980) as u32) << 9 | f.1 << 5 | f.2;
    let t = f.3 << 11 | f.4 << 5 | f.5 / 2;
    (d << 16) | (t & 0xffff)
}
/// Any mode and any modification time of any kind of object.
pub fn c22_meta(props: u32) {
    new_world(props);
    new_fs();
    let kind = get(&[REG, DIR, LNK, FIFO]);
    let o = node(0, b"o", kind);
    fill(o, if kind == DIR { vec![] } else { b"xy".to_vec() });
    let n = &mut fs().n[o];
    n.bits = zs::int(0, 0o7777, "mode") as u16;
    const BIG: i64 = 1 << 40;
    let s = zs::int(0, 2 * BIG as u64, "seconds");
    n.sec = s as i64 - BIG;
    n.nsec = zs::int(0, 999_999_999, "nanoseconds") as u32;
    let t: SystemTime = (UNIX_EPOCH - Duration::from_secs(BIG as u64)) + Duration::new(s, n.nsec);
    let bits = n.bits as u32;
    let mut v = [0u8; 24];
    zs::bytes(&mut v, "fields");
    let u = |i: usize| u32::from_le_bytes([v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]]);
    let f: Fields = (u(0) as i32, u(1), u(2), u(3), u(4), u(5));
    let mut b = B::new();
    let conv = zs::pick(2, "converter") == 1;
    if conv {
        b.system_time_converter(move |x| {
            chk(P14 | P22, x == t, "the time converter gets another time than the object's modification time");
            f
        });
    }
    match zs::pick(3, "added by") {
        2 => {
            // below a directory
            let d = node(0, b"d", DIR);
            fs().n[o].parent = d;
            fs().n[d].sec = s as i64 - BIG;
            fs().n[d].nsec = fs().n[o].nsec;
            if wait(b.add_directory_recursive("/d".into(), Some("n"))).is_err() {
                zs::fail("adding a good tree fails");
            }
        }
        how => {
            by(&mut b, how, if kind == DIR { "n/" } else { "n" }, "/o");
            // the metadata of the object override what was set before
            let (_, e) = b.get_entries_mut().get_index_mut(0).unwrap_or_else(|| zs::fail("no entry"));
            match zs::pick(4, "set before") {
                0 => {}
                k => {
                    e.readonly(k == 1).datetime_fields(1999, 9, 9, 9, 9, 9);
                    match k {
                        1 => e.directory(),
                        2 => e.symlink(),
                        _ => e.file(),
                    };
                    e.metadata(&lstat(Path::new("/o")));
                }
            }
        }
    }
    let img = read_all(&mut b.build());
    let z = zip::parse(&img);
    let ty = if kind == FIFO { REG } else { kind } as u32;
    let want = if ty == LNK as u32 { 0o777 } else { bits & 0o777 };
    chk(P15 | P22, z.e[0].ext == (ty | want) << 16, "type and permissions of an object");
    let time = if conv & fields_ok(&f) { dos(&f) } else { DEFAULT_TIME };
    for e in &z.e {
        chk(P14 | P22, e.time == time, "modification time of an object");
    }
    if props & P22 != 0 {
        content(&img, &z.e[0], &fs().n[o]);
    }
    zs::reach("end");
}
/// Files that shrank or grew, and files that cannot be opened (for a while).
pub fn c22_size() {
    let level = zs::pick(2, "level");
    new_world(0);
    new_fs();
    let first = node(0, b"a", REG);
    fill(first, zs::vec(1, "data"));
    let o = node(0, b"o", REG);
    let was = 1 + zs::pick(5 + 3 * level as u64, "size when added");
    let now = zs::pick(8 + 4 * level as u64, "size when read");
    fill(o, zs::vec(now, "data"));
    fs().n[o].size = was as u64;
    let last = node(0, b"z", REG);
    fill(last, zs::vec(1, "data"));
    let mut b = B::new();
    for (n, p) in [("a", "/a"), ("o", "/o"), ("z", "/z")] {
        by(&mut b, 0, n, p);
    }
    let mut r = b.build();
    let end = 30 + 1 + 28 + 1 + 24 + 30 + 1 + 28; // start of the file's data
    w().pend = 1;
    w().short = 1;
    let cap = get(&[1, 3, 40, 5000]);
    let unopened = zs::pick(2, "cannot be opened at first") == 1;
    if unopened {
        fs().n[o].no_open = 13;
    }
    let mut out = vec![];
    let mut failed = 0;
    loop {
        match poll_once(&mut r, cap, 0) {
            Out::Data(d) => {
                zs::check(failed == 0, "a read after a size mismatch succeeds");
                if d.is_empty() {
                    break;
                }
                out.extend_from_slice(&d);
            }
            Out::Pending(n) => zs::check(n == 0, "bytes written by a suspended call are lost"),
            Out::Err(e, n) => {
                zs::check(n == 0, "bytes written by a failing read call are lost");
                if fs().n[o].no_open != 0 {
                    zs::check(raw(&e) == 13, "a file that cannot be opened fails with another error");
                    zs::check(r.tell() == out.len() as u64, "position after a failure");
                    fs().n[o].no_open = 0;
                    zs::reach("not opened");
                    continue;
                }
                zs::check(was != now, "a file that did not change fails");
                match e.get_ref().and_then(|e| e.downcast_ref::<ReadError>()) {
                    Some(ReadError::SizeMismatch { entry_name, expected_size, .. }) => {
                        zs::check(entry_name == "o" && *expected_size == was as u64, "size mismatch: details");
                    }
                    _ => zs::fail("the error is not a size mismatch"),
                }
                zs::check(out.len() <= end + was.max(now), "something after the data of a file that changed is delivered");
                failed += 1;
                zs::obs_bytes(1, &out);
                if failed == 2 {
                    zs::reach("mismatch");
                    return;
                }
            }
        }
    }
    zs::check(was == now, "a file that shrank or grew is not noticed");
    zs::check(!unopened || fs().n[o].no_open == 0, "a file that cannot be opened is not noticed");
    let z = zip::parse(&out);
    for (e, i) in z.e.iter().zip([first, o, last]) {
        content(&out, e, &fs().n[i]);
    }
    drop(r);
    zs::check(open_fds() == 0, "a file is left open");
    zs::reach("end");
}
/// Random access with suspensions and failures of reads and seeks in files.
pub fn c22_seek() {
    let level = zs::pick(2, "level");
    new_world(0);
    new_fs();
    let a = node(0, b"a", REG);
    fill(a, zs::vec(3, "data"));
    let l = node(0, b"l", LNK);
    fill(l, b"tt".to_vec());
    let c = node(0, b"b", REG);
    fill(c, zs::vec(4, "data"));
    let mut b = B::new();
    for (n, p) in [("a", "/a"), ("l", "/l"), ("b", "/b")] {
        by(&mut b, 0, n, p);
    }
    let img = read_all(&mut b.clone().build());
    let z = zip::parse(&img);
    if zs::pick(2, "presets") == 1 {
        for i in 0..3 {
            b.get_entries_mut().get_index_mut(i).unwrap().1.crc32(z.e[i].crc_cd);
        }
    }
    let mut r = b.build();
    let mut v = vec![0, z.cd as u64, z.e[0].data_end as u64, z.e[2].dd_end as u64];
    for e in &z.e {
        v.extend([e.data as u64, e.data as u64 + 1, e.data_end as u64 - 1]);
    }
    w().pend = 1 + level as u32;
    w().err = 1;
    w().short = level as u32;
    let mut pos = 0u64;
    for k in 0..2 {
        let o = if k == 0 { get(&v) } else { [z.e[0].data as u64 + 2, z.e[2].data as u64 + 1][zs::pick(2, "seek")] };
        seek_to(&mut r, o);
        pos = o;
        let n = get(&[0, 2, 90]);
        if n > 0 {
            step(&img, &mut r, &mut pos, n);
        }
    }
    let mut limit = 500;
    while !step(&img, &mut r, &mut pos, 60) {
        limit -= 1;
        if limit == 0 {
            zs::fail("reading does not come to an end");
        }
    }
    drop(r);
    zs::check(open_fds() == 0, "a file is left open");
    zs::reach("end");
}
pub fn step(img: &[u8], r: &mut Rd, pos: &mut u64, cap: usize) -> bool {
    let errs = w().total_errs;
    let o = poll_once(r, cap, 0);
    let failed = w().total_errs - errs;
    zs::check(!w().bad_waker, "blocking work is polled with another waker than the current one");
    let mut eof = false;
    match o {
        Out::Data(d) => {
            zs::obs_bytes(1, &d);
            zs::check(failed == 0, "a failure of the file system is swallowed");
            if d.is_empty() {
                zs::check(*pos >= img.len() as u64, "end of file before the end");
                eof = true;
            }
            let p = *pos as usize;
            if p + d.len() > img.len() && !d.is_empty() {
                zs::fail("bytes are delivered beyond the announced size");
            }
            if !d.is_empty() {
                zs::check(zs::same(&d, &img[p..p + d.len()]), "delivered bytes are not the archive's bytes at the reader's position");
            }
            *pos += d.len() as u64;
        }
        Out::Pending(n) => zs::check(n == 0 && w().suspended > 0, "suspended although no work it waits for is pending"),
        Out::Err(e, n) => {
            zs::check(n == 0, "bytes written by a failing read call are lost");
            zs::check(raw(&e) == w().err_code && w().err_code != 0, "a failure of the file system is returned as another error");
            w().err_code = 0;
        }
    }
    zs::check(r.tell() == *pos, "the reported position is not the true stream position");
    eof
}
