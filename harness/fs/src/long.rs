//! Large files, long targets, deep and wide trees.
use crate::model::*;
use crate::tree::*;
use crate::world::*;
use crate::{zip, zs};

/// A chain of directories with a file and a link in each; long names.
pub fn c21_deep() {
    new_world(0);
    new_fs();
    let root = node(0, b"r", DIR);
    let (depth, len) = get(&[(40, 2), (100, 1), (12, 255), (200, 20)]);
    let mut d = root;
    for k in 0..depth {
        let mut n = vec![b'a' + (k % 26) as u8; len];
        if len >= 2 {
            // more bytes than characters
            n[len - 2..].copy_from_slice("\u{17e}".as_bytes());
        }
        d = node(d, &n, DIR);
        if k % 7 == 0 || k == depth - 1 {
            let f = node(d, b"ff", REG);
            fill(f, if k == 0 || k == depth - 1 { zs::vec(2, "data") } else { vec![k as u8] });
            let l = node(d, b"ll", LNK);
            fill(l, b"../..".to_vec());
        }
    }
    let name = get(&[None, Some("p")]);
    w().each_pend = get(&[0, 2]);
    let mut b = B::new();
    if wait(b.add_directory_recursive("/r".into(), name)).is_err() {
        zs::fail("adding a good tree fails");
    }
    let want = expected(root, name.map(|s| s.as_bytes()));
    same_names(&b, &want);
    zs::check(open_fds() == 0, "a directory is left open");
    w().each_pend = 0;
    same_archive(b, &want);
    zs::check(open_fds() == 0, "a file is left open");
    zs::reach("end");
}
/// A directory with hundreds of objects, below it others.
pub fn c21_wide() {
    new_world(0);
    new_fs();
    let root = node(0, b"r", DIR);
    let n = get(&[130, 257, 300]);
    let mut d = 0;
    for k in 0..n {
        let nm = format!("{:03}", (k * 77) % 1000);
        let kind = match k % 10 {
            3 => DIR,
            7 => LNK,
            _ => REG,
        };
        let parent = if k > n / 2 && k % 2 == 0 { d } else { root };
        let o = node(parent, nm.as_bytes(), kind);
        match kind {
            DIR => d = o,
            LNK => fill(o, b"x".to_vec()),
            _ => fill(o, if k == 0 { zs::vec(2, "data") } else { vec![k as u8; k % 3] }),
        }
    }
    let name = get(&[None, Some("\u{17e}/q/")]);
    w().each_pend = get(&[0, 1]);
    let mut b = B::new();
    if wait(b.add_directory_recursive("/r/".into(), name)).is_err() {
        zs::fail("adding a good tree fails");
    }
    let want = expected(root, name.map(|s| s.as_bytes()));
    same_names(&b, &want);
    zs::check(open_fds() == 0, "a directory is left open");
    w().each_pend = 0;
    same_archive(b, &want);
    zs::check(open_fds() == 0, "a file is left open");
    zs::reach("end");
}
/// Files larger than any buffer, symlinks with long targets.
pub fn c22_long() {
    let level = zs::pick(2, "level");
    new_world(0);
    new_fs();
    let n: usize = if level > 0 { get(&[8191, 8192, 8193, 65536, 70_001, 262_144, 2_097_153, 4_300_000]) } else { get(&[8193, 70_001, 200_000]) };
    let a = node(0, b"a", REG);
    let mut d: Vec<u8> = (0..n).map(|i| byte_at(5, i as u64)).collect();
    d[n - 3] = zs::vec(1, "data")[0];
    fill(a, d);
    let l = node(0, b"l", LNK);
    let lt = get(&[1023, 1024, 4095]);
    let mut t = vec![b't'; lt];
    t[lt - 1] = zs::int(1, 255, "target") as u8;
    fill(l, t);
    let c = node(0, b"b", REG);
    fill(c, zs::vec(3, "data"));
    let mut b = B::new();
    for (n, p) in [("a", "/a"), ("l", "/l"), ("b", "/b")] {
        by(&mut b, 0, n, p);
    }
    let mut r = b.build();
    let cap = get(&[1000, 8192, 65536, 5_000_000]);
    w().each_pend = get(&[0, 3]);
    w().chunk = get(&[usize::MAX, 1500]);
    let mut out: Vec<u8> = Vec::with_capacity(n + 10_000);
    loop {
        match poll_once(&mut r, cap, 0) {
            Out::Data(d) if d.is_empty() => break,
            Out::Data(d) => out.extend_from_slice(&d),
            Out::Pending(n) => zs::check(n == 0 && w().suspended > 0, "suspended although no work it waits for is pending"),
            Out::Err(..) => zs::fail("reading good objects fails"),
        }
        zs::check(!w().bad_waker, "blocking work is polled with another waker than the current one");
    }
    w().each_pend = 0;
    zs::check(out.len() as u64 == r.size(), "announced size");
    let z = zip::parse(&out);
    zs::check(z.e.len() == 3, "number of entries");
    for (e, i) in z.e.iter().zip([a, l, c]) {
        content(&out, e, &fs().n[i]);
        zs::check(e.ext >> 28 == fs().n[i].kind as u32 >> 12, "type of an entry");
    }
    zs::check(fs().n[a].opens == 1 && fs().n[c].opens == 1, "a file is opened more than once");
    // random access, the CRCs known by now
    for o in [z.e[0].data + n - 5, z.e[0].data + n / 2, z.e[0].data + 1, z.e[1].data + lt - 1, z.e[0].data + n - 1, z.e[2].data + 1] {
        seek_to(&mut r, o as u64);
        let mut p = o as u64;
        step(&out, &mut r, &mut p, 100);
        step(&out, &mut r, &mut p, 100);
    }
    drop(r);
    zs::check(open_fds() == 0, "a file is left open");
    zs::reach("end");
}
/// Files beyond 32 bits: announced sizes, random access.
pub fn c22_huge() {
    new_world(0);
    new_fs();
    let n = get(&[(1u64 << 32) - 1, (1 << 32) + 3, (1 << 40) + 77, (1 << 62)]);
    let a = node(0, b"a", REG);
    fs().n[a].synth = Some(n);
    fs().n[a].size = n;
    let c = node(0, b"b", REG);
    fill(c, zs::vec(3, "data"));
    let mut b = B::new();
    by(&mut b, 0, "a", "/a");
    by(&mut b, 0, "b", "/b");
    b.get_entries_mut().get_index_mut(0).unwrap_or_else(|| zs::fail("entry")).1.crc32(0x1234_5678);
    b.get_entries_mut().get_index_mut(1).unwrap_or_else(|| zs::fail("entry")).1.crc32(crc_ref(&fs().n[c].data));
    let size = 98 + 2 * (184 - 28 + 2) + n + 3;
    zs::check(b.size() == size, "announced size");
    let mut r = b.build();
    zs::check(r.size() == size, "announced size");
    let data = 59u64;
    w().each_pend = get(&[0, 2]);
    for _ in 0..2 {
        let o = get(&[0, 1, 8191, 0xffff_fff0, 0x1_0000_0001, n / 2 + 5, n - 8193, n - 1]).min(n - 1);
        seek_to(&mut r, data + o);
        let cap = get(&[1, 100, 9000]);
        let mut p = o;
        for _ in 0..2 {
            loop {
                match poll_once(&mut r, cap, 0) {
                    Out::Data(d) => {
                        zs::check(!d.is_empty(), "end of file before the end");
                        for i in [0, 1, d.len() / 2, d.len() - 1] {
                            let q = p + i as u64;
                            if i < d.len() && q < n {
                                zs::check(d[i] == byte_at(a as u32, q), "delivered bytes are not the archive's bytes at the reader's position");
                            }
                        }
                        p += d.len() as u64;
                        break;
                    }
                    Out::Pending(n) => zs::check(n == 0 && w().suspended > 0, "suspended although no work it waits for is pending"),
                    Out::Err(..) => zs::fail("reading good objects fails"),
                }
            }
            zs::check(r.tell() == data + p, "the reported position is not the true stream position");
        }
    }
    // the entry behind it
    w().each_pend = 0;
    seek_to(&mut r, size - 98 - 75 - 75 - 24 - 3);
    match poll_once(&mut r, 100, 0) {
        Out::Data(d) => zs::check(d.len() >= 3 && eq(&d[..3], &fs().n[c].data), "content of an entry is not the object's"),
        _ => zs::fail("reading good objects fails"),
    }
    drop(r);
    zs::check(open_fds() == 0, "a file is left open");
    zs::reach("end");
}
