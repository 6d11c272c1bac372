//! The reader's properties over file system entries: the same histories as over scripted sources.
use crate::model::*;
use crate::tree::{by, read_all, wait, Rd, B};
use crate::walks;
use crate::world::*;
use crate::zs;
use zippity::ReadError;

fn get<T: Copy>(v: &[T]) -> T {
    v[zs::pick(v.len() as u64, "one of")]
}
/// A file, a symlink, a file; CRCs known or not.
fn archive(props: u32, known: &[usize]) -> (Ctx, Rd) {
    new_world(props);
    w().few = true;
    w().late = true;
    new_fs();
    for (n, kind, l) in [("a", REG, 2), ("l", LNK, 2), ("b", REG, 3)] {
        let d = if kind == LNK { b"to".to_vec() } else { zs::vec(l, "data") };
        let i = node(0, n.as_bytes(), kind);
        fill(i, d.clone());
        let k = add_source(n, d) as usize;
        if kind == REG {
            fs().n[i].src = Some(k);
        }
    }
    let mask = get(known);
    let mut b = B::new();
    for (k, n) in ["a", "l", "b"].iter().enumerate() {
        by(&mut b, 0, n, &format!("/{n}"));
        if mask >> k & 1 == 1 {
            let c = crc_ref(&w().s[k].data);
            w().s[k].preset = Some(c);
            b.get_entries_mut().get_index_mut(k).unwrap_or_else(|| zs::fail("entry")).1.crc32(c);
        }
    }
    let img = read_all(&mut b.clone().build());
    let lay = layout();
    let crcs = w().s.iter().map(|s| crc_ref(&s.data)).collect();
    reset_counters();
    (Ctx { img, lay, crcs }, b.build())
}
fn closed() {
    zs::check(open_fds() == 0, "a file is left open");
}
pub fn c03() {
    let (c, r) = archive(P03, &[0]);
    walks::sizes(&c, r);
    closed();
}
pub fn c04() {
    let (c, r) = archive(P04, &[0, 7]);
    w().pend = 1 + zs::pick(2, "level") as u32;
    w().short = 1;
    walks::delivery(&c, r);
    closed();
}
pub fn c05() {
    let (c, r) = archive(P05, &[0, 5, 7]);
    walks::any_seek(&c, r);
    closed();
}
pub fn c06() {
    let (c, r) = archive(P06, &[0, 5]);
    w().pend = 1;
    w().err = zs::pick(2, "level") as u32;
    walks::seeks(&c, r);
    closed();
}
pub fn c08() {
    let (c, r) = archive(P08, &[0, 1]);
    w().pend = 1;
    w().short = zs::pick(2, "level") as u32;
    walks::seeks(&c, r);
}
pub fn c13() {
    let (c, mut r) = archive(P13, &[0, 5]);
    w().pend = zs::pick(2, "level") as u32;
    if zs::pick(2, "walk") == 0 {
        walks::seeks(&c, r);
        return;
    }
    w().pend = 1;
    let mut m = c.start();
    let n = get(&[1, 40, 60, 9000]);
    c.drain(&mut m, &mut r, n);
    for (i, s) in w().s.iter().enumerate() {
        zs::check(s.opens == (s.data.len() > 0 && i != 1) as u32, "a sequential read opens an entry more than once, or an empty one");
    }
    walks::finish(&c, &mut m, &mut r);
    zs::check(open_fds() == 0, "a source is kept open after the end");
}
pub fn c16() {
    let (c, r) = archive(P16, &[0, 5]);
    w().pend = 1;
    w().err = zs::pick(2, "level") as u32;
    walks::copies(&c, r);
    closed();
}
pub fn c17() {
    let (c, r) = archive(P17, &[0, 5, 7]);
    w().err = 1 + zs::pick(2, "level") as u32;
    w().pend = 1;
    walks::failures(&c, r);
    closed();
}
/// A file that shrank or grew since it was added.
pub fn c10() {
    new_world(0);
    new_fs();
    let (was, now) = (1 + zs::pick(5, "announced"), zs::pick(7, "actual"));
    let i = node(0, b"o", REG);
    fill(i, zs::vec(now, "data"));
    fs().n[i].size = was as u64;
    let mut b = B::new();
    by(&mut b, 0, "o", "/o");
    let mut r = b.build();
    w().pend = 1;
    w().short = 1;
    let cap = get(&[1, 3, 40, 1000]);
    let mut limit = 500;
    loop {
        limit -= 1;
        if limit == 0 {
            zs::fail("reading does not come to an end");
        }
        match poll_once(&mut r, cap, 0) {
            Out::Data(d) if d.is_empty() => break,
            Out::Data(_) | Out::Pending(_) => {}
            Out::Err(e, _) => {
                zs::check(was != now, "a good file fails");
                match e.get_ref().and_then(|e| e.downcast_ref::<ReadError>()) {
                    Some(ReadError::SizeMismatch { expected_size, .. }) => zs::check(*expected_size == was as u64, "size mismatch: details"),
                    _ => zs::fail("the error is not a size mismatch"),
                }
                zs::reach("mismatch");
                return;
            }
        }
    }
    zs::check(was == now, "a file that shrank or grew is not noticed");
    zs::reach("end");
}

/// The size announced for trees and single objects of any sizes, at every moment.
pub fn c02() {
    new_world(0);
    new_fs();
    let mut want = 98u64;
    let mut b = B::new();
    let dirs = zs::pick(2, "tree");
    let d = node(0, b"d", DIR);
    let lt = get(&[1usize, 40, 300]);
    let big = zs::pick(2, "huge") == 1;
    for (k, kind) in [("f", REG), ("l", LNK), ("s", DIR), ("p", FIFO)] {
        let parent = if dirs == 1 { d } else { 0 };
        let i = node(parent, k.as_bytes(), kind);
        let mut len = 0;
        match kind {
            REG => {
                let n = if big { zs::int(0, (1 << 63) - 1, "size") } else { zs::pick(4, "size") as u64 };
                if big {
                    fs().n[i].size = n;
                } else {
                    fill(i, zs::vec(n as usize, "data"));
                }
                len = n;
            }
            LNK => {
                fill(i, vec![b'x'; lt]);
                fs().n[i].size = get(&[0, lt as u64, 4096]);
                len = lt as u64;
            }
            DIR => fs().n[i].size = get(&[0, 4096]),
            _ => fs().n[i].size = 0,
        }
        want += 184 - 28 + len + 2 * (1 + (kind == DIR) as u64) + if dirs == 1 { 4 } else { 0 };
        if dirs == 0 {
            by(&mut b, zs::pick(2, "added by"), if kind == DIR { "s/" } else { k }, &format!("/{k}"));
            zs::check(b.size() == want, "size announced by the builder");
        }
    }
    if dirs == 1 {
        want += 184 - 28 + 2 * 2;
        if wait(b.add_directory_recursive("/d".into(), Some("p"))).is_err() {
            zs::fail("adding a good tree fails");
        }
        zs::check(b.size() == want, "size announced by the builder");
    }
    let mut r = b.build();
    zs::check(r.size() == want, "size announced by the reader");
    if !big {
        zs::check(read_all(&mut r).len() as u64 == want, "announced size is not the number of bytes delivered");
        zs::check(r.size() == want, "the announced size changed");
    }
    zs::reach("end");
}
