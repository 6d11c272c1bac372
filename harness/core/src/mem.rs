//! Entries held in memory: zippity's own sources.
use crate::bld::read_all;
use crate::hist::{big_data, presets};
use crate::rd::chunks;
use crate::walks;
use crate::world::*;
use crate::{zip, zs};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use zippity::{Builder, EntryData, ReadError, Reader};

fn get<T: Copy>(v: &[T]) -> T {
    v[zs::pick(v.len() as u64, "one of")]
}
/// The archive of the world's sources, held in memory as D.
fn held<D: EntryData>(f: impl Fn(&[u8]) -> D) -> Builder<D> {
    let mut b = Builder::new();
    for s in &w().s {
        match b.add_entry(s.name.clone(), f(&s.data)) {
            Ok(e) => {
                if let Some(c) = s.preset {
                    e.crc32(c);
                }
            }
            Err(_) => zs::fail("valid entry refused"),
        }
    }
    b
}
fn vecs() -> Builder<Vec<u8>> {
    held(|d| d.to_vec())
}
fn contents() {
    for (n, l) in [("a", 3), ("bc", 0), ("d", 4), ("e", 1)] {
        add_source(n, zs::vec(l, "data"));
    }
}

// ---- the reader's properties over such entries ------------------------------------------------

pub fn c01() {
    new_world(0);
    contents();
    let img = read_all(&mut vecs().build());
    let z = zip::parse(&img);
    zs::check(z.e.len() == 4, "number of entries");
    for (e, s) in z.e.iter().zip(&w().s) {
        zs::check(zs::same(&e.name, s.name.as_bytes()), "name of an entry");
        zs::check(e.size as usize == s.data.len() && zs::same(&img[e.data..e.data_end], &s.data), "content of an entry");
    }
    zs::reach("parsed");
}
pub fn walk(props: u32) {
    new_world(props);
    contents();
    presets(get(&[0, 5, 15]));
    let c = Ctx::new();
    let r = vecs().build();
    zs::check(r.size() == c.img.len() as u64, "announced size");
    match zs::pick(4, "walk") {
        0 if props & P03 != 0 => walks::sizes(&c, r),
        1 if props & P05 != 0 => walks::any_seek(&c, r),
        2 if props & (P05 | P06 | P08) != 0 => walks::seeks(&c, r),
        3 if props & P16 != 0 => walks::copies(&c, r),
        _ => {}
    }
}
pub fn stream() {
    new_world(P05);
    contents();
    presets(get(&[0, 5]));
    let c = Ctx::new();
    let mut pos = get(&walks::mids(&c));
    let mut r = vecs().build();
    seek_to(&mut r, pos);
    let mut s = r.into_bytes_stream();
    chunks(&c, &mut pos, &mut s);
    zs::reach("end");
}
/// A buffer whose length changes.
struct Odd(Rc<Cell<usize>>, Vec<u8>);
impl AsRef<[u8]> for Odd {
    fn as_ref(&self) -> &[u8] {
        &self.1[..self.0.get()]
    }
}
/// Buffers whose length changes after it was announced.
pub fn c10() {
    new_world(0);
    let (was, now) = (1 + zs::pick(5, "announced"), zs::pick(7, "actual"));
    let len = Rc::new(Cell::new(was));
    let mut b = Builder::<Odd>::new();
    let odd = Odd(len.clone(), zs::vec(7, "data"));
    if b.add_entry("a".into(), odd).is_err() {
        zs::fail("valid entry refused");
    }
    let mut r = b.build();
    len.set(now);
    let cap = get(&[1, 40, 1000]);
    let mut limit = 500;
    loop {
        limit -= 1;
        if limit == 0 {
            zs::fail("reading does not come to an end");
        }
        match poll_once(&mut r, cap, 0) {
            Out::Data(d) if d.is_empty() => {
                zs::check(was == now, "a buffer that shrank or grew is not noticed");
                break;
            }
            Out::Data(_) => {}
            Out::Pending(_) => zs::fail("suspended although nothing is pending"),
            Out::Err(e, _) => {
                zs::check(was != now, "a good buffer fails");
                match e.get_ref().and_then(|e| e.downcast_ref::<ReadError>()) {
                    Some(ReadError::SizeMismatch { expected_size, .. }) => zs::check(*expected_size == was as u64, "size mismatch: details"),
                    _ => zs::fail("the error is not a size mismatch"),
                }
                zs::reach("mismatch");
                return;
            }
        }
    }
    zs::reach("end");
}

// ---- C23 ----------------------------------------------------------------------------------

fn one<D: EntryData>(d: D, n: usize)
where
    Reader<D>: Unpin,
{
    let s = &w().s[0];
    zs::check(d.size() == n as u64, "size of a buffer");
    let mut b = Builder::new();
    if b.add_entry(s.name.clone(), d).is_err() {
        zs::fail("valid entry refused");
    }
    let mut r = b.build();
    let c = Ctx::new();
    let mut m = c.start();
    zs::check(r.size() == c.img.len() as u64, "announced size");
    c.drain(&mut m, &mut r, get(&[2, 300]));
    c.see_crcs(&mut m, &r);
    let o = get(&[c.lay.e[0].data + 1, c.lay.e[0].dd]);
    seek_to(&mut r, o);
    m.pos = o;
    c.drain(&mut m, &mut r, 50);
    walks::finish(&c, &mut m, &mut r);
}
/// Buffers of every usual kind.
pub fn c23_kinds() {
    new_world(P03 | P05 | P06 | P08);
    let kind = zs::pick(9, "kind");
    let n = if kind >= 7 { 4 } else { zs::pick(4, "length") };
    let d = zs::vec(n, "data");
    if kind == 2 || kind == 5 {
        for x in &d {
            zs::assume(*x < 0x80);
        }
    }
    add_source("a", d.clone());
    match kind {
        0 => one(d, n),
        1 => one(d.into_boxed_slice(), n),
        2 => one(String::from_utf8(d).unwrap_or_else(|_| zs::fail("ascii")), n),
        3 => one(Arc::<[u8]>::from(d), n),
        4 => one(&d[..], n),
        5 => one(std::str::from_utf8(&d).unwrap_or_else(|_| zs::fail("ascii")), n),
        6 => one(std::borrow::Cow::Borrowed(&d[..]), n),
        7 => one([d[0], d[1], d[2], d[3]], n),
        _ => one(&[d[0], d[1], d[2], d[3]], n),
    }
}
/// Larger buffers, random access with CRCs known and not.
pub fn c23_big() {
    new_world(P03 | P05 | P06 | P08);
    let l = get(&[8191usize, 8192, 8193, 20_000]);
    add_source("a", zs::vec(1, "data"));
    add_source("b", big_data(l));
    presets(get(&[0, 2]));
    let c = Ctx::new();
    let d = c.lay.e[1].data;
    let o = get(&[0, d + 1, d + 8191, d + 8192, d + l as u64 - 1, c.lay.e[1].dd, c.lay.cd]);
    let mut r = vecs().build();
    let mut m = c.start();
    seek_to(&mut r, o);
    m.pos = o;
    c.drain(&mut m, &mut r, get(&[700, 8192, 70_000]));
    walks::finish(&c, &mut m, &mut r);
}
/// A buffer of any length of which only the last bytes exist.
struct Tail(Vec<u8>, u64);
impl AsRef<[u8]> for Tail {
    fn as_ref(&self) -> &[u8] {
        let skip = self.1 as usize - self.0.len();
        unsafe { std::slice::from_raw_parts(self.0.as_ptr().wrapping_sub(skip), self.1 as usize) }
    }
}
/// Buffers beyond 31 and 32 bits: only the bytes after the position are touched.
pub fn huge(p: u32) {
    new_world(p);
    const T: u64 = 120;
    let len = get(&[(1u64 << 31) + 60, (1 << 32) - 1, (1 << 32) + 60, 5 << 30, (3 << 40) + 7]);
    let first = zs::pick(2, "place") == 0;
    let crc = zs::int(0, u32::MAX as u64, "crc") as u32;
    let id = if first { 0 } else { 1 };
    if !first {
        add_source("s", zs::vec(3, "data"));
    }
    let tail = zs::vec(T as usize, "tail");
    let big = add_source("big", vec![]) as usize;
    w().s[big].announced = len;
    let mut b = Builder::<Tail>::new();
    if !first {
        let d = w().s[0].data.clone();
        if b.add_entry("s".into(), Tail(d, 3)).is_err() {
            zs::fail("valid entry refused");
        }
    }
    match b.add_entry("big".into(), Tail(tail.clone(), len)) {
        Ok(e) => {
            e.crc32(crc);
        }
        Err(_) => zs::fail("valid entry refused"),
    }
    let lay = layout();
    let mut r = b.build();
    chk(P03, r.size() == lay.size, "announced size");
    let l = &lay.e[id];
    let data = |o: Out| match o {
        Out::Data(d) => d,
        Out::Pending(_) => zs::fail("reader suspended although nothing is pending"),
        Out::Err(..) => zs::fail("read of good buffers failed"),
    };
    let before = 1 + zs::pick(T, "bytes before the end") as u64;
    if zs::pick(2, "how") == 1 {
        // by way of the central directory and the data
        seek_to(&mut r, lay.cd);
        let _ = data(poll_once(&mut r, 40, 0));
        seek_to(&mut r, l.dd - get(&[1u64, 100]));
        let _ = data(poll_once(&mut r, 2, 0));
    }
    let mut pos = l.dd - before;
    seek_to(&mut r, pos);
    chk(P06, r.tell() == pos, "position after a seek is not its target");
    let cap = get(&[7, 200]);
    let mut limit = 100;
    let mut dd = [0u8; 24];
    while pos < l.end {
        limit -= 1;
        let d = data(poll_once(&mut r, cap, 0));
        if limit == 0 || d.is_empty() {
            zs::fail("end of file is reported before the announced size is reached");
        }
        for x in d {
            if pos < l.dd {
                chk(P05 | P06, x == tail[(T + pos - l.dd) as usize], "delivered bytes are not the archive's bytes at the reader's position");
            } else if pos < l.end {
                dd[(pos - l.dd) as usize] = x;
            }
            pos += 1;
        }
        chk(P06, r.tell() == pos, "the reported position is not the true stream position");
    }
    let want = [0x50, 0x4b, 7, 8].into_iter().chain(crc.to_le_bytes()).chain(len.to_le_bytes()).chain(len.to_le_bytes());
    for (x, y) in dd.iter().zip(want) {
        chk(P05, *x == y, "record after the data of a huge buffer");
    }
    zs::reach("end");
}
