//! Histories over readers of any kind of source, checked against the ghost model.
#![allow(dead_code)]
use crate::world::*;
use crate::zs;
use std::pin::Pin;
use zippity::{EntryData, Reader};

/// Boundaries of the archive's records, for targeted offsets.
pub fn bounds(c: &Ctx) -> Vec<u64> {
    let mut v = vec![0];
    for l in &c.lay.e {
        v.extend([l.lfh, l.lfh + 30, l.data, l.dd, l.end, l.cdh, l.cdh + 46, l.cdh_end]);
    }
    v.extend([c.lay.cd, c.lay.eocd, c.lay.eocd + 56, c.lay.eocd + 76, c.lay.size]);
    v.sort();
    v.dedup();
    v
}
/// The same and offsets within the data of entries.
pub fn mids(c: &Ctx) -> Vec<u64> {
    let mut v = bounds(c);
    for l in &c.lay.e {
        v.extend((l.data + 1..l.dd).take(2));
    }
    v.sort();
    v.dedup();
    v
}
/// Where histories begin: the records' boundaries and places within data, or a few of them.
pub fn places(c: &Ctx) -> Vec<u64> {
    if !w().few {
        return mids(c);
    }
    let (a, z) = (&c.lay.e[0], &c.lay.e[c.lay.e.len() - 1]);
    vec![0, a.data, a.data + 1, a.dd + 1, z.data - 2, z.data + 2, z.dd, a.cdh + 1, c.lay.eocd]
}
pub fn near(c: &Ctx) -> Vec<u64> {
    let mut v = vec![];
    for b in bounds(c) {
        v.extend([b.saturating_sub(1), b, b + 1]);
    }
    v.sort();
    v.dedup();
    v
}
pub fn finish<D: EntryData>(c: &Ctx, m: &mut Model, r: &mut Reader<D>)
where
    Reader<D>: Unpin,
{
    zs::check(m.pos >= c.img.len() as u64, "end of file before the announced size");
    for cap in [1, 0, 100] {
        zs::check(c.step(m, r, cap, 2) == Step::Eof, "a read after the end is not end of file");
    }
    zs::reach("end");
}


fn get<T: Copy>(v: &[T]) -> T {
    v[zs::pick(v.len() as u64, "one of")]
}
/// Any uniform buffer size (symbolic), or two alternating ones.
pub fn sizes<D: EntryData>(c: &Ctx, mut r: Reader<D>)
where
    Reader<D>: Unpin,
{
    let mut m = c.start();
    let pre = get(&[0, 3]);
    if zs::pick(2, "alternating") == 1 {
        let (a, b) = get(&[(1, 50), (0, 7), (200, 3), (24, 25)]);
        let mut k = 0;
        while c.step(&mut m, &mut r, if k % 2 == 0 { a } else { b }, pre) != Step::Eof || (k % 2 == 0 && a == 0) {
            k += 1;
        }
    } else {
        let n = zs::int(1, 2047, "buffer size") as usize;
        while c.step_max(&mut m, &mut r, n, 2047, pre) != Step::Eof {}
    }
    finish(c, &mut m, &mut r);
}
/// Read to the end from one of the boundaries under the schedule set before; CRCs are known at the end.
pub fn delivery<D: EntryData>(c: &Ctx, mut r: Reader<D>)
where
    Reader<D>: Unpin,
{
    let mut m = c.start();
    let b = places(c);
    let o = get(&b);
    if o > 0 {
        seek_to(&mut r, o);
        m.pos = o;
    }
    let n = get(&[5, 60, 9000]);
    c.drain(&mut m, &mut r, n);
    finish(c, &mut m, &mut r);
    c.see_crcs(&mut m, &r);
    if o < c.lay.eocd {
        for i in 0..m.known.len() {
            zs::check(m.known[i].is_some() || o >= c.lay.e[i].cdh_end, "CRCs missing after a complete read");
        }
    }
}
/// One seek to any offset (symbolic) after reads; then to the end.
pub fn any_seek<D: EntryData>(c: &Ctx, mut r: Reader<D>)
where
    Reader<D>: Unpin,
{
    let mut m = c.start();
    for _ in 0..get(&[0, 2]) {
        c.step(&mut m, &mut r, 61, 0);
    }
    let o = zs::int(0, c.img.len() as u64 + 70, "offset");
    let (n, way) = get(&[(3, 0), (50, 1), (9000, 4)]);
    seek_by(&mut r, o, way);
    m.pos = o;
    c.drain(&mut m, &mut r, n);
    finish(c, &mut m, &mut r);
}
/// Seeks and reads under the schedule set before.
pub fn seeks<D: EntryData>(c: &Ctx, mut r: Reader<D>)
where
    Reader<D>: Unpin,
{
    let mut m = c.start();
    zs::check(r.tell() == 0, "a new reader's position is not 0");
    let b = places(c);
    for i in 0..2 {
        let o = if i == 0 { get(&b) } else { get(&[0, c.lay.e[0].data + 1, c.lay.cd + 1, c.lay.size + 3]) };
        seek_to(&mut r, o);
        m.pos = o;
        zs::check(r.tell() == o, "position after a seek is not its target");
        let n = get(&[0, 2, 300]);
        c.step(&mut m, &mut r, n, 0);
        c.step(&mut m, &mut r, n, 0);
    }
    c.drain(&mut m, &mut r, 130);
    finish(c, &mut m, &mut r);
}
/// A clone, or the reader taken out of its place, after a seek and a read.
pub fn copies<D: EntryData + Clone>(c: &Ctx, mut r: Reader<D>)
where
    Reader<D>: Unpin + Clone,
{
    let mut m = c.start();
    let o = get(&places(c));
    seek_to(&mut r, o);
    m.pos = o;
    let n = get(&[0, 2, 60]);
    if n > 0 {
        c.step(&mut m, &mut r, n, 0);
    }
    c.see_crcs(&mut m, &r);
    let how = zs::pick(3, "how");
    let mut k = if how == 2 { Pin::new(&mut r).take_pinned() } else { r.clone() };
    let mut mk = m.clone();
    zs::check(k.tell() == m.pos && k.size() == c.img.len() as u64, "a copy is at another position, or announces another size");
    if how == 2 {
        zs::check(r.tell() == 0 && r.crc32s().count() == 0, "the reader something was taken from is not empty");
    }
    if how == 1 {
        c.step(&mut m, &mut r, 30, 0);
    }
    c.drain(&mut mk, &mut k, 70);
    if how < 2 {
        zs::check(r.tell() == m.pos, "using a clone moved the original");
        c.drain(&mut m, &mut r, 150);
        finish(c, &mut m, &mut r);
    }
    seek_to(&mut k, 0);
    mk.pos = 0;
    c.drain(&mut mk, &mut k, 300);
    finish(c, &mut mk, &mut k);
}
/// Failures and suspensions set before, at any operation; afterwards the read is repeated or a seek is made.
pub fn failures<D: EntryData>(c: &Ctx, mut r: Reader<D>)
where
    Reader<D>: Unpin,
{
    let mut m = c.start();
    let o = get(&places(c));
    seek_to(&mut r, o);
    m.pos = o;
    let cap = get(&[3, 35, 1000]);
    let then = zs::pick(3, "after a failure");
    let mut limit = 2000;
    loop {
        limit -= 1;
        if limit == 0 {
            zs::fail("reading does not come to an end");
        }
        match c.step(&mut m, &mut r, cap, 1) {
            Step::Eof => break,
            Step::Err => {
                if then > 0 {
                    let t = if then == 1 { c.lay.e[0].data + 1 } else { r.tell() };
                    seek_to(&mut r, t);
                    m.pos = t;
                }
            }
            _ => {}
        }
    }
    if w().total_errs > 0 {
        zs::reach("failure");
    }
    finish(c, &mut m, &mut r);
}
