//! C07, C08, C09, C13, C16, C17, C18: what a reader does through arbitrary histories.
use crate::bld::read_all;
use crate::hist::{presets, shape};
use crate::walks::{bounds, finish, mids, near};
use crate::world::*;
use crate::{zip, zs};
use futures_core::Stream;
use std::io::{ErrorKind, SeekFrom};
use std::pin::Pin;
use std::task::Poll;
use tokio::io::AsyncSeek;
use zippity::{Builder, BytesStream, EntryData, ReadError, Reader};

fn get<T>(v: &[T]) -> T
where
    T: Copy,
{
    v[zs::pick(v.len() as u64, "one of")]
}

// ---- C07 ----------------------------------------------------------------------------------

/// base + offset, if that is within 0..2^64
fn target(base: u64, off: i64) -> Option<u64> {
    if off >= 0 {
        base.checked_add(off as u64)
    } else {
        base.checked_sub(off.unsigned_abs())
    }
}
fn seek<D: EntryData>(r: &mut Reader<D>, p: SeekFrom) -> std::io::Result<()>
where
    Reader<D>: Unpin,
{
    Pin::new(r).start_seek(p)
}
fn complete<D: EntryData>(r: &mut Reader<D>) -> u64
where
    Reader<D>: Unpin,
{
    match with_cx(|cx| Pin::new(r).poll_complete(cx)) {
        Poll::Ready(Ok(p)) => p,
        _ => zs::fail("a seek does not complete"),
    }
}
fn refused(e: &std::io::Error) {
    zs::check(e.kind() == ErrorKind::InvalidInput, "a seek before the start is refused with another error");
    zs::check(
        matches!(e.get_ref().and_then(|e| e.downcast_ref::<ReadError>()), Some(ReadError::SeekingBeforeStart)),
        "a seek before the start is refused with another error",
    );
}
/// Any position, any archive size, any offset: all 64 bits of each.
pub fn c07() {
    new_world(0);
    let n = zs::pick(3, "entries");
    let form = zs::pick(3, "form");
    let mut b = Builder::<Src>::new();
    let mut total = 98u64;
    for i in 0..n {
        let s = zs::int(0, u64::MAX, "size");
        let id = add_source(["a", "bc"][i], vec![]);
        w().s[i].announced = s;
        w().s[i].synth = Some(s);
        match crate::bld::plus(total, i + 1, s) {
            Some(t) => total = t,
            None => {
                zs::assume(false);
            }
        }
        if b.add_entry(["a", "bc"][i].into(), Src(id)).is_err() {
            zs::fail("valid entry refused");
        }
    }
    let mut r = b.build();
    let p0 = zs::int(0, u64::MAX, "position");
    r.seek_from_start_mut(p0);
    zs::check(r.tell() == p0, "position after a seek is not its target");
    let off = zs::int(0, u64::MAX, "offset");
    let (from, to) = match form {
        0 => (SeekFrom::Start(off), Some(off)),
        1 => (SeekFrom::Current(off as i64), target(p0, off as i64)),
        _ => (SeekFrom::End(off as i64), target(total, off as i64)),
    };
    let neg = form > 0 && (off as i64) < 0;
    if to.is_none() && !neg {
        zs::reach("overflow");
        zs::allow_panic(true); // documented
    }
    let res = seek(&mut r, from);
    match (res, to) {
        (Ok(()), Some(t)) => {
            zs::check(complete(&mut r) == t, "a seek completes at another position than base plus offset");
            zs::check(r.tell() == t, "position after a seek is not its target");
            if t >= total {
                match poll_once(&mut r, 20, 0) {
                    Out::Data(d) if d.is_empty() => {}
                    _ => zs::fail("a read beyond the end is not end of file"),
                }
                zs::check(r.tell() == t, "position after a read beyond the end");
                zs::reach("beyond the end");
            }
            zs::reach("end");
        }
        (Err(e), None) if neg => {
            refused(&e);
            zs::check(r.tell() == p0, "a refused seek moved the position");
            zs::check(complete(&mut r) == p0, "a refused seek moved the position");
            zs::reach("refused");
        }
        (Ok(()), None) => zs::fail("a seek to a target outside 64 bits wraps"),
        (Err(_), None) => {}
        (Err(_), Some(_)) => zs::fail("a seek to a valid target is refused"),
    }
    zs::check(w().s.iter().all(|s| s.opens == 0), "seeking opens an entry");
}
/// The bytes read after a seek of each form, or after a refused one, at any point of a history.
pub fn c07_read() {
    let level = zs::pick(2, "level");
    new_world(P05 | P06);
    shape(get(&[2, 4]));
    presets(get(&[0, 1]));
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let l = &c.lay.e[0];
    let b = if level > 0 { bounds(&c) } else { vec![0, l.data + 1, l.dd, c.lay.cd] };
    seek_to(&mut r, get(&b));
    m.pos = r.tell();
    w().pend = level as u32;
    let n = get(&[0, 2, 33]);
    if n > 0 {
        c.step(&mut m, &mut r, n, 0);
    }
    let size = c.img.len() as i64;
    let form = zs::pick(3, "form");
    let base = [0, m.pos as i64, size][form];
    // any target from before the start to behind the end
    let t = zs::int(0, size as u64 + 20, "target") as i64 - if form == 0 { 0 } else { 10 };
    let off = t - base;
    let res = seek(&mut r, [SeekFrom::Start(t as u64), SeekFrom::Current(off), SeekFrom::End(off)][form]);
    if t < 0 {
        match res {
            Ok(()) => zs::fail("a seek before the start is accepted"),
            Err(e) => refused(&e),
        }
        zs::reach("refused");
    } else {
        if res.is_err() {
            zs::fail("a seek to a valid target is refused");
        }
        m.pos = t as u64;
    }
    zs::check(complete(&mut r) == m.pos, "a seek completes at another position than base plus offset");
    zs::check(r.tell() == m.pos, "position after a seek is not its target");
    c.step(&mut m, &mut r, 7, 0);
    c.step(&mut m, &mut r, 7, 0);
    c.drain(&mut m, &mut r, 200);
    finish(&c, &mut m, &mut r);
}

// ---- C08 ----------------------------------------------------------------------------------

fn image_crcs(c: &Ctx) {
    let z = zip::parse(&c.img);
    for i in 0..w().s.len() {
        zs::check(z.e[i].crc_cd == c.crcs[i] && z.e[i].crc_dd == c.crcs[i], "a CRC in the archive is not the CRC-32 of the entry's data");
    }
}
/// Histories of seeks, reads and suspensions; every CRC delivered or reported on the way.
pub fn c08() {
    let level = zs::pick(2, "level");
    new_world(P08);
    shape(get(&[2, 4, 5]));
    presets(get(&[0, 2]));
    let c = Ctx::new();
    image_crcs(&c);
    let mut r = builder().build();
    let mut m = c.start();
    c.see_crcs(&mut m, &r);
    let b = bounds(&c);
    w().pend = 1;
    w().short = level as u32;
    for i in 0..2 {
        let o = if i == 0 { get(&b) } else { [0, c.lay.e[0].data + 1, c.lay.e[1].data, c.lay.e[0].dd + 1, c.lay.cd][zs::pick(5, "seek")] };
        seek_to(&mut r, o);
        m.pos = o;
        let n = get(&[1, 61, 300]);
        c.step(&mut m, &mut r, n, 1);
        if level > 0 {
            c.step(&mut m, &mut r, n, 0);
        }
    }
    c.drain(&mut m, &mut r, 130);
    finish(&c, &mut m, &mut r);
}
/// Every content of 0 to 12 (40) bytes.
pub fn c08_data() {
    let level = zs::pick(2, "level");
    new_world(P08);
    let n = zs::pick(if level > 0 { 41 } else { 13 }, "length");
    add_source("a", zs::vec(n, "data"));
    add_source("b", zs::vec(1, "data"));
    let c = Ctx::new();
    image_crcs(&c);
    let mut r = builder().build();
    let mut m = c.start();
    let o = get(&[0, c.lay.e[0].data + n as u64 / 2, c.lay.e[0].dd, c.lay.cd]);
    seek_to(&mut r, o);
    m.pos = o;
    c.drain(&mut m, &mut r, get(&[1000, 5]));
    finish(&c, &mut m, &mut r);
}
/// Contents larger than the internal buffer.
pub fn c08_big() {
    new_world(P08);
    let l = get(&[8191, 8192, 8193, 16385]);
    add_source("a", zs::vec(1, "data"));
    add_source("b", crate::hist::big_data(l));
    let c = Ctx::new();
    image_crcs(&c);
    let mut r = builder().build();
    let mut m = c.start();
    let d = c.lay.e[1].data;
    let o = get(&[0, d, d + 1, d + 8192, c.lay.e[1].dd, c.lay.cd]);
    w().pend = 1;
    w().pend_kinds = READ;
    seek_to(&mut r, o);
    m.pos = o;
    c.drain(&mut m, &mut r, get(&[3000, 20000]));
    finish(&c, &mut m, &mut r);
}

// ---- C09 ----------------------------------------------------------------------------------

/// A preset CRC of any value.
pub fn c09() {
    let level = zs::pick(2, "level");
    new_world(0);
    let names = ["a", "bb", "c"];
    let which = zs::pick(3, "which entry");
    let lens = get(&[[1, 3, 2], [4, 1, 0], [2, 0, 1], [0, 5, 1]]);
    if lens[which] == 0 {
        return;
    }
    for i in 0..3 {
        add_source(names[i], zs::vec(lens[i], "data"));
    }
    let good = image();
    let lay = layout();
    let actual = crc_ref(&w().s[which].data);
    // any 32-bit value, written as its difference to the right one
    let delta = zs::int(0, u32::MAX as u64, "difference to the CRC") as u32;
    let given = actual ^ delta;
    w().s[which].preset = Some(given);
    w().pend = 1 + level as u32;
    w().short = 1;
    let mut r = builder().build();
    let start = [0, lay.e[which].lfh, lay.e[which].data][zs::pick(3, "start")];
    seek_to(&mut r, start);
    let cap = get(&[1, 40, 1000]);
    let mut out = vec![];
    let mut limit = 3000;
    let mut failed = 0;
    loop {
        limit -= 1;
        if limit == 0 {
            zs::fail("reading does not come to an end");
        }
        match poll_once(&mut r, cap, 0) {
            Out::Data(d) => {
                zs::check(failed == 0, "a read after a CRC mismatch succeeds");
                if d.is_empty() {
                    break;
                }
                out.extend_from_slice(&d);
            }
            Out::Pending(_) => {}
            Out::Err(e, n) => {
                zs::check(n == 0, "bytes written by a failing read call are lost");
                zs::check(delta != 0, "the right CRC is refused");
                match e.get_ref().and_then(|e| e.downcast_ref::<ReadError>()) {
                    Some(ReadError::Crc32Mismatch { entry_name, expected_crc, actual_crc }) => {
                        zs::check(entry_name.as_str() == names[which], "CRC mismatch: entry name");
                        zs::check(*expected_crc == given, "CRC mismatch: expected CRC");
                        zs::check(*actual_crc == actual, "CRC mismatch: actual CRC");
                    }
                    _ => zs::fail("the error is not a CRC mismatch"),
                }
                let have = start as usize + out.len();
                zs::check(have <= lay.e[which].dd as usize, "bytes after the entry's data are delivered before the CRC mismatch");
                zs::check(zs::same(&out, &good[start as usize..have]), "bytes delivered before the CRC mismatch");
                failed += 1;
                if failed == 2 {
                    zs::reach("mismatch");
                    return;
                }
            }
        }
    }
    zs::check(delta == 0, "a wrong preset CRC is not detected by reading the entry");
    zs::check(zs::same(&out, &good[start as usize..]), "the archive with a preset CRC is not the one without");
    zs::reach("match");
}
/// Right presets change no byte, whatever the history, and save reading what is seeked over.
pub fn c09_hist() {
    let level = zs::pick(2, "level");
    new_world(P09);
    shape(get(&[2, 4, 6]));
    let img = image();
    presets(get(&[1, 2, 7]));
    let mut c = Ctx::new();
    zs::check(zs::same(&img, &c.img), "the archive with preset CRCs is not the one without");
    c.img = img;
    let mut r = builder().build();
    let mut m = c.start();
    let b = if level > 0 { near(&c) } else { bounds(&c) };
    let o = get(&b);
    w().pend = 1;
    w().short = 1;
    let n = get(&[0, 35]);
    c.step(&mut m, &mut r, n, 0);
    seek_to(&mut r, o);
    m.pos = o;
    for s in &mut w().s {
        s.delivered = 0;
    }
    c.drain(&mut m, &mut r, 50);
    for (i, l) in c.lay.e.iter().enumerate() {
        if w().s[i].preset.is_some() {
            let asked = l.dd - o.clamp(l.data, l.dd);
            zs::check(w().s[i].delivered <= asked, "data that is seeked over is read although its CRC is preset");
        }
    }
    finish(&c, &mut m, &mut r);
}

// ---- C13 ----------------------------------------------------------------------------------

/// Sequential reads: one opening and one complete read for each entry that is not empty.
pub fn c13() {
    let level = zs::pick(2, "level") as u32;
    new_world(P13);
    shape(1 + zs::pick(6, "shape"));
    presets([0, 7, 1][zs::pick(2 + level as u64, "presets")]);
    let c = Ctx::new();
    let mut b = builder();
    zs::check(b.size() == c.img.len() as u64, "size");
    let mut r = b.clone().build();
    let _ = r.size();
    let quiet = |m: &'static str| zs::check(w().s.iter().all(|s| s.opens == 0), m);
    quiet("building or sizing opens an entry");
    for o in bounds(&c) {
        seek_to(&mut r, o);
        let _ = seek(&mut r, SeekFrom::End(-(o as i64)));
    }
    let _ = b.get_entries_mut();
    let _ = r.clone();
    quiet("seeking opens an entry");
    seek_to(&mut r, 0);
    let mut m = c.start();
    let n = zs::int(1, 500, "buffer size") as usize;
    w().pend = level;
    w().short = 1;
    loop {
        if c.step_max(&mut m, &mut r, n, 500, 0) == Step::Eof {
            break;
        }
    }
    for (i, s) in w().s.iter().enumerate() {
        let want = (s.announced > 0) as u32;
        zs::check(s.opens == want, "a sequential read opens an entry more than once, or an empty one");
        zs::check(s.delivered == s.announced, "a sequential read does not read an entry exactly once");
        zs::check(s.seeks == 0, "a sequential read seeks in a source");
        let _ = i;
    }
    finish(&c, &mut m, &mut r);
    zs::check(w().s.iter().all(|s| s.live == 0), "a source is kept open after the end");
}
/// Histories of seeks and reads: every opening must be for data requested or for an unknown CRC requested.
pub fn c13_hist() {
    let level = zs::pick(2, "level");
    new_world(P13);
    shape(get(&[2, 4, 5]));
    presets(get(&[0, 1]));
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let b = if level > 0 { near(&c) } else { bounds(&c) };
    for i in 0..2 {
        let o = if i == 0 { get(&b) } else { get(&bounds(&c)) };
        seek_to(&mut r, o);
        m.pos = o;
        let n = get(&[1, 30, 300]);
        c.step(&mut m, &mut r, n, 0);
        c.step(&mut m, &mut r, n, 0);
    }
    zs::reach("end");
}

// ---- C16 ----------------------------------------------------------------------------------

fn same_crcs(a: &[Option<u32>], b: &[Option<u32>]) {
    for (x, y) in a.iter().zip(b) {
        zs::check(x.is_some() == y.is_some(), "a copy does not know the same CRCs");
        if let (Some(x), Some(y)) = (x, y) {
            zs::check(x == y, "a copy reports another CRC");
        }
    }
}
fn c16_common(level: usize) -> (Ctx, Reader<Src>, Model) {
    new_world(P16 | P02 | P06);
    shape(get(&[2, 4]));
    presets(get(&[0, 1]));
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let mut b = mids(&c);
    b.extend([c.lay.size + 1, c.lay.size + 300]);
    let o = get(&b);
    if o > 0 || zs::pick(2, "seek to 0") == 1 {
        seek_to(&mut r, o);
        m.pos = o;
    }
    w().pend = 1;
    w().err = 1;
    let n = if level > 0 { get(&[0, 2, 60, 300]) } else { get(&[0, 40]) };
    if n > 0 {
        for _ in 0..1 + level {
            c.step(&mut m, &mut r, n, 0);
        }
    }
    c.see_crcs(&mut m, &r);
    (c, r, m)
}
/// Clones made at any point; original and clone read in turn.
pub fn c16_clone() {
    let level = zs::pick(2, "level");
    let (c, mut r, mut m) = c16_common(level);
    let mut k = r.clone();
    let mut mk = m.clone();
    zs::check(k.tell() == r.tell() && k.tell() == m.pos, "a clone is at another position");
    zs::check(k.size() == r.size(), "a clone announces another size");
    c.see_crcs(&mut mk, &k);
    same_crcs(&mk.known, &m.known);
    match zs::pick(3, "order") {
        0 => {
            c.step(&mut mk, &mut k, 40, 0);
            c.step(&mut m, &mut r, 3, 0);
            c.drain(&mut mk, &mut k, 70);
            zs::check(r.tell() == m.pos, "using a clone moved the original");
            c.drain(&mut m, &mut r, 150);
        }
        1 => {
            seek_to(&mut k, 0);
            mk.pos = 0;
            zs::check(r.tell() == m.pos, "seeking a clone moved the original");
            c.drain(&mut m, &mut r, 300);
            zs::check(k.tell() == 0, "using the original moved the clone");
            c.drain(&mut mk, &mut k, 300);
        }
        _ => {
            drop(r);
            c.drain(&mut mk, &mut k, 90);
            zs::reach("end");
            return;
        }
    }
    finish(&c, &mut m, &mut r);
    finish(&c, &mut mk, &mut k);
}
/// Readers taken out of a pinned one at any point.
pub fn c16_take() {
    let level = zs::pick(2, "level");
    let (c, mut r, mut m) = c16_common(level);
    let empty = read_all(&mut Builder::<Src>::new().build());
    let mut k = Pin::new(&mut r).take_pinned();
    let mut mk = m.clone();
    zs::check(k.tell() == m.pos, "a taken reader is at another position");
    zs::check(k.size() == c.img.len() as u64, "a taken reader announces another size");
    c.see_crcs(&mut mk, &k);
    same_crcs(&mk.known, &m.known);
    // what is left is an empty archive
    zs::check(r.tell() == 0, "the reader something was taken from is not at its start");
    zs::check(r.size() == empty.len() as u64, "the reader something was taken from is not empty");
    zs::check(r.crc32s().count() == 0, "the reader something was taken from is not empty");
    let order = zs::pick(2, "order");
    if order == 0 {
        c.drain(&mut mk, &mut k, 70);
    }
    let (p, e) = (w().pend, w().err);
    (w().pend, w().err) = (0, 0);
    let again = Pin::new(&mut r).take_pinned();
    zs::check(again.tell() == 0 && again.size() == empty.len() as u64, "taking twice gives something else than an empty archive");
    zs::check(zs::same(&read_all(&mut r), &empty), "the reader something was taken from does not read as an empty archive");
    let mut n = Reader::<Src>::new_empty_file();
    zs::check(n.tell() == 0 && n.size() == empty.len() as u64, "an empty reader is not empty");
    zs::check(zs::same(&read_all(&mut n), &empty), "an empty reader does not read as an empty archive");
    (w().pend, w().err) = (p, e);
    if order == 1 {
        c.drain(&mut mk, &mut k, 70);
    }
    m.pos = 0;
    seek_to(&mut k, 0);
    mk.pos = 0;
    c.drain(&mut mk, &mut k, 300);
    finish(&c, &mut mk, &mut k);
}

// ---- C17 ----------------------------------------------------------------------------------

/// Failures of any source operation, with suspensions; afterwards the read is repeated or a seek is made.
pub fn c17() {
    let level = zs::pick(2, "level") as u32;
    let sh = get(&[2, 4, 3]);
    let mask = get(&[0, 1, 7]);
    new_world(P17 | P06);
    shape(sh);
    presets(mask);
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let o = get(&mids(&c));
    w().err = 1 + level;
    w().err_forms = 2 + level as u64;
    w().pend = 1;
    seek_to(&mut r, o);
    m.pos = o;
    let cap = get(&[3, 35, 1000]);
    let then = zs::pick(3, "after a failure");
    let mut limit = 2000;
    loop {
        limit -= 1;
        if limit == 0 {
            zs::fail("reading does not come to an end");
        }
        match c.step(&mut m, &mut r, cap, 1) {
            Step::Eof => break,
            Step::Err => {
                if then == 1 {
                    let t = c.lay.e[0].data + 1;
                    seek_to(&mut r, t);
                    m.pos = t;
                } else if then == 2 {
                    // to where it is
                    let t = r.tell();
                    Pin::new(&mut r).seek_from_start_pinned(t);
                }
            }
            _ => {}
        }
    }
    if w().total_errs > 0 {
        zs::reach("failure");
    }
    finish(&c, &mut m, &mut r);
}

// ---- C18 ----------------------------------------------------------------------------------

/// One poll of a byte stream, checked against the archive. Returns true at its end.
pub fn chunk<D: EntryData>(c: &Ctx, pos: &mut u64, s: &mut BytesStream<D>) -> bool
where
    BytesStream<D>: Unpin,
{
    let errs = w().total_errs;
    let p = with_cx(|cx| Pin::new(&mut *s).poll_next(cx));
    let failed = w().total_errs - errs;
    match p {
        Poll::Pending => {
            zs::check(w().suspended > 0, "the stream suspended although no source did");
            zs::check(failed == 0, "a source failure was swallowed");
        }
        Poll::Ready(Some(Ok(d))) => {
            zs::check(failed == 0, "a source failure was swallowed");
            zs::check(!d.is_empty(), "an empty chunk");
            let n = d.len() as u64;
            if n > c.img.len() as u64 - (*pos).min(c.img.len() as u64) {
                zs::fail("chunks exceed the archive");
            }
            zs::check(zs::same(&d, &c.img[*pos as usize..(*pos + n) as usize]), "a chunk is not the archive's bytes at its position");
            *pos += n;
        }
        Poll::Ready(Some(Err(e))) => {
            zs::check(failed == 1 && is_fault(&e), "an error that is not the source's");
        }
        Poll::Ready(None) => {
            zs::check(failed == 0, "a source failure was swallowed");
            zs::check(*pos >= c.img.len() as u64, "the stream ends before the archive does");
            return true;
        }
    }
    zs::check(!w().bad_waker, "a source was polled with a waker that is not the current caller's");
    zs::check(s.reader_ref().tell() == *pos, "position of the reader of a stream");
    false
}
pub fn chunks<D: EntryData>(c: &Ctx, pos: &mut u64, s: &mut BytesStream<D>)
where
    BytesStream<D>: Unpin,
{
    let mut limit = 300;
    while !chunk(c, pos, s) {
        limit -= 1;
        if limit == 0 {
            zs::fail("the stream does not come to an end");
        }
    }
    zs::check(chunk(c, pos, s), "the stream ends more than once");
}
/// Streams from any position, with suspensions and failures; clones and readers taken back at any point.
pub fn c18() {
    let level = zs::pick(2, "level");
    new_world(P05);
    shape(get(&[0, 2, 4]));
    presets(get(&[0, 1]));
    let c = Ctx::new();
    let b = bounds(&c);
    let mut pos = get(&b);
    let mut r = builder().build();
    seek_to(&mut r, pos);
    let mut s = match zs::pick(2, "made by") {
        0 => r.into_bytes_stream(),
        _ => BytesStream::from(r),
    };
    w().pend = 1 + level as u32;
    w().err = 1;
    w().short = level as u32;
    let before = zs::pick(4, "polls before");
    for _ in 0..before {
        if chunk(&c, &mut pos, &mut s) {
            break;
        }
    }
    match zs::pick(4, "then") {
        0 => chunks(&c, &mut pos, &mut s),
        1 => {
            let mut k = s.clone();
            let mut pk = pos;
            zs::check(k.reader_ref().tell() == pos, "a clone of a stream is at another position");
            chunks(&c, &mut pk, &mut k);
            chunks(&c, &mut pos, &mut s);
        }
        2 => {
            let mut k = s.clone();
            let mut pk = pos;
            chunks(&c, &mut pos, &mut s);
            drop(s);
            chunks(&c, &mut pk, &mut k);
        }
        _ => {
            let mut r = s.into_reader();
            zs::check(r.tell() == pos, "the reader of a stream is at another position");
            let mut m = c.start();
            m.pos = pos;
            c.drain(&mut m, &mut r, 60);
            let mut s = BytesStream::new(r);
            s.reader_mut().seek_from_start_mut(1);
            Pin::new(&mut s).reader_pin_mut().seek_from_start_pinned(2);
            pos = 2;
            chunks(&c, &mut pos, &mut s);
        }
    }
    zs::reach("end");
}
/// Contents larger than a chunk.
pub fn c18_big() {
    new_world(P05);
    let l = get(&[8191, 8192, 8193, 20000]);
    add_source("a", zs::vec(1, "data"));
    add_source("b", crate::hist::big_data(l));
    let c = Ctx::new();
    let d = c.lay.e[1].data;
    let mut pos = get(&[0, d + 1, d + 8000, c.lay.e[1].dd]);
    let mut r = builder().build();
    seek_to(&mut r, pos);
    let mut s = r.into_bytes_stream();
    w().pend = 1;
    w().short = 1;
    if zs::pick(2, "clone") == 1 {
        chunk(&c, &mut pos, &mut s);
        let mut k = s.clone();
        let mut pk = pos;
        chunks(&c, &mut pk, &mut k);
    }
    chunks(&c, &mut pos, &mut s);
    zs::reach("end");
}
