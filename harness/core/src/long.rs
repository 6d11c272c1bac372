//! Long histories and large numbers: many entries, many reads, seeks, suspensions, failures and copies,
//! offsets beyond 32 bits. Schedules are scripted here, contents symbolic in part.
use crate::bld::read_all;
use crate::hist::{big_data, presets};
use crate::walks::finish;
use crate::world::*;
use crate::zs;
use std::pin::Pin;
use zippity::{AddEntryError, Builder, ReadError, Reader};

fn get<T: Copy>(v: &[T]) -> T {
    v[zs::pick(v.len() as u64, "one of")]
}
/// The name of the i-th of many entries: some are longer in bytes than in characters.
fn nth(i: usize) -> String {
    let mut s = String::new();
    if i % 5 == 3 {
        s.push('\u{17e}');
    }
    for k in [12, 8, 4, 0] {
        s.push((b'a' + (i >> k & 15) as u8) as char);
    }
    s
}
/// `n` entries of 0 to 3 bytes; the data of a few is symbolic.
fn many(n: usize) {
    for i in 0..n {
        let l = (i * 7 + 1) % 4;
        let d = if i == 0 || i == n / 2 || i == n - 1 { zs::vec(l, "data") } else { (0..l).map(|k| byte_at(i as u32, k as u64)).collect() };
        add_source(&nth(i), d);
    }
}
fn total(it: &[(usize, u64)]) -> u64 {
    it.iter().fold(98, |a, &(n, s)| a + 184 - 28 + 2 * n as u64 + s)
}

// ---- C02 ----------------------------------------------------------------------------------

/// Hundreds of additions and removals; the size after each.
pub fn c02_many() {
    new_world(0);
    let n = get(&[255, 300]);
    many(n);
    let mut b = Builder::<Src>::new();
    let mut r: Vec<(usize, u64)> = vec![];
    for i in 0..n {
        let nm = w().s[i].name.clone();
        r.push((nm.len(), w().s[i].announced));
        if b.add_entry(nm, Src(i as u32)).is_err() {
            zs::fail("valid entry refused");
        }
        zs::check(b.size() == total(&r), "size announced by the builder");
    }
    let every = get(&[0, 1, 7]);
    if every > 0 {
        let mut i = 0;
        while i < r.len() {
            b.get_entries_mut().shift_remove_index(i);
            r.remove(i);
            zs::check(b.size() == total(&r), "size announced by the builder");
            i += every;
        }
        let id = add_source("again", zs::vec(2, "data"));
        if b.add_entry("again".into(), Src(id)).is_err() {
            zs::fail("valid entry refused");
        }
        r.push((5, 2));
        zs::check(b.size() == total(&r), "size announced by the builder");
    }
    let mut rd = b.build();
    zs::check(rd.size() == total(&r), "size announced by the reader");
    zs::check(read_all(&mut rd).len() as u64 == total(&r), "announced size is not the number of bytes delivered");
    zs::check(rd.size() == total(&r), "the announced size changed");
    zs::reach("end");
}

// ---- C03 ----------------------------------------------------------------------------------

/// Names longer than any internal buffer.
pub fn c03_long() {
    new_world(P03);
    let l = get(&[255usize, 300, 9000, 65535]);
    let nm: String = (0..l).map(|i| (b'a' + (i % 23) as u8) as char).collect();
    add_source("first", zs::vec(2, "data"));
    add_source(&nm, zs::vec(3, "data"));
    let c = Ctx::new();
    let n = get(&[if l < 9001 { 1 } else { 50 }, 97, 256, 1000, 4096, 8192, 8193, 65535, 65536]);
    let mut r = builder().build();
    let mut m = c.start();
    c.drain(&mut m, &mut r, n);
    finish(&c, &mut m, &mut r);
}
/// Hundreds of entries.
pub fn c03_many() {
    new_world(P03);
    many(300);
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let n = get(&[11, 61, 255, 256, 4096, 32768, 65536, 100_000]);
    c.drain(&mut m, &mut r, n);
    finish(&c, &mut m, &mut r);
}

// ---- C04 ----------------------------------------------------------------------------------

/// Sources that suspend many times before each operation and deliver few bytes at a time.
pub fn c04_long() {
    new_world(P04);
    let n = get(&[0, 1, 3, 17, 300]);
    add_source("a", zs::vec(20, "data"));
    add_source("", vec![]);
    add_source("bc", if n < 300 { big_data(400) } else { zs::vec(9, "data") });
    presets(get(&[0, 1, 7]));
    let c = Ctx::new();
    w().each_pend = n;
    w().chunk = get(&[1, 3, 1000]);
    let mut r = builder().build();
    let mut m = c.start();
    let o = get(&[0, c.lay.e[0].data + 7, c.lay.e[2].data + 4, c.lay.e[2].dd, c.lay.cd]);
    seek_to(&mut r, o);
    m.pos = o;
    c.drain_in(&mut m, &mut r, get(&[5, 1000]), 3_000_000);
    finish(&c, &mut m, &mut r);
    zs::check(r.tell() == m.pos, "final position depends on the sources' schedule");
    c.see_crcs(&mut m, &r);
}

// ---- C05, C06, C08: many entries, long walks, huge archives -------------------------------------

/// Seeks around the records of entries with large numbers.
pub fn c05_many() {
    new_world(P05 | P06);
    many(300);
    presets(0);
    for i in [0, 100, 255] {
        w().s[i].preset = Some(crc_ref(&w().s[i].data));
    }
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let i = get(&[0, 1, 127, 128, 254, 255, 256, 257, 298, 299]);
    let l = &c.lay.e[i];
    for a in [l.lfh, l.data, l.dd, l.end, l.cdh, l.cdh_end] {
        for o in [a.saturating_sub(1), a, a + 1] {
            seek_to(&mut r, o);
            m.pos = o;
            c.step(&mut m, &mut r, 60, 0);
            c.step(&mut m, &mut r, 60, 0);
        }
    }
    c.drain(&mut m, &mut r, 20000);
    finish(&c, &mut m, &mut r);
}
/// A hundred seeks and reads in turn, with suspensions and failures.
pub fn walk(p: u32) {
    new_world(p);
    add_source("a", zs::vec(9, "data"));
    add_source("", vec![]);
    add_source("\u{17e}x", zs::vec(30, "data"));
    add_source("big", big_data(9000));
    add_source("d", zs::vec(1, "data"));
    presets(get(&[0, 4, 31]));
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let mut x = [1u64, 77, 12345, 999_999][zs::pick(4, "walk")];
    let mut next = |n: u64| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n
    };
    (w().each_pend, w().each_fail) = get(&[(0, 0), (1, 0), (1, 1)]);
    w().script_kinds = get(&[READ, OPEN | READ | SEEK]);
    w().chunk = 3000;
    let small = c.lay.e[3].data + 10;
    for _ in 0..100 {
        if next(3) == 0 {
            let o = match next(8) {
                0 => next(c.lay.size + 40),
                1..=3 => c.lay.e[3].dd - 20 + next(500),
                _ => next(small),
            };
            seek_to(&mut r, o);
            m.pos = o;
        }
        let n = [0, 1, 7, 30, 200, 5000][next(6) as usize];
        c.step(&mut m, &mut r, n, next(2) as usize);
    }
    c.drain(&mut m, &mut r, 4000);
    finish(&c, &mut m, &mut r);
    c.see_crcs(&mut m, &r);
}
/// Archives beyond 32 bits: positions and bytes there.
pub fn huge(p: u32) {
    new_world(p);
    let first = get(&[(1u64 << 31) - 40, (1 << 32) - 100, (1 << 32) + 5, 3 << 40, (1 << 63) + 1]);
    for (i, (nm, s)) in [("a", first), ("bc", 20_000_000_000), ("", 0)].into_iter().enumerate() {
        let id = add_source(nm, vec![]) as usize;
        w().s[id].announced = s;
        w().s[id].synth = Some(s);
        w().s[id].preset = Some(if s > 0 { 0x1000 + i as u32 } else { 0 });
    }
    let lay = layout();
    let mut r = builder().build();
    let l = &lay.e[get(&[0usize, 1])];
    let id = if l.lfh == 0 { 0u32 } else { 1 };
    // within the data: any offset around the interesting ones
    let len = l.dd - l.data;
    let mid = [0, 1 << 31, (1 << 32) - l.data % (1 << 32), 1 << 32, len - 9][zs::pick(5, "where")];
    if mid > len - 9 {
        return;
    }
    let at = mid.saturating_sub(4) + zs::pick(9, "offset") as u64;
    let pos = l.data + at;
    let quiet = |o: Out| match o {
        Out::Data(d) => d,
        Out::Pending(_) => zs::fail("reader suspended although no source did"),
        Out::Err(..) => zs::fail("read of good sources failed"),
    };
    if zs::pick(2, "how") == 0 {
        seek_to(&mut r, pos);
    } else {
        // by way of elsewhere
        seek_to(&mut r, lay.e[0].data + 3);
        let d = quiet(poll_once(&mut r, 5, 0));
        chk(P06, r.tell() == lay.e[0].data + 3 + d.len() as u64, "the reported position is not the true stream position");
        seek_to(&mut r, lay.cd);
        let _ = quiet(poll_once(&mut r, 40, 0));
        Pin::new(&mut r).seek_from_start_pinned(pos);
    }
    chk(P06, r.tell() == pos, "position after a seek is not its target");
    let mut got = 0;
    while got < 5 && at + got < len {
        let d = quiet(poll_once(&mut r, (5 - got) as usize, 0));
        if d.is_empty() {
            zs::fail("end of file is reported before the announced size is reached");
        }
        let mut bad = 0;
        for (i, x) in d.iter().enumerate() {
            if at + got + (i as u64) < len {
                bad |= *x ^ byte_at(id, at + got + i as u64);
            }
        }
        chk(P05 | P06, bad == 0, "delivered bytes are not the archive's bytes at the reader's position");
        got += d.len() as u64;
        chk(P06, r.tell() == pos + got, "the reported position is not the true stream position");
    }
    // a clone and a taken reader are there too
    let k = r.clone();
    chk(P06 | P16, k.tell() == pos + got, "a clone is at another position");
    let k = Pin::new(&mut r).take_pinned();
    chk(P06 | P16, k.tell() == pos + got && r.tell() == 0, "a taken reader is at another position");
    zs::reach("end");
}
/// Long contents in many small reads.
pub fn c08_long() {
    new_world(P08);
    let n = get(&[300usize, 9000, 70001]);
    add_source("a", big_data(n));
    add_source("b", zs::vec(2, "data"));
    let c = Ctx::new();
    w().chunk = get(&[if n < 1000 { 1 } else { 37 }, 255, 256, 4097, 8192]);
    (w().each_pend, w().each_fail) = get(&[(0, 0), (1, 0)]);
    let mut r = builder().build();
    let mut m = c.start();
    let o = get(&[0, c.lay.e[0].data + n as u64 / 3, c.lay.e[0].dd + 1, c.lay.e[1].cdh]);
    seek_to(&mut r, o);
    m.pos = o;
    c.drain(&mut m, &mut r, get(&[300, 100_000]));
    seek_to(&mut r, c.lay.cd);
    m.pos = c.lay.cd;
    c.drain(&mut m, &mut r, 300);
    finish(&c, &mut m, &mut r);
    zs::check(r.crc32s().count() == 2, "CRCs missing after a complete read");
}

// ---- C10 ----------------------------------------------------------------------------------

/// Long contents and differences of all magnitudes.
pub fn c10_long() {
    new_world(0);
    let n = get(&[300u64, 8192, 20000]);
    add_source("a", zs::vec(2, "data"));
    let id = add_source("bad", big_data(n as usize)) as usize;
    add_source("c", zs::vec(1, "data"));
    let good = image();
    let start = layout().e[id].data as usize;
    if zs::pick(2, "preset") == 1 {
        w().s[id].preset = Some(crc_ref(&w().s[id].data));
    }
    w().chunk = get(&[if n < 1000 { 1 } else { 700 }, 8192, 30000]);
    w().each_pend = zs::pick(2, "suspend") as u32;
    let announced = zs::int(1, u64::MAX >> 2, "announced");
    w().s[id].announced = announced;
    let cap = get(&[97usize, 8192, 70000]);
    let mut r = builder().build();
    let mut out = vec![];
    let mut failed = 0;
    for _ in 0..5000 {
        match poll_once(&mut r, cap, 0) {
            Out::Data(d) => {
                zs::check(failed == 0, "a read after a size mismatch succeeds");
                if d.is_empty() {
                    zs::check(announced == n, "a wrong announced size is not detected");
                    zs::check(zs::same(&out, &good), "the archive is not the one of good sources");
                    zs::reach("match");
                    return;
                }
                out.extend_from_slice(&d);
            }
            Out::Pending(_) => {}
            Out::Err(e, _) => {
                zs::check(announced != n, "an entry exactly as long as announced fails");
                match e.get_ref().and_then(|e| e.downcast_ref::<ReadError>()) {
                    Some(ReadError::SizeMismatch { entry_name, expected_size, actual_size }) => {
                        zs::check(entry_name.as_str() == "bad", "size mismatch: entry name");
                        zs::check(*expected_size == announced, "size mismatch: expected size");
                        zs::check(*actual_size == n, "size mismatch: actual size");
                    }
                    _ => zs::fail("the error is not a size mismatch"),
                }
                let end = start + n as usize;
                zs::check(out.len() <= end, "bytes after the entry's data are delivered before the size mismatch");
                zs::check(zs::same(&out, &good[..out.len().min(end)]), "bytes delivered before the size mismatch");
                failed += 1;
                if failed == 20 {
                    zs::reach("mismatch");
                    return;
                }
            }
        }
    }
    zs::fail("reading does not come to an end");
}

// ---- C12 ----------------------------------------------------------------------------------

/// Very many entries, more than the fields of the classic format count; duplicates of any of them.
pub fn c12_many() {
    new_world(0);
    let n = get(&[256usize, 300, 65535, 65537]);
    let mut b = Builder::<Src>::new();
    let src = add_source("x", zs::vec(2, "data"));
    for i in 0..n {
        let mut nm = nth(i);
        if i >> 16 > 0 {
            nm.push('+');
        }
        if b.add_entry(nm, Src(src)).is_err() {
            zs::fail("an addition that is possible is refused");
        }
    }
    let size = b.size();
    for i in [0, 1, 127, 128, 254, 255, n / 2, n - 1] {
        let mut nm = nth(i);
        if i >> 16 > 0 {
            nm.push('+');
        }
        match b.add_entry(nm.clone(), Src(src)) {
            Err(AddEntryError::DuplicateEntryName { entry_name }) => zs::check(entry_name == nm, "the error names another entry"),
            _ => zs::fail("a duplicate is not refused as one"),
        }
        zs::check(b.size() == size && b.get_entries().len() == n, "a refused addition changed the builder");
        zs::check(b.get_entries().get_index_of(&nm) == Some(i), "a refused addition changed the builder");
    }
    zs::check(b.add_entry("new".into(), Src(src)).is_ok(), "an addition that is possible is refused");
    zs::check(b.build().size() > size, "an accepted addition is not in the archive");
    zs::reach("end");
}

// ---- C13 ----------------------------------------------------------------------------------

/// Hundreds of entries, or long ones in many small reads.
pub fn c13_long() {
    new_world(P13);
    let kind = zs::pick(2, "kind");
    if kind == 0 {
        many(130);
    } else {
        add_source("a", zs::vec(3, "data"));
        add_source("b", big_data(20000));
        add_source("c", zs::vec(3, "data"));
        w().chunk = get(&[70, 8192]);
        w().each_pend = zs::pick(2, "suspend") as u32;
    }
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    if kind == 1 {
        // skipping through it computes its CRC: one opening
        let l = &c.lay.e[1];
        let o = get(&[0, l.data + 100, l.dd - 1, l.dd + 3]);
        seek_to(&mut r, o);
        m.pos = o;
    }
    let from = m.pos;
    c.drain(&mut m, &mut r, get(&[61, 9000, 100_000]));
    for (i, s) in w().s.iter().enumerate() {
        if from <= c.lay.e[i].dd || from == 0 {
            zs::check(s.opens == (s.announced > 0) as u32, "a sequential read opens an entry more than once, or an empty one");
            zs::check(s.delivered == s.announced, "a sequential read does not read an entry exactly once");
        }
        zs::check(s.opens <= 1, "an entry is opened again although its CRC is known");
        zs::check(s.live == 0, "a source is kept open after the end");
    }
    // everything is known now: the directory needs no source
    reset_counters();
    seek_to(&mut r, c.lay.cd);
    m.pos = c.lay.cd;
    c.drain(&mut m, &mut r, 500);
    zs::check(w().s.iter().all(|s| s.opens == 0), "an entry is opened again although its CRC is known");
    finish(&c, &mut m, &mut r);
}

// ---- C16 ----------------------------------------------------------------------------------

/// Copies of copies, and readers taken again and again.
pub fn c16_long() {
    new_world(P16 | P02 | P06);
    add_source("a", zs::vec(40, "data"));
    add_source("bc", big_data(9000));
    add_source("d", zs::vec(40, "data"));
    presets(get(&[0, 2]));
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let n = get(&[1, 13, 97, 500]);
    (w().each_pend, w().each_fail) = get(&[(0, 0), (1, 0), (1, 1)]);
    w().chunk = 4000;
    let clone = zs::pick(2, "clone") == 1;
    let mut limit = 40_000;
    let mut i = 0;
    loop {
        i += 1;
        limit -= 1;
        if limit == 0 {
            zs::fail("reading does not come to an end");
        }
        // in copies reading starts over in the entry: only now and then
        if m.pos < c.lay.e[1].data + 40 || m.pos > c.lay.e[1].dd - 10 || i % 50 == 0 {
            let k = if clone { r.clone() } else { Pin::new(&mut r).take_pinned() };
            if !clone {
                zs::check(r.tell() == 0 && r.size() == 98, "the reader something was taken from is not an empty one");
            }
            r = k;
            w().chunk = 4000 + i;
        }
        match c.step(&mut m, &mut r, n, 0) {
            Step::Eof => break,
            // what a copy does not inherit has to be polled again, or it would never get on
            Step::Pending | Step::Err => while matches!(c.step(&mut m, &mut r, n, 0), Step::Pending | Step::Err) {},
            _ => {}
        }
    }
    finish(&c, &mut m, &mut r);
}

// ---- C17 ----------------------------------------------------------------------------------

/// Many failures in a row.
pub fn c17_long() {
    new_world(P17 | P06);
    let n = get(&[2, 5, 40]);
    add_source("a", zs::vec(9, "data"));
    add_source("", vec![]);
    add_source("bc", big_data(if n < 40 { 9000 } else { 301 }));
    presets(get(&[0, 5]));
    let c = Ctx::new();
    w().each_fail = n;
    w().each_pend = zs::pick(2, "suspend") as u32;
    w().chunk = get(&[if n < 40 { 4000 } else { 50 }, 9000]);
    let mut r = builder().build();
    let mut m = c.start();
    let o = get(&[0, c.lay.e[0].data + 7, c.lay.e[2].data + 100, c.lay.e[2].dd, c.lay.cd]);
    seek_to(&mut r, o);
    m.pos = o;
    c.drain_in(&mut m, &mut r, get(&[50, 100_000]), 1_000_000);
    finish(&c, &mut m, &mut r);
}

// ---- C18 ----------------------------------------------------------------------------------

/// Hundreds of chunks, suspended many times.
pub fn c18_long() {
    new_world(P05);
    let n = get(&[300usize, 9000, 200_001]);
    add_source("a", big_data(n));
    add_source("b", zs::vec(2, "data"));
    presets(3);
    let c = Ctx::new();
    w().chunk = get(&[if n < 9000 { 1 } else { 123 }, 8191, 8192, 8193]);
    (w().each_pend, w().each_fail) = get(&[(0, 0), (2, 0), (1, 1)]);
    let mut pos = get(&[0, c.lay.e[0].data + 200]);
    let mut r: Reader<Src> = builder().build();
    seek_to(&mut r, pos);
    let mut s = r.into_bytes_stream();
    let mut limit = 20_000;
    let mut i = 0;
    while !crate::rd::chunk(&c, &mut pos, &mut s) {
        i += 1;
        if i == 100 && w().each_pend == 0 {
            s = s.clone();
        }
        limit -= 1;
        if limit == 0 {
            zs::fail("the stream does not come to an end");
        }
    }
    for _ in 0..3 {
        zs::check(crate::rd::chunk(&c, &mut pos, &mut s), "the stream ends more than once");
    }
    zs::reach("end");
}
