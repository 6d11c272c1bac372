//! C02, C10, C11, C12, C14, C15: what the builder announces, refuses and stores.
use crate::hist::{presets, shape};
use crate::world::*;
use crate::{zip, zs};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use zippity::{AddEntryError, Builder, BuilderEntry, EntryData, ReadError, Reader};

const FIX: u64 = 30 + 28 + 24 + 46 + 28;
const END: u64 = 98;

/// Read a reader to its end, with quiet sources.
pub fn read_all<D: EntryData>(r: &mut Reader<D>) -> Vec<u8>
where
    Reader<D>: Unpin,
{
    let mut out = vec![];
    loop {
        match poll_once(r, 70000, 0) {
            Out::Data(d) => {
                if d.is_empty() {
                    return out;
                }
                out.extend_from_slice(&d);
            }
            Out::Pending(_) => zs::fail("reader suspended although no source did"),
            Out::Err(..) => zs::fail("sequential read of good sources failed"),
        }
    }
}
fn opened() -> u32 {
    w().s.iter().map(|s| s.opens).sum()
}

// ---- C02 ----------------------------------------------------------------------------------

const NAMES: [&str; 4] = ["", "a", "\u{17e}c", "a/long name with spaces and more than that"];
/// The reference: name and size of each entry, in order.
type Ref = Vec<(usize, u32)>;
fn want(r: &Ref) -> u64 {
    // never overflows: the entries were accepted only if it does not
    r.iter().fold(END, |a, &(n, s)| a.wrapping_add(FIX + 2 * NAMES[n].len() as u64).wrapping_add(w().s[s as usize].announced))
}
/// `total` plus an entry, unless that needs more than 64 bits.
pub fn plus(total: u64, name: usize, size: u64) -> Option<u64> {
    (FIX + 2 * name as u64).checked_add(size)?.checked_add(total)
}
fn agree(b: &Builder<Src>, r: &Ref) {
    let n = want(r);
    zs::check(b.size() == n, "size announced by the builder");
    let built = b.clone().build();
    zs::check(built.size() == n, "size announced by the reader built now");
    zs::check(b.size() == built.size(), "builder and reader announce different sizes");
}
fn op(b: &mut Builder<Src>, r: &mut Ref, size: u64, data: Option<Vec<u8>>) {
    let len = r.len() as u64;
    match zs::pick(if len > 0 { 7 } else { 1 }, "operation") {
        0 => {
            let n = zs::pick(NAMES.len() as u64, "name");
            let fits = plus(want(r), NAMES[n].len(), size).is_some();
            let dup = r.iter().any(|e| e.0 == n);
            let id = add_source(NAMES[n], data.unwrap_or_default());
            w().s[id as usize].announced = size;
            let ok = b.add_entry(NAMES[n].to_string(), Src(id)).is_ok();
            zs::check(ok == (fits && !dup), "an addition is accepted exactly when it fits and its name is new");
            if ok {
                r.push((n, id));
            }
        }
        1 => {
            let i = zs::pick(len, "which");
            b.get_entries_mut().shift_remove_index(i);
            r.remove(i);
        }
        2 => {
            let i = zs::pick(len, "which");
            b.get_entries_mut().swap_remove(NAMES[r[i].0]);
            r.swap_remove(i);
        }
        3 => {
            b.get_entries_mut().clear();
            r.clear();
        }
        4 => {
            // an entry stored again under another name
            let i = zs::pick(len, "which");
            let n = NAMES.len() - 1;
            if !r.iter().any(|e| e.0 == n) {
                zs::assume(plus(want(r), NAMES[n].len(), w().s[r[i].1 as usize].announced).is_some());
                let e = b.get_entries().get_index(i).unwrap().1.clone();
                b.get_entries_mut().insert(NAMES[n].to_string(), e);
                let s = r[i].1;
                r.push((n, s));
            }
        }
        5 => {
            let i = zs::pick(len, "which");
            let e = b.get_entries_mut().get_index_mut(i).unwrap().1;
            e.crc32(7).unix_permissions(0o600).datetime_fields(2000, 1, 1, 0, 0, 0);
        }
        _ => {
            b.get_entries_mut().reverse();
            r.reverse();
        }
    }
}
/// Sequences of builder operations with entries of any announced 64-bit size.
pub fn c02() {
    let level = zs::pick(2, "level");
    new_world(0);
    let mut b = Builder::<Src>::new();
    let mut r = vec![];
    agree(&b, &r);
    for _ in 0..3 + level {
        let size = zs::int(0, u64::MAX, "size");
        op(&mut b, &mut r, size, None);
        agree(&b, &r);
    }
    zs::check(opened() == 0, "an entry was opened to learn the archive's size");
    zs::reach("end");
}
/// The same with small real contents, delivered in full afterwards.
pub fn c02_read() {
    let level = zs::pick(2, "level");
    new_world(0);
    let mut b = Builder::<Src>::new();
    let mut r = vec![];
    for _ in 0..3 + level {
        let n = zs::pick(2, "length") * 3;
        op(&mut b, &mut r, n as u64, Some(zs::vec(n, "data")));
    }
    agree(&b, &r);
    let mut rd = b.build();
    let n = rd.size();
    zs::check(opened() == 0, "an entry was opened to learn the archive's size");
    let cap = [1000, 61][zs::pick(2, "buffer size")];
    let mut got = 0u64;
    loop {
        match poll_once(&mut rd, cap, 0) {
            Out::Data(d) => {
                if d.is_empty() {
                    break;
                }
                got += d.len() as u64;
            }
            Out::Pending(_) => zs::fail("reader suspended although no source did"),
            Out::Err(..) => {
                // a CRC set above is wrong for its entry
                zs::reach("wrong crc");
                zs::check(rd.size() == n, "the announced size changed");
                return;
            }
        }
        zs::check(rd.size() == n, "the announced size changed");
    }
    zs::check(got == n, "announced size is not the number of bytes delivered");
    zs::reach("end");
}
/// The reader's size through histories of seeks, suspensions and failures.
pub fn c02_hist() {
    new_world(P02);
    shape([2, 4][zs::pick(2, "shape")]);
    presets([0, 1][zs::pick(2, "presets")]);
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let b = crate::walks::bounds(&c);
    w().pend = 1;
    w().err = 1;
    let o = b[zs::pick(b.len() as u64, "seek")];
    seek_to(&mut r, o);
    m.pos = o;
    c.step(&mut m, &mut r, 10, 0);
    if zs::pick(2, "copy") == 0 {
        let k = r.clone();
        zs::check(k.size() == r.size(), "a clone announces another size");
    } else {
        let size = r.size();
        let k = std::pin::Pin::new(&mut r).take_pinned();
        zs::check(k.size() == size, "a taken reader announces another size");
        // what is left has a size of its own
        let size = r.size();
        zs::check(read_all(&mut r).len() as u64 == size, "announced size is not the number of bytes delivered");
        zs::check(r.size() == size, "announced size changed");
        r = k;
    }
    seek_to(&mut r, 0);
    m.pos = 0;
    w().pend = 0;
    w().err = 0;
    let before = m.pos;
    c.drain(&mut m, &mut r, 300);
    zs::check(m.pos - before == r.size(), "announced size is not the number of bytes delivered");
    zs::reach("end");
}

// ---- C10 ----------------------------------------------------------------------------------

/// One entry of three announces a wrong size: any 64-bit announced size, contents of 0 to 5 bytes.
pub fn c10() {
    let level = zs::pick(2, "level");
    new_world(0);
    let bad = zs::pick(3, "which entry");
    let preset = zs::pick(3, "preset");
    let mut actual = 0;
    for i in 0..3 {
        let n = if i == bad { zs::pick(if level > 0 { 6 } else { 4 }, "actual length") } else { 2 };
        if i == bad {
            actual = n;
        }
        let id = add_source(["a", "bb", "c"][i], zs::vec(n, "data")) as usize;
        if preset == 1 || (preset == 2 && i == bad) {
            w().s[id].preset = Some(crc_ref(&w().s[id].data));
        }
    }
    let good = image();
    let start = layout().e[bad].data as usize;
    let announced = zs::int(1, 1 << 62, "announced");
    w().s[bad].announced = announced;
    let mut r = builder().build();
    w().short = 1 + level as u32;
    w().pend = 1;
    let cap = [1, 2, 40, 1000][zs::pick(4, "buffer size")];
    let mut out = vec![];
    let mut limit = 3000;
    let mut failed = 0;
    loop {
        limit -= 1;
        if limit == 0 {
            zs::fail("reading does not come to an end");
        }
        match poll_once(&mut r, cap, 0) {
            Out::Data(d) => {
                zs::check(failed == 0, "a read after a size mismatch succeeds");
                if d.is_empty() {
                    break;
                }
                out.extend_from_slice(&d);
            }
            Out::Pending(_) => {}
            Out::Err(e, n) => {
                zs::check(n == 0, "bytes written by a failing read call are lost");
                zs::check(announced != actual as u64, "an entry exactly as long as announced fails");
                match e.get_ref().and_then(|e| e.downcast_ref::<ReadError>()) {
                    Some(ReadError::SizeMismatch { entry_name, expected_size, actual_size }) => {
                        zs::check(entry_name.as_str() == ["a", "bb", "c"][bad], "size mismatch: entry name");
                        zs::check(*expected_size == announced, "size mismatch: expected size");
                        zs::check(*actual_size == actual as u64, "size mismatch: actual size");
                    }
                    _ => zs::fail("the error is not a size mismatch"),
                }
                let end = start + actual;
                zs::check(out.len() <= end, "bytes after the entry's data are delivered before the size mismatch");
                zs::check(zs::same(&out, &good[..out.len().min(end)]), "bytes delivered before the size mismatch");
                failed += 1;
                if failed == 2 {
                    zs::reach("mismatch");
                    return;
                }
            }
        }
    }
    zs::check(announced == actual as u64, "a wrong announced size is not detected");
    zs::check(zs::same(&out, &good), "the archive is not the one of good sources");
    zs::reach("match");
}

// ---- C11 ----------------------------------------------------------------------------------

fn read_n(r: &mut Reader<Src>, n: usize) -> Vec<u8> {
    let mut out = vec![];
    while out.len() < n {
        match poll_once(r, n - out.len(), 0) {
            Out::Data(d) => {
                if d.is_empty() {
                    zs::fail("end of file is reported before the announced size is reached");
                }
                out.extend_from_slice(&d);
            }
            Out::Pending(_) => zs::fail("reader suspended although no source did"),
            Out::Err(..) => zs::fail("read of good sources failed"),
        }
    }
    out
}
/// Up to three entries of any announced 64-bit sizes.
pub fn c11() {
    new_world(0);
    let n = 1 + zs::pick(3, "entries");
    let probe = zs::pick(5, "region");
    let names = ["a", "", "third"];
    let mut b = Builder::<Src>::new();
    let mut total = END;
    let mut size = vec![];
    for i in 0..n {
        let s = zs::int(0, u64::MAX, "size");
        let id = add_source(names[i], vec![]);
        w().s[i].announced = s;
        w().s[i].synth = Some(s);
        let next = plus(total, names[i].len(), s);
        let fits = next.is_some();
        match b.add_entry(names[i].to_string(), Src(id)) {
            Ok(e) => {
                zs::check(fits, "an archive larger than 64 bits is accepted");
                e.crc32(0x1000 + i as u32);
            }
            Err(_) => {
                zs::check(!fits, "an archive that fits in 64 bits is refused");
                zs::reach("refused");
                return;
            }
        }
        total = next.unwrap_or(0);
        zs::check(b.size() == total, "announced size");
        size.push(s);
    }
    let mut r = b.build();
    zs::check(r.size() == total, "the reader's size");
    // exact positions; none of these sums overflows
    let mut lfh = vec![];
    let mut p = 0u64;
    for i in 0..n {
        lfh.push(p);
        p += 30 + 28 + 24 + names[i].len() as u64 + size[i];
    }
    let cd = p;
    let cdlen: u64 = (0..n).map(|i| 46 + 28 + names[i].len() as u64).sum();
    let eocd = cd + cdlen;
    zs::check(eocd + END == total, "reference sizes");
    match probe {
        0 => {
            r.seek_from_start_mut(cd);
            let t = read_n(&mut r, (cdlen + END) as usize);
            zs::check(r.tell() == cd + cdlen + END, "position at the end");
            let (cnt, cds, cdo, z) = zip::end_records(&t, cd);
            zs::check(cnt == n as u64 && cds == cdlen && cdo == cd && z == eocd, "end records");
            let mut q = 0;
            for i in 0..n {
                let c = zip::cd_header(&t[q..]);
                zs::check(c.size == size[i], "central header: size");
                zs::check(c.offset == lfh[i], "central header: offset");
                zs::check(zs::same(&c.name, names[i].as_bytes()), "central header: name");
                zs::check((c.crc == 0x1000 + i as u32) | (size[i] == 0), "central header: CRC");
                q += c.len;
            }
            zs::check(q as u64 == cdlen, "central directory length");
            match poll_once(&mut r, 10, 0) {
                Out::Data(d) if d.is_empty() => {}
                _ => zs::fail("no end of file at the announced size"),
            }
        }
        1 | 2 | 3 => {
            let i = probe - 1;
            if i >= n {
                return;
            }
            // local header, reached exactly
            r.seek_from_start_mut(lfh[i]);
            let l = read_n(&mut r, 58 + names[i].len());
            zs::check(r.tell() == lfh[i] + 58 + names[i].len() as u64, "position after the local header");
            let c = zip::Cdh { name: names[i].as_bytes().to_vec(), size: size[i], crc: 0x1000 + i as u32, time: zip::u32_at(&l, 10), ext: 0, made_by: 0, flags: zip::u16_at(&l, 6), offset: lfh[i], len: 0 };
            zip::local_header(&l, &c);
            // descriptor
            let dd = lfh[i] + 58 + names[i].len() as u64 + size[i];
            r.seek_from_start_mut(dd);
            let d = read_n(&mut r, 24);
            zip::descriptor(&d, &c);
            zs::check(r.tell() == dd + 24, "position after the data descriptor");
            zs::check(w().s.iter().all(|s| s.delivered == 0), "data is read although its CRC is known");
        }
        _ => {
            // inside the data of the last entry
            let i = n - 1;
            let x = zs::int(0, u64::MAX, "offset in data");
            zs::assume(size[i] >= 8 && x <= size[i] - 8);
            r.seek_from_start_mut(lfh[i] + 58 + names[i].len() as u64 + x);
            let d = read_n(&mut r, 8);
            for (k, v) in d.iter().enumerate() {
                zs::check(*v == byte_at(i as u32, x + k as u64), "entry data after a seek");
            }
        }
    }
    zs::reach("end");
}

/// A seek into a large entry whose CRC is not known: it is skipped by reading, which this source allows 6 times.
pub fn c11_skip() {
    new_world(0);
    let small = [0u64, 1, 7, 8191, 8192, 9000][zs::pick(6, "low part")];
    let big = zs::pick(2, "large") == 1;
    let x = if big { (zs::int(1, 1 << 30, "high part") << 32) + small } else { small };
    let size = x + [4u64, 1 << 60][zs::pick(2, "rest")];
    let id = add_source("a", vec![]);
    w().s[id as usize].announced = size;
    w().s[id as usize].synth = Some(size);
    w().s[id as usize].max_reads = Some(6);
    let mut r = builder().build();
    r.seek_from_start_mut(59 + x);
    for _ in 0..2 {
        match poll_once(&mut r, 4, 0) {
            Out::Data(d) => {
                zs::check(!d.is_empty(), "early end of file");
                zs::check(!big, "data is delivered without skipping to it");
                for (k, v) in d.iter().enumerate() {
                    zs::check(*v == byte_at(id as u32, x + k as u64), "entry data after a seek");
                }
                zs::reach("data");
                return;
            }
            Out::Err(e, _) => {
                zs::check(is_fault(&e), "another error than the source's");
                zs::check(r.tell() == 59 + x, "position after a failed read");
                zs::check(big, "more reads than needed");
                zs::reach("skipping");
            }
            Out::Pending(_) => zs::fail("suspended although no source is"),
        }
    }
}

// ---- C12 ----------------------------------------------------------------------------------

struct Snap {
    keys: Vec<String>,
    size: u64,
    img: Vec<u8>,
}
fn snap(b: &Builder<Src>) -> Snap {
    Snap { keys: b.get_entries().keys().cloned().collect(), size: b.size(), img: read_all(&mut b.clone().build()) }
}
fn unchanged(b: &Builder<Src>, s: &Snap) {
    let n = snap(b);
    zs::check(n.keys.len() == s.keys.len() && n.keys.iter().zip(&s.keys).all(|(a, b)| zs::same(a.as_bytes(), b.as_bytes())), "a refused addition changed the entries");
    zs::check(n.size == s.size, "a refused addition changed the announced size");
    zs::check(zs::same(&n.img, &s.img), "a refused addition changed the archive");
}
fn base(n: usize) -> (Builder<Src>, Vec<String>) {
    let mut b = Builder::<Src>::new();
    let mut names = vec![];
    for i in 0..n {
        let nm = match String::from_utf8(zs::vec(i % 3, "existing name")) {
            Ok(s) => s,
            Err(_) => {
                zs::reach("not utf-8");
                zs::assume(false);
                unreachable!()
            }
        };
        let id = add_source(&nm, zs::vec(1, "data"));
        match b.add_entry(nm.clone(), Src(id)) {
            Ok(e) => {
                e.unix_permissions(0o601 + i as u32).datetime_fields(2001, 2, 3 + i as u32, 4, 5, 6);
            }
            Err(_) => zs::assume(false),
        }
        names.push(nm);
    }
    (b, names)
}
/// Any name of 0-3 bytes and any size against existing entries.
pub fn c12() {
    new_world(0);
    let n = zs::pick(4, "existing");
    let (mut b, names) = base(n);
    let before = snap(&b);
    let l = zs::pick(4, "name length");
    let nm = match String::from_utf8(zs::vec(l, "name")) {
        Ok(s) => s,
        Err(_) => return,
    };
    let size = zs::int(0, u64::MAX, "size");
    let id = add_source(&nm, vec![]);
    w().s[id as usize].announced = size;
    w().s[id as usize].synth = Some(size);
    let mut dup = false;
    for e in &names {
        dup |= zs::same(e.as_bytes(), nm.as_bytes());
    }
    let fits = before.size as u128 + (FIX + 2 * l as u64) as u128 + size as u128 <= u64::MAX as u128;
    let res = b.add_entry(nm.clone(), Src(id)).map(|_| ());
    match res {
        Ok(()) => {
            zs::check(!dup, "a duplicate name is accepted");
            zs::check(fits, "an addition beyond 64 bits is accepted");
            zs::check(b.size() as u128 == before.size as u128 + (FIX + 2 * l as u64) as u128 + size as u128, "announced size after an addition");
            zs::check(b.get_entries().len() == n + 1, "an accepted addition does not add one entry");
            zs::check(zs::same(b.get_entries().get_index(n).unwrap().0.as_bytes(), nm.as_bytes()), "the added entry is not the last");
            zs::reach("added");
        }
        Err(e) => {
            match e {
                AddEntryError::DuplicateEntryName { entry_name } => {
                    zs::check(dup, "refused as duplicate although the name is new");
                    zs::check(zs::same(entry_name.as_bytes(), nm.as_bytes()), "the error names another entry");
                }
                AddEntryError::TooLongZipFile { entry_name } => {
                    zs::check(!fits, "refused as too large although it fits");
                    zs::check(zs::same(entry_name.as_bytes(), nm.as_bytes()), "the error names another entry");
                }
                _ => zs::fail("a wrong reason is given for a refusal"),
            }
            unchanged(&b, &before);
            // and the builder still accepts others
            let id = add_source("fresh name", vec![]);
            zs::check(b.add_entry("fresh name".into(), Src(id)).is_ok(), "a valid addition fails after a refused one");
            zs::reach("refused");
        }
    }
}
/// Name lengths around the limit, and a refusal after changes through get_entries_mut.
pub fn c12_names() {
    new_world(0);
    let (mut b, _) = base(2);
    if zs::pick(2, "removed before") == 1 {
        b.get_entries_mut().shift_remove_index(0);
    }
    let before = snap(&b);
    const L: [usize; 9] = [65534, 65535, 65536, 65537, 65792, 131071, 131072, 131073, 70000];
    let l = L[zs::pick(L.len() as u64, "length")];
    let mut v = vec![b'x'; l];
    for p in [0, l / 2, l - 1] {
        v[p] = zs::int(0x20, 0x7e, "char") as u8;
    }
    let multi = zs::pick(2, "multi-byte") == 1;
    if multi {
        // 3-byte characters: fewer characters than bytes
        for c in v[..l - l % 3].chunks_mut(3) {
            c.copy_from_slice("€".as_bytes());
        }
    }
    let nm = String::from_utf8(v).unwrap();
    let id = add_source(&nm, vec![]);
    let res = b.add_entry(nm.clone(), Src(id)).map(|_| ());
    match res {
        Ok(()) => {
            zs::check(l <= 65535, "a name longer than 65535 bytes is accepted");
            zs::check(b.size() == before.size + FIX + 2 * l as u64, "announced size after an addition");
        }
        Err(AddEntryError::TooLongEntryName { entry_name }) => {
            zs::check(l > 65535, "a name of at most 65535 bytes is refused");
            zs::check(zs::same(entry_name.as_bytes(), nm.as_bytes()), "the error names another entry");
            unchanged(&b, &before);
        }
        Err(_) => zs::fail("a wrong reason is given for a refusal"),
    }
    zs::reach("end");
}
/// Two additions that fit alone but not together; the second refused one leaves everything as it was.
pub fn c12_sum() {
    new_world(0);
    let mut b = Builder::<Src>::new();
    let mut total = END;
    let mut ok = 0u64;
    for i in 0..4 {
        let nm = ["a", "bb", "", "dddd"][i];
        let size = zs::int(0, u64::MAX, "size");
        let id = add_source(nm, vec![]);
        w().s[id as usize].announced = size;
        let next = plus(total, nm.len(), size);
        let keys = b.get_entries().len();
        let done = b.add_entry(nm.to_string(), Src(id)).map(|_| ());
        match done {
            Ok(()) => {
                zs::check(next.is_some(), "an addition beyond 64 bits is accepted");
                total = next.unwrap_or(0);
                ok += 1;
            }
            Err(AddEntryError::TooLongZipFile { entry_name }) => {
                zs::check(next.is_none(), "an addition that fits is refused");
                zs::check(entry_name.as_str() == nm, "the error names another entry");
                zs::check(b.get_entries().len() == keys, "a refused addition changed the entries");
            }
            Err(_) => zs::fail("a wrong reason is given for a refusal"),
        }
        zs::check(b.size() == total, "announced size");
    }
    zs::check(b.get_entries().len() as u64 == ok, "number of entries");
    let r = b.build();
    zs::check(r.size() == total, "announced size of the reader");
    zs::reach("end");
}

// ---- C14 ----------------------------------------------------------------------------------

pub const DEFAULT_TIME: u32 = 0x0021_0000;
type Fields = (i32, u32, u32, u32, u32, u32);
pub fn fields_ok(f: &Fields) -> bool {
    (f.0 >= 1980) & (f.0 <= 2107) & (f.1 >= 1) & (f.1 <= 12) & (f.2 >= 1) & (f.2 <= 31) & (f.3 <= 23) & (f.4 <= 59) & (f.5 <= 59)
}
pub fn dos(f: &Fields) -> u32 {
    let d = ((f.0 as u32).wrapping_sub(1980) << 9) | (f.1 << 5) | f.2;
    let t = (f.3 << 11) | (f.4 << 5) | (f.5 >> 1);
    (d << 16) | (t & 0xffff)
}
fn sym_fields() -> Fields {
    let mut v = [0u8; 24];
    zs::bytes(&mut v, "fields");
    let u = |i: usize| u32::from_le_bytes([v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]]);
    (u(0) as i32, u(1), u(2), u(3), u(4), u(5))
}
/// Time stored for entry `i`, after checking that both headers have the same.
fn stored(img: &[u8], i: usize) -> u32 {
    let z = zip::parse(img);
    z.e[i].time
}
/// All sequences of two setters with arbitrary 32-bit fields.
pub fn c14() {
    new_world(0);
    let mut b = Builder::<Src>::new();
    let conv = sym_fields();
    let with_conv = zs::pick(2, "converter") == 1;
    if with_conv {
        b.system_time_converter(move |_| conv);
    }
    add_source("a", zs::vec(1, "data"));
    add_source("b", vec![]);
    let e = b.add_entry("a".into(), Src(0)).unwrap_or_else(|_| zs::fail("refused"));
    let mut want = DEFAULT_TIME;
    for _ in 0..2 {
        let f = sym_fields();
        let now = UNIX_EPOCH + Duration::from_secs(12345);
        let (okf, okc) = (fields_ok(&f), with_conv & fields_ok(&conv));
        match zs::pick(5, "setter") {
            0 => {}
            1 => {
                let r = e.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some();
                zs::check(r == okf, "datetime_fields accepts exactly valid fields");
                want = if okf { dos(&f) } else { want };
            }
            2 => {
                e.datetime_fields_or_default(f.0, f.1, f.2, f.3, f.4, f.5);
                want = if okf { dos(&f) } else { DEFAULT_TIME };
            }
            3 => {
                let r = e.datetime_system(now).is_some();
                zs::check(r == okc, "datetime_system succeeds exactly with a converter that gives valid fields");
                want = if okc { dos(&conv) } else { want };
            }
            _ => {
                e.datetime_system_or_default(now);
                want = if okc { dos(&conv) } else { DEFAULT_TIME };
            }
        }
    }
    let _ = b.add_entry("b".into(), Src(1)).unwrap_or_else(|_| zs::fail("refused"));
    let img = read_all(&mut b.build());
    zs::check(stored(&img, 0) == want, "stored modification time");
    zs::check(stored(&img, 1) == DEFAULT_TIME, "stored modification time of an entry without one");
    zs::obs(1, stored(&img, 0) as u64);
    zs::reach("end");
}
/// The converter used is the one the builder had when the entry was added, and gets the time given.
pub fn c14_conv() {
    new_world(0);
    let mut b = Builder::<Src>::new();
    for n in ["a", "b", "c"] {
        add_source(n, vec![]);
    }
    let secs = zs::int(0, u32::MAX as u64, "seconds");
    let t = UNIX_EPOCH + Duration::from_secs(secs);
    let plan = zs::pick(4, "plan");
    let mk = move |k: i32| {
        move |x: SystemTime| {
            zs::check(x == t, "the converter gets another time");
            (2000 + k, 1, 1, 1, 1, 1)
        }
    };
    let set = |b: &mut Builder<Src>, k: i32| {
        b.system_time_converter(mk(k));
    };
    let mut want = [None; 3];
    if plan & 1 != 0 {
        set(&mut b, 1);
    }
    for i in 0..3u32 {
        let _ = b.add_entry(["a", "b", "c"][i as usize].into(), Src(i)).unwrap_or_else(|_| zs::fail("refused"));
        want[i as usize] = match (i, plan) {
            (0, 0 | 2) => None,
            (0, _) => Some(1),
            (1, _) => Some(2),
            _ => Some(if plan & 2 != 0 { 3 } else { 2 }),
        };
        if i == 0 {
            set(&mut b, 2);
        }
        if i == 1 && plan & 2 != 0 {
            set(&mut b, 3);
        }
    }
    for i in 0..3 {
        let e: &mut BuilderEntry<Src> = b.get_entries_mut().get_index_mut(i).unwrap().1;
        let ok = e.datetime_system(t).is_some();
        zs::check(ok == want[i].is_some(), "a converter set after the entry was added is used, or the one before is not");
    }
    let img = read_all(&mut b.build());
    for i in 0..3 {
        let wt = match want[i] {
            Some(k) => dos(&(2000 + k, 1, 1, 1, 1, 1)),
            None => DEFAULT_TIME,
        };
        zs::check(stored(&img, i) == wt, "another converter than the entry's was used");
    }
    zs::reach("end");
}
/// Calendar types, around the ends of the range and inside.
pub fn c14_chrono() {
    use chrono::{NaiveDate, NaiveDateTime};
    new_world(0);
    add_source("a", vec![]);
    let y = [1901, 1979, 1980, 1981, 2000, 2024, 2107, 2108, 2236, -1980, 262142][zs::pick(11, "year")];
    let mo = [1, 2, 12][zs::pick(3, "month")];
    let d = [1, 28, 31][zs::pick(3, "day")];
    let Some(date) = NaiveDate::from_ymd_opt(y, mo, d) else { return };
    let sod = zs::int(0, 86399, "second of day");
    let h = sod / 3600;
    let s = sod % 60;
    let mi = sod / 60 % 60;
    let nano = [0, 999_999_999, 1_500_000_000][zs::pick(3, "nanosecond")];
    if nano >= 1_000_000_000 {
        zs::assume(s == 59);
    }
    let Some(t) = chrono::NaiveTime::from_num_seconds_from_midnight_opt(sod as u32, nano) else { return };
    let dt = NaiveDateTime::new(date, t);
    let mut b = Builder::<Src>::new();
    let e = b.add_entry("a".into(), Src(0)).unwrap_or_else(|_| zs::fail("refused"));
    let f = (y, mo, d, h as u32, mi as u32, s as u32);
    let ok = fields_ok(&f);
    let prev = (1999, 9, 9, 9, 9, 9);
    e.datetime_fields(1999, 9, 9, 9, 9, 9);
    let want;
    if zs::pick(2, "or default") == 0 {
        let r = e.datetime(dt).is_some();
        zs::check(r == ok, "datetime accepts exactly moments in range");
        want = if ok { dos(&f) } else { dos(&prev) };
    } else {
        e.datetime_or_default(dt);
        want = if ok { dos(&f) } else { DEFAULT_TIME };
    }
    let img = read_all(&mut b.build());
    zs::check(stored(&img, 0) == want, "stored modification time");
    zs::obs(1, want as u64);
    zs::reach("end");
}
/// days since 1970-01-01 -> (year, month, day)
pub fn civil(z: i64) -> (i32, u32, u32) {
    // straightforward: year by year, month by month
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    let mut d = z;
    while d < 0 {
        y -= 1;
        d += if leap(y) { 366 } else { 365 };
    }
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= ml[m] {
        d -= ml[m];
        m += 1;
    }
    (y as i32, m as u32 + 1, d as u32 + 1)
}
/// A zone whose offset from UTC changes at one moment.
#[derive(Clone)]
struct Changes {
    at: chrono::NaiveDateTime,
    before: chrono::FixedOffset,
    after: chrono::FixedOffset,
}
impl chrono::TimeZone for Changes {
    type Offset = chrono::FixedOffset;
    fn from_offset(_: &chrono::FixedOffset) -> Self {
        zs::fail("the zone is guessed from an offset")
    }
    fn offset_from_local_date(&self, _: &chrono::NaiveDate) -> chrono::MappedLocalTime<chrono::FixedOffset> {
        chrono::MappedLocalTime::None
    }
    fn offset_from_local_datetime(&self, l: &chrono::NaiveDateTime) -> chrono::MappedLocalTime<chrono::FixedOffset> {
        chrono::MappedLocalTime::Single(self.offset_from_utc_datetime(&(*l - self.before)))
    }
    fn offset_from_utc_date(&self, d: &chrono::NaiveDate) -> chrono::FixedOffset {
        self.offset_from_utc_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
    }
    fn offset_from_utc_datetime(&self, u: &chrono::NaiveDateTime) -> chrono::FixedOffset {
        if *u < self.at {
            self.before
        } else {
            self.after
        }
    }
}
/// System time through a zone whose offset changes within the window (as for summer time).
pub fn c14_dst() {
    new_world(0);
    add_source("a", vec![]);
    // 2024-03-31T01:00Z, 2024-10-27T01:00Z, 1979-12-31T23:00Z
    const T: [i64; 3] = [1711846800, 1729990800, 315529200];
    let at = T[zs::pick(3, "moment")];
    let (b0, b1) = [(3600, 7200), (7200, 3600), (0, 3600), (-3600, 86399)][zs::pick(4, "offsets")];
    let t = at - 1024 + zs::int(0, 2047, "second") as i64;
    let east = |o| chrono::FixedOffset::east_opt(o).unwrap();
    let mut b = Builder::<Src>::new();
    b.system_time_timezone(Changes { at: chrono::DateTime::from_timestamp(at, 0).unwrap().naive_utc(), before: east(b0), after: east(b1) });
    let e = b.add_entry("a".into(), Src(0)).unwrap_or_else(|_| zs::fail("refused"));
    // an earlier conversion, long before or long after
    let other = at + [-40, 40][zs::pick(2, "other") as usize] * 86400;
    let _ = e.datetime_system(UNIX_EPOCH + Duration::from_secs(other as u64));
    e.datetime_fields(1999, 9, 9, 9, 9, 9);
    let (off, lo) = if t < at { (b0 as i64, at - 1024) } else { (b1 as i64, at) };
    let l = t + off;
    // the part of the window on this side of the change touches at most two days
    let day = (lo + off).div_euclid(86400);
    let (day, sod) = if l >= (day + 1) * 86400 { (day + 1, l - (day + 1) * 86400) } else { (day, l - day * 86400) };
    let c = civil(day);
    let sod = sod as u32;
    let f = (c.0, c.1, c.2, sod / 3600, sod / 60 % 60, sod % 60);
    let ok = fields_ok(&f);
    let r = e.datetime_system(UNIX_EPOCH + Duration::from_secs(t as u64)).is_some();
    zs::check(r == ok, "datetime_system accepts exactly moments in range");
    let want = if ok { dos(&f) } else { dos(&(1999, 9, 9, 9, 9, 9)) };
    let img = read_all(&mut b.build());
    zs::check(stored(&img, 0) == want, "stored modification time");
    zs::obs(1, want as u64);
    zs::reach("end");
}
/// System time through a time zone: windows of 2048 s around interesting moments.
pub fn c14_zone() {
    new_world(0);
    add_source("a", vec![]);
    // 1980-01-01, 2108-01-01, 2000-02-29, 2100-03-01, 1970-01-01, 2038-01-19
    const T: [i64; 7] = [315532800, 4354819200, 951782400, 4107542400, 0, 2147483648, 1230768000];
    let base = T[zs::pick(T.len() as u64, "window")];
    const OFF: [i32; 7] = [0, 3600, -3600, 5 * 3600 + 1800, -12 * 3600, 14 * 3600, -86399];
    let off = OFF[zs::pick(OFF.len() as u64, "zone")];
    let x = zs::int(0, 2047, "second") as i64;
    let t = base - off as i64 - 1024 + x;
    let half = zs::pick(2, "subsecond") as i64;
    let st = {
        // t may be before 1970
        let big = UNIX_EPOCH - Duration::from_secs(1 << 40);
        big + Duration::new((t + (1 << 40)) as u64, if half == 1 { 999_999_999 } else { 0 })
    };
    let mut b = Builder::<Src>::new();
    if off == 0 && zs::pick(2, "utc") == 1 {
        b.system_time_timezone(chrono::Utc);
    } else {
        b.system_time_timezone(chrono::FixedOffset::east_opt(off).unwrap());
    }
    let e = b.add_entry("a".into(), Src(0)).unwrap_or_else(|_| zs::fail("refused"));
    // local time
    let lt = base - 1024 + x;
    let day0 = (base - 1024).div_euclid(86400);
    let sod0 = (base - 1024).rem_euclid(86400);
    let over = sod0 + x >= 86400;
    let (c0, c1) = (civil(day0), civil(day0 + 1));
    let sod = if over { sod0 + x - 86400 } else { sod0 + x } as u32;
    let c = if over { c1 } else { c0 };
    let _ = lt;
    let f = (c.0, c.1, c.2, sod / 3600, sod / 60 % 60, sod % 60);
    let ok = fields_ok(&f);
    e.datetime_fields(1999, 9, 9, 9, 9, 9);
    let want;
    if zs::pick(2, "or default") == 0 {
        let r = e.datetime_system(st).is_some();
        zs::check(r == ok, "datetime_system accepts exactly moments in range");
        want = if ok { dos(&f) } else { dos(&(1999, 9, 9, 9, 9, 9)) };
    } else {
        e.datetime_system_or_default(st);
        want = if ok { dos(&f) } else { DEFAULT_TIME };
    }
    let img = read_all(&mut b.build());
    zs::check(stored(&img, 0) == want, "stored modification time");
    zs::obs(1, want as u64);
    zs::reach("end");
}

// ---- C15 ----------------------------------------------------------------------------------

/// All sequences of up to three setters with any 32-bit permissions.
pub fn c15() {
    use std::os::unix::fs::PermissionsExt;
    let level = zs::pick(2, "level");
    new_world(0);
    add_source("a", zs::vec(1, "data"));
    add_source("dir/", vec![]);
    add_source("z", zs::vec(2, "data"));
    let target = zs::pick(3, "entry") as usize;
    let mut b = builder();
    let plain = read_all(&mut b.clone().build());
    let other = (target + 1) % 3;
    let n = zs::pick(4 + level as u64, "settings");
    // reference
    let mut ty = 0o100000u32;
    let mut perm: Result<u32, bool> = Err(false); // Ok(unix) or Err(read-only)
    for _ in 0..n {
        let e = b.get_entries_mut().get_index_mut(target).unwrap().1;
        match zs::pick(8, "setting") {
            0 => {
                e.file();
                ty = 0o100000;
            }
            1 => {
                e.directory();
                ty = 0o040000;
            }
            2 => {
                e.symlink();
                ty = 0o120000;
            }
            3 => {
                let p = zs::int(0, u32::MAX as u64, "mode") as u32;
                e.unix_permissions(p);
                perm = Ok(p);
            }
            4 => {
                let p = zs::int(0, u32::MAX as u64, "mode") as u32;
                e.permissions(&std::fs::Permissions::from_mode(p));
                perm = Ok(p);
            }
            5 => {
                e.readonly(true);
                perm = Err(true);
            }
            6 => {
                e.readonly(false);
                perm = Err(false);
            }
            _ => {
                // another entry's settings are its own
                b.get_entries_mut().get_index_mut(other).unwrap().1.file().readonly(false);
            }
        }
    }
    let bits = if ty == 0o120000 {
        0o777
    } else {
        match perm {
            Ok(p) => p & 0o777,
            Err(ro) => (if ro { 0o444 } else { 0o644 }) | (if ty == 0o040000 { 0o111 } else { 0 }),
        }
    };
    let img = read_all(&mut b.build());
    let z = zip::parse(&img);
    zs::check(z.e[target].ext == (ty | bits) << 16, "external attributes");
    zs::check(z.e[target].made_by >> 8 == 3, "host system of the external attributes is not Unix");
    // nothing else differs
    let mut same = img.clone();
    let p = z.e[target].cdh + 38;
    same[p..p + 4].copy_from_slice(&plain[p..p + 4]);
    zs::check(zs::same(&same, &plain), "a field other than the external attributes changed");
    zs::obs(1, z.e[target].ext as u64);
    zs::reach("end");
}
