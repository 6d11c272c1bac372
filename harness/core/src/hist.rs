//! C03 to C06: histories of reads, seeks, suspensions and failures against the ghost model.
use crate::walks::*;
use crate::world::*;
use crate::zs;
use zippity::Reader;

/// Archive shapes: (name length, data length) of each entry. Contents are symbolic.
pub const SHAPES: [&[(usize, usize)]; 8] = [
    &[],
    &[(1, 2)],
    &[(1, 3), (2, 0)],
    &[(0, 0), (3, 5)],
    &[(1, 1), (0, 2), (2, 1)],
    &[(2, 0), (1, 0), (0, 4), (1, 1)],
    &[(1, 20), (1, 40)],
    &[(40, 3)],
];
pub fn shape(s: usize) {
    let mut k = 0;
    for &(n, d) in SHAPES[s] {
        let nm: String = (0..n).map(|i| (b'a' + k + i as u8 % 20) as char).collect();
        k += 1;
        add_source(&nm, zs::vec(d, "data"));
    }
}
pub fn presets(mask: usize) {
    for i in 0..w().s.len() {
        if i < 8 && mask >> i & 1 == 1 {
            w().s[i].preset = Some(crc_ref(&w().s[i].data));
        }
    }
}
fn reader() -> Reader<Src> {
    builder().build()
}
/// Every uniform buffer size from one byte to more than the archive, with and without bytes already in the
/// buffer and zero-length reads in between.
pub fn c03_uniform() {
    let sh = zs::pick(SHAPES.len() as u64, "shape");
    new_world(P03);
    shape(sh);
    let c = Ctx::new();
    // symbolic: sizes that are the same to the reader are decided together
    const MAX: usize = 2047;
    let n = zs::int(1, MAX as u64, "buffer size") as usize;
    let (pre, zero) = [(0, false), (3, true)][zs::pick(2, "variant")];
    let mut r = reader();
    let mut m = c.start();
    let mut calls = 0;
    loop {
        if zero {
            c.step(&mut m, &mut r, 0, calls % 3);
        }
        if c.step_max(&mut m, &mut r, n, MAX, pre) == Step::Eof {
            break;
        }
        calls += 1;
    }
    finish(&c, &mut m, &mut r);
    zs::check(r.size() == c.img.len() as u64, "announced size changed");
}
/// A first read of any size, a second of any size up to a bound, the rest with a fixed size.
pub fn c03_two() {
    let level = zs::pick(2, "level");
    let sh = zs::pick(SHAPES.len() as u64, "shape");
    new_world(P03);
    shape(sh);
    let c = Ctx::new();
    let a = zs::int(0, 2047, "first") as usize;
    let b = if level == 0 {
        const B: [usize; 14] = [1, 2, 3, 19, 20, 21, 23, 24, 25, 29, 30, 31, 59, 98];
        B[zs::pick(14, "second")]
    } else {
        1 + zs::pick(130, "second")
    };
    let rest = [33, 9000][zs::pick(2, "rest")];
    let mut r = reader();
    let mut m = c.start();
    let mut got = 0;
    // the first size is delivered as one logical read: repeated until it is used up
    while got < a {
        match c.step_max(&mut m, &mut r, a - got, 2047, 0) {
            Step::Some(n) => got += n,
            _ => break,
        }
    }
    c.step(&mut m, &mut r, b, 1);
    c.drain(&mut m, &mut r, rest);
    finish(&c, &mut m, &mut r);
}
/// From any place, with an empty read before each other one.
pub fn c03_seek() {
    let level = zs::pick(2, "level");
    new_world(P03);
    shape([2, 4, 6][zs::pick(3, "shape")]);
    presets([0, 1, 7][zs::pick(3, "presets")]);
    let c = Ctx::new();
    let v = if level > 0 { near(&c) } else { mids(&c) };
    let o = v[zs::pick(v.len() as u64, "seek")];
    let cap = [1, 5, 60][zs::pick(3, "buffer size")];
    let mut r = reader();
    let mut m = c.start();
    seek_to(&mut r, o);
    m.pos = o;
    loop {
        c.step(&mut m, &mut r, 0, cap % 3);
        if c.step(&mut m, &mut r, cap, 2) == Step::Eof {
            break;
        }
    }
    finish(&c, &mut m, &mut r);
}
pub fn big_data(l: usize) -> Vec<u8> {
    let mut d: Vec<u8> = (0..l).map(|i| byte_at(1, i as u64)).collect();
    for p in [l - 300, l - 9, l - 1] {
        d[p] = zs::int(0, 255, "data") as u8;
    }
    d
}
/// Entries larger than the internal buffer.
pub fn c03_big() {
    new_world(P03);
    let l = [8191usize, 8192, 8193, 20000][zs::pick(4, "size")];
    add_source("a", zs::vec(1, "data"));
    add_source("b", big_data(l));
    let c = Ctx::new();
    let n = [97usize, 1000, 4096, 8191, 8192, 8193, 16384, 65536][zs::pick(8, "buffer size")];
    let mut r = reader();
    let mut m = c.start();
    c.drain(&mut m, &mut r, n);
    finish(&c, &mut m, &mut r);
}

const CAPS: [usize; 4] = [1, 7, 40, 9000];
/// Suspensions and short reads at any source poll of a sequential read.
pub fn c04() {
    let level = zs::pick(2, "level") as u32;
    let sh = 1 + zs::pick(5, "shape");
    new_world(P04);
    shape(sh);
    let c = Ctx::new();
    let cap = CAPS[zs::pick(4, "buffer size")];
    let mut r = reader();
    let mut m = c.start();
    w().pend = 2 + level;
    w().short = 2;
    c.drain(&mut m, &mut r, cap);
    finish(&c, &mut m, &mut r);
    for (n, v) in r.crc32s() {
        let i = w().s.iter().position(|s| s.name == n).unwrap_or(0);
        zs::check(v == c.crcs[i], "final CRC state depends on the sources' schedule");
    }
    zs::check(r.crc32s().count() == w().s.len(), "CRCs missing after a complete read");
    zs::check(r.tell() == m.pos, "final position depends on the sources' schedule");
}
/// The same after a seek to any record boundary, with CRCs known or not.
pub fn c04_seek() {
    let level = zs::pick(2, "level") as u32;
    let sh = [1, 2, 3, 4][zs::pick(4, "shape")];
    new_world(P04);
    shape(sh);
    presets([0, 1, 7][zs::pick(3, "presets")]);
    let c = Ctx::new();
    let v = near(&c);
    let o = v[zs::pick(v.len() as u64, "seek")];
    let cap = [5, 60, 9000][zs::pick(3, "buffer size")];
    let mut r = reader();
    let mut m = c.start();
    w().pend = 2 + level;
    w().short = 1;
    seek_to(&mut r, o);
    m.pos = o;
    c.drain(&mut m, &mut r, cap);
    finish(&c, &mut m, &mut r);
    c.see_crcs(&mut m, &r);
}

/// One seek to any offset (symbolic) from a fresh or partly read reader.
pub fn c05() {
    let sh = zs::pick(SHAPES.len() as u64, "shape");
    new_world(P05);
    shape(sh);
    presets([0, 5, 15][zs::pick(3, "presets")]);
    let c = Ctx::new();
    let mut r = reader();
    let mut m = c.start();
    let o = zs::int(0, c.img.len() as u64 + 70, "offset");
    r.seek_from_start_mut(o);
    let cap = [3, 50, 9000][zs::pick(3, "buffer size")];
    m.pos = o;
    c.drain(&mut m, &mut r, cap);
    finish(&c, &mut m, &mut r);
}
/// Histories: read, seek, read, seek, drain.
pub fn c05_hist() {
    let level = zs::pick(2, "level");
    let sh = [2, 4, 6, 3][zs::pick(4, "shape")];
    new_world(P05);
    shape(sh);
    presets([0, 2][zs::pick(2, "presets")]);
    let c = Ctx::new();
    let mut r = reader();
    let mut m = c.start();
    let v = near(&c);
    let b = bounds(&c);
    // first: a targeted or any position
    let full = zs::pick(2, "which seek is full") == 1;
    let o1 = if full { zs::int(0, c.img.len() as u64 + 1, "seek") } else { b[zs::pick(b.len() as u64, "seek")] };
    if full {
        seek_by(&mut r, o1, 4);
    } else {
        seek_to(&mut r, o1);
    }
    m.pos = o1;
    let n = if level > 0 { [0, 1, 2, 29, 60, 9000][zs::pick(6, "read")] } else if full { 2 } else { [2, 40][zs::pick(2, "read")] };
    if n > 0 {
        c.step(&mut m, &mut r, n, 0);
    }
    if level > 0 {
        c.step(&mut m, &mut r, 2, 0);
    }
    let o2 = if !full {
        zs::int(0, c.img.len() as u64 + 1, "seek")
    } else if level == 0 {
        b[zs::pick(b.len() as u64, "seek")]
    } else {
        v[zs::pick(v.len() as u64, "seek")]
    };
    if full {
        seek_to(&mut r, o2);
    } else {
        seek_by(&mut r, o2, [1, 0, 4][n % 3]);
    }
    m.pos = o2;
    c.drain(&mut m, &mut r, 45);
    finish(&c, &mut m, &mut r);
}
/// Entries larger than the internal skip buffer.
pub fn c05_big() {
    new_world(P05);
    let l = [8193usize, 16384, 20000][zs::pick(3, "size")];
    add_source("a", zs::vec(1, "data"));
    add_source("b", big_data(l));
    add_source("c", zs::vec(1, "data"));
    presets([0, 2][zs::pick(2, "presets")]);
    let c = Ctx::new();
    let d = c.lay.e[1].data;
    let mut t = vec![d, d + 1, d + 8191, d + 8192, d + 8193, d + l as u64 - 1, d + l as u64, d + l as u64 + 1, c.lay.cd, c.lay.e[1].cdh];
    if l > 16384 {
        t.extend([d + 16383, d + 16384, d + 16385]);
    }
    let o = t[zs::pick(t.len() as u64, "seek")];
    let mut r = reader();
    let mut m = c.start();
    let first = [0, 300, 12000][zs::pick(3, "read")];
    if first > 0 {
        c.step(&mut m, &mut r, first, 0);
        c.step(&mut m, &mut r, first, 0);
        c.step(&mut m, &mut r, first, 0);
    }
    w().short = 1;
    seek_to(&mut r, o);
    m.pos = o;
    c.drain(&mut m, &mut r, 5000);
    finish(&c, &mut m, &mut r);
}

/// Position through histories with suspensions, failures and zero-length reads.
pub fn c06() {
    let level = zs::pick(2, "level");
    let sh = [2, 4, 3][zs::pick(3, "shape")];
    new_world(P06);
    shape(sh);
    presets([0, 1, 7][zs::pick(3, "presets")]);
    let c = Ctx::new();
    let mut r = reader();
    let mut m = c.start();
    zs::check(r.tell() == 0, "a new reader's position is not 0");
    let b = bounds(&c);
    w().pend = 1 + level as u32;
    w().err = 1;
    for i in 0..2 {
        let o = if i == 0 { b[zs::pick(b.len() as u64, "seek")] } else { [0, c.lay.e[0].data + 1, c.lay.cd + 1, c.lay.size + 3][zs::pick(4, "seek")] };
        seek_to(&mut r, o);
        m.pos = o;
        zs::check(r.tell() == o, "position after a seek is not its target");
        let n = [0, 2, 300][zs::pick(3, "read")];
        c.step(&mut m, &mut r, n, 0);
        c.step(&mut m, &mut r, n, 0);
    }
    c.drain(&mut m, &mut r, 130);
    finish(&c, &mut m, &mut r);
}
