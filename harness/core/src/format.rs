//! C01: the archive format.
use crate::world::*;
use crate::{zip, zs};

fn name(n: usize) -> Option<String> {
    String::from_utf8(zs::vec(n, "name")).ok()
}
/// Parse and compare with the sources. `full`: also recompute every CRC.
fn verify(img: &[u8], full: bool) {
    let z = zip::parse(img);
    let s = &w().s;
    zs::check(z.e.len() == s.len(), "number of entries in the central directory");
    for (e, s) in z.e.iter().zip(s) {
        zs::check(zs::same(&e.name, s.name.as_bytes()), "entry name in the central directory (insertion order)");
        zs::check(zs::same(&img[e.data..e.data_end], &s.data), "entry data is not what the source supplied");
        if full {
            let c = s.preset.unwrap_or_else(|| crc_ref(&s.data));
            zs::check(e.crc_dd == c, "CRC in the data descriptor");
            zs::check(e.crc_cd == c, "CRC in the central directory");
        }
        zs::check(e.ext == 0o100644 << 16, "default external attributes");
        zs::check(e.made_by >> 8 == 3, "host system of the external attributes is not Unix");
    }
    zs::reach("parsed");
}
fn read_all() -> Vec<u8> {
    let mut b = zippity::Builder::<Src>::new();
    let n = w().s.len();
    for i in 0..n {
        let (name, p) = (w().s[i].name.clone(), w().s[i].preset);
        match b.add_entry(name, Src(i as u32)) {
            Ok(e) => {
                if let Some(c) = p {
                    e.crc32(c);
                }
            }
            Err(_) => zs::fail("entry with a new name refused"),
        }
    }
    let size = b.size();
    let mut r = b.build();
    zs::check(r.size() == size, "sizes announced by builder and reader differ");
    let mut out = vec![];
    loop {
        match poll_once(&mut r, 70000, 0) {
            Out::Data(d) => {
                if d.is_empty() {
                    break;
                }
                out.extend_from_slice(&d);
            }
            Out::Pending(_) => zs::fail("reader suspended although no source did"),
            Out::Err(..) => zs::fail("sequential read of good sources failed"),
        }
    }
    zs::check(out.len() as u64 == size, "announced size is not the number of bytes delivered");
    out
}

/// Symbolic names (any bytes that are UTF-8) and contents; up to 2 (thorough: 3) entries.
pub fn c01() {
    let level = zs::pick(2, "level");
    new_world(0);
    let n = zs::pick(3 + level as u64, "entries");
    let (nl, dl) = if level == 0 { (3, 4) } else { (4, 4) };
    for _ in 0..n {
        let l = zs::pick(nl, "name length");
        let nm = match name(l) {
            Some(s) => s,
            None => {
                zs::reach("not utf-8");
                return;
            }
        };
        for s in &w().s {
            zs::assume(!zs::same(s.name.as_bytes(), nm.as_bytes()));
        }
        let d = zs::pick(dl, "data length");
        let i = add_source(&nm, zs::vec(d, "data"));
        if zs::pick(2, "preset") == 1 {
            w().s[i as usize].preset = Some(crc_ref(&w().s[i as usize].data));
        }
    }
    let out = read_all();
    zs::obs_bytes(1, &out);
    verify(&out, true);
}
/// Name lengths around the one-byte and two-byte boundaries, 3- and 4-byte characters.
pub fn c01_names() {
    new_world(0);
    let k = zs::pick(9, "kind");
    let mut nm: Vec<u8> = match k {
        0 => zs::vec(3, "name"),
        1 => zs::vec(4, "name"),
        2 => vec![b'a'; 127],
        3 => vec![b'a'; 128],
        4 => vec![b'a'; 255],
        5 => vec![b'a'; 256],
        6 => vec![b'a'; 32768],
        7 => vec![b'a'; 65534],
        _ => vec![b'a'; 65535],
    };
    if k > 1 {
        let l = nm.len();
        for p in [0, l / 2, l - 1] {
            nm[p] = zs::int(0x20, 0x7e, "char") as u8;
        }
    }
    let nm = match String::from_utf8(nm) {
        Ok(s) => s,
        Err(_) => return,
    };
    add_source(&nm, zs::vec(2, "data"));
    add_source("second", zs::vec(1, "data"));
    let out = read_all();
    verify(&out, true);
}
/// Contents around power-of-two and internal buffer boundaries; some bytes symbolic.
pub fn c01_big() {
    let level = zs::pick(2, "level");
    new_world(0);
    let sizes: &[usize] = if level == 0 {
        &[127, 128, 255, 256, 4096, 8191, 8192, 8193, 65535, 65536, 70001]
    } else {
        &[15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 4095, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537, 70001, 140003]
    };
    let l = sizes[zs::pick(sizes.len() as u64, "size")];
    let mut d: Vec<u8> = (0..l).map(|i| byte_at(1, i as u64)).collect();
    for p in [l - l.min(40), l - 2, l - 1] {
        d[p] = zs::int(0, 255, "data") as u8;
    }
    add_source("a", zs::vec(1, "data"));
    add_source("b", d);
    add_source("c", zs::vec(1, "data"));
    let out = read_all();
    verify(&out, true);
}
/// Many entries.
pub fn c01_many() {
    let level = zs::pick(3, "level");
    new_world(0);
    let ns: &[usize] = match level {
        0 => &[255, 256, 300],
        1 => &[255, 256, 257, 1000],
        _ => &[65534, 65535, 65536, 65537],
    };
    let n = ns[zs::pick(ns.len() as u64, "entries")];
    for i in 0..n {
        let nm = [b'a' + (i & 15) as u8, b'a' + (i >> 4 & 15) as u8, b'a' + (i >> 8 & 15) as u8, b'a' + (i >> 12 & 15) as u8, b'a' + (i >> 16) as u8];
        let d = if i == n / 2 { zs::vec(1, "data") } else { vec![] };
        add_source(std::str::from_utf8(&nm).unwrap(), d);
    }
    let out = read_all();
    verify(&out, n < 2000);
}
