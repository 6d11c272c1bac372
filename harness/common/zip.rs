//! Strict ZIP64 reader written from the specification (APPNOTE.TXT 6.3.x, sections 4.3 and 4.4).
#![allow(dead_code)]
use crate::zs;

pub struct Ent {
    pub name: Vec<u8>,
    pub size: u64,
    pub crc_cd: u32,
    pub crc_dd: u32,
    pub time: u32,
    pub ext: u32,
    pub made_by: u16,
    pub lfh: usize,
    pub data: usize,
    pub data_end: usize,
    pub dd_end: usize,
    pub cdh: usize,
    pub cdh_end: usize,
}
pub struct Zip {
    pub e: Vec<Ent>,
    pub cd: usize,
    pub eocd: usize,
}
pub fn u16_at(b: &[u8], p: usize) -> u16 {
    b[p] as u16 | (b[p + 1] as u16) << 8
}
pub fn u32_at(b: &[u8], p: usize) -> u32 {
    u16_at(b, p) as u32 | (u16_at(b, p + 2) as u32) << 16
}
pub fn u64_at(b: &[u8], p: usize) -> u64 {
    u32_at(b, p) as u64 | (u32_at(b, p + 4) as u64) << 32
}
fn need(c: bool, m: &'static str) {
    if !c {
        zs::fail(m)
    }
}
/// End records: (number of entries, cd size, cd offset, offset of the zip64 record relative to `base`).
/// `b` holds the archive's last bytes, starting at archive offset `base`.
pub fn end_records(b: &[u8], base: u64) -> (u64, u64, u64, u64) {
    need(b.len() >= 98, "archive too short for its end records");
    let e = b.len() - 22;
    need(u32_at(b, e) == 0x06054b50, "no end of central directory signature 22 bytes before the end");
    zs::check(u16_at(b, e + 20) == 0, "archive comment length is not 0");
    let l = e - 20;
    need(u32_at(b, l) == 0x07064b50, "no zip64 locator before the end of central directory record");
    zs::check(u32_at(b, l + 4) == 0, "zip64 locator names a disk other than 0");
    zs::check(u32_at(b, l + 16) == 1, "zip64 locator's number of disks is not 1");
    let z64 = u64_at(b, l + 8);
    zs::check(z64 >= base && z64 - base <= (l - 56) as u64, "zip64 locator's offset is out of range");
    let z = (z64 - base) as usize;
    need(u32_at(b, z) == 0x06064b50, "zip64 locator's offset is not where the zip64 record is");
    let len = u64_at(b, z + 4);
    zs::check(len >= 44 && z as u64 + 12 + len == l as u64, "zip64 record's size field is wrong");
    zs::check(u16_at(b, z + 14) >= 45, "zip64 record's version needed is less than 4.5");
    zs::check(u16_at(b, z + 12) & 0xff >= 45, "zip64 record's version made by is less than 4.5");
    zs::check(u32_at(b, z + 16) == 0 && u32_at(b, z + 20) == 0, "zip64 record names a disk other than 0");
    let n = u64_at(b, z + 24);
    zs::check(n == u64_at(b, z + 32), "zip64 record's two entry counts differ");
    let (size, off) = (u64_at(b, z + 40), u64_at(b, z + 48));
    // 32-bit record: every field is either its maximum (see zip64 record) or the same value
    zs::check(u16_at(b, e + 4) == 0 || u16_at(b, e + 4) == 0xFFFF, "end record: disk");
    zs::check(u16_at(b, e + 6) == 0 || u16_at(b, e + 6) == 0xFFFF, "end record: central directory disk");
    let same16 = |v: u16, x: u64| (v == 0xFFFF) | (v as u64 == x);
    let same32 = |v: u32, x: u64| (v == 0xFFFF_FFFF) | (v as u64 == x);
    zs::check(same16(u16_at(b, e + 8), n), "end record: entry count on this disk");
    zs::check(same16(u16_at(b, e + 10), n), "end record: entry count");
    zs::check(same32(u32_at(b, e + 12), size), "end record: central directory size");
    zs::check(same32(u32_at(b, e + 16), off), "end record: central directory offset");
    (n, size, off, z64)
}
/// zip64 extra field: its 8-byte values. The extra area must be a well-formed list of fields.
fn zip64_extra(b: &[u8]) -> Vec<u64> {
    let mut p = 0;
    let mut r = None;
    while p < b.len() {
        need(p + 4 <= b.len(), "extra field header is cut off");
        let (tag, n) = (u16_at(b, p), u16_at(b, p + 2) as usize);
        need(p + 4 + n <= b.len(), "extra field is longer than the extra area");
        if tag == 1 {
            need(r.is_none(), "two zip64 extra fields");
            need(n % 8 == 0 && n <= 24, "zip64 extra field has an odd size");
            r = Some((0..n / 8).map(|i| u64_at(b, p + 4 + 8 * i)).collect());
        }
        p += 4 + n;
    }
    need(r.is_some(), "no zip64 extra field");
    r.unwrap()
}
pub struct Cdh {
    pub name: Vec<u8>,
    pub size: u64,
    pub crc: u32,
    pub time: u32,
    pub ext: u32,
    pub made_by: u16,
    pub flags: u16,
    pub offset: u64,
    pub len: usize,
}
pub fn cd_header(b: &[u8]) -> Cdh {
    need(b.len() >= 46, "central directory header is cut off");
    need(u32_at(b, 0) == 0x02014b50, "no central directory header signature");
    zs::check(u16_at(b, 6) >= 45, "central header: version needed is less than 4.5");
    zs::check(u16_at(b, 4) & 0xff >= 45, "central header: version made by is less than 4.5");
    let flags = u16_at(b, 8);
    zs::check(flags & !0x0808 == 0, "central header: unexpected flags");
    zs::check(u16_at(b, 10) == 0, "central header: method is not stored");
    let (n, x, k) = (u16_at(b, 28) as usize, u16_at(b, 30) as usize, u16_at(b, 32) as usize);
    zs::check(k == 0, "central header: comment length");
    zs::check(u16_at(b, 34) == 0, "central header: disk number");
    zs::check(u16_at(b, 36) == 0, "central header: internal attributes claim something about the data");
    need(b.len() >= 46 + n + x + k, "central header is longer than the central directory");
    let name = b[46..46 + n].to_vec();
    check_utf8_flag(&name, flags, "central header: name is not ASCII but the UTF-8 flag is not set");
    let z = zip64_extra(&b[46 + n..46 + n + x]);
    let (cs, us, off) = (u32_at(b, 20), u32_at(b, 24), u32_at(b, 42));
    let mut i = 0;
    let mut take = |v: u32| {
        if v == 0xFFFF_FFFF {
            need(i < z.len(), "central header: zip64 extra field lacks a value");
            i += 1;
            z[i - 1]
        } else {
            v as u64
        }
    };
    let size = take(us);
    let csize = take(cs);
    let offset = take(off);
    need(i == z.len(), "central header: zip64 extra field has values for fields that are not at their maximum");
    zs::check(size == csize, "central header: sizes differ for a stored entry");
    Cdh {
        name,
        size,
        crc: u32_at(b, 16),
        time: u32_at(b, 12),
        ext: u32_at(b, 38),
        made_by: u16_at(b, 4),
        flags,
        offset,
        len: 46 + n + x + k,
    }
}
fn check_utf8_flag(name: &[u8], flags: u16, m: &'static str) {
    let mut hi = 0u8;
    for b in name {
        hi |= b & 0x80;
    }
    zs::check((hi == 0) | (flags & 0x0800 != 0), m);
}
/// Local header at the start of `b`: returns (header length). Checked against the central one.
pub fn local_header(b: &[u8], c: &Cdh) -> usize {
    need(b.len() >= 30, "local header is cut off");
    need(u32_at(b, 0) == 0x04034b50, "no local header signature where the central directory says");
    zs::check(u16_at(b, 4) >= 45, "local header: version needed is less than 4.5");
    let flags = u16_at(b, 6);
    zs::check(flags & !0x0800 == 0x0008, "local header: flags (a data descriptor follows)");
    zs::check((flags ^ c.flags) & 0x0800 == 0, "local and central header differ in the UTF-8 flag");
    zs::check(u16_at(b, 8) == 0, "local header: method is not stored");
    zs::check(u32_at(b, 10) == c.time, "local and central modification times differ");
    let crc = u32_at(b, 14);
    zs::check((crc == 0) | (crc == c.crc), "local header: CRC");
    let (n, x) = (u16_at(b, 26) as usize, u16_at(b, 28) as usize);
    need(n == c.name.len(), "local and central name lengths differ");
    need(b.len() >= 30 + n + x, "local header is longer than the archive");
    zs::check(zs::same(&b[30..30 + n], &c.name), "local and central names differ");
    check_utf8_flag(&c.name, flags, "local header: name is not ASCII but the UTF-8 flag is not set");
    let (cs, us) = (u32_at(b, 18), u32_at(b, 22));
    let z = zip64_extra(&b[30 + n..30 + n + x]);
    // zip64 sizes: both must be there; with a data descriptor they are 0 or the real ones
    need(z.len() >= 2, "local header: zip64 extra field lacks the sizes");
    zs::check(cs == 0xFFFF_FFFF && us == 0xFFFF_FFFF, "local header: sizes are not deferred to zip64");
    zs::check((z[0] == 0) | (z[0] == c.size), "local header: zip64 uncompressed size");
    zs::check((z[1] == 0) | (z[1] == c.size), "local header: zip64 compressed size");
    if z.len() > 2 {
        zs::check(z[2] == c.offset, "local header: zip64 offset");
    }
    30 + n + x
}
/// zip64 data descriptor at the start of `b`.
pub fn descriptor(b: &[u8], c: &Cdh) -> usize {
    need(b.len() >= 24, "data descriptor is cut off");
    need(u32_at(b, 0) == 0x08074b50, "no data descriptor signature after the data");
    zs::check(u32_at(b, 4) == c.crc, "data descriptor and central directory CRCs differ");
    zs::check(u64_at(b, 8) == c.size, "data descriptor: compressed size");
    zs::check(u64_at(b, 16) == c.size, "data descriptor: uncompressed size");
    24
}
pub fn parse(b: &[u8]) -> Zip {
    let (n, cd_size, cd_off, z) = end_records(b, 0);
    zs::check(cd_off <= z && cd_size <= z - cd_off, "central directory is not before the end records");
    zs::check(cd_off + cd_size == z, "gap between central directory and end records");
    let z = z as usize;
    let cd = cd_off as usize;
    let mut e = vec![];
    let mut p = cd;
    let mut at = 0usize;
    for _ in 0..n {
        need(p < z, "fewer central headers than counted");
        let c = cd_header(&b[p..z]);
        zs::check(c.offset == at as u64, "local records do not tile the file up to the central directory");
        let h = local_header(&b[at..cd], &c);
        let data = at + h;
        zs::check(c.size <= (cd - data) as u64, "entry is longer than the space before the central directory");
        let end = data + c.size as usize;
        let d = descriptor(&b[end..cd], &c);
        e.push(Ent {
            name: c.name,
            size: c.size,
            crc_cd: c.crc,
            crc_dd: u32_at(b, end + 4),
            time: c.time,
            ext: c.ext,
            made_by: c.made_by,
            lfh: at,
            data,
            data_end: end,
            dd_end: end + d,
            cdh: p,
            cdh_end: p + c.len,
        });
        at = end + d;
        p += c.len;
    }
    need(p == z, "central directory is longer than its headers");
    need(at == cd, "gap before the central directory");
    Zip { e, cd, eocd: z }
}
