//! Long bodies, scripted schedules, archives beyond 32 bits, numbers of any length.
use crate::web::*;
use crate::world::*;
use crate::zs;
use actix_web::body::{BodySize, BoxBody, MessageBody};
use actix_web::Responder;
use std::pin::Pin;
use std::task::Poll;

/// An archive of `total` bytes with one huge entry of known CRC: id, start of its data, size of its data.
fn huge(total: u64) -> (u32, u64, u64) {
    let data = 30 + 1 + 28;
    let n = total - (data + 24 + 46 + 1 + 28 + 98);
    let id = add_source("a", vec![]);
    w().s[id as usize].announced = n;
    w().s[id as usize].synth = Some(n);
    w().s[id as usize].preset = Some(0x1234_5678);
    (id, data, n)
}
/// Numbers of 1 to 25 digits: whatever is made of them, the response describes its body.
pub fn c19_digits() {
    let level = zs::pick(2, "level") as u64;
    small(1);
    let img = image();
    let size = img.len() as u64;
    let form = zs::pick(3, "form");
    let num = |name| -> String {
        let k = if level > 0 { 1 + zs::pick(25, "digits") } else { get(&[1, 9, 10, 11, 18, 19, 20, 21, 25]) };
        let mut s = match zs::pick(4, "digits are") {
            0 => "9".repeat(k),
            1 => "0".repeat(k),
            2 => "0".repeat(k - 1) + "7",
            _ => "1".to_string() + &"0".repeat(k - 1),
        }
        .into_bytes();
        if k > 1 {
            s[k - 1] = zs::int(b'0' as u64, b'9' as u64, name) as u8;
        }
        String::from_utf8(s).unwrap_or_default()
    };
    let t = match form {
        0 => format!("bytes={}-", num("first")),
        1 => format!("bytes=-{}", num("suffix")),
        _ => format!("bytes={}-{}", num("first"), num("last")),
    };
    let r = builder().build();
    let wanted = want(t.as_bytes(), size);
    let resp = r.into_responder().respond_to(&request(Some(t.as_bytes())).unwrap());
    match decide(&resp, wanted, size) {
        Some((a, b)) => whole_body(resp, &img, a, b),
        None => empty_body(resp),
    }
    zs::reach("end");
}
struct Walk {
    p: u64,
    end: u64,
    ended: bool,
    limit: u32,
}
/// Poll a body until `polls` chunks came, checking them against `at`.
fn chunks(body: &mut BoxBody, k: &mut Walk, polls: u32, len: u64, at: &dyn Fn(u64, &[u8])) {
    let mut n = 0;
    while n < polls {
        k.limit -= 1;
        if k.limit == 0 {
            zs::fail("the body does not come to an end");
        }
        let errs = w().total_errs;
        let o = with_cx(|cx| Pin::new(&mut *body).poll_next(cx));
        let failed = w().total_errs - errs;
        zs::check(!w().bad_waker, "a source was polled with a waker that is not the current caller's");
        zs::check(body.size() == BodySize::Sized(len), "the announced length of the body changed");
        match o {
            Poll::Pending => zs::check(w().suspended > 0 && failed == 0, "the body suspended although no source did"),
            Poll::Ready(Some(Ok(d))) => {
                zs::check(failed == 0, "a source failure was swallowed");
                zs::check(!d.is_empty(), "an empty chunk");
                if d.len() as u64 > k.end - k.p {
                    zs::fail("the body exceeds its range");
                }
                at(k.p, &d);
                k.p += d.len() as u64;
                n += 1;
            }
            Poll::Ready(Some(Err(e))) => {
                let same = e.downcast_ref::<std::io::Error>().map(is_fault);
                zs::check(failed == 1 && same == Some(true), "an error that is not the source's");
                // actix gives up a body that failed; its own adapter panics at a second error
                w().each_fail = 0;
            }
            Poll::Ready(None) => {
                zs::check(failed == 0, "a source failure was swallowed");
                zs::check(k.p == k.end, "the body ends before its range does");
                k.ended = true;
                return;
            }
        }
    }
}
/// Long bodies from sources that suspend many times before each operation, may fail once, and deliver little at a time.
pub fn c20_long() {
    let level = zs::pick(2, "level");
    new_world(P08 | P16 | P05 | P06);
    let big = level > 0;
    let n = if big { 100_000 } else { 30_000 };
    let mut d: Vec<u8> = (0..n).map(|i| byte_at(7, i)).collect();
    d[n as usize - 40] = zs::vec(1, "data")[0];
    add_source("a", d);
    add_source("", vec![]);
    add_source("bc", zs::vec(5, "data"));
    if zs::pick(2, "preset") == 1 {
        for i in 0..3 {
            w().s[i].preset = Some(crc_ref(&w().s[i].data));
        }
    }
    let c = Ctx::new();
    let size = c.img.len() as u64;
    let (pend, fail, chunk) = get(&[(0, 0, 100), (5, 0, 700), (0, 1, 700), (2, 1, 5000), (100, 0, 8192)]);
    let l = &c.lay.e[0];
    let (a, b) = get(&[(0, size - 1), (l.data + 20_001, l.dd - 1), (l.data + 1, size - 2), (l.dd - 3, c.lay.cd + 50)]);
    let t = format!("bytes={a}-{b}");
    let (ad, mut rx) = builder().build().into_responder_with_channel();
    w().each_pend = pend;
    w().each_fail = fail;
    w().chunk = chunk;
    let resp = ad.respond_to(&request(Some(t.as_bytes())).unwrap());
    zs::check(announced(&resp, true, size) == Some((a, b)), "the range announced is not the one requested");
    let mut body = resp.into_body();
    let mut k = Walk { p: a, end: b + 1, ended: false, limit: 3_000_000 };
    let stop = get(&[3, 40, u32::MAX]);
    chunks(&mut body, &mut k, stop, b + 1 - a, &|p, d| {
        zs::check(zs::same(d, &c.img[p as usize..p as usize + d.len()]), "the body is not the range's bytes")
    });
    zs::check(stop < u32::MAX || k.ended, "the body does not come to an end");
    w().each_pend = 0;
    w().each_fail = 0;
    w().chunk = usize::MAX;
    zs::check(rx.try_recv().is_err(), "the reader is handed back before the body is dropped");
    drop(body);
    let Ok(mut r) = rx.try_recv() else { zs::fail("no reader is handed back") };
    zs::check(r.size() == size, "the reader handed back is another one");
    zs::check(r.tell() >= k.p && r.tell() <= size, "the position of the reader handed back");
    let mut m = c.start();
    c.see_crcs(&mut m, &r);
    m.pos = r.tell();
    c.drain(&mut m, &mut r, 9000);
    drop(r);
    zs::check(w().s.iter().all(|s| s.live == 0), "a source is kept open after the body was dropped");
    zs::reach("end");
}
/// Ranges of archives beyond 32 bits: the body goes on however long the range is, and ends where a short one does.
pub fn c20_huge() {
    new_world(0);
    let total = get(&[(1u64 << 32) + 1000, (1 << 33) + 12345, (1 << 63) + 5, u64::MAX]);
    let (id, data, n) = huge(total);
    let r = builder().build();
    zs::check(r.size() == total, "size");
    let top = data + n;
    let (a, b) = match zs::pick(6, "range") {
        0 => (0, total - 1),
        // lengths around 2^32
        1 => (data, data + 0xffff_fffd + zs::pick(5, "length") as u64),
        // short ones far into the entry
        2 => {
            let a = top - get(&[10_000, 8192, 60]);
            (a, a.saturating_add(get(&[0u64, 58, 8191, 8192, 9000])))
        }
        3 => (top - 70, total - 1),
        4 => (top - n / 2, top - n / 2 + 20_000),
        _ => (top + 2, total - 3),
    };
    let b = b.min(total - 1);
    let t = format!("bytes={a}-{b}");
    let (ad, mut rx) = r.into_responder_with_channel();
    let resp = ad.respond_to(&request(Some(t.as_bytes())).unwrap());
    zs::check(announced(&resp, true, total) == Some((a, b)), "the range announced is not the one requested");
    let mut body = resp.into_body();
    let mut k = Walk { p: a, end: b.saturating_add(1), ended: false, limit: 200 };
    chunks(&mut body, &mut k, 10, b - a + 1, &|p, d| {
        if p >= data {
            for i in [0, 1, d.len() / 2, d.len() - 1] {
                let q = p + i as u64;
                if i < d.len() && q < top {
                    zs::check(d[i] == byte_at(id, q - data), "the body is not the range's bytes");
                }
            }
        }
    });
    if b - a < 30_000 {
        zs::check(k.ended, "the body does not come to an end");
        zs::reach("ended");
    } else {
        zs::check(!k.ended, "the body ends before its range does");
        zs::reach("goes on");
    }
    drop(body);
    let Ok(mut r) = rx.try_recv() else { zs::fail("no reader is handed back") };
    zs::check(r.tell() >= k.p && r.tell() <= total, "the position of the reader handed back");
    // and it goes on there
    let p = r.tell();
    match poll_once(&mut r, 100, 0) {
        Out::Data(d) => {
            zs::check(d.is_empty() == (p == total), "end of file before the end");
            if p >= data && p < top && !d.is_empty() {
                zs::check(d[0] == byte_at(id, p - data), "the reader handed back delivers other bytes");
            }
        }
        _ => zs::fail("the reader handed back fails"),
    }
    zs::reach("end");
}
