//! C19, C20: HTTP responses made from a reader.
use crate::world::*;
use crate::zs;
use actix_web::body::{BodySize, BoxBody, MessageBody};
use actix_web::http::header::{HeaderValue, ACCEPT_RANGES, CONTENT_LENGTH, CONTENT_RANGE, CONTENT_TYPE, RANGE};
use actix_web::test::TestRequest;
use actix_web::{HttpRequest, HttpResponse, Responder};
use std::pin::Pin;
use std::task::Poll;
use zippity::Reader;

pub fn get<T: Copy>(v: &[T]) -> T {
    v[zs::pick(v.len() as u64, "one of")]
}
pub fn request(range: Option<&[u8]>) -> Option<HttpRequest> {
    Some(match range {
        None => TestRequest::get().to_http_request(),
        Some(b) => match HeaderValue::from_bytes(b) {
            Ok(h) => TestRequest::get().insert_header((RANGE, h)).to_http_request(),
            Err(_) => return None, // cannot be received
        },
    })
}
fn header(r: &HttpResponse<BoxBody>, h: actix_web::http::header::HeaderName) -> Option<Vec<u8>> {
    let mut it = r.headers().get_all(h);
    let v = it.next().map(|v| v.as_bytes().to_vec());
    zs::check(it.next().is_none(), "a header occurs twice");
    v
}

/// What RFC 9110 (and the documentation of the adapter) says about a Range header.
pub enum Want {
    /// this part, inclusive
    Part(u64, u64),
    Unsatisfiable,
    Malformed,
    /// valid, but not one plain range, or at the parser's discretion
    Any,
}
fn digits(d: &[u8]) -> Option<u64> {
    // 64 bits, no leading zeros
    if d.is_empty() || d.len() > 20 || (d.len() > 1 && d[0] == b'0') {
        return None;
    }
    let mut v = 0u64;
    for &c in d {
        if c < b'0' || c > b'9' {
            return None;
        }
        v = v.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(v)
}
fn one(t: &[u8], size: u64) -> Want {
    let mut dash = None;
    for (i, &c) in t.iter().enumerate() {
        if c == b'-' {
            if dash.is_none() {
                dash = Some(i);
            }
        } else if c == b' ' || c == b'\t' || c == b',' {
            return Want::Any;
        } else if c < b'0' || c > b'9' {
            return Want::Malformed;
        }
    }
    let Some(i) = dash else { return Want::Malformed };
    let (a, b) = (&t[..i], &t[i + 1..]);
    if b.contains(&b'-') || (a.is_empty() && b.is_empty()) {
        return Want::Malformed;
    }
    if a.is_empty() {
        return match digits(b) {
            Some(n) if n >= 1 && n <= size => Want::Part(size - n, size - 1),
            _ => Want::Any,
        };
    }
    let Some(x) = digits(a) else { return Want::Any };
    if b.is_empty() {
        return if x < size { Want::Part(x, size - 1) } else { Want::Unsatisfiable };
    }
    match digits(b) {
        Some(y) if x > y => Want::Any,
        Some(_) if x >= size => Want::Unsatisfiable,
        Some(y) => Want::Part(x, if y < size { y } else { size - 1 }),
        None => Want::Any,
    }
}
pub fn want(t: &[u8], size: u64) -> Want {
    if t.len() < 6 || &t[..6] != b"bytes=" {
        return Want::Malformed;
    }
    one(&t[6..], size)
}
/// "bytes A-B/SIZE"
fn content_range(h: &[u8], size: u64) -> (u64, u64) {
    let bad = || -> ! { zs::fail("Content-Range is not well-formed") };
    if h.len() < 6 || &h[..6] != b"bytes " {
        bad()
    }
    let t = &h[6..];
    let Some(i) = t.iter().position(|c| *c == b'-') else { bad() };
    let Some(j) = t.iter().position(|c| *c == b'/') else { bad() };
    if j < i {
        bad()
    }
    match (digits(&t[..i]), digits(&t[i + 1..j]), digits(&t[j + 1..])) {
        (Some(a), Some(b), Some(s)) => {
            zs::check(s == size, "Content-Range names another archive size");
            (a, b)
        }
        _ => bad(),
    }
}
fn poll_body(b: &mut BoxBody) -> Poll<Option<Result<Vec<u8>, ()>>> {
    match with_cx(|cx| Pin::new(&mut *b).poll_next(cx)) {
        Poll::Pending => Poll::Pending,
        Poll::Ready(None) => Poll::Ready(None),
        Poll::Ready(Some(Ok(d))) => Poll::Ready(Some(Ok(d.to_vec()))),
        Poll::Ready(Some(Err(_))) => Poll::Ready(Some(Err(()))),
    }
}
/// The part of the archive a response announces; checks status and headers. None: an error response.
pub fn announced(resp: &HttpResponse<BoxBody>, ranged: bool, size: u64) -> Option<(u64, u64)> {
    let st = resp.status().as_u16();
    let cr = header(resp, CONTENT_RANGE);
    match st {
        200 | 206 => {
            zs::check(header(resp, ACCEPT_RANGES).as_deref() == Some(b"bytes"), "Accept-Ranges");
            zs::check(header(resp, CONTENT_TYPE).as_deref() == Some(b"application/zip"), "Content-Type");
            let len = match resp.body().size() {
                BodySize::Sized(n) => n,
                _ => zs::fail("the body announces no size"),
            };
            let cl = header(resp, CONTENT_LENGTH).and_then(|h| digits(&h));
            zs::check(cl == Some(len), "Content-Length is not the length of the body");
            let (a, b) = match cr {
                Some(h) => content_range(&h, size),
                None => {
                    zs::check(st == 200, "206 without Content-Range");
                    (0, size - 1)
                }
            };
            zs::check(ranged || cr_none(resp), "Content-Range without a Range header");
            zs::check(a <= b && b < size, "the range announced is not a part of the archive");
            zs::check(b - a == len - 1, "Content-Length is not the length of the range");
            zs::check((st == 200) == (a == 0 && b == size - 1), "the status is not 206 exactly for a proper part");
            Some((a, b))
        }
        416 => {
            let h = cr.unwrap_or_default();
            let ok = h.len() > 8 && &h[..8] == b"bytes */" && digits(&h[8..]) == Some(size);
            zs::check(ok, "416 without the size of the archive");
            None
        }
        400 => None,
        _ => zs::fail("another status"),
    }
}
fn cr_none(r: &HttpResponse<BoxBody>) -> bool {
    header(r, CONTENT_RANGE).is_none()
}
pub fn empty_body(resp: HttpResponse<BoxBody>) {
    let mut b = resp.into_body();
    let none = match b.size() {
        BodySize::None | BodySize::Sized(0) => true,
        _ => false,
    };
    zs::check(none, "an error response announces a body");
    match poll_body(&mut b) {
        Poll::Ready(None) => {}
        _ => zs::fail("an error response has a body"),
    }
}
pub fn decide(resp: &HttpResponse<BoxBody>, w: Want, size: u64) -> Option<(u64, u64)> {
    let part = announced(resp, true, size);
    let st = resp.status().as_u16();
    match w {
        Want::Part(a, b) => {
            zs::reach("part");
            match part {
                Some((x, y)) => zs::check(x == a && y == b, "the range announced is not the one requested"),
                None => zs::fail("a satisfiable range is refused"),
            }
        }
        Want::Unsatisfiable => {
            zs::reach("unsatisfiable");
            zs::check(st == 416, "an unsatisfiable range is not answered with 416")
        }
        Want::Malformed => {
            zs::reach("malformed");
            zs::check(st == 400, "a malformed Range header is not answered with 400")
        }
        Want::Any => zs::reach("other"),
    }
    part
}
pub fn whole_body(resp: HttpResponse<BoxBody>, img: &[u8], a: u64, b: u64) {
    let mut body = resp.into_body();
    let (mut p, end) = (zs::conc(a) as usize, zs::conc(b) as usize + 1);
    for _ in 0..50 {
        match poll_body(&mut body) {
            Poll::Ready(Some(Ok(d))) => {
                zs::check(!d.is_empty(), "an empty chunk");
                if d.len() > end - p {
                    zs::fail("the body exceeds the range");
                }
                zs::check(zs::same(&d, &img[p..p + d.len()]), "the body is not the range's bytes");
                p += d.len();
            }
            Poll::Ready(None) => {
                zs::check(p == end, "the body ends before its range does");
                return;
            }
            _ => zs::fail("the body fails although no source does"),
        }
    }
    zs::fail("the body does not come to an end");
}
pub fn small(n: usize) {
    new_world(0);
    for i in 0..n {
        add_source(["a", "bc"][i], zs::vec(3 - i, "data"));
    }
}

/// No Range header.
pub fn c19_none() {
    small(zs::pick(3, "entries"));
    let img = image();
    let r = builder().build();
    let size = r.size();
    let resp = r.into_responder().respond_to(&request(None).unwrap());
    zs::check(resp.status().as_u16() == 200, "a request without a range is not answered with 200");
    let p = announced(&resp, false, size);
    zs::check(p == Some((0, size - 1)), "a request without a range is not answered with everything");
    whole_body(resp, &img, 0, size - 1);
    zs::reach("end");
}
/// "bytes=" and any bytes.
pub fn c19_any() {
    let level = zs::pick(2, "level") as u64;
    let n = zs::pick(6 + 3 * level, "length");
    small(zs::pick(2, "entries"));
    let mut t = b"bytes=".to_vec();
    t.extend_from_slice(&zs::vec(n, "range"));
    let Some(req) = request(Some(&t)) else { return };
    let r = builder().build();
    let size = r.size();
    let wanted = want(&t, size);
    let resp = r.into_responder().respond_to(&req);
    if decide(&resp, wanted, size).is_none() {
        empty_body(resp);
    }
}
/// Any bytes.
pub fn c19_prefix() {
    let level = zs::pick(2, "level") as u64;
    let n = zs::pick(9 + 4 * level, "length");
    small(1);
    let mut t = zs::vec(n, "range");
    if n >= 4 {
        t.extend_from_slice(b"0-5");
    }
    let Some(req) = request(Some(&t)) else { return };
    let r = builder().build();
    let size = r.size();
    let wanted = want(&t, size);
    let resp = r.into_responder().respond_to(&req);
    if decide(&resp, wanted, size).is_none() {
        empty_body(resp);
    }
}
/// Canonical ranges with any digits, and their bodies.
pub fn c19_body() {
    let level = zs::pick(2, "level") as u64;
    let form = zs::pick(3, "form");
    small(zs::pick(1 + level, "entries"));
    let img = image();
    let size = img.len() as u64;
    let a = if form != 1 { zs::int(0, size + 3, "first") } else { 0 };
    let b = match form {
        0 => 0,
        1 => zs::int(1, size, "suffix"),
        _ => a + get(&[0u64, 1, 9, 100]),
    };
    let a = zs::conc(a);
    let b = zs::conc(b);
    let t = match form {
        0 => format!("bytes={a}-"),
        1 => format!("bytes=-{b}"),
        _ => format!("bytes={a}-{b}"),
    };
    let r = builder().build();
    let wanted = want(t.as_bytes(), size);
    let resp = r.into_responder().respond_to(&request(Some(t.as_bytes())).unwrap());
    match decide(&resp, wanted, size) {
        Some((a, b)) => whole_body(resp, &img, a, b),
        None => empty_body(resp),
    }
    zs::reach("end");
}
/// Lists of ranges (with any digits): whatever part is chosen, the response describes the body.
pub fn c19_list() {
    let level = zs::pick(2, "level") as u64;
    let n = 2 + zs::pick(1 + level, "ranges");
    let sep = get(&[",", ", ", " , ", ",,"]);
    small(1);
    let img = image();
    let size = img.len() as u64;
    let mut t = b"bytes=".to_vec();
    for i in 0..n {
        if i > 0 {
            t.extend_from_slice(sep.as_bytes());
        }
        let form = zs::pick(3, "form");
        let mut num = |name| {
            let k = if n == 2 { 1 + zs::pick(1 + level, "digits") } else { 1 };
            for c in zs::vec(k, name) {
                zs::assume((c >= b'0') & (c <= b'9'));
                t.push(c);
            }
            t.push(b'-');
        };
        match form {
            0 => {
                num("first");
                num("last");
                t.pop();
            }
            1 => num("first"),
            _ => {
                t.push(b'-');
                let mut num = |name| t.push(zs::int(b'1' as u64, b'9' as u64, name) as u8);
                num("suffix");
            }
        }
    }
    let Some(req) = request(Some(&t)) else { return };
    let r = builder().build();
    let resp = r.into_responder().respond_to(&req);
    match announced(&resp, true, size) {
        Some((a, b)) => {
            zs::reach("part");
            whole_body(resp, &img, a, b)
        }
        None => empty_body(resp),
    }
}
/// Archives of sizes around 2^32, 2^63 and 2^64, numbers around their size and the limits of 64 bits.
pub fn c19_big() {
    new_world(0);
    let total = get(&[(1u64 << 32) + 7, (1 << 63) + 5, u64::MAX]);
    let data = 30 + 1 + 28;
    let n = total - (data + 24 + 46 + 1 + 28 + 98);
    let id = add_source("a", vec![]);
    w().s[id as usize].announced = n;
    w().s[id as usize].synth = Some(n);
    w().s[id as usize].preset = Some(0x1234_5678);
    let r = builder().build();
    zs::check(r.size() == total, "size");
    let form = zs::pick(3, "form");
    let bases = [0, data, data + n - 3, total - 3, u64::MAX - 5, 1 << 32];
    let num = |name| {
        let b = get(&bases);
        zs::conc(zs::int(b, if b > u64::MAX - 6 { u64::MAX } else { b + 6 }, name))
    };
    let t = match form {
        0 => format!("bytes={}-", num("first")),
        1 => format!("bytes=-{}", num("suffix")),
        _ => format!("bytes={}-{}", num("first"), num("last")),
    };
    let wanted = want(t.as_bytes(), total);
    let resp = r.into_responder().respond_to(&request(Some(t.as_bytes())).unwrap());
    match decide(&resp, wanted, total) {
        Some((a, b)) => {
            let mut body = resp.into_body();
            match poll_body(&mut body) {
                Poll::Ready(Some(Ok(d))) => {
                    zs::check(!d.is_empty() && d.len() as u64 - 1 <= b - a, "the body exceeds the range");
                    if a >= data && a < data + n {
                        let k = if d.len() < 5 { d.len() } else { 5 };
                        for i in 0..k as u64 {
                            if a + i < data + n {
                                zs::check(d[i as usize] == byte_at(id, a + i - data), "the body is not the range's bytes");
                            }
                        }
                    }
                }
                _ => zs::fail("the body does not begin"),
            }
        }
        None => empty_body(resp),
    }
    zs::reach("end");
}

// ---- C20 ----------------------------------------------------------------------------------

/// The reader handed back: nothing lost, and it goes on where it stands.
fn handed_back(c: &Ctx, m: &Model, start: u64, from: u64, r: Result<Reader<Src>, tokio::sync::oneshot::error::TryRecvError>) {
    let Ok(mut r) = r else { zs::fail("no reader is handed back") };
    zs::check(r.size() == c.img.len() as u64, "the reader handed back is another one");
    zs::check(r.tell() >= from && r.tell() <= (c.img.len() as u64).max(from), "the position of the reader handed back");
    let mut k = m.clone();
    c.see_crcs(&mut k, &r); // what was known is known
    for (i, l) in c.lay.e.iter().enumerate() {
        if (start <= l.dd && from >= l.end) || (start <= l.cdh && from >= l.cdh_end) {
            zs::check(k.known[i].is_some(), "the reader handed back does not know a CRC that was delivered");
            zs::reach("known");
        }
    }
    k.pos = r.tell();
    c.drain(&mut k, &mut r, 60);
    seek_to(&mut r, 0);
    k.pos = 0;
    c.drain(&mut k, &mut r, 300);
}
/// Bodies under suspensions, short reads and failures, dropped at any point, with and without a channel.
pub fn c20() {
    let level = zs::pick(2, "level") as u32;
    let shape = zs::pick(2, "shape");
    let preset = zs::pick(2, "preset");
    new_world(P08 | P16 | P05 | P06);
    add_source("a", zs::vec(3, "data"));
    if shape == 1 {
        add_source("bc", vec![]);
        add_source("d", zs::vec(2, "data"));
    }
    if preset == 1 {
        w().s[0].preset = Some(crc_ref(&w().s[0].data));
    }
    let c = Ctx::new();
    let size = c.img.len() as u64;
    let mut r = builder().build();
    let mut m = c.start();
    let l = &c.lay.e[0];
    // some CRCs may be known already
    if zs::pick(2, "read before") == 1 {
        seek_to(&mut r, c.lay.cd);
        m.pos = c.lay.cd;
        c.step(&mut m, &mut r, 20, 0);
    }
    let (a, b) = match zs::pick(5, "range") {
        0 => (0, size - 1),
        1 => (l.data + 1, l.dd),
        2 => (l.dd - 1, c.lay.cd + 60),
        3 => (c.lay.cd + 3, size - 1),
        _ => (0, 40),
    };
    let whole = a == 0 && b == size - 1;
    let req = if whole { request(None) } else { request(Some(format!("bytes={a}-{b}").as_bytes())) }.unwrap();
    w().pend = 1 + level;
    w().short = level;
    w().err = 1;
    // 0: no channel, 1: kept, 2: dropped first
    let chan = zs::pick(3, "channel");
    let (ad, mut rx) = if chan == 0 {
        (r.into_responder(), None)
    } else {
        let (ad, rx) = r.into_responder_with_channel();
        (ad, if chan == 1 { Some(rx) } else { None })
    };
    let resp = ad.respond_to(&req);
    zs::check(w().s.iter().all(|s| s.opens == 0) || m.pos > 0, "making a response opens an entry");
    if let Some(x) = &mut rx {
        zs::check(x.try_recv().is_err(), "the reader is handed back before the body is dropped");
    }
    let part = announced(&resp, true, size);
    zs::check(part == Some((a, b)), "the range announced is not the one requested");
    let stop = zs::pick(6, "polls before the drop"); // 5: to the end
    let mut body = resp.into_body();
    let mut p = a;
    let mut n = 0;
    let mut limit = 200;
    loop {
        if stop < 5 && n == stop {
            break;
        }
        n += 1;
        limit -= 1;
        if limit == 0 {
            zs::fail("the body does not come to an end");
        }
        let errs = w().total_errs;
        let o = with_cx(|cx| Pin::new(&mut body).poll_next(cx));
        let failed = w().total_errs - errs;
        zs::check(!w().bad_waker, "a source was polled with a waker that is not the current caller's");
        match o {
            Poll::Pending => zs::check(w().suspended > 0 && failed == 0, "the body suspended although no source did"),
            Poll::Ready(Some(Ok(d))) => {
                zs::check(failed == 0, "a source failure was swallowed");
                zs::check(!d.is_empty(), "an empty chunk");
                if d.len() as u64 > b + 1 - p {
                    zs::fail("the body exceeds its range");
                }
                zs::check(zs::same(&d, &c.img[p as usize..p as usize + d.len()]), "the body is not the range's bytes");
                p += d.len() as u64;
            }
            Poll::Ready(Some(Err(e))) => {
                let same = e.downcast_ref::<std::io::Error>().map(is_fault);
                zs::check(failed == 1 && same == Some(true), "an error that is not the source's");
            }
            Poll::Ready(None) => {
                zs::check(failed == 0, "a source failure was swallowed");
                zs::check(p == b + 1, "the body ends before its range does");
                if stop == 5 {
                    zs::reach("complete");
                }
                break;
            }
        }
        zs::check(body.size() == BodySize::Sized(b - a + 1), "the announced length of the body changed");
    }
    (w().pend, w().short, w().err) = (0, 0, 0);
    if let Some(x) = &mut rx {
        zs::check(x.try_recv().is_err(), "the reader is handed back before the body is dropped");
    }
    drop(body);
    if let Some(x) = &mut rx {
        handed_back(&c, &m, a, p, x.try_recv());
        zs::reach("handed back");
    }
    drop(rx);
    zs::check(w().s.iter().all(|s| s.live == 0), "a source is kept open after the body was dropped");
    zs::reach("end");
}
/// Adapters that are never used, and requests that are refused.
pub fn c20_unused() {
    new_world(P08 | P16 | P05 | P06);
    add_source("a", zs::vec(3, "data"));
    add_source("d", zs::vec(2, "data"));
    let c = Ctx::new();
    let mut r = builder().build();
    let mut m = c.start();
    let o = get(&[0, c.lay.e[0].data + 1, c.lay.e[0].dd + 2, c.lay.cd, c.lay.size, c.lay.size + 5]);
    seek_to(&mut r, o);
    m.pos = o;
    w().pend = 1;
    w().err = 1;
    for _ in 0..zs::pick(3, "reads") {
        c.step(&mut m, &mut r, 30, 0);
    }
    (w().pend, w().err) = (0, 0);
    let (ad, mut rx) = r.into_responder_with_channel();
    zs::check(rx.try_recv().is_err(), "the reader is handed back before the adapter is dropped");
    match zs::pick(4, "how") {
        0 => drop(ad),
        1 => {
            drop(rx);
            drop(ad);
            zs::reach("end");
            return;
        }
        k => {
            let t: &[u8] = if k == 2 { b"bytes=x" } else { b"bytes=999999-" };
            let resp = ad.respond_to(&request(Some(t)).unwrap());
            zs::check(resp.status().as_u16() == if k == 2 { 400 } else { 416 }, "status");
            empty_body(resp);
        }
    }
    handed_back(&c, &m, m.pos, m.pos, rx.try_recv());
    zs::reach("end");
}
/// Entries larger than a chunk; ranges ending around chunk boundaries.
pub fn c20_big() {
    new_world(0);
    let n = 20000;
    let mut d: Vec<u8> = (0..n).map(|i| byte_at(7, i)).collect();
    d[9000] = zs::vec(1, "data")[0];
    add_source("a", d);
    let img = image();
    let a = get(&[0u64, 59, 1000, 8192]);
    let b = get(&[8191u64, 8192, 8250, 8251, 16383, 16384, 20100]);
    let e = zs::conc(zs::int(b - 1, b + 1, "last"));
    let r = builder().build();
    let resp = r.into_responder().respond_to(&request(Some(format!("bytes={a}-{e}").as_bytes())).unwrap());
    if a > e {
        zs::check(announced(&resp, true, img.len() as u64).is_none(), "a reversed range is answered");
        return;
    }
    zs::check(announced(&resp, true, img.len() as u64) == Some((a, e)), "the range announced is not the one requested");
    whole_body(resp, &img, a, e);
    zs::reach("end");
}
