//! Test double for entry sources plus a ghost model of a zippity reader.
//! Everything about a source (content, length, suspensions, short reads, failures) is decided by
//! the symbolic environment; everything the reader does to it is counted.
#![allow(dead_code, static_mut_refs)]
use crate::zs;
use std::future::Future;
use std::mem::MaybeUninit;
use std::io::{self, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, EntryData, Reader};

pub const OPEN: u8 = 1;
pub const READ: u8 = 2;
pub const SEEK: u8 = 4;
pub const START_SEEK: u8 = 8;

#[derive(Clone, Default)]
pub struct Source {
    pub name: String,
    pub data: Vec<u8>,
    /// Some(len): content is `byte_at(id, pos)` for pos < len instead of `data`.
    pub synth: Option<u64>,
    /// Reads after that many fail.
    pub max_reads: Option<u32>,
    pub announced: u64,
    pub preset: Option<u32>,
    // observations
    pub opens: u32,
    pub reads: u32,
    pub eofs: u32,
    pub seeks: u32,
    pub delivered: u64,
    pub live: u32,
}

pub struct World {
    pub s: Vec<Source>,
    /// remaining budgets
    pub pend: u32,
    pub short: u32,
    pub err: u32,
    /// which poll kinds may suspend / fail
    pub pend_kinds: u8,
    pub err_kinds: u8,
    /// waker of the current call
    pub call: usize,
    pub suspended: u32,
    pub bad_waker: bool,
    pub foreign_poll: bool,
    pub err_code: i32,
    pub err_kind: io::ErrorKind,
    /// how failures may look: 1: OS errors, 2: also errors of any kind with a payload, 3: also errors of a kind only
    pub err_forms: u64,
    pub err_form: u64,
    pub errs: u32,
    pub total_errs: u32,
    pub props: u32,
    pub size_calls: u32,
    /// Scripted sources: every operation is suspended, then fails, that many times before it is done.
    pub seeks: u64,
    pub polls: usize,
    pub each_pend: u32,
    pub each_fail: u32,
    pub script_kinds: u8,
    pub script: u32,
    /// Failures may be reported by a later call.
    pub late: bool,
    /// Fewer places to seek to.
    pub few: bool,
    /// Reads deliver at most that much.
    pub chunk: usize,
}
static mut W: Option<World> = None;
pub fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}
pub fn new_world(props: u32) -> &'static mut World {
    unsafe {
        W = Some(World {
            s: vec![],
            pend: 0,
            short: 0,
            err: 0,
            pend_kinds: OPEN | READ | SEEK,
            err_kinds: OPEN | READ | SEEK | START_SEEK,
            call: 0,
            suspended: 0,
            bad_waker: false,
            foreign_poll: false,
            err_code: 0,
            err_kind: io::ErrorKind::Other,
            err_forms: 1,
            err_form: 0,
            errs: 0,
            total_errs: 0,
            props,
            size_calls: 0,
            seeks: 0,
            polls: 0,
            each_pend: 0,
            each_fail: 0,
            script_kinds: OPEN | READ | SEEK,
            script: 0,
            late: false,
            few: false,
            chunk: usize::MAX,
        });
    }
    w()
}
pub fn byte_at(id: u32, pos: u64) -> u8 {
    (pos as u8) ^ ((pos >> 8) as u8) ^ ((pos >> 32) as u8) ^ (id as u8).wrapping_mul(0x55)
}

// ---- schedule -----------------------------------------------------------------------------

enum Ev {
    Go,
    Pend,
    Err(io::Error),
}
fn event(kind: u8, cx: Option<&mut Context<'_>>) -> Ev {
    let w = w();
    if let Some(cx) = &cx {
        if cx.waker().data() as usize != w.call {
            w.bad_waker = true;
        }
    }
    if w.call == 0 {
        w.foreign_poll = true;
    }
    if w.each_pend + w.each_fail > 0 && w.script_kinds & kind != 0 && cx.is_some() {
        let i = w.script;
        w.script += 1;
        if i < w.each_pend {
            w.suspended += 1;
            return Ev::Pend;
        }
        if i < w.each_pend + w.each_fail {
            w.errs += 1;
            w.total_errs += 1;
            return Ev::Err(make_error());
        }
        w.script = 0;
    }
    let p = w.pend > 0 && w.pend_kinds & kind != 0 && cx.is_some();
    let e = w.err > 0 && w.err_kinds & kind != 0;
    let n = 1 + p as u64 + e as u64;
    if n == 1 {
        return Ev::Go;
    }
    let c = zs::choose(n, "event");
    if c == 0 {
        return Ev::Go;
    }
    if p && c == 1 {
        w.pend -= 1;
        w.suspended += 1;
        return Ev::Pend;
    }
    w.err -= 1;
    w.errs += 1;
    w.total_errs += 1;
    Ev::Err(make_error())
}
use io::ErrorKind as K;
/// Kinds that reading code is known to treat specially come first.
pub const KINDS: [K; 16] = [
    K::UnexpectedEof,
    K::Interrupted,
    K::WouldBlock,
    K::Other,
    K::NotFound,
    K::PermissionDenied,
    K::InvalidInput,
    K::InvalidData,
    K::TimedOut,
    K::WriteZero,
    K::BrokenPipe,
    K::AlreadyExists,
    K::Unsupported,
    K::OutOfMemory,
    K::ConnectionReset,
    K::AddrInUse,
];
#[derive(Debug)]
pub struct Fault(i32);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("fault")
    }
}
impl std::error::Error for Fault {}
fn make_error() -> io::Error {
    let w = w();
    w.err_code = 9000 + w.total_errs as i32;
    w.err_form = if w.err_forms > 1 { zs::pick(w.err_forms, "form of the failure") as u64 } else { 0 };
    match w.err_form {
        0 => io::Error::from_raw_os_error(w.err_code),
        1 => {
            // any kind, left symbolic
            w.err_kind = KINDS[zs::int(0, KINDS.len() as u64 - 1, "kind") as usize];
            io::Error::new(w.err_kind, Fault(w.err_code))
        }
        _ => {
            w.err_kind = KINDS[zs::pick(3, "kind")];
            w.err_kind.into()
        }
    }
}
/// Is this the last error a source returned?
pub fn is_fault(e: &io::Error) -> bool {
    let w = w();
    match w.err_form {
        0 => e.raw_os_error() == Some(w.err_code),
        1 => match e.get_ref().and_then(|e| e.downcast_ref::<Fault>()) {
            Some(f) => f.0 == w.err_code && e.kind() == w.err_kind,
            None => false,
        },
        _ => e.kind() == w.err_kind && e.get_ref().is_none() && e.raw_os_error().is_none(),
    }
}

#[derive(Clone, Debug)]
pub struct Src(pub u32);
pub struct OpenF {
    id: u32,
    done: bool,
}
pub struct SrcR {
    id: u32,
    pos: u64,
    seek: Option<u64>,
}
impl Drop for SrcR {
    fn drop(&mut self) {
        w().s[self.id as usize].live -= 1;
    }
}
impl EntryData for Src {
    type Reader = SrcR;
    type Future = OpenF;
    fn get_reader(&self) -> OpenF {
        w().s[self.0 as usize].opens += 1;
        OpenF { id: self.0, done: false }
    }
    fn size(&self) -> u64 {
        w().size_calls += 1;
        w().s[self.0 as usize].announced
    }
}
impl Future for OpenF {
    type Output = io::Result<SrcR>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<SrcR>> {
        if self.done {
            zs::fail("an opening future is polled again after it completed (panics with async fns)");
        }
        match event(OPEN, Some(cx)) {
            Ev::Pend => Poll::Pending,
            Ev::Err(e) => {
                self.done = true;
                Poll::Ready(Err(e))
            }
            Ev::Go => {
                self.done = true;
                w().s[self.id as usize].live += 1;
                Poll::Ready(Ok(SrcR { id: self.id, pos: 0, seek: None }))
            }
        }
    }
}
impl AsyncRead for SrcR {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.seek = None; // reading while a seek is in progress: the seek is lost
        match event(READ, Some(cx)) {
            Ev::Pend => return Poll::Pending,
            Ev::Err(e) => return Poll::Ready(Err(e)),
            Ev::Go => {}
        }
        let w = w();
        let id = self.id;
        let s = &mut w.s[id as usize];
        s.reads += 1;
        if s.max_reads.is_some_and(|m| s.reads > m) {
            w.errs += 1;
            w.total_errs += 1;
            return Poll::Ready(Err(make_error()));
        }
        let len = s.synth.unwrap_or(s.data.len() as u64);
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if self.pos >= len {
            s.eofs += 1;
            return Poll::Ready(Ok(()));
        }
        let left = len - self.pos;
        let mut n = if left >= buf.remaining() as u64 { buf.remaining() } else { left as usize };
        n = n.min(w.chunk);
        if w.short > 0 && n >= 2 {
            let c = zs::choose(if n > 2 { 3 } else { 2 }, "short");
            if c != 0 {
                w.short -= 1;
                n = if c == 1 { 1 } else { n - 1 };
            }
        }
        if s.synth.is_some() {
            for i in 0..n as u64 {
                buf.put_slice(&[byte_at(id, self.pos + i)]);
            }
        } else {
            let p = self.pos as usize;
            buf.put_slice(&s.data[p..p + n]);
        }
        s.delivered += n as u64;
        self.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for SrcR {
    fn start_seek(mut self: Pin<&mut Self>, pos: SeekFrom) -> io::Result<()> {
        if self.seek.is_some() {
            zs::fail("a seek is started on a source while another one is in progress");
        }
        if let Ev::Err(e) = event(START_SEEK, None) {
            return Err(e);
        }
        let s = &mut w().s[self.id as usize];
        s.seeks += 1;
        let len = s.synth.unwrap_or(s.data.len() as u64);
        let t = match pos {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => len.checked_add_signed(d),
        };
        match t {
            Some(p) => {
                self.seek = Some(p);
                Ok(())
            }
            None => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        if let Some(t) = self.seek {
            match event(SEEK, Some(cx)) {
                Ev::Pend => return Poll::Pending,
                Ev::Err(e) => {
                    self.seek = None; // the seek is over; where the source stands is unknown
                    self.pos = if w().each_fail > 0 { t / 2 } else { zs::pick(2, "pos after failed seek") as u64 };
                    return Poll::Ready(Err(e));
                }
                Ev::Go => {}
            }
            self.pos = t;
            self.seek = None;
        }
        Poll::Ready(Ok(self.pos))
    }
}

// ---- building -----------------------------------------------------------------------------

pub fn add_source(name: &str, data: Vec<u8>) -> u32 {
    let w = w();
    w.s.push(Source { name: name.to_string(), announced: data.len() as u64, data, ..Default::default() });
    w.s.len() as u32 - 1
}
pub fn builder() -> Builder<Src> {
    let mut b = Builder::new();
    for i in 0..w().s.len() {
        let (n, p) = (w().s[i].name.clone(), w().s[i].preset);
        match b.add_entry(n, Src(i as u32)) {
            Ok(e) => {
                if let Some(c) = p {
                    e.crc32(c);
                }
            }
            Err(_) => zs::fail("valid entry refused"),
        }
    }
    b
}
pub fn reset_counters() {
    for s in &mut w().s {
        s.opens = 0;
        s.reads = 0;
        s.eofs = 0;
        s.seeks = 0;
        s.delivered = 0;
    }
    w().total_errs = 0;
    w().size_calls = 0;
}

// ---- one poll -----------------------------------------------------------------------------

unsafe fn vt_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
unsafe fn vt_nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_nop, vt_nop, vt_nop);
/// Run `f` with a context whose waker is unique to this call.
pub fn with_cx<T>(f: impl FnOnce(&mut Context<'_>) -> T) -> T {
    let w = w();
    w.call += 1;
    w.suspended = 0;
    w.errs = 0;
    w.bad_waker = false;
    let k = unsafe { Waker::from_raw(RawWaker::new(w.call as *const (), &VT)) };
    let mut cx = Context::from_waker(&k);
    f(&mut cx)
}
pub enum Out {
    Data(Vec<u8>),
    Pending(usize),
    Err(io::Error, usize),
}
/// One poll_read with `cap` free bytes after `pre` filled ones.
pub fn poll_once<D: EntryData>(r: &mut Reader<D>, cap: usize, pre: usize) -> Out
where
    Reader<D>: Unpin,
{
    w().polls += 1;
    poll_kind(r, cap, cap, pre, [cap, 0, cap.min(3)][w().polls % 3])
}
/// The same with `cap` possibly symbolic, at most `max`.
pub fn poll_max<D: EntryData>(r: &mut Reader<D>, cap: usize, max: usize, pre: usize) -> Out
where
    Reader<D>: Unpin,
{
    w().polls += 1;
    poll_kind(r, cap, max, pre, if w().polls % 2 == 0 { cap } else { 0 })
}
/// The first `init` bytes of the room are initialised, according to the buffer.
fn poll_kind<D: EntryData>(r: &mut Reader<D>, cap: usize, max: usize, pre: usize, init: usize) -> Out
where
    Reader<D>: Unpin,
{
    let mut buf = vec![MaybeUninit::new(0xA5u8); pre + max];
    let mut rb = ReadBuf::uninit(&mut buf[..pre + cap]);
    unsafe { rb.assume_init(pre) };
    rb.set_filled(pre);
    unsafe { rb.assume_init(init) };
    let res = with_cx(|cx| Pin::new(r).poll_read(cx, &mut rb));
    let f = zs::conc(rb.filled().len() as u64) as usize;
    if f < pre {
        zs::fail("the filled part of the caller's buffer shrank");
    }
    let mut bad = 0u8;
    for b in &rb.filled()[..pre] {
        bad |= *b ^ 0xA5;
    }
    zs::check(bad == 0, "bytes already in the caller's buffer were changed");
    match res {
        Poll::Pending => Out::Pending(f - pre),
        Poll::Ready(Err(e)) => Out::Err(e, f - pre),
        Poll::Ready(Ok(())) => Out::Data(rb.filled()[pre..f].to_vec()),
    }
}
/// Sequential stream of a fresh reader over quiet sources: the reference for the metamorphic properties.
pub fn image() -> Vec<u8> {
    let w = w();
    let sv = (w.pend, w.short, w.err, w.each_pend, w.each_fail);
    w.each_pend = 0;
    w.each_fail = 0;
    w.pend = 0;
    w.short = 0;
    w.err = 0;
    let mut r = builder().build();
    let mut out = vec![];
    loop {
        match poll_once(&mut r, 70000, 0) {
            Out::Data(d) => {
                if d.is_empty() {
                    break;
                }
                out.extend_from_slice(&d);
            }
            Out::Pending(_) => zs::fail("reader suspended although no source did"),
            Out::Err(..) => zs::fail("sequential read of good sources failed"),
        }
    }
    drop(r);
    w.pend = sv.0;
    w.short = sv.1;
    w.err = sv.2;
    (w.each_pend, w.each_fail) = (sv.3, sv.4);
    reset_counters();
    out
}

// ---- reference CRC ------------------------------------------------------------------------

const fn crc_table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = (c >> 1) ^ (0xEDB8_8320 & 0u32.wrapping_sub(c & 1));
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static TABLE: [u32; 256] = crc_table();
/// CRC-32 (ISO-HDLC) from its definition: reflected polynomial 0xEDB88320, one byte at a time.
pub fn crc_ref(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in d {
        c = (c >> 8) ^ TABLE[((c ^ b as u32) & 0xff) as usize];
    }
    !c
}

// ---- ghost model --------------------------------------------------------------------------

pub const P02: u32 = 1 << 2;
pub const P03: u32 = 1 << 3;
pub const P04: u32 = 1 << 4;
pub const P05: u32 = 1 << 5;
pub const P06: u32 = 1 << 6;
pub const P08: u32 = 1 << 8;
pub const P09: u32 = 1 << 9;
pub const P12: u32 = 1 << 12;
pub const P14: u32 = 1 << 14;
pub const P15: u32 = 1 << 15;
pub const P21: u32 = 1 << 21;
pub const P22: u32 = 1 << 22;
pub const P13: u32 = 1 << 13;
pub const P16: u32 = 1 << 16;
pub const P17: u32 = 1 << 17;
pub const NEED_CRC: u32 = P04 | P08 | P16;
pub fn chk(p: u32, c: bool, m: &'static str) {
    if w().props & p != 0 {
        zs::check(c, m);
    }
}

/// Where the records of each entry are: known from the archive layout (checked in C01).
#[derive(Clone)]
pub struct Lay {
    pub lfh: u64,
    pub data: u64,
    pub dd: u64,
    pub end: u64,
    pub cdh: u64,
    pub cdh_end: u64,
}
pub struct Layout {
    pub e: Vec<Lay>,
    pub cd: u64,
    pub eocd: u64,
    pub size: u64,
}
pub fn layout() -> Layout {
    let mut p = 0u64;
    let mut e = vec![];
    for s in &w().s {
        let n = s.name.len() as u64;
        let data = p + 30 + n + 28;
        let dd = data + s.announced;
        e.push(Lay { lfh: p, data, dd, end: dd + 24, cdh: 0, cdh_end: 0 });
        p = dd + 24;
    }
    let cd = p;
    for (i, s) in w().s.iter().enumerate() {
        e[i].cdh = p;
        p += 46 + s.name.len() as u64 + 28;
        e[i].cdh_end = p;
    }
    Layout { e, cd, eocd: p, size: p + 98 }
}

#[derive(Clone)]
pub struct Model {
    pub pos: u64,
    pub known: Vec<Option<u32>>,
}
pub struct Ctx {
    pub img: Vec<u8>,
    pub lay: Layout,
    pub crcs: Vec<u32>,
}
#[derive(PartialEq, Clone, Copy)]
pub enum Step {
    Some(usize),
    Eof,
    Pending,
    Err,
}
impl Ctx {
    pub fn new() -> Ctx {
        let lay = layout();
        let crcs = w().s.iter().map(|s| s.preset.unwrap_or_else(|| if w().props & NEED_CRC != 0 { crc_ref(&s.data) } else { 0 })).collect();
        Ctx { img: image(), lay, crcs }
    }
    pub fn start(&self) -> Model {
        Model { pos: 0, known: w().s.iter().map(|s| s.preset).collect() }
    }
    /// CRCs the reader reports: only for entries, right, never forgotten or changed.
    pub fn see_crcs<D: EntryData>(&self, m: &mut Model, r: &Reader<D>) {
        let w = w();
        let mut now: Vec<Option<u32>> = vec![None; w.s.len()];
        let mut foreign = false;
        for (n, c) in r.crc32s() {
            match w.s.iter().position(|s| s.name == n) {
                Some(i) => {
                    if now[i].is_some() {
                        foreign = true;
                    }
                    now[i] = Some(c);
                }
                None => foreign = true,
            }
        }
        chk(P08, !foreign, "a CRC is reported under a name that is no entry, or twice");
        for i in 0..now.len() {
            if let Some(c) = now[i] {
                chk(P08, c == self.crcs[i], "a reported CRC is not the CRC-32 of the entry's data");
            }
            if m.known[i].is_some() {
                chk(P08 | P16, now[i].is_some(), "a known CRC was forgotten");
            }
        }
        m.known = now;
    }
    /// Poll once with `cap` free bytes and check everything the properties say about one read call.
    pub fn step<D: EntryData>(&self, m: &mut Model, r: &mut Reader<D>, cap: usize, pre: usize) -> Step
    where
        Reader<D>: Unpin,
    {
        self.step_max(m, r, cap, cap, pre)
    }
    pub fn step_max<D: EntryData>(&self, m: &mut Model, r: &mut Reader<D>, cap: usize, max: usize, pre: usize) -> Step
    where
        Reader<D>: Unpin,
    {
        let w = w();
        let opens: Vec<u32> = w.s.iter().map(|s| s.opens).collect();
        let size = self.img.len() as u64;
        let errs_before = w.total_errs;
        let o = poll_max(r, cap, max, pre);
        let failed = w.total_errs - errs_before;
        // a symbolic seek target: the read has told the cases apart that matter to it
        m.pos = zs::conc(m.pos);
        chk(P04, !w.bad_waker, "a source was polled with a waker that is not the current caller's");
        let from = m.pos;
        let st = match o {
            Out::Data(d) => {
                let n = d.len();
                chk(P17, failed == 0, "a source failure was swallowed by a successful read");
                if n > 0 {
                    let p = m.pos;
                    if p > size || n as u64 > size - p {
                        zs::fail("bytes are delivered beyond the announced size");
                    }
                    chk(
                        P03 | P04 | P05 | P06 | P08 | P09 | P16 | P17,
                        zs::same(&d, &self.img[p as usize..p as usize + n]),
                        "delivered bytes are not the archive's bytes at the reader's position",
                    );
                    chk(P17, n <= cap, "more bytes than fit");
                    m.pos += n as u64;
                    Step::Some(n)
                } else {
                    if cap > 0 && m.pos < size {
                        zs::fail("end of file is reported before the announced size is reached");
                    }
                    Step::Eof
                }
            }
            Out::Pending(n) => {
                chk(P04, w.suspended > 0, "the reader suspended although no source it polled in this call suspended");
                chk(P04 | P17, n == 0, "the reader suspended after writing bytes");
                chk(P17, failed == 0 || w.late, "a source failure was swallowed by a suspension");
                m.pos += n as u64;
                Step::Pending
            }
            Out::Err(e, n) => {
                if failed == 0 && !(w.late && w.err_code != 0) {
                    zs::fail("the reader failed although no source did");
                }
                chk(P17, failed == 1 || w.late, "more than one source failure in one read call");
                chk(P17, is_fault(&e), "the error returned is not the source's error");
                chk(P17, n == 0, "bytes written by a failing read call are lost");
                if w.late {
                    w.err_code = 0;
                }
                Step::Err
            }
        };
        chk(P02, r.size() == size, "the announced size changed");
        chk(P06, r.tell() == m.pos, "the reported position is not the true stream position");
        if w.props & P13 != 0 {
            let to = from.saturating_add(cap as u64);
            for (i, l) in self.lay.e.iter().enumerate() {
                let d = w.s[i].opens - opens[i];
                if d == 0 {
                    continue;
                }
                let hit = |a: u64, b: u64| from < b && a < to;
                let data = hit(l.data, l.dd);
                let crc = m.known[i].is_none() && (hit(l.dd, l.end) || hit(l.cdh, l.cdh_end));
                zs::check(data || crc, "an entry is opened although neither its data nor its unknown CRC is requested");
                zs::check(d == 1 || (d == 2 && data && crc), "an entry is opened more than once by one read");
            }
        }
        if w.props & (P08 | P13 | P16) != 0 {
            self.see_crcs(m, r);
        }
        st
    }
    /// Read to the end.
    pub fn drain<D: EntryData>(&self, m: &mut Model, r: &mut Reader<D>, cap: usize)
    where
        Reader<D>: Unpin,
    {
        self.drain_in(m, r, cap, 4 * self.img.len() + 64)
    }
    pub fn drain_in<D: EntryData>(&self, m: &mut Model, r: &mut Reader<D>, cap: usize, mut limit: usize)
    where
        Reader<D>: Unpin,
    {
        loop {
            // every second read goes into a partly filled buffer
            match self.step(m, r, cap, if limit & 1 == 0 { 2 } else { 0 }) {
                Step::Eof => break,
                _ => {}
            }
            limit -= 1;
            if limit == 0 {
                zs::fail("reading does not come to an end");
            }
        }
    }
}

/// Seeks to a place. Each way of seeking gets its turn.
pub fn seek_to<D: EntryData>(r: &mut Reader<D>, o: u64)
where
    Reader<D>: Unpin,
{
    w().seeks += 1;
    let way = (o / 2 + r.tell() + w().seeks) % 5;
    seek_by(r, o, way);
}
pub fn seek_by<D: EntryData>(r: &mut Reader<D>, o: u64, way: u64)
where
    Reader<D>: Unpin,
{
    let by = |base: u64| SeekFrom::Current(o.wrapping_sub(base) as i64);
    let fits = |base: u64| o.abs_diff(base) <= i64::MAX as u64;
    let p = match way {
        0 => {
            r.seek_from_start_mut(o);
            return;
        }
        1 => {
            Pin::new(r).seek_from_start_pinned(o);
            return;
        }
        2 if fits(r.tell()) => by(r.tell()),
        3 if fits(r.size()) => match by(r.size()) {
            SeekFrom::Current(x) => SeekFrom::End(x),
            x => x,
        },
        _ => SeekFrom::Start(o),
    };
    if Pin::new(&mut *r).start_seek(p).is_err() {
        zs::fail("a seek to a valid target is refused");
    }
    match with_cx(|cx| Pin::new(r).poll_complete(cx)) {
        Poll::Ready(Ok(x)) => zs::check(x == o, "a seek completes at another position than its target"),
        _ => zs::fail("a seek does not complete"),
    }
}
