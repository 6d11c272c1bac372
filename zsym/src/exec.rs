//! Symbolic executor over LLVM IR.
use crate::expr::*;
use crate::hash::*;

/// Execute SipHash instead of leaving it out (for entries with many concrete keys).
pub static REAL_HASH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub enum Input {
    Bytes(Rc<Vec<E>>, String),
    Int(E, String),
    Pick(u64, String),
}
#[derive(Clone)]
pub enum Obs {
    Int(u64, Val),
    Bytes(u64, Rc<Vec<E>>),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub eqs: Rc<FxMap<E, E>>,
    pub evars: u32,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub obs: Vec<Obs>,
    pub steps: u64,
    pub nvar: u32,
    pub npick: u32,
    pub tag: u64,
    pub panic_ok: bool,
    /// variables that have one value on this path
    pub pinned: u32,
}

pub enum Stop {
    Dead,
    Done,
    Unsup(String),
    Viol(String, String),
    Hang,
}
type R<X> = Result<X, Stop>;
enum Flow {
    Next,
    Jump(u32),
    Called,
    Returned,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: String,
    pub human: Vec<String>,
    pub count: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum H {
    None,
    Panic,
    Alloc,
    AllocZ,
    Realloc,
    Dealloc,
    Malloc,
    Calloc,
    CRealloc,
    Free,
    PosixMemalign,
    MemCpy,
    MemSet,
    MemCmp,
    StrLen,
    Zero,
    NegOne,
    Nop,
    Abort,
    RandomFill,
    Errno,
    Identity,
    Fsh(bool),
    MinMax(Pred),
    Ovf(Op, bool),
    Sat(bool, bool),
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    BitRev,
    Abs,
    Cmp3(bool),
    Expect,
    Trap,
    Clock,
    KeyCreate,
    ZsSym,
    ZsInt,
    ZsPick,
    ZsAssume,
    ZsAssert,
    ZsReach,
    ZsObs,
    ZsObsBytes,
    ZsConc,
    ZsFail,
    ZsIsSymbolic,
    ZsLiveHeap,
    ZsTag,
    ZsAllowPanic,
    Unknown,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_time: f64,
    pub max_paths: u64,
    pub samples: usize,
    pub force: Vec<u64>,
    pub trace: bool,
    pub max_fan: u32,
    pub max_viol: usize,
    /// seconds to go on after a violation
    pub grace: i32,
    /// violations are also written to this file, with the process number appended
    pub early: String,
    pub par: crate::par::Par,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub forks: u64,
    pub branches: u64,
    pub sym_branches: u64,
    pub insts: u64,
    pub concretizations: u64,
    pub asserts: BTreeMap<String, (u64, u64)>,
    pub reach: BTreeMap<String, u64>,
    pub max_depth: usize,
    pub max_pc: usize,
}

pub struct Exec {
    pub m: Module,
    pub sol: Solver,
    pub cfg: Cfg,
    pub work: Vec<State>,
    pub st: Stats,
    pub viols: Vec<Violation>,
    pub incomplete: BTreeMap<String, u64>,
    pub samples: Vec<(String, Vec<String>)>,
    handlers: Vec<Option<H>>,
    vars: FxMap<(u32, u32), E>,
    gcache: FxMap<u32, Rc<Obj>>,
    trace: bool,
    fan: FxMap<(u32, u32, u32, E), u32>,
    lin_of: FxMap<(u32, u64, u32, u32), Option<(u32, u128)>>,
    start: Instant,
    nloc: u64,
    pub nodes0: usize,
}

fn ai(v: &Val) -> Option<u128> {
    match v {
        Val::I(x) => Some(*x),
        _ => None,
    }
}
#[inline]
fn to_e(v: &Val, w: u32) -> E {
    match v {
        Val::I(x) => cx().konst(*x, w),
        Val::E(e) => *e,
        Val::A(_) => panic!("aggregate as int"),
    }
}
#[inline]
fn from_e(e: E) -> Val {
    match cx().as_const(e) {
        Some(v) => Val::I(v),
        None => Val::E(e),
    }
}
fn bin(op: Op, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        return Val::I(fold(op, w, *x, *y));
    }
    let (x, y) = (to_e(a, w), to_e(b, w));
    from_e(cx().bin(op, x, y))
}
fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    let (op, sw, neg) = match p {
        Pred::Eq => (Op::Eq, false, false),
        Pred::Ne => (Op::Eq, false, true),
        Pred::Ult => (Op::Ult, false, false),
        Pred::Ule => (Op::Ule, false, false),
        Pred::Ugt => (Op::Ult, true, false),
        Pred::Uge => (Op::Ule, true, false),
        Pred::Slt => (Op::Slt, false, false),
        Pred::Sle => (Op::Sle, false, false),
        Pred::Sgt => (Op::Slt, true, false),
        Pred::Sge => (Op::Sle, true, false),
    };
    let (a, b) = if sw { (b, a) } else { (a, b) };
    if let (Val::I(x), Val::I(y)) = (a, b) {
        return Val::I(fold(op, w, *x, *y) ^ neg as u128);
    }
    let (x, y) = (to_e(a, w), to_e(b, w));
    let e = cx().bin(op, x, y);
    from_e(if neg { cx().not(e) } else { e })
}
fn cast(k: CastK, fw: u32, tw: u32, a: &Val) -> Val {
    match a {
        Val::I(v) => Val::I(match k {
            CastK::Trunc => v & mask(tw),
            CastK::ZExt | CastK::Bit => *v,
            CastK::SExt => (sext128(*v, fw) as u128) & mask(tw),
        }),
        Val::E(e) => from_e(match k {
            CastK::Trunc => cx().trunc(*e, tw),
            CastK::ZExt => cx().zext(*e, tw),
            CastK::SExt => cx().sext(*e, tw),
            CastK::Bit => *e,
        }),
        _ => panic!("cast"),
    }
}
fn ity(t: T) -> Option<u32> {
    match t {
        Ty::Int(w) => Some(*w),
        Ty::Ptr => Some(64),
        Ty::Float(w) => Some(*w),
        _ => None,
    }
}
fn ite(c: E, a: &Val, b: &Val, t: T) -> Val {
    match t {
        Ty::Struct(ts, _) => {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                return Val::A(Rc::new((0..ts.len()).map(|i| ite(c, &x[i], &y[i], ts[i])).collect()));
            }
            panic!()
        }
        Ty::Arr(_, et) | Ty::Vec(_, et) => {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                return Val::A(Rc::new((0..x.len()).map(|i| ite(c, &x[i], &y[i], et)).collect()));
            }
            panic!()
        }
        _ => {
            let w = ity(t).unwrap();
            let (x, y) = (to_e(a, w), to_e(b, w));
            from_e(cx().ite(c, x, y))
        }
    }
}

impl Exec {
    pub fn new(m: Module, sol: Solver, cfg: Cfg) -> Exec {
        let n = m.names.len();
        Exec {
            m,
            sol,
            cfg,
            work: vec![],
            st: Default::default(),
            viols: vec![],
            incomplete: Default::default(),
            samples: vec![],
            handlers: vec![None; n],
            vars: Default::default(),
            gcache: Default::default(),
            trace: std::env::var("ZSYM_TRACE").is_ok(),
            fan: Default::default(),
            lin_of: Default::default(),
            start: Instant::now(),
            nodes0: 0,
            nloc: 0,
        }
    }

    fn classify(&self, id: u32) -> H {
        let n = self.m.names[id as usize];
        let has_body = matches!(self.m.syms[id as usize], Sym::Func { .. });
        if n.contains("9panicking") && (n.ends_with("9panic_fmt") || n.ends_with("18panic_nounwind_fmt")) {
            return H::Panic;
        }
        if n.contains("7___rustc") {
            if n.contains("17rust_begin_unwind") {
                return H::Panic;
            }
            if n.ends_with("12___rust_alloc") {
                return H::Alloc;
            }
            if n.ends_with("19___rust_alloc_zeroed") {
                return H::AllocZ;
            }
            if n.ends_with("14___rust_dealloc") {
                return H::Dealloc;
            }
            if n.ends_with("14___rust_realloc") {
                return H::Realloc;
            }
            if n.contains("no_alloc_shim") {
                return H::Nop;
            }
        }
        if n.contains("4hash3sip") && n.contains("Sip13Rounds") && n.contains("6Hasher5write") && !REAL_HASH.load(std::sync::atomic::Ordering::Relaxed) {
            return H::Nop;
        }
        if n.contains("7assert2") && n.contains("14___assert2_impl5print") {
            return H::Nop;
        }
        if n.contains("3std3sys6random") && n.ends_with("19hashmap_random_keys") {
            return H::Zero;
        }
        match n {
            "malloc" => return H::Malloc,
            "calloc" => return H::Calloc,
            "realloc" => return H::CRealloc,
            "free" => return H::Free,
            "posix_memalign" => return H::PosixMemalign,
            "memcpy" | "memmove" => return H::MemCpy,
            "memset" => return H::MemSet,
            "memcmp" | "bcmp" => return H::MemCmp,
            "strlen" => return H::StrLen,
            "abort" => return H::Abort,
            "getrandom" => return H::RandomFill,
            "clock_gettime" => return H::Clock,
            "__errno_location" => return H::Errno,
            "syscall" => return H::NegOne,
            "pthread_key_create" => return H::KeyCreate,
            "pthread_key_delete" | "pthread_setspecific" | "pthread_self" | "__cxa_thread_atexit_impl"
            | "getenv" | "gettid" => return H::Zero,
            "zs_sym" => return H::ZsSym,
            "zs_int" => return H::ZsInt,
            "zs_pick" => return H::ZsPick,
            "zs_assume" => return H::ZsAssume,
            "zs_assert" => return H::ZsAssert,
            "zs_reach" => return H::ZsReach,
            "zs_obs" => return H::ZsObs,
            "zs_obs_bytes" => return H::ZsObsBytes,
            "zs_conc" => return H::ZsConc,
            "zs_fail" => return H::ZsFail,
            "zs_is_symbolic" => return H::ZsIsSymbolic,
            "zs_live_heap" => return H::ZsLiveHeap,
            "zs_tag" => return H::ZsTag,
            "zs_allow_panic" => return H::ZsAllowPanic,
            _ => {}
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            if r.starts_with("memcpy") || r.starts_with("memmove") {
                return H::MemCpy;
            }
            if r.starts_with("memset") {
                return H::MemSet;
            }
            if r.starts_with("threadlocal.address") || r.starts_with("ptr.annotation") || r.starts_with("launder") {
                return H::Identity;
            }
            if r.starts_with("fshl") {
                return H::Fsh(true);
            }
            if r.starts_with("fshr") {
                return H::Fsh(false);
            }
            if r.starts_with("umax") {
                return H::MinMax(Pred::Ugt);
            }
            if r.starts_with("umin") {
                return H::MinMax(Pred::Ult);
            }
            if r.starts_with("smax") {
                return H::MinMax(Pred::Sgt);
            }
            if r.starts_with("smin") {
                return H::MinMax(Pred::Slt);
            }
            for (p, o, s) in [
                ("uadd", Op::Add, false),
                ("sadd", Op::Add, true),
                ("usub", Op::Sub, false),
                ("ssub", Op::Sub, true),
                ("umul", Op::Mul, false),
                ("smul", Op::Mul, true),
            ] {
                if r.starts_with(p) && r[4..].starts_with(".with.overflow") {
                    return H::Ovf(o, s);
                }
            }
            if r.starts_with("uadd.sat") {
                return H::Sat(true, false);
            }
            if r.starts_with("usub.sat") {
                return H::Sat(false, false);
            }
            if r.starts_with("sadd.sat") {
                return H::Sat(true, true);
            }
            if r.starts_with("ssub.sat") {
                return H::Sat(false, true);
            }
            if r.starts_with("ctpop") {
                return H::Ctpop;
            }
            if r.starts_with("cttz") {
                return H::Cttz;
            }
            if r.starts_with("ctlz") {
                return H::Ctlz;
            }
            if r.starts_with("bswap") {
                return H::Bswap;
            }
            if r.starts_with("bitreverse") {
                return H::BitRev;
            }
            if r.starts_with("abs.") {
                return H::Abs;
            }
            if r.starts_with("ucmp") {
                return H::Cmp3(false);
            }
            if r.starts_with("scmp") {
                return H::Cmp3(true);
            }
            if r.starts_with("expect") {
                return H::Expect;
            }
            if r.starts_with("is.constant") {
                return H::Zero;
            }
            if r.starts_with("trap") || r.starts_with("debugtrap") || r.starts_with("ubsantrap") {
                return H::Trap;
            }
            if r.starts_with("lifetime") || r.starts_with("assume") || r.starts_with("experimental.noalias") {
                return H::Nop;
            }
            return H::Unknown;
        }
        if has_body {
            H::None
        } else {
            H::Unknown
        }
    }

    // ------------------------------------------------------------ memory
    fn obj_for_read(&mut self, st: &State, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) {
            return Ok(o.clone());
        }
        if id < st.mem.base && id != 0 {
            return self.global_obj(id);
        }
        Err(Stop::Viol("memory".into(), format!("read of invalid or freed memory (object {})", id)))
    }
    fn global_obj(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) {
            return Ok(o.clone());
        }
        if !matches!(self.m.syms[id as usize], Sym::Global { .. }) {
            return Err(Stop::Viol("memory".into(), format!("data access to symbol {}", self.m.names[id as usize])));
        }
        let (t, v, constant) = self.m.global(id);
        let v = match v {
            Some(v) => v,
            None => {
                return Err(Stop::Unsup(format!("access to external global {}", self.m.names[id as usize])));
            }
        };
        let mut o = Obj::new(t.size() as usize, false);
        fn wr(o: &mut Obj, off: usize, t: T, v: &Val) {
            match (t, v) {
                (Ty::Struct(ts, _), Val::A(vs)) => {
                    for i in 0..ts.len() {
                        let (fo, ft) = t.layout(i);
                        wr(o, off + fo as usize, ft.unwrap(), &vs[i]);
                    }
                }
                (Ty::Arr(_, et), Val::A(vs)) | (Ty::Vec(_, et), Val::A(vs)) => {
                    let s = et.size() as usize;
                    for (i, x) in vs.iter().enumerate() {
                        wr(o, off + i * s, et, x);
                    }
                }
                (_, Val::I(x)) => {
                    let n = t.size() as usize;
                    for i in 0..n.min(16) {
                        o.data[off + i] = (x >> (8 * i)) as u8;
                    }
                }
                _ => panic!("global init"),
            }
        }
        wr(&mut o, 0, t, &v);
        o.writable = !constant;
        let o = Rc::new(o);
        self.gcache.insert(id, o.clone());
        Ok(o)
    }
    fn obj_for_write<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        if id < st.mem.base && st.mem.get(id).is_none() {
            if id == 0 {
                return Err(Stop::Viol("memory".into(), "write to null or dangling pointer".into()));
            }
            let o = self.global_obj(id)?;
            st.mem.put_global(id, o);
        }
        match st.mem.get_mut(id) {
            Some(o) => {
                if !o.writable {
                    return Err(Stop::Viol("memory".into(), "write to constant memory".into()));
                }
                Ok(o)
            }
            None => Err(Stop::Viol("memory".into(), format!("write to invalid or freed memory (object {})", id))),
        }
    }
    fn oob(&self, what: &str, addr: u64, n: u64, size: u64) -> Stop {
        Stop::Viol(
            "memory".into(),
            format!("out-of-bounds {} of {} bytes at offset {} of object of {} bytes", what, n, addr & 0xffff_ffff, size),
        )
    }
    fn load_int(o: &Obj, off: usize, w: u32) -> Val {
        let n = (w as usize + 7) / 8;
        if o.is_conc(off, n) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | o.data[off + i] as u128;
            }
            return Val::I(v & mask(w));
        }
        let x = cx();
        let mut e = o.byte(off + n - 1);
        for i in (0..n - 1).rev() {
            let b = o.byte(off + i);
            e = x.concat(e, b);
        }
        if n as u32 * 8 != w {
            e = x.trunc(e, w);
        }
        from_e(e)
    }
    fn load_ty(o: &Obj, off: usize, t: T) -> Val {
        match t {
            Ty::Struct(ts, _) => Val::A(Rc::new(
                (0..ts.len())
                    .map(|i| {
                        let (fo, ft) = t.layout(i);
                        Self::load_ty(o, off + fo as usize, ft.unwrap())
                    })
                    .collect(),
            )),
            Ty::Vec(n, Ty::Int(w)) if w % 8 != 0 => {
                // packed bits
                let v = Self::load_int(o, off, n * w);
                Val::A(Rc::new(
                    (0..*n)
                        .map(|i| match &v {
                            Val::I(x) => Val::I((x >> (i * w)) & mask(*w)),
                            Val::E(e) => from_e(cx().extract(*e, i * w, *w)),
                            _ => panic!(),
                        })
                        .collect(),
                ))
            }
            Ty::Arr(n, et) => {
                Val::A(Rc::new((0..*n).map(|i| Self::load_ty(o, off + (i * et.size()) as usize, et)).collect()))
            }
            Ty::Vec(n, et) => Val::A(Rc::new(
                (0..*n as u64).map(|i| Self::load_ty(o, off + (i * et.size()) as usize, et)).collect(),
            )),
            _ => Self::load_int(o, off, ity(t).unwrap()),
        }
    }
    fn store_int(o: &mut Obj, off: usize, w: u32, v: &Val) {
        let n = (w as usize + 7) / 8;
        match v {
            Val::I(x) => {
                for i in 0..n {
                    o.data[off + i] = (x >> (8 * i)) as u8;
                }
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
            Val::E(e) => {
                let e = if w % 8 != 0 { cx().zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n {
                    let b = cx().extract(e, i as u32 * 8, 8);
                    o.set(off + i, b);
                }
            }
            _ => panic!("store agg as int"),
        }
    }
    fn store_ty(o: &mut Obj, off: usize, t: T, v: &Val) {
        match (t, v) {
            (Ty::Struct(ts, _), Val::A(vs)) => {
                for i in 0..ts.len() {
                    let (fo, ft) = t.layout(i);
                    Self::store_ty(o, off + fo as usize, ft.unwrap(), &vs[i]);
                }
            }
            (Ty::Vec(n, Ty::Int(w)), Val::A(vs)) if w % 8 != 0 => {
                let mut e = to_e(&vs[0], *w);
                for i in 1..*n as usize {
                    let h = to_e(&vs[i], *w);
                    e = cx().concat(h, e);
                }
                Self::store_int(o, off, n * w, &from_e(e));
            }
            (Ty::Arr(_, et), Val::A(vs)) | (Ty::Vec(_, et), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    Self::store_ty(o, off + i * et.size() as usize, et, x);
                }
            }
            _ => Self::store_int(o, off, ity(t).unwrap(), v),
        }
    }
    fn load(&mut self, st: &mut State, t: T, a: &Val) -> R<Val> {
        let n = ssize(t);
        if n == 0 {
            return Ok(Val::zero(t));
        }
        let addr = match a {
            Val::I(v) => *v as u64,
            Val::E(e) => {
                let e = self.subst(st, *e);
                match from_e(e) {
                    Val::I(v) => v as u64,
                    _ => {
                        if let Some(w) = ity(t) {
                            if let Some(v) = self.sym_load(st, e, w)? {
                                return Ok(v);
                            }
                        }
                        self.concretize(st, e)? as u64
                    }
                }
            }
            _ => panic!(),
        };
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let o: &Rc<Obj>;
        let tmp;
        match st.mem.get(id) {
            Some(x) => o = x,
            None => {
                tmp = self.obj_for_read(st, id)?;
                o = &tmp;
            }
        }
        if off + n > o.size() {
            return Err(self.oob("read", addr, n, o.size()));
        }
        Ok(Self::load_ty(o, off as usize, t))
    }
    /// bounded symbolic load from one object
    fn sym_load(&mut self, st: &mut State, e: E, w: u32) -> R<Option<Val>> {
        let x = cx();
        if w % 8 != 0 {
            return Ok(None);
        }
        if let Some(vs) = x.vals(e) {
            // few candidate addresses
            let n = (w / 8) as u64;
            let mut r: Option<E> = None;
            let mut last = None;
            for &a in vs.iter() {
                let o = match st.mem.get((a >> 32) as u32) {
                    Some(o) => o.clone(),
                    None => match self.obj_for_read(st, (a >> 32) as u32) {
                        Ok(o) => o,
                        Err(_) => return Ok(None),
                    },
                };
                let off = a as u64 & 0xffff_ffff;
                if off + n > o.size() {
                    last = None;
                    r = None;
                    break;
                }
                let v = Self::load_int(&o, off as usize, w);
                if !matches!(v, Val::I(_) | Val::E(_)) {
                    return Ok(None);
                }
                let v = to_e(&v, w);
                r = Some(match r {
                    None => v,
                    Some(p) => {
                        let c = x.eqk(e, a);
                        x.ite(c, v, p)
                    }
                });
                last = Some(a);
            }
            if last.is_some() {
                return Ok(Some(from_e(r.unwrap())));
            }
        }
        let (lo, hi) = x.iv[e as usize];
        if (lo >> 32) != (hi >> 32) {
            return Ok(None);
        }
        let id = (lo >> 32) as u32;
        let n = (w / 8) as u64;
        let o = match self.obj_for_read(st, id) {
            Ok(o) => o,
            Err(_) => return Ok(None),
        };
        let base = (lo >> 32) << 32;
        let off32 = x.extract(e, 0, 32);
        let _ = base;
        // bounds
        let (olo, ohi) = (lo as u64 & 0xffff_ffff, hi as u64 & 0xffff_ffff);
        if ohi + n > o.size() {
            let lim = x.konst(o.size() as u128, 64);
            let o64 = x.zext(off32, 64);
            let nn = x.konst(n as u128, 64);
            let end = x.bin(Op::Add, o64, nn);
            let ok = x.bin(Op::Ule, end, lim);
            let bad = x.not(ok);
            match self.sol.check(&st.pc, bad) {
                Res::Sat(_) => return Ok(None), // concretize; the bad value is reported there
                Res::Unknown => return Err(Stop::Unsup("solver unknown on address bounds".into())),
                Res::Unsat => {}
            }
        }
        let ohi = ohi.min(o.size() - n);
        // index = (off - olo) >> k
        let kolo = x.konst(olo as u128, 32);
        let rel = x.bin(Op::Sub, off32, kolo);
        let rh = (ohi - olo) as u128;
        let nb = (128 - rh.leading_zeros()).max(1);
        let rel = x.extract(rel, 0, nb);
        let mut k = 0;
        loop {
            if k >= nb - 1 {
                break;
            }
            let b = x.extract(rel, k, 1);
            if x.as_const(b) == Some(0) {
                k += 1
            } else {
                break;
            }
        }
        let ib = nb - k;
        let cnt = (rh >> k) as usize + 1;
        if cnt > 1024 {
            return Ok(None);
        }
        let idx = x.extract(rel, k, ib);
        let ents: Vec<Val> = (0..cnt).map(|i| Self::load_int(&o, olo as usize + (i << k), w)).collect();
        // linear?
        if cnt == 1 << ib && ents.iter().all(|v| matches!(v, Val::I(_))) && cnt >= 4 && w >= 8 {
            let v: Vec<u128> = ents.iter().map(|v| ai(v).unwrap()).collect();
            let key = (id, olo, k, w);
            let lt = if !o.writable && self.lin_of.contains_key(&key) {
                self.lin_of[&key]
            } else {
                let t0 = v[0];
                let ok = (1..cnt).all(|i| {
                    let low = i & (i - 1);
                    let bit = i ^ low;
                    (v[i] ^ t0) == (v[low] ^ t0) ^ (v[bit] ^ t0)
                });
                let r = if ok {
                    let basis = (0..ib).map(|b| v[1 << b] ^ t0).collect();
                    x.lin_tables.push(LinTable { idx_bits: ib, w, basis });
                    Some((x.lin_tables.len() as u32 - 1, t0))
                } else {
                    None
                };
                if !o.writable {
                    self.lin_of.insert(key, r);
                }
                r
            };
            if let Some((t, t0)) = lt {
                let r = x.lintab(t, idx);
                let kk = x.konst(t0, w);
                return Ok(Some(from_e(x.bin(Op::Xor, r, kk))));
            }
        }
        fn tree(x: &mut Ctx, idx: E, bit: u32, ents: &[Val], w: u32) -> E {
            if ents.len() == 1 {
                return to_e(&ents[0], w);
            }
            // bit is the number of index bits still undecided
            let half = 1usize << (bit - 1);
            if ents.len() <= half {
                return tree(x, idx, bit - 1, ents, w);
            }
            let l = tree(x, idx, bit - 1, &ents[..half], w);
            let h = tree(x, idx, bit - 1, &ents[half..], w);
            if l == h {
                return l;
            }
            let c = x.extract(idx, bit - 1, 1);
            x.ite(c, h, l)
        }
        Ok(Some(from_e(tree(x, idx, ib, &ents, w))))
    }
    fn store(&mut self, st: &mut State, t: T, a: &Val, v: &Val) -> R<()> {
        let n = ssize(t);
        if n == 0 {
            return Ok(());
        }
        let addr = self.conc(st, a)? as u64;
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let sz = {
            let o = self.obj_for_write(st, id)?;
            if off + n <= o.size() {
                Self::store_ty(o, off as usize, t, v);
                return Ok(());
            }
            o.size()
        };
        Err(self.oob("write", addr, n, sz))
    }
    fn bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj_for_read(st, (addr >> 32) as u32)?;
        let off = addr & 0xffff_ffff;
        if off + n > o.size() {
            return Err(self.oob("read", addr, n, o.size()));
        }
        Ok((0..n as usize).map(|i| o.byte(off as usize + i)).collect())
    }
    fn string(&mut self, st: &State, addr: u64, n: u64) -> R<String> {
        let b = self.bytes(st, addr, n)?;
        Ok(b.iter().map(|&e| cx().as_const(e).map(|v| v as u8 as char).unwrap_or('?')).collect())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj_for_read(st, (s >> 32) as u32)?;
        let soff = (s & 0xffff_ffff) as usize;
        if soff as u64 + n > so.size() {
            return Err(self.oob("memcpy read", s, n, so.size()));
        }
        let doff = (d & 0xffff_ffff) as usize;
        let r = {
            let o = self.obj_for_write(st, (d >> 32) as u32)?;
            if doff as u64 + n > o.size() {
                Err(o.size())
            } else {
                let sl = so.sym.as_ref().map(|s| &s[soff..soff + n as usize]);
                o.copy_from(doff, &so.data[soff..soff + n as usize], sl);
                Ok(())
            }
        };
        r.map_err(|sz| self.oob("memcpy write", d, n, sz))
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let doff = (d & 0xffff_ffff) as usize;
        let r = {
            let o = self.obj_for_write(st, (d >> 32) as u32)?;
            if doff as u64 + n > o.size() {
                Err(o.size())
            } else {
                match v {
                    Val::I(x) => {
                        o.data[doff..doff + n as usize].fill(*x as u8);
                        if let Some(s) = &mut o.sym {
                            s[doff..doff + n as usize].fill(0);
                        }
                    }
                    Val::E(e) => {
                        for i in 0..n as usize {
                            o.set(doff + i, *e);
                        }
                    }
                    _ => panic!(),
                }
                Ok(())
            }
        };
        r.map_err(|sz| self.oob("memset", d, n, sz))
    }
    fn alloc(&mut self, st: &mut State, n: u64, heap: bool) -> R<u64> {
        if n > 1 << 30 {
            return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
        }
        let id = st.mem.alloc(Obj::new(n as usize, heap));
        Ok((id as u64) << 32)
    }
    fn dealloc(&mut self, st: &mut State, p: u64) -> R<()> {
        if p & 0xffff_ffff != 0 {
            return Err(Stop::Viol("memory".into(), "free of interior pointer".into()));
        }
        if !st.mem.free((p >> 32) as u32) {
            return Err(Stop::Viol("memory".into(), "double free or invalid free".into()));
        }
        Ok(())
    }

    // ------------------------------------------------------------ path condition
    fn subst(&mut self, st: &State, e: E) -> E {
        if st.eqs.is_empty() {
            return e;
        }
        let mut memo = FxMap::default();
        cx().subst(e, &st.eqs, st.evars, &mut memo)
    }
    fn add_eq(st: &mut State, k: E, v: E) {
        let x = cx();
        if x.as_const(k).is_some() {
            return;
        }
        st.evars = x.set_union_pub(st.evars, x.vset[k as usize]);
        if let (Node::Var(_), Some(_)) = (x.node(k), x.as_const(v)) {
            st.pinned = x.set_union_pub(st.pinned, x.vset[k as usize]);
        }
        Rc::make_mut(&mut st.eqs).insert(k, v);
    }
    fn add_pc(st: &mut State, c: E) {
        let x = cx();
        if x.as_const(c).is_some() {
            return;
        }
        match x.node(c) {
            Node::Bin(Op::And, a, b) => {
                Self::add_pc(st, a);
                Self::add_pc(st, b);
                return;
            }
            Node::Not(a) => {
                if let Node::Bin(Op::Or, p, q) = x.node(a) {
                    let (p, q) = (x.not(p), x.not(q));
                    Self::add_pc(st, p);
                    Self::add_pc(st, q);
                    return;
                }
                let z = x.konst(0, 1);
                Self::add_eq(st, a, z);
            }
            Node::Bin(Op::Eq, a, b) => {
                if x.as_const(b).is_some() {
                    Self::add_eq(st, a, b);
                } else if x.as_const(a).is_some() {
                    Self::add_eq(st, b, a);
                }
                let o = x.tru();
                Self::add_eq(st, c, o);
            }
            _ => {
                let o = x.tru();
                Self::add_eq(st, c, o);
            }
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    fn with_model(m: &Rc<Model>, vals: &[(u32, u128)]) -> Rc<Model> {
        if vals.is_empty() {
            return m.clone();
        }
        let mut n = (**m).clone();
        for &(i, v) in vals {
            n.0.insert(i, v);
        }
        Rc::new(n)
    }
    /// value of e, forking on the alternatives
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        let e = self.subst(st, e);
        if let Some(v) = cx().as_const(e) {
            return Ok(v);
        }
        let x = cx();
        if let Some((var, vals)) = self.sol.values(&st.pc, e) {
            let now = x.eval(e, &st.model);
            let ve = x.var_expr(var);
            let mut take = |s: &mut State, val: u128, n: u32, wit: u128| {
                let c = if n == 1 { x.eqk(ve, wit) } else { x.eqk(e, val) };
                Self::add_pc(s, c);
            };
            let mut mine = None;
            for &(val, n, wit) in vals.iter().rev() {
                if val == now {
                    mine = Some((n, wit));
                    continue;
                }
                let mut o = st.clone();
                o.model = Self::with_model(&st.model, &[(var, wit)]);
                take(&mut o, val, n, wit);
                self.st.concretizations += 1;
                self.st.forks += 1;
                self.work.push(o);
            }
            let (n, wit) = mine.expect("the model satisfies the path condition");
            take(st, now, n, wit);
            return Ok(now);
        }
        let v = x.eval(e, &st.model);
        let eq = x.eqk(e, v);
        let ne = x.not(eq);
        match self.sol.check(&st.pc, ne) {
            Res::Unknown => return Err(Stop::Unsup("solver unknown (concretization)".into())),
            Res::Unsat => {
                // the only value
                Self::add_eq(st, e, x.konst(v, x.w(e)));
                return Ok(v);
            }
            Res::Sat(m) => {
                self.st.concretizations += 1;
                let f = st.frames.last().unwrap();
                let key = (f.f.sym, f.block, f.ip, e);
                let c = self.fan.entry(key).or_insert(0);
                *c += 1;
                if *c > self.cfg.max_fan {
                    return Err(Stop::Unsup(format!(
                        "more than {} values for one address/length in {}: {}",
                        self.cfg.max_fan,
                        f.f.name,
                        x.show(e, 4)
                    )));
                }
                let mut o = st.clone();
                o.model = Self::with_model(&st.model, &m);
                Self::add_pc(&mut o, ne);
                self.st.forks += 1;
                self.work.push(o);
            }
        }
        Self::add_pc(st, eq);
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::I(x) => Ok(*x),
            Val::E(e) => self.concretize(st, *e),
            _ => panic!("conc aggregate"),
        }
    }
    /// decide a condition: Ok(b) with the path condition extended; forks the other side via `mk`
    fn decide(&mut self, st: &mut State, c: E) -> R<(bool, Option<State>)> {
        let x = cx();
        let c = self.subst(st, c);
        if let Some(v) = x.as_const(c) {
            return Ok((v != 0, None));
        }
        self.st.sym_branches += 1;
        let v = x.eval(c, &st.model) != 0;
        let nc = x.not(c);
        let (this, other) = if v { (c, nc) } else { (nc, c) };
        if self.trace {
            eprintln!("Q {} {}", self.stack(st).first().cloned().unwrap_or_default(), x.show(other, 8).chars().take(600).collect::<String>());
        }
        match self.sol.check(&st.pc, other) {
            Res::Unsat => {
                let k = x.konst(v as u128, 1);
                if x.set_size(x.vset[c as usize]) <= 3 {
                    Self::add_eq(st, c, k);
                }
                Ok((v, None))
            }
            Res::Unknown => Err(Stop::Unsup(format!("solver unknown on branch: {}", x.show(c, 5)))),
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = Self::with_model(&st.model, &m);
                Self::add_pc(&mut o, other);
                Self::add_pc(st, this);
                self.st.forks += 1;
                Ok((v, Some(o)))
            }
        }
    }

    // ------------------------------------------------------------ stepping
    #[inline]
    fn op(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn enter(st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let blk = &fr.f.blocks[b as usize];
        blk.visited.set(true);
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (_, inc) in &blk.phis {
                let o = &inc.iter().find(|(l, _)| *l == from).expect("phi edge").1;
                vals.push(Self::op(fr, o));
            }
            for (i, (d, _)) in blk.phis.iter().enumerate() {
                fr.regs[*d as usize] = std::mem::replace(&mut vals[i], Val::I(0));
            }
        }
        fr.block = b;
        fr.ip = 0;
    }

    pub fn run(&mut self, entry: &str) {
        let id = match self.m.resolve(entry) {
            Some(id) => id,
            None => {
                self.incomplete.insert(format!("no entry function {}", entry), 1);
                return;
            }
        };
        let f = self.m.func(id).expect("entry has no body");
        let base = self.m.names.len() as u32 + 16;
        let mut st = State {
            frames: vec![],
            mem: Mem::new(base),
            pc: vec![],
            eqs: Default::default(),
            evars: 0,
            model: Default::default(),
            inputs: vec![],
            obs: vec![],
            steps: 0,
            nvar: 0,
            npick: 0,
            tag: 0,
            panic_ok: false,
            pinned: 0,
        };
        st.frames.push(Frame {
            f,
            block: 0,
            ip: 0,
            regs: vec![Val::I(0); f.nregs as usize],
            allocas: vec![],
            dst: None,
            normal: None,
        });
        f.blocks[0].visited.set(true);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.work.len() >= 2 && self.donate() {
                // in the new process
                st = self.work.pop().unwrap();
            }
            if self.start.elapsed().as_secs_f64() > self.cfg.max_time {
                *self.incomplete.entry(format!("time limit ({} paths pending)", self.work.len() + 1)).or_insert(0) += 1;
                break;
            }
            if self.st.paths >= self.cfg.max_paths {
                *self.incomplete.entry(format!("path limit ({} paths pending)", self.work.len() + 1)).or_insert(0) += 1;
                break;
            }
            let r = self.run_state(&mut st);
            self.st.max_pc = self.st.max_pc.max(st.pc.len());
            match r {
                Stop::Done => {
                    self.st.paths += 1;
                    self.sample(&st);
                }
                Stop::Dead => self.st.dead += 1,
                Stop::Viol(k, m) => {
                    self.st.paths += 1;
                    self.violation(&st, k, m, st.model.clone());
                    self.cfg.par.violated();
                }
                Stop::Hang => {
                    self.st.paths += 1;
                    let m = format!("no termination within {} instructions", self.cfg.max_steps);
                    self.violation(&st, "hang".into(), m, st.model.clone());
                }
                Stop::Unsup(s) => {
                    let s = format!("{} [{}]", s, self.stack(&st).first().cloned().unwrap_or_default());
                    let n = self.incomplete.entry(s).or_insert(0);
                    *n += 1;
                }
            }
            if self.cfg.par.enough(self.cfg.grace) {
                *self.incomplete.entry("stopped after a violation was found".into()).or_insert(0) += 1;
                break;
            }
            if self.viols.len() >= self.cfg.max_viol {
                *self.incomplete.entry("stopped after the maximum number of violations".into()).or_insert(0) += 1;
                break;
            }
        }
    }

    /// Give the older half of the pending paths to a new process, if a processor is free.
    fn donate(&mut self) -> bool {
        if !self.cfg.par.wanted() {
            return false;
        }
        self.sol.drain_log();
        if !self.cfg.par.fork() {
            // the parent keeps the newer half, and the path it has just taken
            let n = self.work.len() / 2;
            self.work.drain(..n.max(1));
            return false;
        }
        let n = (self.work.len() / 2).max(1);
        self.work.truncate(n);
        self.st = Stats::default();
        self.viols.clear();
        self.incomplete.clear();
        self.samples.clear();
        self.sol.reset_stats();
        self.nodes0 = cx().nodes.len();
        cx().stat_lin_decided = 0;
        true
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        let mut budget = 0u32;
        loop {
            st.steps += 1;
            self.st.insts += 1;
            if st.steps > self.cfg.max_steps {
                return Stop::Hang;
            }
            budget += 1;
            if budget > 1_000_000 {
                budget = 0;
                if self.start.elapsed().as_secs_f64() > self.cfg.max_time {
                    return Stop::Unsup("time limit inside a path".into());
                }
            }
            let (f, b, ip) = {
                let fr = st.frames.last().unwrap();
                (fr.f, fr.block, fr.ip)
            };
            let inst = &f.blocks[b as usize].insts[ip as usize];
            match self.step(st, inst) {
                Ok(Flow::Next) => st.frames.last_mut().unwrap().ip += 1,
                Ok(Flow::Jump(b)) => Self::enter(st, b),
                Ok(Flow::Called) => {
                    self.st.max_depth = self.st.max_depth.max(st.frames.len());
                    if st.frames.len() > 2000 {
                        return Stop::Viol("stack".into(), "call depth above 2000".into());
                    }
                }
                Ok(Flow::Returned) => {
                    if st.frames.is_empty() {
                        return Stop::Done;
                    }
                }
                Err(s) => return s,
            }
        }
    }

    fn set(st: &mut State, r: u32, v: Val) {
        let v = match v {
            Val::E(e) if st.pinned != 0 && cx().subset(cx().vset[e as usize], st.pinned) => {
                Val::I(cx().eval(e, &st.model))
            }
            v => v,
        };
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<Flow> {
        let fr = st.frames.pop().unwrap();
        for &a in fr.allocas.iter().rev() {
            st.mem.free(a);
            if a + 1 == st.mem.next {
                st.mem.next = a;
            }
        }
        if st.frames.is_empty() {
            return Ok(Flow::Returned);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            Self::set(st, d, v);
        }
        match fr.normal {
            Some(b) => Self::enter(st, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        Ok(Flow::Returned)
    }

    fn step(&mut self, st: &mut State, inst: &'static I) -> R<Flow> {
        macro_rules! o {
            ($x:expr) => {
                Self::op(st.frames.last().unwrap(), $x)
            };
        }
        match inst {
            I::Bin(op, w, d, a, b) => {
                let (a, b) = (o!(a), o!(b));
                if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                    if let Val::I(0) = b {
                        return Err(Stop::Viol("arith".into(), "division by zero".into()));
                    }
                }
                let v = bin(*op, *w, &a, &b);
                Self::set(st, *d, v);
            }
            I::VBin(op, w, d, a, b) => {
                let (a, b) = (o!(a), o!(b));
                if let (Val::A(x), Val::A(y)) = (&a, &b) {
                    let v = x.iter().zip(y.iter()).map(|(p, q)| bin(*op, *w, p, q)).collect();
                    Self::set(st, *d, Val::A(Rc::new(v)));
                }
            }
            I::ICmp(p, w, d, a, b) => {
                let (a, b) = (o!(a), o!(b));
                let v = icmp(*p, *w, &a, &b);
                Self::set(st, *d, v);
            }
            I::VICmp(p, w, d, a, b) => {
                let (a, b) = (o!(a), o!(b));
                if let (Val::A(x), Val::A(y)) = (&a, &b) {
                    let v = x.iter().zip(y.iter()).map(|(s, q)| icmp(*p, *w, s, q)).collect();
                    Self::set(st, *d, Val::A(Rc::new(v)));
                }
            }
            I::Cast(k, ft, tt, d, a) => {
                let a = o!(a);
                let v = match (ft, tt) {
                    (Ty::Vec(_, e1), Ty::Vec(_, e2)) if *k != CastK::Bit => {
                        if let Val::A(x) = &a {
                            let (w1, w2) = (ity(e1).unwrap(), ity(e2).unwrap());
                            Val::A(Rc::new(x.iter().map(|v| cast(*k, w1, w2, v)).collect()))
                        } else {
                            panic!()
                        }
                    }
                    (Ty::Vec(..), _) | (_, Ty::Vec(..)) => self.bitcast(ft, tt, &a)?,
                    _ => match (ity(ft), ity(tt)) {
                        (Some(w1), Some(w2)) if w1 <= 128 && w2 <= 128 => cast(*k, w1, w2, &a),
                        _ => return Err(Stop::Unsup(format!("cast {:?} {:?}", ft, tt))),
                    },
                };
                Self::set(st, *d, v);
            }
            I::Load(t, d, p) => {
                let a = o!(p);
                let v = self.load(st, t, &a)?;
                Self::set(st, *d, v);
            }
            I::Store(t, v, p) => {
                let (v, p) = (o!(v), o!(p));
                self.store(st, t, &p, &v)?;
            }
            I::Gep(d, b, off, var) => {
                let mut a = o!(b);
                if *off != 0 {
                    a = bin(Op::Add, 64, &a, &Val::I(*off as u64 as u128));
                }
                for (ix, iw, stride) in var {
                    let i = o!(ix);
                    let i = if *iw < 64 {
                        cast(CastK::SExt, *iw, 64, &i)
                    } else if *iw > 64 {
                        cast(CastK::Trunc, *iw, 64, &i)
                    } else {
                        i
                    };
                    let s = if *stride == 1 { i } else { bin(Op::Mul, 64, &i, &Val::I(*stride as u128)) };
                    a = bin(Op::Add, 64, &a, &s);
                }
                Self::set(st, *d, a);
            }
            I::Call(c) => return self.call(st, c),
            I::Br(b) => return Ok(Flow::Jump(*b)),
            I::CondBr(c, a, b) => {
                self.st.branches += 1;
                match o!(c) {
                    Val::I(v) => return Ok(Flow::Jump(if v != 0 { *a } else { *b })),
                    Val::E(e) => {
                        let (v, other) = self.decide(st, e)?;
                        if let Some(mut os) = other {
                            Self::enter(&mut os, if v { *b } else { *a });
                            self.work.push(os);
                        }
                        return Ok(Flow::Jump(if v { *a } else { *b }));
                    }
                    _ => panic!(),
                }
            }
            I::Switch(w, v, dflt, cases) => {
                self.st.branches += 1;
                let e = match o!(v) {
                    Val::I(x) => {
                        let t = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*dflt);
                        return Ok(Flow::Jump(t));
                    }
                    Val::E(e) => e,
                    _ => panic!(),
                };
                let e = self.subst(st, e);
                let x = cx();
                if let Some(k) = x.as_const(e) {
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*dflt);
                    return Ok(Flow::Jump(t));
                }
                let _ = w;
                self.st.sym_branches += 1;
                // group by target
                let mut groups: Vec<(u32, E)> = vec![];
                let mut none = x.tru();
                for (k, t) in cases {
                    let c = x.eqk(e, *k);
                    let nc = x.not(c);
                    none = x.and(none, nc);
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *t) {
                        g.1 = x.bin(Op::Or, g.1, c);
                    } else {
                        groups.push((*t, c));
                    }
                }
                if let Some(g) = groups.iter_mut().find(|g| g.0 == *dflt) {
                    g.1 = x.bin(Op::Or, g.1, none);
                } else {
                    groups.push((*dflt, none));
                }
                let mut mine = None;
                for (t, c) in &groups {
                    if x.eval(*c, &st.model) != 0 {
                        mine = Some((*t, *c));
                        break;
                    }
                }
                let mine = mine.unwrap();
                for (t, c) in &groups {
                    if *t == mine.0 {
                        continue;
                    }
                    match self.sol.check(&st.pc, *c) {
                        Res::Unsat => {}
                        Res::Unknown => return Err(Stop::Unsup("solver unknown on switch".into())),
                        Res::Sat(m) => {
                            let mut os = st.clone();
                            os.model = Self::with_model(&st.model, &m);
                            Self::add_pc(&mut os, *c);
                            Self::enter(&mut os, *t);
                            self.st.forks += 1;
                            self.work.push(os);
                        }
                    }
                }
                Self::add_pc(st, mine.1);
                return Ok(Flow::Jump(mine.0));
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|v| o!(v));
                return self.ret(st, v);
            }
            I::Select(t, vec, d, c, a, b) => {
                let (c, a, b) = (o!(c), o!(a), o!(b));
                let v = if *vec {
                    match (&c, &a, &b, t) {
                        (Val::A(c), Val::A(a), Val::A(b), Ty::Vec(_, et)) => Val::A(Rc::new(
                            (0..c.len())
                                .map(|i| match &c[i] {
                                    Val::I(k) => {
                                        if *k != 0 {
                                            a[i].clone()
                                        } else {
                                            b[i].clone()
                                        }
                                    }
                                    Val::E(e) => ite(*e, &a[i], &b[i], et),
                                    _ => panic!(),
                                })
                                .collect(),
                        )),
                        _ => return Err(Stop::Unsup("vector select".into())),
                    }
                } else {
                    match c {
                        Val::I(k) => {
                            if k != 0 {
                                a
                            } else {
                                b
                            }
                        }
                        Val::E(e) => {
                            let e = self.subst(st, e);
                            match cx().as_const(e) {
                                Some(k) => {
                                    if k != 0 {
                                        a
                                    } else {
                                        b
                                    }
                                }
                                None => ite(e, &a, &b, t),
                            }
                        }
                        _ => panic!(),
                    }
                };
                Self::set(st, *d, v);
            }
            I::ExtractValue(d, a, ix) => {
                let mut v = o!(a);
                for &i in ix {
                    v = match v {
                        Val::A(x) => x[i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                Self::set(st, *d, v);
            }
            I::InsertValue(d, a, v, ix) => {
                fn ins(a: &mut Val, v: Val, ix: &[u32]) {
                    if ix.is_empty() {
                        *a = v;
                        return;
                    }
                    match a {
                        Val::A(x) => ins(&mut Rc::make_mut(x)[ix[0] as usize], v, &ix[1..]),
                        _ => panic!("insertvalue"),
                    }
                }
                let mut a = o!(a);
                let v = o!(v);
                ins(&mut a, v, ix);
                Self::set(st, *d, a);
            }
            I::ExtractElem(d, a, i) => {
                let (a, i) = (o!(a), o!(i));
                let i = self.conc(st, &i)? as usize;
                if let Val::A(x) = a {
                    Self::set(st, *d, x[i].clone());
                }
            }
            I::InsertElem(d, a, v, i) => {
                let (mut a, v, i) = (o!(a), o!(v), o!(i));
                let i = self.conc(st, &i)? as usize;
                if let Val::A(x) = &mut a {
                    Rc::make_mut(x)[i] = v;
                }
                Self::set(st, *d, a);
            }
            I::Shuffle(d, a, b, m) => {
                let (a, b) = (o!(a), o!(b));
                if let (Val::A(x), Val::A(y)) = (&a, &b) {
                    let v = m
                        .iter()
                        .map(|i| match i {
                            None => Val::I(0),
                            Some(i) => {
                                let i = *i as usize;
                                if i < x.len() {
                                    x[i].clone()
                                } else {
                                    y[i - x.len()].clone()
                                }
                            }
                        })
                        .collect();
                    Self::set(st, *d, Val::A(Rc::new(v)));
                }
            }
            I::Alloca(d, sz, n) => {
                let n = o!(n);
                let n = self.conc(st, &n)? as u64;
                let a = self.alloc(st, sz * n, false)?;
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                Self::set(st, *d, Val::I(a as u128));
            }
            I::Rmw(op, w, d, p, v) => {
                let (p, v) = (o!(p), o!(v));
                let t = int_ty(*w);
                let old = self.load(st, t, &p)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => bin(Op::Add, *w, &old, &v),
                    "sub" => bin(Op::Sub, *w, &old, &v),
                    "and" => bin(Op::And, *w, &old, &v),
                    "or" => bin(Op::Or, *w, &old, &v),
                    "xor" => bin(Op::Xor, *w, &old, &v),
                    "umax" => match icmp(Pred::Ugt, *w, &old, &v) {
                        Val::I(c) => if c != 0 { old.clone() } else { v },
                        Val::E(c) => ite(c, &old, &v, t),
                        _ => panic!(),
                    },
                    "umin" => match icmp(Pred::Ult, *w, &old, &v) {
                        Val::I(c) => if c != 0 { old.clone() } else { v },
                        Val::E(c) => ite(c, &old, &v, t),
                        _ => panic!(),
                    },
                    "nand" => {
                        let a = bin(Op::And, *w, &old, &v);
                        bin(Op::Xor, *w, &a, &Val::I(mask(*w)))
                    }
                    _ => return Err(Stop::Unsup(format!("atomicrmw {}", op))),
                };
                self.store(st, t, &p, &new)?;
                if *d != u32::MAX {
                    Self::set(st, *d, old);
                }
            }
            I::CmpXchg(w, d, p, c, n) => {
                let (p, c, n) = (o!(p), o!(c), o!(n));
                let t = int_ty(*w);
                let old = self.load(st, t, &p)?;
                let eq = icmp(Pred::Eq, *w, &old, &c);
                let eq = self.conc(st, &eq)?;
                if eq != 0 {
                    self.store(st, t, &p, &n)?;
                }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::I(eq)])));
            }
            I::Unreachable => return Err(Stop::Viol("unreachable".into(), "unreachable instruction executed".into())),
            I::Nop => {}
            I::Copy(d, a) => {
                let a = o!(a);
                Self::set(st, *d, a);
            }
            I::Bad(s) => return Err(Stop::Unsup(format!("instruction {}", &s[..s.len().min(120)]))),
        }
        Ok(Flow::Next)
    }

    fn bitcast(&mut self, ft: T, tt: T, a: &Val) -> R<Val> {
        fn flat(t: T, v: &Val) -> Option<Val> {
            match (t, v) {
                (Ty::Vec(n, et), Val::A(x)) => {
                    let w = ity(et)?;
                    if n * w > 128 {
                        return None;
                    }
                    let mut e = to_e(&x[0], w);
                    for v in &x[1..] {
                        let h = to_e(v, w);
                        e = cx().concat(h, e);
                    }
                    Some(from_e(e))
                }
                _ => Some(v.clone()),
            }
        }
        let v = match flat(ft, a) {
            Some(v) => v,
            None => return Err(Stop::Unsup(format!("bitcast {:?} {:?}", ft, tt))),
        };
        match tt {
            Ty::Vec(n, et) => {
                let w = ity(et).unwrap();
                Ok(Val::A(Rc::new(
                    (0..*n)
                        .map(|i| match &v {
                            Val::I(x) => Val::I((x >> (i * w)) & mask(w)),
                            Val::E(e) => from_e(cx().extract(*e, i * w, w)),
                            _ => panic!(),
                        })
                        .collect(),
                )))
            }
            _ => Ok(v),
        }
    }

    fn panic_msg(&mut self, st: &State, args: &[Val]) -> String {
        let mut s = String::new();
        let c: Vec<u64> = args.iter().map(|v| ai(v).unwrap_or(0) as u64).collect();
        // core::fmt::Arguments: (template, args) with args odd => static string of length args >> 1
        if c.len() >= 2 && c[1] & 1 == 1 && (c[1] >> 1) < 4096 {
            if let Ok(m) = self.string(st, c[0], c[1] >> 1) {
                s = m;
            }
        }
        if let Some(&l) = c.last() {
            if let Ok(o) = self.obj_for_read(st, (l >> 32) as u32) {
                let off = (l & 0xffff_ffff) as usize;
                if o.size() >= off as u64 + 24 {
                    let p = ai(&Self::load_int(&o, off, 64)).unwrap_or(0) as u64;
                    let n = ai(&Self::load_int(&o, off + 8, 64)).unwrap_or(0) as u64;
                    let line = ai(&Self::load_int(&o, off + 16, 32)).unwrap_or(0);
                    if n < 4096 {
                        if let Ok(f) = self.string(st, p, n) {
                            s = format!("panic at {}:{} {}", f, line, s);
                        }
                    }
                }
            }
        }
        if s.is_empty() {
            s = "panic".into();
        }
        s
    }

    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<Flow> {
        let fr = st.frames.last().unwrap();
        let id = match &c.callee {
            Callee::Sym(id) => *id,
            Callee::Ind(o) => {
                let a = Self::op(fr, o);
                let a = self.conc(st, &a)? as u64;
                let id = (a >> 32) as u32;
                if a & 0xffff_ffff != 0 || id == 0 || id as usize >= self.m.names.len() {
                    return Err(Stop::Viol("memory".into(), format!("call through invalid pointer {:#x}", a)));
                }
                id
            }
            Callee::Asm(s) => {
                if s.is_empty() {
                    if let Some(d) = c.dst {
                        if c.args.len() == 1 {
                            let v = Self::op(fr, &c.args[0].0);
                            Self::set(st, d, v);
                        } else {
                            return Err(Stop::Unsup("asm".into()));
                        }
                    }
                    return Ok(Flow::Next);
                }
                if s.contains("cpuid") {
                    if let Some(d) = c.dst {
                        Self::set(st, d, Val::zero(c.ret));
                    }
                    return Ok(Flow::Next);
                }
                return Err(Stop::Unsup(format!("asm {}", s)));
            }
        };
        let fr = st.frames.last().unwrap();
        let args: Vec<Val> = c.args.iter().map(|(o, _)| Self::op(fr, o)).collect();
        let h = match self.handlers[id as usize] {
            Some(h) => h,
            None => {
                let h = self.classify(id);
                self.handlers[id as usize] = Some(h);
                h
            }
        };
        if h == H::None {
            let f = match self.m.func(id) {
                Some(f) => f,
                None => return Err(Stop::Unsup(format!("call to {}", self.m.names[id as usize]))),
            };
            if self.cfg.trace {
                eprintln!("{:w$}> {}", "", f.name, w = st.frames.len());
            }
            if args.len() < f.nparams as usize {
                return Err(Stop::Unsup(format!("argument count of {}", f.name)));
            }
            let mut regs = args;
            regs.truncate(f.nparams as usize);
            regs.resize(f.nregs as usize, Val::I(0));
            f.blocks[0].visited.set(true);
            st.frames.push(Frame { f, block: 0, ip: 0, regs, allocas: vec![], dst: c.dst, normal: c.normal });
            return Ok(Flow::Called);
        }
        let v = self.native(st, h, id, c, args)?;
        if let (Some(d), Some(v)) = (c.dst, v) {
            Self::set(st, d, v);
        }
        match c.normal {
            Some(b) => Ok(Flow::Jump(b)),
            None => Ok(Flow::Next),
        }
    }

    fn var(&mut self, st: &mut State, w: u32, name: String) -> E {
        let k = (st.nvar, w);
        st.nvar += 1;
        *self.vars.entry(k).or_insert_with(|| cx().new_var(name, w))
    }

    fn native(&mut self, st: &mut State, h: H, id: u32, c: &'static CallI, a: Vec<Val>) -> R<Option<Val>> {
        let w0 = c.args.get(0).and_then(|x| ity(x.1)).unwrap_or(64);
        let vecarg = matches!(c.args.get(0).map(|x| x.1), Some(Ty::Vec(..)));
        if vecarg {
            // lanewise
            if let Some((_, Ty::Vec(n, et))) = c.args.get(0) {
                let w = ity(et).unwrap_or(64);
                let mut out = vec![];
                for i in 0..*n as usize {
                    let la: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(x) => x[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    match self.scalar(h, w, &la) {
                        Some(v) => out.push(v),
                        None => return Err(Stop::Unsup(format!("vector intrinsic {}", self.m.names[id as usize]))),
                    }
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
        }
        if let Some(v) = self.scalar(h, w0, &a) {
            return Ok(Some(v));
        }
        let x = cx();
        match h {
            H::Panic => {
                if st.panic_ok {
                    return Err(Stop::Done);
                }
                let m = self.panic_msg(st, &a);
                Err(Stop::Viol("panic".into(), m))
            }
            H::Alloc | H::AllocZ | H::Malloc => {
                let n = self.conc(st, &a[0])? as u64;
                Ok(Some(Val::I(self.alloc(st, n, true)? as u128)))
            }
            H::Calloc => {
                let n = self.conc(st, &a[0])? as u64 * self.conc(st, &a[1])? as u64;
                Ok(Some(Val::I(self.alloc(st, n, true)? as u128)))
            }
            H::PosixMemalign => {
                let n = self.conc(st, &a[2])? as u64;
                let p = self.alloc(st, n, true)?;
                self.store(st, &PTR, &a[0], &Val::I(p as u128))?;
                Ok(Some(Val::I(0)))
            }
            H::Dealloc | H::Free => {
                let p = self.conc(st, &a[0])? as u64;
                if p != 0 {
                    if h == H::Dealloc {
                        let n = self.conc(st, &a[1])? as u64;
                        if let Some(o) = st.mem.get((p >> 32) as u32) {
                            if o.size() != n {
                                return Err(Stop::Viol("memory".into(), "dealloc with wrong size".into()));
                            }
                        }
                    }
                    self.dealloc(st, p)?;
                }
                Ok(Some(Val::I(0)))
            }
            H::Realloc | H::CRealloc => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[if h == H::Realloc { 3 } else { 1 }])? as u64;
                let q = self.alloc(st, n, true)?;
                if p != 0 {
                    let os = match st.mem.get((p >> 32) as u32) {
                        Some(o) => o.size(),
                        None => return Err(Stop::Viol("memory".into(), "realloc of invalid pointer".into())),
                    };
                    self.memcpy(st, q, p, os.min(n))?;
                    self.dealloc(st, p)?;
                }
                Ok(Some(Val::I(q as u128)))
            }
            H::MemCpy => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return Ok(Some(a[0].clone()));
                }
                let d = self.conc(st, &a[0])? as u64;
                let s = self.conc(st, &a[1])? as u64;
                self.memcpy(st, d, s, n)?;
                Ok(Some(a[0].clone()))
            }
            H::MemSet => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return Ok(Some(a[0].clone()));
                }
                let d = self.conc(st, &a[0])? as u64;
                let v = match &a[1] {
                    Val::E(e) => from_e(x.trunc(*e, 8)),
                    v => v.clone(),
                };
                self.memset(st, d, &v, n)?;
                Ok(Some(a[0].clone()))
            }
            H::MemCmp => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return Ok(Some(Val::I(0)));
                }
                let p = self.conc(st, &a[0])? as u64;
                let q = self.conc(st, &a[1])? as u64;
                let (b1, b2) = (self.bytes(st, p, n)?, self.bytes(st, q, n)?);
                let eqonly = self.m.names[id as usize] == "bcmp";
                let mut r = x.konst(0, 32);
                let one = x.konst(1, 32);
                let mone = x.konst(mask(32), 32);
                if eqonly {
                    let mut all = x.tru();
                    for i in 0..n as usize {
                        let e = x.eq(b1[i], b2[i]);
                        all = x.and(all, e);
                        if x.as_const(all) == Some(0) {
                            break;
                        }
                    }
                    return Ok(Some(from_e(x.ite(all, r, one))));
                }
                for i in (0..n as usize).rev() {
                    let e = x.eq(b1[i], b2[i]);
                    let l = x.bin(Op::Ult, b1[i], b2[i]);
                    let ne = x.ite(l, mone, one);
                    r = x.ite(e, r, ne);
                }
                Ok(Some(from_e(r)))
            }
            H::StrLen => {
                let p = self.conc(st, &a[0])? as u64;
                let o = self.obj_for_read(st, (p >> 32) as u32)?;
                let off = (p & 0xffff_ffff) as usize;
                for i in off..o.data.len() {
                    let end = if o.is_conc(i, 1) {
                        o.data[i] == 0
                    } else {
                        let c = cx().eqk(o.byte(i), 0);
                        self.concretize(st, c)? == 1
                    };
                    if end {
                        return Ok(Some(Val::I((i - off) as u128)));
                    }
                }
                Err(Stop::Viol("memory".into(), "strlen out of bounds".into()))
            }
            H::Zero => Ok(Some(Val::zero(c.ret))),
            H::NegOne => Ok(Some(Val::I(mask(ity(c.ret).unwrap_or(64))))),
            H::Nop => Ok(None),
            H::Abort | H::Trap => Err(Stop::Viol("abort".into(), format!("{} called", self.m.names[id as usize]))),
            H::RandomFill => {
                let n = self.conc(st, &a[1])? as u64;
                let p = self.conc(st, &a[0])? as u64;
                self.memset(st, p, &Val::I(0x5a), n)?;
                Ok(Some(Val::I(n as u128)))
            }
            H::KeyCreate => {
                let p = self.conc(st, &a[0])? as u64;
                self.memset(st, p, &Val::I(1), 4)?;
                Ok(Some(Val::I(0)))
            }
            H::Clock => {
                // time stands still
                let p = self.conc(st, &a[1])? as u64;
                self.memset(st, p, &Val::I(0), 16)?;
                Ok(Some(Val::I(0)))
            }
            H::Errno => {
                let id = st.mem.base - 1;
                if st.mem.get(id).is_none() {
                    st.mem.put_global(id, Rc::new(Obj::new(8, false)));
                }
                Ok(Some(Val::I((id as u128) << 32)))
            }
            H::Identity | H::Expect => Ok(Some(a[0].clone())),
            H::ZsSym => {
                // (ptr, len, name, nlen)
                let n = self.conc(st, &a[1])? as u64;
                let p = self.conc(st, &a[0])? as u64;
                let (np, nl) = (self.conc(st, &a[2])? as u64, self.conc(st, &a[3])? as u64);
                let name = self.string(st, np, nl)?;
                let mut es = vec![];
                for i in 0..n {
                    es.push(self.var(st, 8, format!("{}[{}]", name, i)));
                }
                if n > 0 {
                    let off = (p & 0xffff_ffff) as usize;
                    let o = self.obj_for_write(st, (p >> 32) as u32)?;
                    if off as u64 + n > o.size() {
                        return Err(Stop::Unsup("zs_sym out of bounds".into()));
                    }
                    for (i, &e) in es.iter().enumerate() {
                        o.set(off + i, e);
                    }
                }
                st.inputs.push(Input::Bytes(Rc::new(es), name));
                Ok(None)
            }
            H::ZsInt => {
                // (lo, hi, name, nlen) -> u64 in [lo, hi]
                let lo = self.conc(st, &a[0])?;
                let hi = self.conc(st, &a[1])?;
                let (np, nl) = (self.conc(st, &a[2])? as u64, self.conc(st, &a[3])? as u64);
                let name = self.string(st, np, nl)?;
                if hi < lo {
                    return Err(Stop::Dead);
                }
                let r = hi - lo;
                let e = if r == 0 {
                    x.konst(lo, 64)
                } else {
                    let nb = 128 - r.leading_zeros();
                    let v = self.var(st, nb, name.clone());
                    if r != mask(nb) {
                        let k = x.konst(r, nb);
                        let c = x.bin(Op::Ule, v, k);
                        // 0 satisfies it, and a variable is fresh on its path
                        let md = x.eval(c, &st.model);
                        if md == 0 {
                            st.model = Self::with_model(&st.model, &[(var_id(v), 0)]);
                        }
                        Self::add_pc(st, c);
                    }
                    let z = x.zext(v, 64);
                    let k = x.konst(lo, 64);
                    x.bin(Op::Add, z, k)
                };
                st.inputs.push(Input::Int(e, name));
                Ok(Some(from_e(e)))
            }
            H::ZsPick => {
                // (n, name, nlen) -> 0..n, explored exhaustively
                let n = self.conc(st, &a[0])? as u64;
                let (np, nl) = (self.conc(st, &a[1])? as u64, self.conc(st, &a[2])? as u64);
                let name = self.string(st, np, nl)?;
                if n == 0 {
                    return Err(Stop::Dead);
                }
                let k = st.npick as usize;
                st.npick += 1;
                if let Some(&f) = self.cfg.force.get(k) {
                    if f != u64::MAX {
                        if f >= n {
                            return Err(Stop::Dead);
                        }
                        st.inputs.push(Input::Pick(f, name));
                        return Ok(Some(Val::I(f as u128)));
                    }
                }
                for v in (1..n).rev() {
                    let mut os = st.clone();
                    os.inputs.push(Input::Pick(v, name.clone()));
                    if let Some(d) = c.dst {
                        Self::set(&mut os, d, Val::I(v as u128));
                    }
                    match c.normal {
                        Some(b) => Self::enter(&mut os, b),
                        None => os.frames.last_mut().unwrap().ip += 1,
                    }
                    self.st.forks += 1;
                    self.work.push(os);
                }
                st.inputs.push(Input::Pick(0, name));
                Ok(Some(Val::I(0)))
            }
            H::ZsAssume => {
                let e = match &a[0] {
                    Val::I(0) => return Err(Stop::Dead),
                    Val::I(_) => return Ok(None),
                    Val::E(e) => x.eqk(*e, 0),
                    _ => panic!(),
                };
                let e = x.not(e);
                let e = self.subst(st, e);
                match x.as_const(e) {
                    Some(0) => return Err(Stop::Dead),
                    Some(_) => return Ok(None),
                    None => {}
                }
                if x.eval(e, &st.model) == 0 {
                    match self.sol.check(&st.pc, e) {
                        Res::Unsat => return Err(Stop::Dead),
                        Res::Unknown => return Err(Stop::Unsup("solver unknown on assumption".into())),
                        Res::Sat(m) => st.model = Self::with_model(&st.model, &m),
                    }
                }
                Self::add_pc(st, e);
                Ok(None)
            }
            H::ZsAssert => {
                let (np, nl) = (self.conc(st, &a[1])? as u64, self.conc(st, &a[2])? as u64);
                let msg = self.string(st, np, nl)?;
                let ent = self.st.asserts.entry(msg.clone()).or_insert((0, 0));
                ent.0 += 1;
                let e = match &a[0] {
                    Val::I(0) => {
                        return Err(Stop::Viol("assert".into(), msg));
                    }
                    Val::I(_) => return Ok(None),
                    Val::E(e) => x.eqk(*e, 0),
                    _ => panic!(),
                };
                ent.1 += 1;
                let bad = self.subst(st, e);
                let good = x.not(bad);
                match x.as_const(bad) {
                    Some(0) => return Ok(None),
                    Some(_) => return Err(Stop::Viol("assert".into(), msg)),
                    None => {}
                }
                match self.sol.check(&st.pc, bad) {
                    Res::Unsat => {
                        let o = x.tru();
                        if x.set_size(x.vset[good as usize]) <= 3 {
                            Self::add_eq(st, good, o);
                        }
                        Ok(None)
                    }
                    Res::Unknown => Err(Stop::Unsup(format!("solver unknown on assertion '{}'", msg))),
                    Res::Sat(m) => {
                        let md = Self::with_model(&st.model, &m);
                        self.violation(st, "assert".into(), msg, md);
                        // go on with the inputs for which it holds
                        match self.sol.check(&st.pc, good) {
                            Res::Sat(m) => {
                                st.model = Self::with_model(&st.model, &m);
                                Self::add_pc(st, good);
                                Ok(None)
                            }
                            Res::Unsat => Err(Stop::Dead),
                            Res::Unknown => Err(Stop::Unsup("solver unknown".into())),
                        }
                    }
                }
            }
            H::ZsFail => {
                let (np, nl) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                let msg = self.string(st, np, nl)?;
                self.st.asserts.entry(msg.clone()).or_insert((0, 0)).0 += 1;
                Err(Stop::Viol("assert".into(), msg))
            }
            H::ZsReach => {
                let (np, nl) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                let msg = self.string(st, np, nl)?;
                *self.st.reach.entry(msg).or_insert(0) += 1;
                Ok(None)
            }
            H::ZsObs => {
                let t = self.conc(st, &a[0])? as u64;
                st.obs.push(Obs::Int(t, a[1].clone()));
                Ok(None)
            }
            H::ZsObsBytes => {
                let t = self.conc(st, &a[0])? as u64;
                let p = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                let b = self.bytes(st, p, n)?;
                st.obs.push(Obs::Bytes(t, Rc::new(b)));
                Ok(None)
            }
            H::ZsConc => {
                let v = self.conc(st, &a[0])?;
                Ok(Some(Val::I(v)))
            }
            H::ZsIsSymbolic => Ok(Some(Val::I(1))),
            H::ZsLiveHeap => Ok(Some(Val::I(st.mem.live_heap() as u128))),
            H::ZsAllowPanic => {
                st.panic_ok = self.conc(st, &a[0])? & 1 == 1;
                Ok(None)
            }
            H::ZsTag => {
                st.tag = self.conc(st, &a[0])? as u64;
                Ok(None)
            }
            _ => Err(Stop::Unsup(format!("call to {}", self.m.names[id as usize]))),
        }
    }

    fn scalar(&mut self, h: H, w: u32, a: &[Val]) -> Option<Val> {
        let x = cx();
        Some(match h {
            H::Fsh(left) => {
                if let (Val::I(p), Val::I(q), Val::I(s)) = (&a[0], &a[1], &a[2]) {
                    let s = (*s % w as u128) as u32;
                    let s = if left { s } else { (w - s) % w };
                    let same_as_right_zero = !left && (ai(&a[2]).unwrap() % w as u128) == 0;
                    if same_as_right_zero {
                        return Some(Val::I(*q));
                    }
                    if s == 0 {
                        return Some(Val::I(*p));
                    }
                    return Some(Val::I(((p << s) | (q >> (w - s))) & mask(w)));
                }
                let s = ai(&a[2])?;
                let s = (s % w as u128) as u32;
                let (p, q) = (to_e(&a[0], w), to_e(&a[1], w));
                if s == 0 {
                    return Some(from_e(if left { p } else { q }));
                }
                let s = if left { s } else { w - s };
                // p[0..w-s] ++ q[w-s..w]
                let hi = x.extract(p, 0, w - s);
                let lo = x.extract(q, w - s, s);
                from_e(x.concat(hi, lo))
            }
            H::MinMax(p) => match icmp(p, w, &a[0], &a[1]) {
                Val::I(c) => {
                    if c != 0 {
                        a[0].clone()
                    } else {
                        a[1].clone()
                    }
                }
                Val::E(c) => {
                    let (p, q) = (to_e(&a[0], w), to_e(&a[1], w));
                    from_e(x.ite(c, p, q))
                }
                _ => return None,
            },
            H::Ovf(op, signed) => {
                let r = bin(op, w, &a[0], &a[1]);
                let ov = if !signed {
                    match op {
                        // either operand does: always the same one
                        Op::Add => {
                            let k = match (&a[0], &a[1]) {
                                (Val::I(_), _) => 0,
                                (_, Val::I(_)) => 1,
                                (Val::E(x), Val::E(y)) => (x > y) as usize,
                                _ => 0,
                            };
                            icmp(Pred::Ult, w, &r, &a[k])
                        }
                        Op::Sub => icmp(Pred::Ult, w, &a[0], &a[1]),
                        _ => {
                            if w > 64 {
                                match (&a[0], &a[1]) {
                                    (Val::I(p), Val::I(q)) => Val::I(p.checked_mul(*q).is_none() as u128),
                                    _ => return None,
                                }
                            } else {
                                let (p, q) =
                                    (cast(CastK::ZExt, w, 2 * w, &a[0]), cast(CastK::ZExt, w, 2 * w, &a[1]));
                                let m = bin(Op::Mul, 2 * w, &p, &q);
                                icmp(Pred::Ugt, 2 * w, &m, &Val::I(mask(w)))
                            }
                        }
                    }
                } else {
                    if w > 64 {
                        return None;
                    }
                    let (p, q) = (cast(CastK::SExt, w, 2 * w, &a[0]), cast(CastK::SExt, w, 2 * w, &a[1]));
                    let m = bin(op, 2 * w, &p, &q);
                    let s = cast(CastK::SExt, w, 2 * w, &r);
                    icmp(Pred::Ne, 2 * w, &m, &s)
                };
                Val::A(Rc::new(vec![r, ov]))
            }
            H::Sat(add, signed) => {
                if signed {
                    return None;
                }
                if add {
                    let r = bin(Op::Add, w, &a[0], &a[1]);
                    match icmp(Pred::Ult, w, &r, &a[0]) {
                        Val::I(c) => {
                            if c != 0 {
                                Val::I(mask(w))
                            } else {
                                r
                            }
                        }
                        Val::E(c) => {
                            let m = x.konst(mask(w), w);
                            let r = to_e(&r, w);
                            from_e(x.ite(c, m, r))
                        }
                        _ => return None,
                    }
                } else {
                    let r = bin(Op::Sub, w, &a[0], &a[1]);
                    match icmp(Pred::Ult, w, &a[0], &a[1]) {
                        Val::I(c) => {
                            if c != 0 {
                                Val::I(0)
                            } else {
                                r
                            }
                        }
                        Val::E(c) => {
                            let m = x.konst(0, w);
                            let r = to_e(&r, w);
                            from_e(x.ite(c, m, r))
                        }
                        _ => return None,
                    }
                }
            }
            H::Ctpop => match &a[0] {
                Val::I(v) => Val::I(v.count_ones() as u128),
                Val::E(e) => {
                    let mut s = x.konst(0, w);
                    for i in 0..w {
                        let b = x.extract(*e, i, 1);
                        let b = x.zext(b, w);
                        s = x.bin(Op::Add, s, b);
                    }
                    from_e(s)
                }
                _ => return None,
            },
            H::Cttz => match &a[0] {
                Val::I(v) => Val::I(if *v == 0 { w as u128 } else { v.trailing_zeros() as u128 }),
                Val::E(e) => {
                    let mut r = x.konst(w as u128, w);
                    for i in (0..w).rev() {
                        let b = x.extract(*e, i, 1);
                        let k = x.konst(i as u128, w);
                        r = x.ite(b, k, r);
                    }
                    from_e(r)
                }
                _ => return None,
            },
            H::Ctlz => match &a[0] {
                Val::I(v) => Val::I(if *v == 0 { w as u128 } else { (v.leading_zeros() - (128 - w)) as u128 }),
                Val::E(e) => {
                    let mut r = x.konst(w as u128, w);
                    for i in 0..w {
                        let b = x.extract(*e, i, 1);
                        let k = x.konst((w - 1 - i) as u128, w);
                        r = x.ite(b, k, r);
                    }
                    from_e(r)
                }
                _ => return None,
            },
            H::Bswap => {
                let n = w / 8;
                match &a[0] {
                    Val::I(v) => {
                        let mut r = 0u128;
                        for i in 0..n {
                            r = (r << 8) | ((v >> (8 * i)) & 0xff);
                        }
                        Val::I(r)
                    }
                    Val::E(e) => {
                        let mut r = x.extract(*e, 0, 8);
                        for i in 1..n {
                            let b = x.extract(*e, 8 * i, 8);
                            r = x.concat(r, b);
                        }
                        from_e(r)
                    }
                    _ => return None,
                }
            }
            H::BitRev => {
                let e = to_e(&a[0], w);
                let mut r = x.extract(e, 0, 1);
                for i in 1..w {
                    let b = x.extract(e, i, 1);
                    r = x.concat(r, b);
                }
                from_e(r)
            }
            H::Abs => {
                let e = to_e(&a[0], w);
                let z = x.konst(0, w);
                let n = x.bin(Op::Sub, z, e);
                let c = x.bin(Op::Slt, e, z);
                from_e(x.ite(c, n, e))
            }
            H::Cmp3(signed) => {
                // result width: i8 in practice
                let (lt, gt) = if signed { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let l = icmp(lt, w, &a[0], &a[1]);
                let g = icmp(gt, w, &a[0], &a[1]);
                let (l, g) = (to_e(&l, 1), to_e(&g, 1));
                let (m, z, o) = (x.konst(255, 8), x.konst(0, 8), x.konst(1, 8));
                let t = x.ite(g, o, z);
                from_e(x.ite(l, m, t))
            }
            _ => return None,
        })
    }

    // ------------------------------------------------------------ reporting
    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for fr in st.frames.iter().rev().take(24) {
            let d = fr.f.blocks[fr.block as usize].dbg.get(fr.ip as usize).copied().unwrap_or(0);
            let loc = self.loc(d).map(|(f, l)| format!("{}:{}", f, l)).unwrap_or_default();
            v.push(format!("{} {}", fr.f.name, loc));
        }
        v
    }
    pub fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
        let mut from = 0;
        loop {
            let p = s[from..].find(k)? + from;
            let pb = s.as_bytes();
            if p > 0 && (pb[p - 1] == b' ' || pb[p - 1] == b'(') {
                let r = &s[p + k.len()..];
                if let Some(r2) = r.strip_prefix('"') {
                    return Some(&r2[..r2.find('"')?]);
                }
                let e = r.find([',', ')']).unwrap_or(r.len());
                return Some(&r[..e]);
            }
            from = p + 1;
        }
    }
    fn md(&self, s: &str) -> Option<&'static str> {
        self.m.meta.get(&s.strip_prefix('!')?.parse::<u32>().ok()?).copied()
    }
    /// (file, line) of a DILocation
    pub fn loc(&self, id: u32) -> Option<(String, u32)> {
        if id == 0 {
            return None;
        }
        let t = self.m.meta.get(&id)?;
        let line: u32 = Self::field(t, "line: ").and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut scope = self.md(Self::field(t, "scope: ")?)?;
        for _ in 0..64 {
            if let Some(f) = Self::field(scope, "file: ") {
                let f = self.md(f)?;
                let name = Self::field(f, "filename: ")?.to_string();
                let dir = Self::field(f, "directory: ").unwrap_or("");
                let name = if name.starts_with('/') { name } else { format!("{}/{}", dir, name) };
                return Some((name, line));
            }
            scope = self.md(Self::field(scope, "scope: ")?)?;
        }
        None
    }
    pub fn func_of(&self, id: u32) -> Option<String> {
        let t = self.m.meta.get(&id)?;
        let mut scope = self.md(Self::field(t, "scope: ")?)?;
        for _ in 0..64 {
            if scope.contains("DISubprogram(") {
                let n = Self::field(scope, "name: ")?.to_string();
                let mut path = vec![n];
                let mut s = scope;
                for _ in 0..20 {
                    match Self::field(s, "scope: ").and_then(|x| self.md(x)) {
                        Some(p) => {
                            if let Some(n) = Self::field(p, "name: ") {
                                path.push(n.to_string());
                            }
                            s = p;
                        }
                        None => break,
                    }
                }
                path.reverse();
                return Some(path.join("::"));
            }
            scope = self.md(Self::field(scope, "scope: ")?)?;
        }
        None
    }

    fn inputs_text(&self, st: &State, md: &Model) -> (String, Vec<String>) {
        let x = cx();
        let mut s = String::new();
        let mut h = vec![];
        for i in &st.inputs {
            match i {
                Input::Bytes(es, n) => {
                    let hex: String = es.iter().map(|&e| format!("{:02x}", x.eval(e, md))).collect();
                    s.push_str(&format!("B {}\n", hex));
                    h.push(format!("{}=0x{}", n, hex));
                }
                Input::Int(e, n) => {
                    let v = x.eval(*e, md);
                    s.push_str(&format!("I {}\n", v));
                    h.push(format!("{}={}", n, v));
                }
                Input::Pick(v, n) => {
                    s.push_str(&format!("I {}\n", v));
                    h.push(format!("{}={}", n, v));
                }
            }
        }
        (s, h)
    }
    fn violation(&mut self, st: &State, kind: String, msg: String, md: Rc<Model>) {
        if let Some(v) = self.viols.iter_mut().find(|v| v.kind == kind && v.msg == msg) {
            v.count += 1;
            if v.count > 1 {
                return;
            }
        }
        let (inputs, human) = self.inputs_text(st, &md);
        let stack = self.stack(st);
        let v = Violation { kind, msg, stack, inputs, human, count: 1 };
        if !self.cfg.early.is_empty() {
            // at once, should this process not come to its end
            use std::io::Write;
            let n = format!("{}.{}", self.cfg.early, std::process::id());
            let f = std::fs::OpenOptions::new().create(true).append(true).open(n);
            f.and_then(|mut f| f.write_all((v.json() + "\n").as_bytes())).expect("write violation");
        }
        self.viols.push(v);
    }
    fn sample(&mut self, st: &State) {
        self.nloc += 1;
        let n = self.nloc;
        // first few, then powers-of-two spread
        let take = self.samples.len() < self.cfg.samples || n.is_power_of_two() || (n % 37 == 0);
        if !take || self.samples.len() >= self.cfg.samples {
            if !take {
                return;
            }
            if self.cfg.samples == 0 {
                return;
            }
            // replace a pseudo-random slot, keeping the set spread over the exploration
            let slot = (n.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize % self.samples.len();
            let s = self.mk_sample(st);
            self.samples[slot] = s;
            return;
        }
        let s = self.mk_sample(st);
        self.samples.push(s);
    }
    fn mk_sample(&self, st: &State) -> (String, Vec<String>) {
        let x = cx();
        let (inp, _) = self.inputs_text(st, &st.model);
        let mut o = vec![];
        for ob in &st.obs {
            match ob {
                Obs::Int(t, v) => {
                    let v = match v {
                        Val::I(v) => *v,
                        Val::E(e) => x.eval(*e, &st.model),
                        _ => 0,
                    };
                    o.push(format!("O {} {}", t, v));
                }
                Obs::Bytes(t, es) => {
                    let hex: String = es.iter().map(|&e| format!("{:02x}", x.eval(e, &st.model))).collect();
                    o.push(format!("O {} x{}", t, hex));
                }
            }
        }
        (inp, o)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
}

/// store size (number of bytes a load or store touches)
fn ssize(t: T) -> u64 {
    match t {
        Ty::Int(w) => (*w as u64 + 7) / 8,
        _ => t.size(),
    }
}
fn var_id(e: E) -> u32 {
    match cx().node(e) {
        Node::Var(i) => i,
        _ => panic!(),
    }
}
fn int_ty(w: u32) -> T {
    match w {
        1 => &I1,
        8 => &I8,
        16 => &I16,
        32 => &I32,
        64 => &I64,
        _ => panic!("atomic width {}", w),
    }
}
