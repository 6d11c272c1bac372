//! Lazy parser for textual LLVM IR (llvm-dis output).
use crate::expr::{mask, Op};
use crate::hash::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, T),
    Vec(u32, T),
    Struct(Vec<T>, bool),
    Float(u32),
    Other,
}
pub type T = &'static Ty;

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(ts, p) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Float(w) => *w as u64 / 8,
            _ => 1,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match t {
                Ty::Int(w) => (*n as u64 * *w as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Struct(ts, _) => {
                let (o, _) = self.layout(ts.len());
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Float(w) => *w as u64 / 8,
        }
    }
    /// offset of field i (or end if i == len) and its type
    pub fn layout(&self, i: usize) -> (u64, Option<T>) {
        if let Ty::Struct(ts, packed) = self {
            let mut o = 0;
            for (k, t) in ts.iter().enumerate() {
                if !packed {
                    let a = t.align();
                    o = (o + a - 1) / a * a;
                }
                if k == i {
                    return (o, Some(t));
                }
                o += t.size();
            }
            (o, None)
        } else {
            panic!("layout of non-struct")
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    E(u32),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn zero(t: T) -> Val {
        match t {
            Ty::Arr(n, t) => Val::A(Rc::new(vec![Val::zero(t); *n as usize])),
            Ty::Vec(n, t) => Val::A(Rc::new(vec![Val::zero(t); *n as usize])),
            Ty::Struct(ts, _) => Val::A(Rc::new(ts.iter().map(|t| Val::zero(t)).collect())),
            _ => Val::I(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Debug)]
pub enum Callee {
    Sym(u32),
    Ind(Opd),
    Asm(String),
}
#[derive(Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub callee: Callee,
    pub args: Vec<(Opd, T)>,
    pub ret: T,
    pub normal: Option<u32>,
}

#[derive(Debug)]
pub enum I {
    Bin(Op, u32, u32, Opd, Opd),
    VBin(Op, u32, u32, Opd, Opd), // lane width
    ICmp(Pred, u32, u32, Opd, Opd),
    VICmp(Pred, u32, u32, Opd, Opd),
    Cast(CastK, T, T, u32, Opd),
    Load(T, u32, Opd),
    Store(T, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, u64)>),
    Call(Box<CallI>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Select(T, bool, u32, Opd, Opd, Opd),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<Option<u32>>),
    Alloca(u32, u64, Opd),
    Rmw(String, u32, u32, Opd, Opd),
    CmpXchg(u32, u32, Opd, Opd, Opd),
    Unreachable,
    Nop,
    Copy(u32, Opd),
    Bad(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<I>,
    pub dbg: Vec<u32>,
    pub visited: Cell<bool>,
}
pub struct Func {
    pub name: &'static str,
    pub sym: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: T,
}

pub enum Sym {
    Func { header: &'static str, body: &'static str },
    Decl { weak: bool },
    Global { text: &'static str },
    Alias(&'static str),
}

pub struct Module {
    pub names: Vec<&'static str>, // by sym id (0 unused)
    pub syms: Vec<Sym>,
    pub by_name: FxMap<&'static str, u32>,
    pub funcs: Vec<Option<&'static Func>>,
    pub meta: FxMap<u32, &'static str>,
    types: FxMap<String, T>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(&'static str),
    Global(&'static str),
    Meta(&'static str),
    Attr(&'static str),
    Word(&'static str),
    Int(&'static str),
    Str(Vec<u8>),
    Quoted(&'static str),
    P(u8),
    Dots,
}

fn is_idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn tokenize(s: &'static str, out: &mut Vec<Tok>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1
                    }
                    name = &s[i + 2..j];
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && is_idch(b[j]) {
                        j += 1
                    }
                    name = &s[i + 1..j];
                    i = j;
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (is_idch(b[j])) {
                    j += 1
                }
                out.push(Tok::Meta(&s[i + 1..j]));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_idch(b[j]) {
                    j += 1
                }
                out.push(Tok::Attr(&s[i + 1..j]));
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Quoted(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                let mut v = vec![];
                while b[j] != b'"' {
                    if b[j] == b'\\' && b[j + 1] == b'\\' {
                        v.push(b'\\');
                        j += 2;
                    } else if b[j] == b'\\' {
                        let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                        v.push(h(b[j + 1]) * 16 + h(b[j + 2]));
                        j += 3;
                    } else {
                        v.push(b[j]);
                        j += 1;
                    }
                }
                out.push(Tok::Str(v));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < b.len() && is_idch(b[j]) {
                    j += 1
                }
                out.push(Tok::Int(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && is_idch(b[j]) {
                    j += 1
                }
                out.push(Tok::Word(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
}

pub struct Ps<'a> {
    pub t: &'a [Tok],
    pub p: usize,
}
impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.p)
    }
    fn next(&mut self) -> &'a Tok {
        let r = self.t.get(self.p).unwrap_or_else(|| panic!("parse: end of tokens {:?}", self.t));
        self.p += 1;
        r
    }
    fn is_p(&self, c: u8) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("parse: expected {} at {} in {:?}", c as char, self.p, self.t);
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if *x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                _ => {}
            }
        }
    }
}

fn is_int_ty(w: &str) -> Option<u32> {
    let r = w.strip_prefix('i')?;
    if !r.is_empty() && r.bytes().all(|c| c.is_ascii_digit()) {
        r.parse().ok()
    } else {
        None
    }
}

fn leak<X>(x: X) -> &'static X {
    Box::leak(Box::new(x))
}

pub static VOID: Ty = Ty::Void;
pub static PTR: Ty = Ty::Ptr;
pub static I1: Ty = Ty::Int(1);
pub static I8: Ty = Ty::Int(8);
pub static I16: Ty = Ty::Int(16);
pub static I32: Ty = Ty::Int(32);
pub static I64: Ty = Ty::Int(64);

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module {
            names: vec![""],
            syms: vec![Sym::Decl { weak: false }],
            by_name: Default::default(),
            funcs: vec![None],
            meta: Default::default(),
            types: Default::default(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        let line_end = |i: usize| {
            let mut j = i;
            while j < b.len() && b[j] != b'\n' {
                j += 1
            }
            j
        };
        let getname = |line: &'static str| -> &'static str {
            // line starts with '@'
            let lb = line.as_bytes();
            if lb[1] == b'"' {
                let e = line[2..].find('"').unwrap() + 2;
                &line[2..e]
            } else {
                let mut j = 1;
                while j < lb.len() && is_idch(lb[j]) {
                    j += 1
                }
                &line[1..j]
            }
        };
        while i < b.len() {
            let e = line_end(i);
            let line = &text[i..e];
            match b[i] {
                b'@' => {
                    let n = getname(line);
                    if line.contains(" alias ") && !line.contains(" global ") && !line.contains(" constant ") {
                        let t = line.rfind('@').unwrap();
                        let tn = getname(&line[t..]);
                        m.add(n, Sym::Alias(tn));
                    } else {
                        m.add(n, Sym::Global { text: line });
                    }
                }
                b'd' if line.starts_with("define") => {
                    let at = line.find(" @").unwrap() + 1;
                    let n = getname(&line[at..]);
                    // find end: "\n}\n"
                    let rest = &text[e..];
                    let k = rest.find("\n}").unwrap();
                    let body = &text[e + 1..e + k];
                    m.add(n, Sym::Func { header: line, body });
                    i = e + k + 3;
                    continue;
                }
                b'd' if line.starts_with("declare") => {
                    let at = line.find(" @").unwrap() + 1;
                    let n = getname(&line[at..]);
                    m.add(n, Sym::Decl { weak: line.contains("extern_weak") });
                }
                b'!' => {
                    if let Some(p) = line.find(" = ") {
                        if let Ok(n) = line[1..p].parse::<u32>() {
                            m.meta.insert(n, &line[p + 3..]);
                        }
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        m
    }
    fn add(&mut self, n: &'static str, s: Sym) {
        let id = self.names.len() as u32;
        self.names.push(n);
        self.syms.push(s);
        self.funcs.push(None);
        self.by_name.insert(n, id);
    }
    pub fn resolve(&self, name: &str) -> Option<u32> {
        let mut id = *self.by_name.get(name)?;
        while let Sym::Alias(t) = self.syms[id as usize] {
            id = *self.by_name.get(t)?;
        }
        Some(id)
    }
    pub fn sym_addr(&self, name: &str) -> u128 {
        match self.resolve(name) {
            None => panic!("unknown symbol {}", name),
            Some(id) => {
                // weak externals that are not defined have address 0
                match &self.syms[id as usize] {
                    Sym::Decl { weak: true } => 0,
                    Sym::Global { text } if text.contains("= extern_weak") => 0,
                    _ => (id as u128) << 32,
                }
            }
        }
    }

    fn intern(&mut self, t: Ty) -> T {
        match t {
            Ty::Void => return &VOID,
            Ty::Ptr => return &PTR,
            Ty::Int(1) => return &I1,
            Ty::Int(8) => return &I8,
            Ty::Int(16) => return &I16,
            Ty::Int(32) => return &I32,
            Ty::Int(64) => return &I64,
            _ => {}
        }
        let k = format!("{:?}", t);
        if let Some(x) = self.types.get(&k) {
            return x;
        }
        let x = leak(t);
        self.types.insert(k, x);
        x
    }
    pub fn is_type_start(&self, ps: &Ps) -> bool {
        match ps.peek() {
            Some(Tok::Word(w)) => {
                is_int_ty(w).is_some()
                    || matches!(*w, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token")
            }
            Some(Tok::P(b'[')) | Some(Tok::P(b'{')) | Some(Tok::P(b'<')) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self, ps: &mut Ps) -> T {
        let t = match ps.next() {
            Tok::Word(w) => {
                if let Some(n) = is_int_ty(w) {
                    Ty::Int(n)
                } else {
                    match *w {
                        "ptr" => Ty::Ptr,
                        "void" => Ty::Void,
                        "float" => Ty::Float(32),
                        "double" => Ty::Float(64),
                        _ => Ty::Other,
                    }
                }
            }
            Tok::P(b'[') => {
                let n: u64 = match ps.next() {
                    Tok::Int(s) => s.parse().unwrap(),
                    x => panic!("array size {:?}", x),
                };
                assert!(ps.eat_w("x"));
                let t = self.ty(ps);
                ps.expect(b']');
                Ty::Arr(n, t)
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !ps.eat_p(b'}') {
                    v.push(self.ty(ps));
                    ps.eat_p(b',');
                }
                Ty::Struct(v, false)
            }
            Tok::P(b'<') => {
                if ps.eat_p(b'{') {
                    let mut v = vec![];
                    while !ps.eat_p(b'}') {
                        v.push(self.ty(ps));
                        ps.eat_p(b',');
                    }
                    ps.expect(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n: u32 = match ps.next() {
                        Tok::Int(s) => s.parse().unwrap(),
                        x => panic!("vector size {:?}", x),
                    };
                    assert!(ps.eat_w("x"));
                    let t = self.ty(ps);
                    ps.expect(b'>');
                    Ty::Vec(n, t)
                }
            }
            x => panic!("type expected, got {:?} in {:?}", x, ps.t),
        };
        let t = self.intern(t);
        // function type in calls: T (args...)
        t
    }

    /// constant of the given type
    pub fn konst(&mut self, t: T, ps: &mut Ps) -> Val {
        match ps.next().clone() {
            Tok::Int(s) => {
                let w = match t {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    Ty::Float(_) => return Val::I(0),
                    _ => 128,
                };
                let v = if let Some(n) = s.strip_prefix('-') {
                    n.parse::<u128>().unwrap().wrapping_neg()
                } else {
                    s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s))
                };
                Val::I(v & mask(w))
            }
            Tok::Word("true") => Val::I(1),
            Tok::Word("false") => Val::I(0),
            Tok::Word("null") => Val::I(0),
            Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") => Val::zero(t),
            Tok::Word("splat") => {
                ps.expect(b'(');
                let et = self.ty(ps);
                let v = self.konst(et, ps);
                ps.expect(b')');
                match t {
                    Ty::Vec(n, _) => Val::A(Rc::new(vec![v; *n as usize])),
                    _ => panic!("splat"),
                }
            }
            Tok::Global(n) => Val::I(self.sym_addr(n)),
            Tok::Str(s) => Val::A(Rc::new(s.iter().map(|&b| Val::I(b as u128)).collect())),
            Tok::Word("getelementptr") => {
                while let Some(Tok::Word(w)) = ps.peek() {
                    if matches!(*w, "inbounds" | "nuw" | "nusw") {
                        ps.p += 1;
                    } else if *w == "inrange" {
                        ps.p += 1;
                        ps.skip_parens();
                    } else {
                        break;
                    }
                }
                ps.expect(b'(');
                let st = self.ty(ps);
                ps.expect(b',');
                let bt = self.ty(ps);
                let base = self.konst(bt, ps);
                let mut idx = vec![];
                while ps.eat_p(b',') {
                    let it = self.ty(ps);
                    idx.push(self.konst(it, ps));
                }
                ps.expect(b')');
                let mut addr = match base {
                    Val::I(v) => v as u64,
                    _ => panic!(),
                };
                let mut cur: T = st;
                for (k, ix) in idx.iter().enumerate() {
                    let v = match ix {
                        Val::I(v) => *v as u64,
                        _ => panic!(),
                    };
                    if k == 0 {
                        addr = addr.wrapping_add(st.size().wrapping_mul(v));
                    } else {
                        match cur {
                            Ty::Struct(..) => {
                                let (o, t2) = cur.layout(v as usize);
                                addr = addr.wrapping_add(o);
                                cur = t2.unwrap();
                            }
                            Ty::Arr(_, t2) | Ty::Vec(_, t2) => {
                                addr = addr.wrapping_add(t2.size().wrapping_mul(v));
                                cur = t2;
                            }
                            _ => panic!("gep const"),
                        }
                    }
                }
                Val::I(addr as u128)
            }
            Tok::Word(w @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "sext")) => {
                ps.expect(b'(');
                let ft = self.ty(ps);
                let v = self.konst(ft, ps);
                assert!(ps.eat_w("to"));
                let tt = self.ty(ps);
                ps.expect(b')');
                let _ = w;
                match (v, tt) {
                    (Val::I(v), Ty::Int(n)) => Val::I(v & mask(*n)),
                    (Val::I(v), Ty::Ptr) => Val::I(v),
                    (v, _) => v,
                }
            }
            Tok::Word(w @ ("add" | "sub" | "mul" | "xor" | "and" | "or" | "shl")) => {
                while ps.eat_w("nuw") || ps.eat_w("nsw") {}
                ps.expect(b'(');
                let ft = self.ty(ps);
                let a = self.konst(ft, ps);
                ps.expect(b',');
                let ft2 = self.ty(ps);
                let b = self.konst(ft2, ps);
                ps.expect(b')');
                let (a, b) = match (a, b) {
                    (Val::I(a), Val::I(b)) => (a, b),
                    _ => panic!(),
                };
                let bw = match ft {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                let op = match w {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "xor" => Op::Xor,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Shl,
                };
                Val::I(crate::expr::fold(op, bw, a, b))
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                while !ps.eat_p(b']') {
                    let et = self.ty(ps);
                    v.push(self.konst(et, ps));
                    ps.eat_p(b',');
                }
                Val::A(Rc::new(v))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !ps.eat_p(b'}') {
                    let et = self.ty(ps);
                    v.push(self.konst(et, ps));
                    ps.eat_p(b',');
                }
                Val::A(Rc::new(v))
            }
            Tok::P(b'<') => {
                let packed = ps.eat_p(b'{');
                let mut v = vec![];
                loop {
                    if packed && ps.eat_p(b'}') {
                        ps.expect(b'>');
                        break;
                    }
                    if !packed && ps.eat_p(b'>') {
                        break;
                    }
                    let et = self.ty(ps);
                    v.push(self.konst(et, ps));
                    ps.eat_p(b',');
                }
                Val::A(Rc::new(v))
            }
            x => panic!("const expected: {:?} at {} of {:?}", x, ps.p, ps.t),
        }
    }

    /// Parse a global's type and initializer. Returns (type, value, constant?)
    pub fn global(&mut self, id: u32) -> (T, Option<Val>, bool) {
        let text = match self.syms[id as usize] {
            Sym::Global { text } => text,
            _ => panic!("not a global: {}", self.names[id as usize]),
        };
        let mut toks = vec![];
        tokenize(text, &mut toks);
        let mut ps = Ps { t: &toks, p: 0 };
        let mut external = false;
        let constant;
        loop {
            match ps.next() {
                Tok::Word("global") => {
                    constant = false;
                    break;
                }
                Tok::Word("constant") => {
                    constant = true;
                    break;
                }
                Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                _ => {}
            }
        }
        let t = self.ty(&mut ps);
        if external {
            return (t, None, constant);
        }
        let v = self.konst(t, &mut ps);
        (t, Some(v), constant)
    }

    pub fn func(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.funcs[id as usize] {
            return Some(f);
        }
        let (header, body) = match self.syms[id as usize] {
            Sym::Func { header, body } => (header, body),
            _ => return None,
        };
        let f = self.parse_func(id, header, body);
        let f = leak(f);
        self.funcs[id as usize] = Some(f);
        Some(f)
    }

    fn skip_attrs(&mut self, ps: &mut Ps) {
        // skip attribute words until a type starts
        while !self.is_type_start(ps) {
            match ps.next() {
                Tok::Word("align") => {
                    if ps.is_p(b'(') {
                        ps.skip_parens()
                    } else {
                        ps.next();
                    }
                }
                Tok::Word(_) => {
                    if ps.is_p(b'(') {
                        ps.skip_parens();
                    }
                }
                Tok::Int(_) | Tok::Attr(_) | Tok::Quoted(_) => {}
                x => panic!("skip_attrs: {:?} in {:?}", x, ps.t),
            }
        }
    }
    fn skip_param_attrs(&mut self, ps: &mut Ps) {
        loop {
            match ps.peek() {
                Some(Tok::Word(w)) => match *w {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                    | "inttoptr" | "ptrtoint" | "trunc" | "splat" | "add" | "sub" | "bitcast" | "asm" => break,
                    "align" => {
                        ps.p += 1;
                        if ps.is_p(b'(') {
                            ps.skip_parens();
                        } else {
                            ps.p += 1;
                        }
                    }
                    _ => {
                        ps.p += 1;
                        if ps.is_p(b'(') {
                            ps.skip_parens();
                        }
                    }
                },
                _ => break,
            }
        }
    }

    fn parse_func(&mut self, id: u32, header: &'static str, body: &'static str) -> Func {
        let mut toks = vec![];
        tokenize(header, &mut toks);
        let mut regs: FxMap<&'static str, u32> = Default::default();
        let mut nparams = 0u32;
        let mut unnamed = 0u32;
        let ret;
        {
            let mut ps = Ps { t: &toks, p: 1 };
            self.skip_attrs(&mut ps);
            ret = self.ty(&mut ps);
            // find global name then '('
            while !matches!(ps.next(), Tok::Global(_)) {}
            ps.expect(b'(');
            while !ps.eat_p(b')') {
                if let Some(Tok::Dots) = ps.peek() {
                    ps.p += 1;
                    continue;
                }
                let _t = self.ty(&mut ps);
                self.skip_param_attrs(&mut ps);
                match ps.peek() {
                    Some(Tok::Local(n)) => {
                        regs.insert(n, nparams);
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        ps.p += 1;
                    }
                    _ => {
                        unnamed += 1;
                    }
                }
                nparams += 1;
                ps.eat_p(b',');
            }
        }
        // split into blocks and logical instructions
        let mut blocks_src: Vec<(String, Vec<&'static str>)> = vec![];
        let mut cur: Option<(String, Vec<(usize, usize)>)> = None;
        let base = body.as_ptr() as usize;
        for line in body.split('\n') {
            let lb = line.as_bytes();
            if lb.is_empty() {
                continue;
            }
            let off = line.as_ptr() as usize - base;
            if lb[0] != b' ' {
                if lb[0] == b';' {
                    continue;
                }
                // label
                let colon = if lb[0] == b'"' {
                    line[1..].find('"').unwrap() + 2
                } else {
                    line.find(':').unwrap()
                };
                let mut n = &line[..colon];
                if n.starts_with('"') {
                    n = &n[1..n.len() - 1];
                }
                if let Some((n, v)) = cur.take() {
                    blocks_src.push((n, v.iter().map(|&(a, b)| &body[a..b]).collect()));
                }
                cur = Some((n.to_string(), vec![]));
                continue;
            }
            if cur.is_none() {
                cur = Some((unnamed.to_string(), vec![]));
            }
            let tr = line.trim_start();
            if tr.starts_with("#dbg") {
                continue;
            }
            let c = cur.as_mut().unwrap();
            let end = off + line.len();
            if lb.len() > 2 && lb[0] == b' ' && lb[1] == b' ' && lb[2] != b' ' && lb[2] != b']' {
                c.1.push((off, end));
            } else {
                c.1.last_mut().unwrap().1 = end;
            }
        }
        if let Some((n, v)) = cur.take() {
            blocks_src.push((n, v.iter().map(|&(a, b)| &body[a..b]).collect()));
        }
        let mut labels: FxMap<String, u32> = Default::default();
        for (i, (n, _)) in blocks_src.iter().enumerate() {
            labels.insert(n.clone(), i as u32);
        }
        let mut fp = FnP { m: self, regs, nregs: nparams, labels };
        let mut blocks = vec![];
        for (_, insts) in &blocks_src {
            let mut b = Block { phis: vec![], insts: vec![], dbg: vec![], visited: Cell::new(false) };
            for src in insts {
                let mut toks = vec![];
                tokenize(src, &mut toks);
                let dbg = toks
                    .iter()
                    .position(|t| matches!(t, Tok::Meta("dbg")))
                    .and_then(|p| match toks.get(p + 1) {
                        Some(Tok::Meta(n)) => n.parse::<u32>().ok(),
                        _ => None,
                    })
                    .unwrap_or(0);
                let mut ps = Ps { t: &toks, p: 0 };
                let mut dst = None;
                if let (Some(Tok::Local(n)), Some(Tok::P(b'='))) = (toks.get(0), toks.get(1)) {
                    dst = Some(fp.reg(n));
                    ps.p = 2;
                }
                if ps.is_w("phi") {
                    ps.p += 1;
                    let t = fp.m.ty(&mut ps);
                    let mut v = vec![];
                    loop {
                        ps.expect(b'[');
                        let o = fp.opd(t, &mut ps);
                        ps.expect(b',');
                        let l = fp.label_name(&mut ps);
                        ps.expect(b']');
                        v.push((l, o));
                        if !(ps.is_p(b',') && matches!(toks.get(ps.p + 1), Some(Tok::P(b'[')))) {
                            break;
                        }
                        ps.p += 1;
                    }
                    b.phis.push((dst.unwrap(), v));
                    continue;
                }
                let i = fp.inst(dst, &mut ps);
                if let I::Nop = i {
                    continue;
                }
                b.insts.push(i);
                b.dbg.push(dbg);
            }
            blocks.push(b);
        }
        let nregs = fp.nregs;
        Func { name: self.names[id as usize], sym: id, nparams, nregs, blocks, ret }
    }
}

struct FnP<'m> {
    m: &'m mut Module,
    regs: FxMap<&'static str, u32>,
    nregs: u32,
    labels: FxMap<String, u32>,
}
impl<'m> FnP<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn opd(&mut self, t: T, ps: &mut Ps) -> Opd {
        match ps.peek() {
            Some(Tok::Local(n)) => {
                ps.p += 1;
                Opd::R(self.reg(n))
            }
            _ => Opd::K(self.m.konst(t, ps)),
        }
    }
    fn tyopd(&mut self, ps: &mut Ps) -> (T, Opd) {
        let t = self.m.ty(ps);
        self.m.skip_param_attrs(ps);
        let o = self.opd(t, ps);
        (t, o)
    }
    fn label_name(&mut self, ps: &mut Ps) -> u32 {
        match ps.next() {
            Tok::Local(n) => *self.labels.get(*n).unwrap_or_else(|| panic!("label {}", n)),
            x => panic!("label expected {:?}", x),
        }
    }
    fn label(&mut self, ps: &mut Ps) -> u32 {
        assert!(ps.eat_w("label"), "{:?}", ps.t);
        self.label_name(ps)
    }
    fn skip_words(&mut self, ps: &mut Ps, ws: &[&str]) {
        while let Some(Tok::Word(w)) = ps.peek() {
            if ws.contains(w) {
                ps.p += 1
            } else {
                break;
            }
        }
    }
    fn inst(&mut self, dst: Option<u32>, ps: &mut Ps) -> I {
        let w = match ps.next() {
            Tok::Word(w) => *w,
            x => return I::Bad(format!("{:?}", x)),
        };
        match w {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
            | "ashr" => {
                self.skip_words(ps, &["nuw", "nsw", "exact", "disjoint"]);
                let (t, a) = self.tyopd(ps);
                ps.expect(b',');
                let b = self.opd(t, ps);
                let op = match w {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "urem" => Op::URem,
                    "sdiv" => Op::SDiv,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                match t {
                    Ty::Int(w) if *w <= 128 => I::Bin(op, *w, dst.unwrap(), a, b),
                    Ty::Vec(_, Ty::Int(w)) => I::VBin(op, *w, dst.unwrap(), a, b),
                    _ => I::Bad(format!("{} {:?}", w, t)),
                }
            }
            "icmp" => {
                self.skip_words(ps, &["samesign"]);
                let p = match ps.next() {
                    Tok::Word(p) => match *p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        x => panic!("pred {}", x),
                    },
                    x => panic!("pred {:?}", x),
                };
                let (t, a) = self.tyopd(ps);
                ps.expect(b',');
                let b = self.opd(t, ps);
                match t {
                    Ty::Int(w) if *w <= 128 => I::ICmp(p, *w, dst.unwrap(), a, b),
                    Ty::Ptr => I::ICmp(p, 64, dst.unwrap(), a, b),
                    Ty::Vec(_, Ty::Int(w)) => I::VICmp(p, *w, dst.unwrap(), a, b),
                    _ => I::Bad(format!("icmp {:?}", t)),
                }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" => {
                self.skip_words(ps, &["nuw", "nsw", "nneg"]);
                let (t, a) = self.tyopd(ps);
                assert!(ps.eat_w("to"), "{:?}", ps.t);
                let t2 = self.m.ty(ps);
                let k = match w {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "ptrtoint" | "inttoptr" => {
                        let w1 = if let Ty::Int(w) = t { *w } else { 64 };
                        let w2 = if let Ty::Int(w) = t2 { *w } else { 64 };
                        if w1 == w2 {
                            return I::Copy(dst.unwrap(), a);
                        }
                        if w2 < w1 { CastK::Trunc } else { CastK::ZExt }
                    }
                    _ => CastK::Bit,
                };
                I::Cast(k, t, t2, dst.unwrap(), a)
            }
            "load" => {
                self.skip_words(ps, &["atomic", "volatile"]);
                let t = self.m.ty(ps);
                ps.expect(b',');
                let (_, p) = self.tyopd(ps);
                I::Load(t, dst.unwrap(), p)
            }
            "store" => {
                self.skip_words(ps, &["atomic", "volatile"]);
                let (t, v) = self.tyopd(ps);
                ps.expect(b',');
                let (_, p) = self.tyopd(ps);
                I::Store(t, v, p)
            }
            "getelementptr" => {
                loop {
                    self.skip_words(ps, &["inbounds", "nuw", "nusw"]);
                    if ps.eat_w("inrange") {
                        ps.skip_parens();
                    } else {
                        break;
                    }
                }
                let st = self.m.ty(ps);
                ps.expect(b',');
                let (bt, base) = self.tyopd(ps);
                if !matches!(bt, Ty::Ptr) {
                    return I::Bad("vector gep".into());
                }
                let mut off: i64 = 0;
                let mut var = vec![];
                let mut cur: T = st;
                let mut k = 0;
                while ps.is_p(b',') && !matches!(ps.t.get(ps.p + 1), Some(Tok::Meta(_))) {
                    ps.p += 1;
                    let (it, ix) = self.tyopd(ps);
                    let iw = match it {
                        Ty::Int(w) => *w,
                        _ => return I::Bad("gep idx".into()),
                    };
                    let stride;
                    if k == 0 {
                        stride = st.size();
                    } else {
                        match cur {
                            Ty::Struct(..) => {
                                let v = match ix {
                                    Opd::K(Val::I(v)) => v,
                                    _ => panic!("struct gep"),
                                };
                                let (o, t2) = cur.layout(v as usize);
                                off += o as i64;
                                cur = t2.unwrap();
                                k += 1;
                                continue;
                            }
                            Ty::Arr(_, t2) | Ty::Vec(_, t2) => {
                                stride = t2.size();
                                cur = t2;
                            }
                            _ => return I::Bad("gep".into()),
                        }
                    }
                    match ix {
                        Opd::K(Val::I(v)) => {
                            let v = crate::expr::sext128(v, iw) as i64;
                            off = off.wrapping_add(v.wrapping_mul(stride as i64));
                        }
                        _ => var.push((ix, iw, stride)),
                    }
                    k += 1;
                }
                I::Gep(dst.unwrap(), base, off, var)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" {
                    assert!(ps.eat_w("call"));
                }
                self.m.skip_attrs(ps);
                let rt = self.m.ty(ps);
                // optional function type
                if ps.is_p(b'(') {
                    ps.skip_parens();
                }
                let callee = match ps.peek() {
                    Some(Tok::Global(n)) => {
                        let n = *n;
                        ps.p += 1;
                        match self.m.resolve(n) {
                            Some(id) => Callee::Sym(id),
                            None => return I::Bad(format!("call to unknown {}", n)),
                        }
                    }
                    Some(Tok::Local(n)) => {
                        ps.p += 1;
                        Callee::Ind(Opd::R(self.reg(n)))
                    }
                    Some(Tok::Word("asm")) => {
                        ps.p += 1;
                        self.skip_words(ps, &["sideeffect", "alignstack", "inteldialect", "unwind"]);
                        let s = match ps.next() {
                            Tok::Quoted(s) => s.to_string(),
                            x => panic!("asm {:?}", x),
                        };
                        ps.expect(b',');
                        ps.next();
                        Callee::Asm(s)
                    }
                    _ => Callee::Ind(Opd::K(self.m.konst(&PTR, ps))),
                };
                ps.expect(b'(');
                let mut args = vec![];
                while !ps.eat_p(b')') {
                    let t = self.m.ty(ps);
                    if let Ty::Other = t {
                        // metadata argument
                        let mut d = 0;
                        loop {
                            match ps.peek() {
                                Some(Tok::P(b'(')) => d += 1,
                                Some(Tok::P(b')')) if d == 0 => break,
                                Some(Tok::P(b')')) => d -= 1,
                                Some(Tok::P(b',')) if d == 0 => break,
                                None => break,
                                _ => {}
                            }
                            ps.p += 1;
                        }
                        ps.eat_p(b',');
                        continue;
                    }
                    if ps.is_w("byval") {
                        return I::Bad("byval".into());
                    }
                    self.m.skip_param_attrs(ps);
                    let o = self.opd(t, ps);
                    args.push((o, t));
                    ps.eat_p(b',');
                }
                let mut normal = None;
                if w == "invoke" {
                    while !ps.is_w("to") {
                        ps.next();
                    }
                    ps.p += 1;
                    normal = Some(self.label(ps));
                }
                if let Callee::Sym(id) = callee {
                    let n = self.m.names[id as usize];
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.x86.sse2.pause")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.pseudoprobe")
                    {
                        if normal.is_none() {
                            return I::Nop;
                        }
                    }
                }
                I::Call(Box::new(CallI { dst, callee, args, ret: rt, normal }))
            }
            "br" => {
                if ps.is_w("label") {
                    I::Br(self.label(ps))
                } else {
                    let (_, c) = self.tyopd(ps);
                    ps.expect(b',');
                    let a = self.label(ps);
                    ps.expect(b',');
                    let b = self.label(ps);
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(ps);
                ps.expect(b',');
                let d = self.label(ps);
                ps.expect(b'[');
                let mut cases = vec![];
                while !ps.eat_p(b']') {
                    let ct = self.m.ty(ps);
                    let k = match self.m.konst(ct, ps) {
                        Val::I(v) => v,
                        _ => panic!(),
                    };
                    ps.expect(b',');
                    let l = self.label(ps);
                    cases.push((k, l));
                }
                let w = match t {
                    Ty::Int(w) => *w,
                    _ => return I::Bad("switch".into()),
                };
                I::Switch(w, v, d, cases)
            }
            "ret" => {
                let t = self.m.ty(ps);
                if let Ty::Void = t {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.opd(t, ps)))
                }
            }
            "select" => {
                let (ct, c) = self.tyopd(ps);
                ps.expect(b',');
                let (t, a) = self.tyopd(ps);
                ps.expect(b',');
                let (_, b) = self.tyopd(ps);
                I::Select(t, matches!(ct, Ty::Vec(..)), dst.unwrap(), c, a, b)
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(ps);
                let mut ix = vec![];
                while ps.eat_p(b',') {
                    match ps.peek() {
                        Some(Tok::Int(s)) => ix.push(s.parse().unwrap()),
                        _ => break,
                    }
                    ps.p += 1;
                }
                I::ExtractValue(dst.unwrap(), a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(ps);
                ps.expect(b',');
                let (_, v) = self.tyopd(ps);
                let mut ix = vec![];
                while ps.eat_p(b',') {
                    match ps.peek() {
                        Some(Tok::Int(s)) => ix.push(s.parse().unwrap()),
                        _ => break,
                    }
                    ps.p += 1;
                }
                I::InsertValue(dst.unwrap(), a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyopd(ps);
                ps.expect(b',');
                let (_, i) = self.tyopd(ps);
                I::ExtractElem(dst.unwrap(), a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyopd(ps);
                ps.expect(b',');
                let (_, v) = self.tyopd(ps);
                ps.expect(b',');
                let (_, i) = self.tyopd(ps);
                I::InsertElem(dst.unwrap(), a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyopd(ps);
                ps.expect(b',');
                let (_, b) = self.tyopd(ps);
                ps.expect(b',');
                let mt = self.m.ty(ps);
                let mk = self.m.konst(mt, ps);
                let v = match mk {
                    Val::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(i) => Some(*i as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => return I::Bad("shuffle".into()),
                };
                I::Shuffle(dst.unwrap(), a, b, v)
            }
            "alloca" => {
                self.skip_words(ps, &["inalloca"]);
                let t = self.m.ty(ps);
                let mut n = Opd::K(Val::I(1));
                if ps.is_p(b',') && self.m.is_type_start(&Ps { t: ps.t, p: ps.p + 1 }) {
                    ps.p += 1;
                    n = self.tyopd(ps).1;
                }
                I::Alloca(dst.unwrap(), t.size(), n)
            }
            "atomicrmw" => {
                self.skip_words(ps, &["volatile"]);
                let op = match ps.next() {
                    Tok::Word(w) => w.to_string(),
                    x => panic!("{:?}", x),
                };
                let (_, p) = self.tyopd(ps);
                ps.expect(b',');
                let (t, v) = self.tyopd(ps);
                let w = match t {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    _ => return I::Bad("rmw".into()),
                };
                I::Rmw(op, w, dst.unwrap_or(u32::MAX), p, v)
            }
            "cmpxchg" => {
                self.skip_words(ps, &["weak", "volatile"]);
                let (_, p) = self.tyopd(ps);
                ps.expect(b',');
                let (t, c) = self.tyopd(ps);
                ps.expect(b',');
                let (_, n) = self.tyopd(ps);
                let w = match t {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    _ => return I::Bad("cmpxchg".into()),
                };
                I::CmpXchg(w, dst.unwrap(), p, c, n)
            }
            "fence" => I::Nop,
            "freeze" => {
                let (_, a) = self.tyopd(ps);
                I::Copy(dst.unwrap(), a)
            }
            "unreachable" => I::Unreachable,
            "landingpad" | "resume" | "cleanuppad" => I::Bad(w.to_string()),
            _ => I::Bad(format!("{} {:?}", w, ps.t)),
        }
    }
}
