//! Hash-consed bit-vector expressions with a local simplifier, interval analysis,
//! variable sets, evaluation, substitution and a GF(2)-linear normal form.
use crate::hash::*;
use std::rc::Rc;

pub type E = u32; // 0 is reserved (means "no expression")

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Not(E), // width 1 only
    Ite(E, E, E),
    Extract(E, u8), // low bit
    ZExt(E),
    SExt(E),
    LinTab(u32, E), // GF(2)-linear table, T[0] == 0
}

pub struct LinTable {
    pub idx_bits: u32,
    pub w: u32,
    pub basis: Vec<u128>,
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
}

pub struct Ctx {
    pub nodes: Vec<(Node, u8)>,
    pub iv: Vec<(u128, u128)>,
    pub vset: Vec<u32>,
    pub lin_flag: Vec<bool>,
    map: FxMap<(Node, u8), E>,
    pub vars: Vec<VarInfo>,
    // var sets
    pub sets: Vec<Rc<Vec<u64>>>,
    set_map: FxMap<Rc<Vec<u64>>, u32>,
    set_union: FxMap<(u32, u32), u32>,
    // eval memo
    ev_val: Vec<u128>,
    ev_epoch: Vec<u32>,
    epoch: u32,
    pub lin_tables: Vec<LinTable>,
    lin_memo: FxMap<E, Rc<Vec<Row>>>,
    atom_map: FxMap<(E, u8), u32>,
    atom_list: Vec<(E, u8)>,
    pub stat_lin_decided: u64,
    /// a sample of equations decided in GF(2): each is claimed to be unsatisfiable
    pub lin_log: Vec<E>,
    pub known_zero_memo: FxMap<E, u128>,
    pub vals_memo: FxMap<E, Option<Rc<Vec<u128>>>>,
}

#[derive(Clone, PartialEq, Eq)]
pub struct Row {
    pub k: bool,
    pub atoms: Vec<u32>,
}
impl Row {
    fn konst(k: bool) -> Row {
        Row { k, atoms: vec![] }
    }
    fn xor(&self, o: &Row) -> Row {
        let mut atoms = Vec::with_capacity(self.atoms.len() + o.atoms.len());
        let (a, b) = (&self.atoms, &o.atoms);
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            if a[i] < b[j] {
                atoms.push(a[i]);
                i += 1
            } else if a[i] > b[j] {
                atoms.push(b[j]);
                j += 1
            } else {
                i += 1;
                j += 1
            }
        }
        atoms.extend_from_slice(&a[i..]);
        atoms.extend_from_slice(&b[j..]);
        Row { k: self.k ^ o.k, atoms }
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
#[inline]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx::new()));
        }
        &mut *CTX
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 { 1 } else { m }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s.min(127)) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        Op::Concat => unreachable!(),
    }
}

impl Ctx {
    fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![(Node::Const(0), 0)],
            iv: vec![(0, 0)],
            vset: vec![0],
            lin_flag: vec![false],
            map: Default::default(),
            vars: vec![],
            sets: vec![Rc::new(vec![])],
            set_map: Default::default(),
            set_union: Default::default(),
            ev_val: vec![0],
            ev_epoch: vec![0],
            epoch: 0,
            lin_tables: vec![],
            lin_memo: Default::default(),
            atom_map: Default::default(),
            atom_list: vec![],
            stat_lin_decided: 0,
            lin_log: vec![],
            known_zero_memo: Default::default(),
            vals_memo: Default::default(),
        };
        c.set_map.insert(Rc::new(vec![]), 0);
        c
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].1 as u32
    }
    #[inline]
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize].0
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].0 {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = self.set_union.get(&key) {
            return r;
        }
        let (sa, sb) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let n = sa.len().max(sb.len());
        let mut v = vec![0u64; n];
        for i in 0..n {
            v[i] = sa.get(i).copied().unwrap_or(0) | sb.get(i).copied().unwrap_or(0);
        }
        let r = self.intern_set(v);
        self.set_union.insert(key, r);
        r
    }
    fn intern_set(&mut self, v: Vec<u64>) -> u32 {
        let v = Rc::new(v);
        if let Some(&r) = self.set_map.get(&v) {
            return r;
        }
        let id = self.sets.len() as u32;
        self.sets.push(v.clone());
        self.set_map.insert(v, id);
        id
    }
    fn raw(&mut self, n: Node, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        let key = (n, w as u8);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let id = self.nodes.len() as E;
        // vars
        let (vs, lf) = match n {
            Node::Const(_) => (0, false),
            Node::Var(i) => {
                let mut v = vec![0u64; i as usize / 64 + 1];
                v[i as usize / 64] |= 1 << (i % 64);
                (self.intern_set(v), false)
            }
            Node::Bin(_, a, b) => {
                let s = self.union(self.vset[a as usize], self.vset[b as usize]);
                (s, self.lin_flag[a as usize] || self.lin_flag[b as usize])
            }
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => {
                (self.vset[a as usize], self.lin_flag[a as usize])
            }
            Node::LinTab(_, a) => (self.vset[a as usize], true),
            Node::Ite(c, a, b) => {
                let s = self.union(self.vset[a as usize], self.vset[b as usize]);
                let s = self.union(s, self.vset[c as usize]);
                (s, self.lin_flag[a as usize] || self.lin_flag[b as usize])
            }
        };
        let iv = self.interval(n, w);
        self.nodes.push((n, w as u8));
        self.iv.push(iv);
        self.vset.push(vs);
        self.lin_flag.push(lf);
        self.ev_val.push(0);
        self.ev_epoch.push(0);
        self.map.insert(key, id);
        id
    }
    fn interval(&self, n: Node, w: u32) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        match n {
            Node::Const(v) => (v, v),
            Node::Var(_) => full,
            Node::Not(_) => full,
            Node::ZExt(a) => self.iv[a as usize],
            Node::SExt(a) => {
                let (l, h) = self.iv[a as usize];
                let aw = self.w(a);
                if h < (1u128 << (aw - 1)) {
                    (l, h)
                } else {
                    full
                }
            }
            Node::Ite(_, a, b) => {
                let (x, y) = (self.iv[a as usize], self.iv[b as usize]);
                (x.0.min(y.0), x.1.max(y.1))
            }
            Node::Extract(a, lo) => {
                let (l, h) = self.iv[a as usize];
                let (l2, h2) = (l >> lo, h >> lo);
                if h2 <= m {
                    (l2, h2)
                } else {
                    full
                }
            }
            Node::LinTab(..) => full,
            Node::Bin(op, a, b) => {
                let (al, ah) = self.iv[a as usize];
                let (bl, bh) = self.iv[b as usize];
                match op {
                    Op::Add => match ah.checked_add(bh) {
                        Some(h) if h <= m => (al + bl, h),
                        _ => match al.checked_add(bl) {
                            // both ends wrap exactly once
                            Some(l) if l > m && w < 127 => (l & m, ah.wrapping_add(bh) & m),
                            _ => full,
                        },
                    },
                    Op::Sub => {
                        if al >= bh {
                            (al - bh, ah - bl)
                        } else if ah < bl && w < 127 {
                            ((al.wrapping_sub(bh)) & m, (ah.wrapping_sub(bl)) & m)
                        } else {
                            full
                        }
                    }
                    Op::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al.wrapping_mul(bl), h),
                        _ => full,
                    },
                    Op::UDiv => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            full
                        }
                    }
                    Op::URem => {
                        if bl > 0 {
                            (0, ah.min(bh - 1))
                        } else {
                            full
                        }
                    }
                    Op::And => (0, ah.min(bh)),
                    Op::Or => {
                        let mx = ah | bh;
                        let bits = 128 - mx.leading_zeros();
                        (al.max(bl), mask(bits))
                    }
                    Op::Xor => {
                        let mx = ah | bh;
                        let bits = 128 - mx.leading_zeros();
                        (0, mask(bits))
                    }
                    Op::LShr => {
                        if bl == bh && bl < w as u128 {
                            (al >> bl, ah >> bl)
                        } else {
                            (0, ah)
                        }
                    }
                    Op::Shl => {
                        if bl == bh && bl < w as u128 && ah.leading_zeros() as u128 > bl && (ah << bl) <= m {
                            (al << bl, ah << bl)
                        } else {
                            full
                        }
                    }
                    Op::Concat => {
                        let lw = self.w(b);
                        ((al << lw) | bl, (ah << lw) | bh)
                    }
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => (0, 1),
                    _ => full,
                }
            }
        }
    }

    // ---------- constructors ----------
    #[inline]
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.raw(Node::Const(v & mask(w)), w)
    }
    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn new_var(&mut self, name: String, w: u32) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w });
        self.raw(Node::Var(id), w)
    }
    pub fn var_expr(&mut self, id: u32) -> E {
        let w = self.vars[id as usize].w;
        self.raw(Node::Var(id), w)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        assert!(w > aw);
        match self.node(a) {
            Node::Const(v) => self.konst(v, w),
            Node::ZExt(x) => self.zext(x, w),
            _ => self.raw(Node::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if self.iv[a as usize].1 < (1u128 << (aw - 1)) {
            return self.zext(a, w);
        }
        match self.node(a) {
            Node::Const(v) => self.konst(sext128(v, aw) as u128, w),
            Node::SExt(x) => self.sext(x, w),
            Node::ZExt(x) => self.zext(x, w),
            _ => self.raw(Node::SExt(a), w),
        }
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        let (_, ah) = self.iv[a as usize];
        if lo > 0 && (ah >> lo) == 0 {
            return self.konst(0, w);
        }
        match self.node(a) {
            Node::Const(v) => self.konst(v >> lo, w),
            Node::Extract(x, l2) => self.extract(x, lo + l2 as u32, w),
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.konst(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let y = self.extract(x, lo, xw - lo);
                    self.zext(y, w)
                }
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo < xw {
                    let y = self.extract(x, lo, xw - lo);
                    self.sext(y, w)
                } else {
                    let s = self.extract(x, xw - 1, 1);
                    self.sext(s, w)
                }
            }
            Node::Bin(Op::Concat, h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let x = self.extract(h, 0, lo + w - lw);
                    let y = self.extract(l, lo, lw - lo);
                    self.concat(x, y)
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.bin(op, x, y)
            }
            // parts of sums are left alone unless that makes them simpler: most are taken by a store and
            // put together again by a load
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                let part = |n| matches!(n, Node::Extract(..)) || matches!(n, Node::Bin(Op::Add | Op::Sub | Op::Mul, ..));
                if part(self.node(x)) || part(self.node(y)) {
                    self.raw(Node::Extract(a, 0), w)
                } else {
                    self.bin(op, x, y)
                }
            }
            Node::Ite(c, x, y) => {
                let xc = self.as_const(x).is_some();
                let yc = self.as_const(y).is_some();
                if xc || yc || w == 8 {
                    let x = self.extract(x, lo, w);
                    let y = self.extract(y, lo, w);
                    self.ite(c, x, y)
                } else {
                    self.raw(Node::Extract(a, lo as u8), w)
                }
            }
            _ => self.raw(Node::Extract(a, lo as u8), w),
        }
    }
    fn lin_note(&mut self, a: E, b: E, eq: bool) {
        self.stat_lin_decided += 1;
        let n = self.stat_lin_decided;
        if (n <= 8 || n % 1024 == 0) && self.lin_log.len() < 24 {
            let q = self.raw(Node::Bin(Op::Eq, a, b), 1);
            let q = if eq { self.raw(Node::Not(q), 1) } else { q };
            self.lin_log.push(q);
        }
    }
    fn is_add(&self, a: E) -> bool {
        matches!(self.node(a), Node::Bin(Op::Add, ..))
    }
    pub fn addends(&self, a: E, out: &mut Vec<E>) {
        if out.len() > 10 {
            return;
        }
        match self.node(a) {
            Node::Bin(Op::Add, x, y) => {
                self.addends(x, out);
                self.addends(y, out);
            }
            _ => out.push(a),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l)) {
            return self.konst((a << lw) | b, w);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        if let Node::ZExt(x) = self.node(h) {
            // concat(zext(x), l) = zext(concat(x,l))
            let y = self.concat(x, l);
            return self.zext(y, w);
        }
        // adjacent extracts
        let (hx, hl) = match self.node(h) {
            Node::Extract(x, l) => (x, l as u32),
            _ => (h, 0),
        };
        let (lx, ll) = match self.node(l) {
            Node::Extract(x, l) => (x, l as u32),
            _ => (l, 0),
        };
        if hx == lx && hl == ll + lw && self.w(hx) >= hl + hw {
            return self.extract(hx, ll, w);
        }
        // the low part of hx was found to be a constant
        if let (Some(k), true) = (self.as_const(l), hl >= lw && hx != h) {
            if matches!(self.node(hx), Node::Bin(Op::Add | Op::Sub | Op::Mul, ..)) {
                let low = self.extract(hx, hl - lw, lw);
                if self.as_const(low) == Some(k) {
                    return self.extract(hx, hl - lw, hw + lw);
                }
            }
        }
        // concat(h, concat(m, l)) where h,m adjacent
        if let Node::Bin(Op::Concat, m, l2) = self.node(l) {
            let mw = self.w(m);
            let (mx, ml) = match self.node(m) {
                Node::Extract(x, l) => (x, l as u32),
                _ => (m, 0),
            };
            if hx == mx && hl == ml + mw && self.w(hx) >= hl + hw {
                let hm = self.extract(hx, ml, hw + mw);
                return self.concat(hm, l2);
            }
            if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(m)) {
                let hm = self.konst((a << mw) | b, hw + mw);
                return self.concat(hm, l2);
            }
        }
        // right-associate: concat(concat(a,b),l) = concat(a, concat(b,l))
        if let Node::Bin(Op::Concat, a, b) = self.node(h) {
            let bl = self.concat(b, l);
            return self.concat(a, bl);
        }
        // ite(c, k1, k2) . ite(c, k3, k4)
        if let (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) = (self.node(h), self.node(l)) {
            if c1 == c2 {
                let x = self.concat(a1, a2);
                let y = self.concat(b1, b2);
                return self.ite(c1, x, y);
            }
        }
        self.raw(Node::Bin(Op::Concat, h, l), w)
    }
    pub fn not(&mut self, a: E) -> E {
        debug_assert!(self.w(a) == 1);
        match self.node(a) {
            Node::Const(v) => self.konst(v ^ 1, 1),
            Node::Not(x) => x,
            Node::Bin(Op::Ult, x, y) => self.bin(Op::Ule, y, x),
            Node::Bin(Op::Ule, x, y) => self.bin(Op::Ult, y, x),
            Node::Bin(Op::Slt, x, y) => self.bin(Op::Sle, y, x),
            Node::Bin(Op::Sle, x, y) => self.bin(Op::Slt, y, x),
            _ => self.raw(Node::Not(a), 1),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_const(c) {
            return if v != 0 { a } else { b };
        }
        if let Node::Not(x) = self.node(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
            if a == c {
                return self.bin(Op::Or, c, b);
            }
            if b == c {
                return self.bin(Op::And, c, a);
            }
        }
        if let (Some(1), Some(0)) = (self.as_const(a), self.as_const(b)) {
            return self.zext(c, w);
        }
        if let Node::Ite(c2, x, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.raw(Node::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let x = self.bin(Op::Eq, a, b);
        self.not(x)
    }
    pub fn eqk(&mut self, a: E, k: u128) -> E {
        let w = self.w(a);
        let b = self.konst(k, w);
        self.eq(a, b)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }

    /// segments, from the least significant, as (expr, width)
    fn segs(&self, e: E, out: &mut Vec<(Option<E>, u128, u32)>) {
        // (Some(expr),_,w) or (None,const,w)
        match self.node(e) {
            Node::Const(v) => out.push((None, v, self.w(e))),
            Node::ZExt(x) => {
                self.segs(x, out);
                out.push((None, 0, self.w(e) - self.w(x)));
            }
            Node::Bin(Op::Concat, h, l) => {
                self.segs(l, out);
                self.segs(h, out);
            }
            _ => out.push((Some(e), 0, self.w(e))),
        }
    }
    fn is_seg(&self, e: E) -> bool {
        matches!(self.node(e), Node::ZExt(_) | Node::Bin(Op::Concat, _, _))
    }
    /// try piecewise bitwise operation
    fn bitwise_segs(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w == 1 {
            return None;
        }
        let mut cuts: Vec<u32> = vec![];
        for &e in &[a, b] {
            if let Some(v) = self.as_const(e) {
                if op == Op::Xor {
                    continue;
                }
                let mut runs = 0;
                let mut prev = v & 1;
                let mut tmp = vec![];
                for i in 1..w {
                    let bit = (v >> i) & 1;
                    if bit != prev {
                        runs += 1;
                        tmp.push(i);
                        prev = bit;
                    }
                }
                if runs > 8 {
                    return None;
                }
                cuts.extend(tmp);
            } else if self.is_seg(e) {
                let mut s = vec![];
                self.segs(e, &mut s);
                let mut p = 0;
                for x in s {
                    p += x.2;
                    if p < w {
                        cuts.push(p);
                    }
                }
            }
        }
        if cuts.is_empty() {
            return None;
        }
        cuts.sort();
        cuts.dedup();
        if cuts.len() > 20 {
            return None;
        }
        let mut res: Option<E> = None;
        let mut p = 0;
        cuts.push(w);
        // check that at least one piece simplifies
        let mut pieces = vec![];
        let mut simp = false;
        for &c in &cuts {
            let pw = c - p;
            let x = self.extract(a, p, pw);
            let y = self.extract(b, p, pw);
            let m = mask(pw);
            let (x, y) = if self.as_const(x).is_some() { (y, x) } else { (x, y) };
            let r = match (self.as_const(y), op) {
                (Some(0), Op::And) => Some(y),
                (Some(v), Op::And) if v == m => Some(x),
                (Some(0), Op::Or | Op::Xor) => Some(x),
                (Some(v), Op::Or) if v == m => Some(y),
                _ if x == y => Some(if op == Op::Xor { self.konst(0, pw) } else { x }),
                _ => None,
            };
            if r.is_some() {
                simp = true;
            }
            pieces.push((x, y, r));
            p = c;
        }
        if !simp {
            return None;
        }
        for (x, y, r) in pieces {
            let r = match r {
                Some(r) => r,
                None => self.bin(op, x, y),
            };
            res = Some(match res {
                None => r,
                Some(l) => self.concat(r, l),
            });
        }
        res
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        if op == Op::Concat {
            return self.concat(a, b);
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.konst(v, rw);
        }
        let m = mask(w);
        // commutative: constant right, otherwise ordered
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(k) = cb {
                    if let Node::Bin(Op::Add, x, y) = self.node(a) {
                        if let Some(k2) = self.as_const(y) {
                            let c = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, x, c);
                        }
                    }
                    if let Node::Bin(Op::Sub, x, y) = self.node(a) {
                        if let Some(k2) = self.as_const(x) {
                            let c = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Sub, c, y);
                        }
                    }
                    if let Node::Ite(c, x, y) = self.node(a) {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let x = self.bin(Op::Add, x, b);
                            let y = self.bin(Op::Add, y, b);
                            return self.ite(c, x, y);
                        }
                    }
                } else {
                    // pull constants out
                    if let Node::Bin(Op::Add, x, y) = self.node(a) {
                        if self.as_const(y).is_some() {
                            let s = self.bin(Op::Add, x, b);
                            return self.bin(Op::Add, s, y);
                        }
                    }
                    if let Node::Bin(Op::Add, x, y) = self.node(b) {
                        if self.as_const(y).is_some() {
                            let s = self.bin(Op::Add, a, x);
                            return self.bin(Op::Add, s, y);
                        }
                    }
                    // a + (x - a) = x
                    if let Node::Bin(Op::Sub, x, y) = self.node(b) {
                        if y == a {
                            return x;
                        }
                    }
                    if let Node::Bin(Op::Sub, x, y) = self.node(a) {
                        if y == b {
                            return x;
                        }
                    }
                    // sums in one order: ((l0 + l1) + l2) + ...
                    if w > 8 && (self.is_add(a) || self.is_add(b)) {
                        let mut l = vec![];
                        self.addends(a, &mut l);
                        self.addends(b, &mut l);
                        if l.len() <= 10 {
                            l.sort();
                            let mut s = l[0];
                            for &t in &l[1..] {
                                s = self.raw(Node::Bin(Op::Add, s, t), w);
                            }
                            return s;
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(k) = cb {
                    let nk = self.konst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, nk);
                }
                if ca == Some(0) {
                    // 0 - zext(bit) = sext(bit)
                    if let Node::ZExt(x) = self.node(b) {
                        if self.w(x) == 1 {
                            return self.sext(x, w);
                        }
                    }
                    if let Node::SExt(x) = self.node(b) {
                        if self.w(x) == 1 {
                            return self.zext(x, w);
                        }
                    }
                }
                // (x + y) - x
                if let Node::Bin(Op::Add, x, y) = self.node(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    if self.as_const(y).is_some() {
                        let s = self.bin(Op::Sub, x, b);
                        return self.bin(Op::Add, s, y);
                    }
                }
                // remove common addends
                if w > 8 && self.is_add(a) {
                    let (mut l, mut r) = (vec![], vec![]);
                    self.addends(a, &mut l);
                    self.addends(b, &mut r);
                    if l.len() <= 10 && r.len() <= 10 {
                        let n = l.len();
                        r.retain(|t| match l.iter().position(|u| u == t) {
                            Some(i) => {
                                l.remove(i);
                                false
                            }
                            None => true,
                        });
                        if l.len() < n {
                            let mut x = self.konst(0, w);
                            for t in l {
                                x = self.bin(Op::Add, x, t);
                            }
                            let mut y = self.konst(0, w);
                            for t in r {
                                y = self.bin(Op::Add, y, t);
                            }
                            return self.bin(Op::Sub, x, y);
                        }
                    }
                }
                if let Node::Bin(Op::Add, x, y) = self.node(b) {
                    if x == a {
                        let z = self.konst(0, w);
                        return self.bin(Op::Sub, z, y);
                    }
                    if let Some(k) = self.as_const(y) {
                        let s = self.bin(Op::Sub, a, x);
                        let nk = self.konst(k.wrapping_neg(), w);
                        return self.bin(Op::Add, s, nk);
                    }
                    if y == a {
                        let z = self.konst(0, w);
                        return self.bin(Op::Sub, z, x);
                    }
                }
                // a - (a - y) = y
                if let Node::Bin(Op::Sub, x, y) = self.node(b) {
                    if x == a {
                        return y;
                    }
                    if self.as_const(x).is_some() && ca.is_some() {
                        let k = self.bin(Op::Sub, a, x);
                        return self.bin(Op::Add, y, k);
                    }
                }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                    if let Node::ZExt(x) = self.node(a) {
                        // narrow
                        if let Some(h) = self.iv[a as usize].1.checked_mul(k) {
                            let nb = (128 - h.leading_zeros()).max(self.w(x)).max(1);
                            if nb < w {
                                let xx = self.zext(x, nb);
                                let kk = self.konst(k, nb);
                                let r = self.bin(Op::Mul, xx, kk);
                                return self.zext(r, w);
                            }
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k != 0 {
                        let hi = self.iv[a as usize].1;
                        if hi < k {
                            return self.konst(0, w);
                        }
                        let nb = 128 - hi.leading_zeros();
                        if nb < w {
                            let x = self.extract(a, 0, nb);
                            let kk = self.konst(k, nb);
                            let r = self.bin(Op::UDiv, x, kk);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k == 1 {
                        return self.konst(0, w);
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if k != 0 {
                        let hi = self.iv[a as usize].1;
                        if hi < k {
                            return a;
                        }
                        let nb = 128 - hi.leading_zeros();
                        if nb < w {
                            let x = self.extract(a, 0, nb);
                            let kk = self.konst(k, nb);
                            let r = self.bin(Op::URem, x, kk);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                if let Some(k) = cb {
                    let half = 1u128 << (w - 1);
                    if k < half && k != 0 && self.iv[a as usize].1 < half {
                        return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if (k & (k + 1)) == 0 {
                        // low mask
                        let n = 128 - k.leading_zeros();
                        if self.iv[a as usize].1 <= k {
                            return a;
                        }
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    if let Node::Bin(Op::And, x, y) = self.node(a) {
                        if let Some(k2) = self.as_const(y) {
                            let c = self.konst(k & k2, w);
                            return self.bin(Op::And, x, c);
                        }
                    }
                    if let Node::Ite(c, x, y) = self.node(a) {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let x = self.bin(Op::And, x, b);
                            let y = self.bin(Op::And, y, b);
                            return self.ite(c, x, y);
                        }
                    }
                    if let Node::SExt(x) = self.node(a) {
                        if self.w(x) == 1 {
                            let z = self.konst(0, w);
                            return self.ite(x, b, z);
                        }
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.konst(0, 1);
                    }
                    // absorption a & (a & c)
                    if let Node::Bin(Op::And, x, y) = self.node(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                    if let Node::Bin(Op::And, x, y) = self.node(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                } else {
                    if let Node::SExt(x) = self.node(a) {
                        if self.w(x) == 1 {
                            let z = self.konst(0, w);
                            return self.ite(x, b, z);
                        }
                    }
                    if let Node::SExt(x) = self.node(b) {
                        if self.w(x) == 1 {
                            let z = self.konst(0, w);
                            return self.ite(x, a, z);
                        }
                    }
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a), self.node(b)) {
                    let n = self.w(x).min(self.w(y));
                    let x = self.extract(x, 0, n);
                    let y = self.extract(y, 0, n);
                    let r = self.bin(Op::And, x, y);
                    return self.zext(r, w);
                }
                if let Some(r) = self.bitwise_segs(op, a, b) {
                    return r;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.konst(1, 1);
                    }
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a), self.node(b)) {
                    let n = self.w(x).max(self.w(y));
                    let x = self.zext(x, n);
                    let y = self.zext(y, n);
                    if n < w {
                        let r = self.bin(Op::Or, x, y);
                        return self.zext(r, w);
                    }
                }
                if let Some(r) = self.bitwise_segs(op, a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if let Node::Bin(Op::Xor, x, y) = self.node(a) {
                        if let Some(k2) = self.as_const(y) {
                            let c = self.konst(k ^ k2, w);
                            return self.bin(Op::Xor, x, c);
                        }
                    }
                    if let Node::Ite(c, x, y) = self.node(a) {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let x = self.bin(Op::Xor, x, b);
                            let y = self.bin(Op::Xor, y, b);
                            return self.ite(c, x, y);
                        }
                    }
                }
                if w > 1 {
                    if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a), self.node(b)) {
                        let n = self.w(x).max(self.w(y));
                        if n < w {
                            let x = self.zext(x, n);
                            let y = self.zext(y, n);
                            let r = self.bin(Op::Xor, x, y);
                            return self.zext(r, w);
                        }
                    }
                    if let Some(r) = self.bitwise_segs(op, a, b) {
                        return r;
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.konst(0, k);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let na = self.not(a);
                    if na == b {
                        return self.konst(0, 1);
                    }
                }
                let (al, ah) = self.iv[a as usize];
                let (bl, bh) = self.iv[b as usize];
                if ah < bl || bh < al {
                    return self.konst(0, 1);
                }
                if let Some(k) = cb {
                    match self.node(a) {
                        Node::ZExt(x) => {
                            let xw = self.w(x);
                            if k > mask(xw) {
                                return self.konst(0, 1);
                            }
                            return self.eqk(x, k);
                        }
                        Node::SExt(x) => {
                            let xw = self.w(x);
                            let t = k & mask(xw);
                            if (sext128(t, xw) as u128) & m != k {
                                return self.konst(0, 1);
                            }
                            return self.eqk(x, t);
                        }
                        Node::Bin(Op::Concat, h, l) => {
                            let lw = self.w(l);
                            let x = self.eqk(h, k >> lw);
                            if self.as_const(x) == Some(0) {
                                return x;
                            }
                            let y = self.eqk(l, k & mask(lw));
                            return self.bin(Op::And, x, y);
                        }
                        Node::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                return self.eqk(x, k.wrapping_sub(k2) & m);
                            }
                        }
                        Node::Bin(Op::Sub, x, y) => {
                            if let Some(k2) = self.as_const(x) {
                                return self.eqk(y, k2.wrapping_sub(k) & m);
                            }
                            if k == 0 {
                                return self.eq(x, y);
                            }
                        }
                        Node::Bin(Op::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                return self.eqk(x, k ^ k2);
                            }
                            if k == 0 {
                                return self.eq(x, y);
                            }
                        }
                        Node::Bin(Op::Or, x, y) => {
                            if k == 0 {
                                let p = self.eqk(x, 0);
                                let q = self.eqk(y, 0);
                                return self.bin(Op::And, p, q);
                            }
                        }
                        Node::Ite(c, x, y) => {
                            let (xc, yc) = (self.as_const(x), self.as_const(y));
                            if xc.is_some() || yc.is_some() {
                                let p = self.eqk(x, k);
                                let q = self.eqk(y, k);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.node(a), self.node(b)) {
                        (Node::ZExt(x), Node::ZExt(y)) => {
                            let n = self.w(x).max(self.w(y));
                            if n < w {
                                let x = self.zext(x, n);
                                let y = self.zext(y, n);
                                return self.eq(x, y);
                            }
                        }
                        (Node::SExt(x), Node::SExt(y)) if self.w(x) == self.w(y) => {
                            return self.eq(x, y);
                        }
                        (Node::Bin(Op::Add, x, y), Node::Bin(Op::Add, p, q)) => {
                            if y == q {
                                return self.eq(x, p);
                            }
                        }
                        _ => {}
                    }
                    if let Node::Bin(Op::Add, x, y) = self.node(a) {
                        if x == b {
                            return self.eqk(y, 0);
                        }
                        if y == b {
                            return self.eqk(x, 0);
                        }
                    }
                    if let Node::Bin(Op::Add, x, y) = self.node(b) {
                        if x == a {
                            return self.eqk(y, 0);
                        }
                        if y == a {
                            return self.eqk(x, 0);
                        }
                    }
                    if self.is_seg(a) || self.is_seg(b) {
                        // piecewise
                        let mut cuts = vec![];
                        for &e in &[a, b] {
                            if self.is_seg(e) {
                                let mut s = vec![];
                                self.segs(e, &mut s);
                                let mut p = 0;
                                for x in s {
                                    p += x.2;
                                    cuts.push(p)
                                }
                            }
                        }
                        cuts.push(w);
                        cuts.sort();
                        cuts.dedup();
                        if cuts.len() > 1 && cuts.len() <= 20 {
                            let mut r = self.konst(1, 1);
                            let mut p = 0;
                            for c in cuts {
                                let x = self.extract(a, p, c - p);
                                let y = self.extract(b, p, c - p);
                                p = c;
                                let q = self.eq(x, y);
                                if self.as_const(q) == Some(0) {
                                    return q;
                                }
                                r = self.bin(Op::And, r, q);
                            }
                            return r;
                        }
                    }
                }
                if self.lin_flag[a as usize] || self.lin_flag[b as usize] {
                    let (ra, rb) = (self.lin(a), self.lin(b));
                    let mut all = true;
                    // rows with a single atom: runs (expression, first bit, bits, value)
                    let mut runs: Option<Vec<(E, u8, u32, u128)>> = Some(vec![]);
                    for i in 0..w as usize {
                        let r = ra[i].xor(&rb[i]);
                        if let (1, Some(v)) = (r.atoms.len(), runs.as_mut()) {
                            let (e, bit) = self.atom_list[r.atoms[0] as usize];
                            match v.last_mut() {
                                _ if self.lin_flag[e as usize] => runs = None,
                                Some(l) if l.0 == e && l.1 as u32 + l.2 == bit as u32 => {
                                    l.3 |= (r.k as u128) << l.2;
                                    l.2 += 1;
                                }
                                _ => v.push((e, bit, 1, r.k as u128)),
                            }
                        } else if !r.atoms.is_empty() {
                            runs = None;
                        }
                        if r.atoms.is_empty() {
                            if r.k {
                                self.lin_note(a, b, false);
                                return self.konst(0, 1);
                            }
                        } else {
                            all = false;
                        }
                    }
                    if all {
                        self.lin_note(a, b, true);
                        return self.konst(1, 1);
                    }
                    if let Some(v) = runs {
                        let mut r = self.tru();
                        for (e, bit, n, val) in v {
                            let x = self.extract(e, bit as u32, n);
                            let q = self.eqk(x, val);
                            r = self.bin(Op::And, r, q);
                        }
                        self.stat_lin_decided += 1;
                        if self.lin_log.len() < 24 {
                            let q = self.raw(Node::Bin(Op::Eq, a, b), 1);
                            let q = self.raw(Node::Bin(Op::Eq, q, r), 1);
                            let q = self.raw(Node::Not(q), 1);
                            self.lin_log.push(q);
                        }
                        return r;
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.konst(0, 1);
                }
                let (al, ah) = self.iv[a as usize];
                let (bl, bh) = self.iv[b as usize];
                if ah < bl {
                    return self.konst(1, 1);
                }
                if al >= bh {
                    return self.konst(0, 1);
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Op::And, na, b);
                }
                if cb == Some(1) {
                    return self.eqk(a, 0);
                }
                if ca == Some(0) {
                    let z = self.eqk(b, 0);
                    return self.not(z);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.konst(1, 1);
                }
                let (al, ah) = self.iv[a as usize];
                let (bl, bh) = self.iv[b as usize];
                if ah <= bl {
                    return self.konst(1, 1);
                }
                if al > bh {
                    return self.konst(0, 1);
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Op::Or, na, b);
                }
                if cb == Some(0) {
                    return self.eqk(a, 0);
                }
                if let Some(k) = cb {
                    // a <= k  <=>  a < k+1
                    if k < m {
                        let k1 = self.konst(k + 1, w);
                        return self.bin(Op::Ult, a, k1);
                    }
                }
                if ca == Some(1) {
                    let z = self.eqk(b, 0);
                    return self.not(z);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst((op == Op::Sle) as u128, 1);
                }
                let half = 1u128 << (w - 1);
                let (al, ah) = self.iv[a as usize];
                let (bl, bh) = self.iv[b as usize];
                if ah < half && bh < half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if al >= half && bl >= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if ah < half && bl >= half {
                    return self.konst(0, 1);
                }
                if al >= half && bh < half {
                    return self.konst(1, 1);
                }
            }
            Op::Concat => unreachable!(),
        }
        self.raw(Node::Bin(op, a, b), rw)
    }
    fn narrow_cmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let h = self.iv[a as usize].1.max(self.iv[b as usize].1);
        let nb = (128 - h.leading_zeros()).max(1);
        if nb >= w {
            return None;
        }
        let za = matches!(self.node(a), Node::ZExt(_) | Node::Const(_));
        let zb = matches!(self.node(b), Node::ZExt(_) | Node::Const(_));
        if !(za && zb) {
            return None;
        }
        // narrow to the max of the two underlying widths
        let uw = |c: &Ctx, e: E| match c.node(e) {
            Node::ZExt(x) => c.w(x),
            Node::Const(v) => (128 - v.leading_zeros()).max(1),
            _ => w,
        };
        let n = uw(self, a).max(uw(self, b));
        if n >= w {
            return None;
        }
        let x = self.extract(a, 0, n);
        let y = self.extract(b, 0, n);
        Some(self.bin(op, x, y))
    }

    // ---------- evaluation ----------
    pub fn eval(&mut self, e: E, model: &Model) -> u128 {
        self.epoch += 1;
        self.ev(e, model)
    }
    /// evaluate several expressions with shared memo
    pub fn eval_more(&mut self, e: E, model: &Model) -> u128 {
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, md: &Model) -> u128 {
        let (n, w) = self.nodes[e as usize];
        let w = w as u32;
        match n {
            Node::Const(v) => return v,
            Node::Var(i) => return md.get(i),
            _ => {}
        }
        if self.ev_epoch[e as usize] == self.epoch {
            return self.ev_val[e as usize];
        }
        let v = match n {
            Node::Bin(Op::Concat, a, b) => {
                let lw = self.w(b);
                (self.ev(a, md) << lw) | self.ev(b, md)
            }
            Node::Bin(op, a, b) => {
                let aw = self.w(a);
                let x = self.ev(a, md);
                let y = self.ev(b, md);
                fold(op, aw, x, y)
            }
            Node::Not(a) => self.ev(a, md) ^ 1,
            Node::Ite(c, a, b) => {
                if self.ev(c, md) != 0 {
                    self.ev(a, md)
                } else {
                    self.ev(b, md)
                }
            }
            Node::Extract(a, lo) => (self.ev(a, md) >> lo) & mask(w),
            Node::ZExt(a) => self.ev(a, md),
            Node::SExt(a) => {
                let aw = self.w(a);
                (sext128(self.ev(a, md), aw) as u128) & mask(w)
            }
            Node::LinTab(t, a) => {
                let x = self.ev(a, md);
                let tb = &self.lin_tables[t as usize];
                let mut r = 0;
                for i in 0..tb.idx_bits {
                    if (x >> i) & 1 != 0 {
                        r ^= tb.basis[i as usize];
                    }
                }
                r
            }
            Node::Const(_) | Node::Var(_) => unreachable!(),
        };
        self.ev_epoch[e as usize] = self.epoch;
        self.ev_val[e as usize] = v;
        v
    }

    /// Superset of the values `e` can take, when small.
    pub fn vals(&mut self, e: E) -> Option<Rc<Vec<u128>>> {
        const LIM: usize = 16;
        let (n, w) = self.nodes[e as usize];
        let w = w as u32;
        if let Node::Const(v) = n {
            return Some(Rc::new(vec![v]));
        }
        if let Some(r) = self.vals_memo.get(&e) {
            return r.clone();
        }
        fn norm(mut v: Vec<u128>) -> Option<Rc<Vec<u128>>> {
            v.sort();
            v.dedup();
            if v.len() <= LIM {
                Some(Rc::new(v))
            } else {
                None
            }
        }
        let r = match n {
            Node::Bin(op, a, b) => match (self.vals(a), self.vals(b)) {
                (Some(p), Some(q)) => {
                    let aw = self.w(a);
                    let lw = self.w(b);
                    let mut v = vec![];
                    for &i in p.iter() {
                        for &j in q.iter() {
                            v.push(if op == Op::Concat { (i << lw) | j } else { fold(op, aw, i, j) });
                        }
                    }
                    norm(v)
                }
                _ => None,
            },
            Node::Ite(_, a, b) => match (self.vals(a), self.vals(b)) {
                (Some(p), Some(q)) => norm(p.iter().chain(q.iter()).copied().collect()),
                _ => None,
            },
            Node::Extract(a, lo) => self.vals(a).and_then(|p| norm(p.iter().map(|v| (v >> lo) & mask(w)).collect())),
            Node::ZExt(a) => self.vals(a),
            Node::SExt(a) => {
                let aw = self.w(a);
                self.vals(a).and_then(|p| norm(p.iter().map(|&v| (sext128(v, aw) as u128) & mask(w)).collect()))
            }
            _ => None,
        };
        let r = match r {
            None if w == 1 => Some(Rc::new(vec![0, 1])),
            r => r,
        };
        self.vals_memo.insert(e, r.clone());
        r
    }

    // ---------- substitution ----------
    pub fn subst(&mut self, e: E, eqs: &FxMap<E, E>, evars: u32, memo: &mut FxMap<E, E>) -> E {
        let (n, w) = self.nodes[e as usize];
        let w = w as u32;
        if let Node::Const(_) = n {
            return e;
        }
        if let Some(&r) = eqs.get(&e) {
            return r;
        }
        if !self.sets_intersect(self.vset[e as usize], evars) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let r = match n {
            Node::Const(_) => e,
            Node::Var(_) => e,
            Node::Bin(op, a, b) => {
                let x = self.subst(a, eqs, evars, memo);
                let y = self.subst(b, eqs, evars, memo);
                if x == a && y == b {
                    e
                } else {
                    self.bin(op, x, y)
                }
            }
            Node::Not(a) => {
                let x = self.subst(a, eqs, evars, memo);
                if x == a {
                    e
                } else {
                    self.not(x)
                }
            }
            Node::Ite(c, a, b) => {
                let z = self.subst(c, eqs, evars, memo);
                match self.as_const(z) {
                    Some(0) => self.subst(b, eqs, evars, memo),
                    Some(_) => self.subst(a, eqs, evars, memo),
                    None => {
                        let x = self.subst(a, eqs, evars, memo);
                        let y = self.subst(b, eqs, evars, memo);
                        if z == c && x == a && y == b {
                            e
                        } else {
                            self.ite(z, x, y)
                        }
                    }
                }
            }
            Node::Extract(a, lo) => {
                let x = self.subst(a, eqs, evars, memo);
                if x == a {
                    e
                } else {
                    self.extract(x, lo as u32, w)
                }
            }
            Node::ZExt(a) => {
                let x = self.subst(a, eqs, evars, memo);
                if x == a {
                    e
                } else {
                    self.zext(x, w)
                }
            }
            Node::SExt(a) => {
                let x = self.subst(a, eqs, evars, memo);
                if x == a {
                    e
                } else {
                    self.sext(x, w)
                }
            }
            Node::LinTab(t, a) => {
                let x = self.subst(a, eqs, evars, memo);
                if x == a {
                    e
                } else {
                    self.lintab(t, x)
                }
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn sets_intersect(&self, a: u32, b: u32) -> bool {
        if a == 0 || b == 0 {
            return false;
        }
        if a == b {
            return true;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        x.iter().zip(y.iter()).any(|(p, q)| p & q != 0)
    }
    pub fn subset(&self, a: u32, b: u32) -> bool {
        if a == b {
            return true;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        x.iter().enumerate().all(|(i, p)| p & !y.get(i).copied().unwrap_or(0) == 0)
    }
    pub fn set_size(&self, a: u32) -> u32 {
        self.sets[a as usize].iter().map(|w| w.count_ones()).sum()
    }
    /// the only variable of a set, if it has exactly one
    pub fn single_var(&self, a: u32) -> Option<u32> {
        let s = &self.sets[a as usize];
        let mut r = None;
        for (i, w) in s.iter().enumerate() {
            match w.count_ones() {
                0 => {}
                1 if r.is_none() => r = Some((i * 64) as u32 + w.trailing_zeros()),
                _ => return None,
            }
        }
        r
    }
    pub fn set_union_pub(&mut self, a: u32, b: u32) -> u32 {
        self.union(a, b)
    }

    // ---------- linear tables ----------
    pub fn lintab(&mut self, t: u32, idx: E) -> E {
        let w = self.lin_tables[t as usize].w;
        if let Some(v) = self.as_const(idx) {
            let tb = &self.lin_tables[t as usize];
            let mut r = 0;
            for i in 0..tb.idx_bits {
                if (v >> i) & 1 != 0 {
                    r ^= tb.basis[i as usize];
                }
            }
            return self.konst(r, w);
        }
        self.raw(Node::LinTab(t, idx), w)
    }
    fn atom(&mut self, e: E, bit: u8) -> u32 {
        let n = self.atom_map.len() as u32;
        let a = *self.atom_map.entry((e, bit)).or_insert(n);
        if a == n {
            self.atom_list.push((e, bit));
        }
        a
    }
    pub fn lin(&mut self, e: E) -> Rc<Vec<Row>> {
        if let Some(r) = self.lin_memo.get(&e) {
            return r.clone();
        }
        let (n, w) = self.nodes[e as usize];
        let w = w as usize;
        let rows: Vec<Row> = match n {
            Node::Const(v) => (0..w).map(|i| Row::konst((v >> i) & 1 != 0)).collect(),
            Node::Bin(Op::Xor, a, b) => {
                let (x, y) = (self.lin(a), self.lin(b));
                (0..w).map(|i| x[i].xor(&y[i])).collect()
            }
            Node::Bin(Op::Concat, a, b) => {
                let (x, y) = (self.lin(a), self.lin(b));
                y.iter().chain(x.iter()).cloned().collect()
            }
            Node::Bin(Op::And, a, b) if self.as_const(b).is_some() => {
                let k = self.as_const(b).unwrap();
                let x = self.lin(a);
                (0..w)
                    .map(|i| if (k >> i) & 1 != 0 { x[i].clone() } else { Row::konst(false) })
                    .collect()
            }
            Node::Not(a) => {
                let x = self.lin(a);
                vec![x[0].xor(&Row::konst(true))]
            }
            Node::Extract(a, lo) => {
                let x = self.lin(a);
                x[lo as usize..lo as usize + w].to_vec()
            }
            Node::ZExt(a) => {
                let x = self.lin(a);
                let mut v = x.to_vec();
                v.resize(w, Row::konst(false));
                v
            }
            Node::SExt(a) => {
                let x = self.lin(a);
                let mut v = x.to_vec();
                let t = v.last().unwrap().clone();
                v.resize(w, t);
                v
            }
            Node::Ite(c, a, b) if self.as_const(a).is_some() && self.as_const(b).is_some() => {
                let (k1, k2) = (self.as_const(a).unwrap(), self.as_const(b).unwrap());
                let cr = self.lin(c)[0].clone();
                (0..w)
                    .map(|i| {
                        let r = Row::konst((k2 >> i) & 1 != 0);
                        if ((k1 ^ k2) >> i) & 1 != 0 {
                            r.xor(&cr)
                        } else {
                            r
                        }
                    })
                    .collect()
            }
            Node::Bin(Op::Eq, a, b) if self.w(a) == 1 => {
                let (x, y) = (self.lin(a), self.lin(b));
                vec![x[0].xor(&y[0]).xor(&Row::konst(true))]
            }
            Node::LinTab(t, a) => {
                let x = self.lin(a);
                let tb = &self.lin_tables[t as usize];
                let mut v = vec![Row::konst(false); w];
                for i in 0..tb.idx_bits as usize {
                    for (j, row) in v.iter_mut().enumerate() {
                        if (tb.basis[i] >> j) & 1 != 0 {
                            *row = row.xor(&x[i]);
                        }
                    }
                }
                v
            }
            _ => (0..w)
                .map(|i| Row { k: false, atoms: vec![self.atom(e, i as u8)] })
                .collect(),
        };
        let r = Rc::new(rows);
        self.lin_memo.insert(e, r.clone());
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let (n, w) = self.nodes[e as usize];
        if depth == 0 {
            return format!("e{}:{}", e, w);
        }
        let d = depth - 1;
        match n {
            Node::Const(v) => format!("{:#x}:{}", v, w),
            Node::Var(i) => format!("{}:{}", self.vars[i as usize].name, w),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            Node::Not(a) => format!("(not {})", self.show(a, d)),
            Node::Ite(c, a, b) => {
                format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d))
            }
            Node::Extract(a, lo) => format!("{}[{}..{}]", self.show(a, d), lo, lo as u32 + w as u32),
            Node::ZExt(a) => format!("(zext{} {})", w, self.show(a, d)),
            Node::SExt(a) => format!("(sext{} {})", w, self.show(a, d)),
            Node::LinTab(t, a) => format!("(lin{} {})", t, self.show(a, d)),
        }
    }
}

/// Assignment of variables; missing variables are 0.
#[derive(Clone, Default, Debug)]
pub struct Model(pub FxMap<u32, u128>);
impl Model {
    #[inline]
    pub fn get(&self, i: u32) -> u128 {
        self.0.get(&i).copied().unwrap_or(0)
    }
}
