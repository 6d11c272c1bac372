//! Symbolic memory: objects addressed as objid << 32 | offset.
use crate::expr::*;
use crate::hash::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete byte
    pub writable: bool,
    pub heap: bool,
}
impl Obj {
    pub fn new(size: usize, heap: bool) -> Obj {
        Obj { data: vec![0; size], sym: None, writable: true, heap }
    }
    #[inline]
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    pub fn byte(&self, i: usize) -> E {
        match &self.sym {
            Some(s) if s[i] != 0 => s[i],
            _ => cx().konst(self.data[i] as u128, 8),
        }
    }
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|&e| e == 0),
        }
    }
    pub fn set(&mut self, i: usize, e: E) {
        if let Some(v) = cx().as_const(e) {
            self.data[i] = v as u8;
            if let Some(s) = &mut self.sym {
                s[i] = 0;
            }
        } else {
            let n = self.data.len();
            let s = self.sym.get_or_insert_with(|| vec![0; n]);
            s[i] = e;
        }
    }
    pub fn copy_from(&mut self, off: usize, data: &[u8], sym: Option<&[E]>) {
        self.data[off..off + data.len()].copy_from_slice(data);
        match sym {
            None => {
                if let Some(s) = &mut self.sym {
                    s[off..off + data.len()].fill(0);
                }
            }
            Some(src) => {
                if self.sym.is_none() && src.iter().all(|&e| e == 0) {
                    return;
                }
                let n = self.data.len();
                let s = self.sym.get_or_insert_with(|| vec![0; n]);
                s[off..off + data.len()].copy_from_slice(src);
            }
        }
    }
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    pub base: u32, // first non-global id
    pub next: u32,
    chunks: Vec<Option<Rc<Chunk>>>,
    pub globals: Rc<FxMap<u32, Rc<Obj>>>,
    pub heap_bytes: u64,
}
impl Mem {
    pub fn new(base: u32) -> Mem {
        Mem { base, next: base, chunks: vec![], globals: Default::default(), heap_bytes: 0 }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        if id < self.base {
            return self.globals.get(&id);
        }
        let k = (id - self.base) as usize;
        match self.chunks.get(k / CH) {
            Some(Some(c)) => c[k % CH].as_ref(),
            _ => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id < self.base {
            let g = Rc::make_mut(&mut self.globals);
            return g.get_mut(&id).map(Rc::make_mut);
        }
        let k = (id - self.base) as usize;
        match self.chunks.get_mut(k / CH) {
            Some(Some(c)) => Rc::make_mut(c)[k % CH].as_mut().map(Rc::make_mut),
            _ => None,
        }
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        if o.heap {
            self.heap_bytes += o.size();
        }
        let k = (id - self.base) as usize;
        while self.chunks.len() <= k / CH {
            self.chunks.push(None);
        }
        let c = self.chunks[k / CH].get_or_insert_with(|| Rc::new([const { None }; CH]));
        Rc::make_mut(c)[k % CH] = Some(Rc::new(o));
        id
    }
    pub fn put_global(&mut self, id: u32, o: Rc<Obj>) {
        Rc::make_mut(&mut self.globals).insert(id, o);
    }
    /// remove; returns false if not live
    pub fn free(&mut self, id: u32) -> bool {
        if id < self.base {
            return false;
        }
        let k = (id - self.base) as usize;
        let hb;
        match self.chunks.get_mut(k / CH) {
            Some(Some(c)) => {
                let cm = Rc::make_mut(c);
                match cm[k % CH].take() {
                    None => return false,
                    Some(o) => hb = if o.heap { o.size() } else { 0 },
                }
            }
            _ => return false,
        }
        self.heap_bytes -= hb;
        true
    }
    pub fn live_heap(&self) -> usize {
        self.chunks
            .iter()
            .flatten()
            .map(|c| c.iter().flatten().filter(|o| o.heap).count())
            .sum()
    }
}
