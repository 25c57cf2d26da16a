//! Copy-on-write memory: 64-entry chunks of reference-counted objects.
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 0 = concrete, else (expr << 8 | byte index)
    pub sym: Option<Vec<u64>>,
    pub ro: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false }
    }
    #[inline]
    pub fn range_concrete(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| *x == 0),
        }
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            for x in &mut s[off..off + n] {
                *x = 0;
            }
        }
    }
    pub fn sym_mut(&mut self) -> &mut Vec<u64> {
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])
    }
}

#[derive(Clone)]
pub struct Chunk(pub [Option<Rc<Obj>>; 64]);
#[derive(Clone)]
pub struct Mid(pub [Option<Rc<Chunk>>; 64]);
/// Three-level persistent vector: cloning a state copies one pointer per 4096 ids.
#[derive(Clone, Default)]
pub struct CVec {
    pub base: u32,
    tops: Vec<Option<Rc<Mid>>>,
}
const NONE: Option<Rc<Obj>> = None;
const NOCHUNK: Option<Rc<Chunk>> = None;
impl CVec {
    pub fn lens(&self) -> usize {
        self.tops.len()
    }
    pub fn new(base: u32) -> CVec {
        CVec { base, tops: vec![] }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let k = (id - self.base) as usize;
        match self.tops.get(k >> 12) {
            Some(Some(m)) => match &m.0[k >> 6 & 63] {
                Some(c) => c.0[k & 63].as_ref(),
                None => None,
            },
            _ => None,
        }
    }
    #[inline]
    pub fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let k = (id - self.base) as usize;
        let t = k >> 12;
        if self.tops.len() <= t {
            self.tops.resize(t + 1, None);
        }
        let mid = Rc::make_mut(self.tops[t].get_or_insert_with(|| Rc::new(Mid([NOCHUNK; 64]))));
        let ch = mid.0[k >> 6 & 63].get_or_insert_with(|| Rc::new(Chunk([NONE; 64])));
        &mut Rc::make_mut(ch).0[k & 63]
    }
    #[inline]
    fn chunk_mut(&mut self, k: usize) -> Option<&mut Option<Rc<Chunk>>> {
        match self.tops.get_mut(k >> 12) {
            Some(Some(m)) => {
                if m.0[k >> 6 & 63].is_none() {
                    return None;
                }
                Some(&mut Rc::make_mut(m).0[k >> 6 & 63])
            }
            _ => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let k = (id - self.base) as usize;
        match self.chunk_mut(k) {
            Some(Some(c)) => Rc::make_mut(c).0[k & 63].as_mut().map(Rc::make_mut),
            _ => None,
        }
    }
    pub fn put(&mut self, id: u32, o: Obj) {
        *self.slot(id) = Some(Rc::new(o));
    }
    pub fn remove(&mut self, id: u32) {
        let k = (id - self.base) as usize;
        if let Some(slot) = self.chunk_mut(k) {
            let mut gone = false;
            if let Some(c) = slot {
                let ch = Rc::make_mut(c);
                ch.0[k & 63] = None;
                gone = ch.0.iter().all(|x| x.is_none());
            }
            if gone {
                *slot = None;
            }
        }
    }
    /// drop all ids >= id
    pub fn truncate(&mut self, id: u32, old_top: u32) {
        let (lo, hi) = ((id - self.base) as usize, (old_top - self.base) as usize);
        let mut k = lo;
        while k < hi {
            if k & 4095 == 0 {
                self.tops.truncate(k >> 12);
                return;
            }
            if k & 63 == 0 {
                if let Some(slot) = self.chunk_mut(k) {
                    *slot = None;
                }
                k += 64;
                continue;
            }
            if let Some(Some(c)) = self.chunk_mut(k) {
                Rc::make_mut(c).0[k & 63] = None;
            }
            k += 1;
        }
    }
}
