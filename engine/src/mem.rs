use crate::ir::{Sh, Ty};
use crate::val::*;
use std::collections::BTreeMap;
use std::sync::Arc;

/// byte tags
pub const TU: u8 = 0;
pub const TC: u8 = 1;
pub const TS: u8 = 2;

/// A byte store: concrete bytes, a tag per byte, and symbolic bytes on the side.
#[derive(Clone, Debug, Default)]
pub struct Bytes {
    pub c: Vec<u8>,
    pub t: Vec<u8>,
    pub s: BTreeMap<u32, (T, u8)>,
}

impl Bytes {
    pub fn get(&self, i: usize) -> BV {
        match self.t[i] {
            TC => BV::C(self.c[i]),
            TS => {
                let (t, k) = &self.s[&(i as u32)];
                BV::S(t.clone(), *k)
            }
            _ => BV::U,
        }
    }
    pub fn set(&mut self, i: usize, b: &BV) {
        match b {
            BV::U => self.t[i] = TU,
            BV::C(x) => {
                self.t[i] = TC;
                self.c[i] = *x;
            }
            BV::S(t, k) => {
                self.t[i] = TS;
                self.s.insert(i as u32, (t.clone(), *k));
            }
        }
    }
    /// load a scalar of w bits at off
    #[inline]
    pub fn load(&self, off: usize, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        let tags = &self.t[off..off + n];
        if tags.iter().all(|x| *x == TC) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&self.c[off..off + n]);
                let v = u64::from_le_bytes(b);
                return Val::I(if w < 64 { v & (mask(w) as u64) } else { v });
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.c[off..off + n]);
            return Val::int(u128::from_le_bytes(b), w);
        }
        if tags.iter().all(|x| *x == TU) {
            return Val::U;
        }
        let v: Vec<BV> = (off..off + n).map(|i| self.get(i)).collect();
        from_bytes(&v, w)
    }
    #[inline]
    pub fn store(&mut self, off: usize, w: u32, v: &Val) {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::I(x) => {
                let b = x.to_le_bytes();
                if n <= 8 {
                    self.c[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    self.c[off..off + 8].copy_from_slice(&b);
                    self.c[off + 8..off + n].fill(0);
                }
                self.t[off..off + n].fill(TC);
            }
            Val::W(x) => {
                self.c[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                self.t[off..off + n].fill(TC);
            }
            Val::U => self.t[off..off + n].fill(TU),
            Val::S(t) => {
                // whole bytes
                let t = if t.w as usize == n * 8 { t.clone() } else { t_zx(t, (n * 8) as u32) };
                for i in 0..n {
                    self.t[off + i] = TS;
                    self.s.insert((off + i) as u32, (t.clone(), i as u8));
                }
            }
            Val::P(bs) => {
                for i in 0..n {
                    match bs.get(i) {
                        Some(b) => self.set(off + i, b),
                        None => self.t[off + i] = TU,
                    }
                }
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn load_sh(&self, off: usize, sh: &Sh) -> Val {
        match sh {
            Sh::S(w) => self.load(off, *w),
            Sh::A(v) => Val::A(Arc::new(v.iter().map(|(o, s)| self.load_sh(off + *o as usize, s)).collect())),
        }
    }
    pub fn store_sh(&mut self, off: usize, sh: &Sh, v: &Val) {
        match sh {
            Sh::S(w) => self.store(off, *w, v),
            Sh::A(fs) => match v {
                Val::A(xs) => {
                    for ((o, s), x) in fs.iter().zip(xs.iter()) {
                        self.store_sh(off + *o as usize, s, x);
                    }
                }
                _ => {
                    for (o, s) in fs.iter() {
                        self.store_sh(off + *o as usize, s, &Val::U);
                    }
                }
            },
        }
    }
}

pub fn byte_term(b: &BV) -> Option<T> {
    match b {
        BV::U => None,
        BV::C(x) => Some(konst(*x as u128, 8)),
        BV::S(t, k) => Some(t_ext(t, *k as u32 * 8, 8)),
    }
}

pub fn from_bytes(v: &[BV], w: u32) -> Val {
    if v.iter().any(|b| matches!(b, BV::U)) {
        if v.iter().all(|b| matches!(b, BV::U)) {
            return Val::U;
        }
        return Val::P(Arc::new(v.to_vec()));
    }
    // whole term?
    if let BV::S(t, 0) = &v[0] {
        if t.w as usize == v.len() * 8 && v.iter().enumerate().all(|(i, b)| matches!(b, BV::S(u,k) if u.h==t.h && *k as usize==i)) {
            return Val::term(t_ext(t, 0, w));
        }
    }
    let mut acc: Option<T> = None;
    for b in v.iter() {
        let t = byte_term(b).unwrap();
        acc = Some(match acc {
            None => t,
            Some(lo) => t_cat(&t, &lo),
        });
    }
    Val::term(t_ext(&acc.unwrap(), 0, w))
}
pub fn to_bytes(v: &Val, w: u32) -> Vec<BV> {
    let n = ((w + 7) / 8) as usize;
    let mut b = Bytes { c: vec![0; n], t: vec![TU; n], s: BTreeMap::new() };
    b.store(0, w, v);
    (0..n).map(|i| b.get(i)).collect()
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub konst: bool,
    pub b: Bytes,
}
impl Obj {
    pub fn new(size: u64, align: u64) -> Obj {
        Obj { size, align, konst: false, b: Bytes { c: vec![0; size as usize], t: vec![TU; size as usize], s: BTreeMap::new() } }
    }
    pub fn init(&mut self, t: &Ty, v: &Val, off: u64) {
        if t.is_agg() {
            if let Val::A(xs) = v {
                for (i, x) in xs.iter().enumerate() {
                    let (o, e) = t.elem(i as u64);
                    self.init(&e, x, off + o);
                }
            }
        } else {
            self.b.store(off as usize, t.bits(), v);
        }
    }
}
