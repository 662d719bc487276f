use crate::ir::{Bin, Pred};
use std::sync::Arc;

pub type T = Arc<Term>;

#[derive(Clone, Debug)]
pub enum BV {
    U,
    C(u8),
    S(T, u8),
}

#[derive(Clone, Debug)]
pub enum Val {
    U,
    I(u64),
    W(Box<u128>),
    S(T),
    A(Arc<Vec<Val>>),
    P(Arc<Vec<BV>>),
}

#[derive(Debug)]
pub struct Term {
    pub h: u128,
    pub vars: u128,
    pub w: u32,
    pub depth: u32,
    pub k: K,
}
#[derive(Debug)]
pub enum K {
    Var(u32),
    C(u128),
    Bin(Bin, T, T),
    Cmp(Pred, T, T), // only Eq, Ult, Ule, Slt, Sle
    Not(T),          // width 1
    Ite(T, T, T),
    Ext(T, u32), // extract w bits from bit lo
    Cat(T, T),   // hi, lo
    Zx(T),
    Sx(T),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn mix(mut a: u128, b: u128) -> u128 {
    a ^= b.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    a = a.wrapping_mul(0xD6E8FEB86659FD93A5A3B1C9D2F4E8C7);
    a ^= a >> 67;
    a = a.wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9);
    a ^= a >> 59;
    a
}

fn mk(w: u32, k: K) -> T {
    let (h, vars, depth) = match &k {
        K::Var(i) => (mix(1, *i as u128), 1u128 << (*i).min(127), 1),
        K::C(c) => (mix(mix(2, *c), 0), 0, 0),
        K::Bin(o, a, b) => (mix(mix(mix(3, *o as u128), a.h), b.h), a.vars | b.vars, a.depth.max(b.depth) + 1),
        K::Cmp(o, a, b) => (mix(mix(mix(4, *o as u128), a.h), b.h), a.vars | b.vars, a.depth.max(b.depth) + 1),
        K::Not(a) => (mix(5, a.h), a.vars, a.depth + 1),
        K::Ite(c, a, b) => (mix(mix(mix(6, c.h), a.h), b.h), a.vars | b.vars | c.vars, a.depth.max(b.depth).max(c.depth) + 1),
        K::Ext(a, lo) => (mix(mix(7, *lo as u128), a.h), a.vars, a.depth + 1),
        K::Cat(a, b) => (mix(mix(8, a.h), b.h), a.vars | b.vars, a.depth.max(b.depth) + 1),
        K::Zx(a) => (mix(9, a.h), a.vars, a.depth + 1),
        K::Sx(a) => (mix(10, a.h), a.vars, a.depth + 1),
    };
    Arc::new(Term { h: mix(h, w as u128), vars, w, depth, k })
}
pub fn var(i: u32, w: u32) -> T {
    mk(w, K::Var(i))
}
pub fn konst(c: u128, w: u32) -> T {
    mk(w, K::C(c & mask(w)))
}
impl Term {
    pub fn c(&self) -> Option<u128> {
        if let K::C(c) = self.k {
            Some(c)
        } else {
            None
        }
    }
}

pub fn cbin(op: Bin, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        m & match op {
            Bin::Add => a.wrapping_add(b),
            Bin::Sub => a.wrapping_sub(b),
            Bin::Mul => a.wrapping_mul(b),
            Bin::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            Bin::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            Bin::SDiv => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
            Bin::SRem => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
            Bin::Shl => {
                if b >= w as u128 {
                    return None;
                }
                a << b
            }
            Bin::LShr => {
                if b >= w as u128 {
                    return None;
                }
                a >> b
            }
            Bin::AShr => {
                if b >= w as u128 {
                    return None;
                }
                (sx(a, w) >> b) as u128
            }
            Bin::And => a & b,
            Bin::Or => a | b,
            Bin::Xor => a ^ b,
        },
    )
}
pub fn ccmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    let (sa, sb) = (sx(a, w), sx(b, w));
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sa > sb,
        Pred::Sge => sa >= sb,
        Pred::Slt => sa < sb,
        Pred::Sle => sa <= sb,
    }
}

pub fn t_not(a: &T) -> T {
    match &a.k {
        K::C(c) => konst(c ^ 1, 1),
        K::Not(x) => x.clone(),
        K::Cmp(Pred::Ult, x, y) => mk(1, K::Cmp(Pred::Ule, y.clone(), x.clone())),
        K::Cmp(Pred::Ule, x, y) => mk(1, K::Cmp(Pred::Ult, y.clone(), x.clone())),
        K::Cmp(Pred::Slt, x, y) => mk(1, K::Cmp(Pred::Sle, y.clone(), x.clone())),
        K::Cmp(Pred::Sle, x, y) => mk(1, K::Cmp(Pred::Slt, y.clone(), x.clone())),
        _ => mk(1, K::Not(a.clone())),
    }
}
pub fn t_bin(op: Bin, a: &T, b: &T) -> T {
    let w = a.w;
    if let (Some(x), Some(y)) = (a.c(), b.c()) {
        if let Some(r) = cbin(op, w, x, y) {
            return konst(r, w);
        }
    }
    match (op, a.c(), b.c()) {
        (Bin::Add, Some(0), _) | (Bin::Or, Some(0), _) | (Bin::Xor, Some(0), _) => return b.clone(),
        (Bin::Add, _, Some(0))
        | (Bin::Sub, _, Some(0))
        | (Bin::Or, _, Some(0))
        | (Bin::Xor, _, Some(0))
        | (Bin::Shl, _, Some(0))
        | (Bin::LShr, _, Some(0))
        | (Bin::AShr, _, Some(0))
        | (Bin::Mul, _, Some(1)) => return a.clone(),
        (Bin::Mul, Some(1), _) => return b.clone(),
        (Bin::And, Some(0), _) | (Bin::And, _, Some(0)) | (Bin::Mul, Some(0), _) | (Bin::Mul, _, Some(0)) => return konst(0, w),
        (Bin::And, Some(c), _) if c == mask(w) => return b.clone(),
        (Bin::And, _, Some(c)) if c == mask(w) => return a.clone(),
        (Bin::Or, Some(c), _) | (Bin::Or, _, Some(c)) if c == mask(w) => return konst(c, w),
        (Bin::Xor, _, Some(1)) if w == 1 => return t_not(a),
        (Bin::Xor, Some(1), _) if w == 1 => return t_not(b),
        _ => {}
    }
    if a.h == b.h {
        match op {
            Bin::Sub | Bin::Xor => return konst(0, w),
            Bin::And | Bin::Or => return a.clone(),
            _ => {}
        }
    }
    // (x + c1) + c2
    if op == Bin::Add {
        if let (K::Bin(Bin::Add, x, c1), Some(c2)) = (&a.k, b.c()) {
            if let Some(c1) = c1.c() {
                return t_bin(Bin::Add, x, &konst(c1.wrapping_add(c2), w));
            }
        }
    }
    mk(w, K::Bin(op, a.clone(), b.clone()))
}
pub fn t_cmp(p: Pred, a: &T, b: &T) -> T {
    let w = a.w;
    if let (Some(x), Some(y)) = (a.c(), b.c()) {
        return konst(ccmp(p, w, x, y) as u128, 1);
    }
    match p {
        Pred::Ne => return t_not(&t_cmp(Pred::Eq, a, b)),
        Pred::Ugt => return t_cmp(Pred::Ult, b, a),
        Pred::Uge => return t_cmp(Pred::Ule, b, a),
        Pred::Sgt => return t_cmp(Pred::Slt, b, a),
        Pred::Sge => return t_cmp(Pred::Sle, b, a),
        _ => {}
    }
    if a.h == b.h {
        return konst(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u128, 1);
    }
    if p == Pred::Eq {
        let (a, b) = if a.c().is_some() { (b, a) } else { (a, b) };
        if let Some(c) = b.c() {
            match &a.k {
                K::Zx(x) => {
                    if c & !mask(x.w) != 0 {
                        return konst(0, 1);
                    }
                    return t_cmp(Pred::Eq, x, &konst(c, x.w));
                }
                K::Ite(cc, x, y) => {
                    if let (Some(x), Some(y)) = (x.c(), y.c()) {
                        return match (x == c, y == c) {
                            (true, true) => konst(1, 1),
                            (true, false) => cc.clone(),
                            (false, true) => t_not(cc),
                            (false, false) => konst(0, 1),
                        };
                    }
                }
                _ => {}
            }
            if w == 1 {
                return if c == 1 { a.clone() } else { t_not(a) };
            }
        } else if let (K::Zx(x), K::Zx(y)) = (&a.k, &b.k) {
            if x.w == y.w {
                return t_cmp(Pred::Eq, x, y);
            }
        }
        // canonical operand order
        let (a, b) = if b.c().is_none() && a.h > b.h { (b, a) } else { (a, b) };
        return mk(1, K::Cmp(p, a.clone(), b.clone()));
    }
    if matches!(p, Pred::Ult | Pred::Ule) {
        if let (K::Zx(x), K::Zx(y)) = (&a.k, &b.k) {
            if x.w == y.w {
                return t_cmp(p, x, y);
            }
        }
        if let (K::Zx(x), Some(c)) = (&a.k, b.c()) {
            if c > mask(x.w) {
                return konst(1, 1);
            }
            return t_cmp(p, x, &konst(c, x.w));
        }
        if let (Some(c), K::Zx(x)) = (a.c(), &b.k) {
            if c > mask(x.w) {
                return konst(0, 1);
            }
            return t_cmp(p, &konst(c, x.w), x);
        }
        if p == Pred::Ult && b.c() == Some(0) {
            return konst(0, 1);
        }
        if p == Pred::Ule && a.c() == Some(0) {
            return konst(1, 1);
        }
    }
    mk(1, K::Cmp(p, a.clone(), b.clone()))
}
pub fn t_ite(c: &T, a: &T, b: &T) -> T {
    if let Some(c) = c.c() {
        return if c == 1 { a.clone() } else { b.clone() };
    }
    if a.h == b.h {
        return a.clone();
    }
    if a.w == 1 {
        match (a.c(), b.c()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return t_not(c),
            (Some(1), None) => return t_bin(Bin::Or, c, b),
            (Some(0), None) => return t_bin(Bin::And, &t_not(c), b),
            (None, Some(0)) => return t_bin(Bin::And, c, a),
            (None, Some(1)) => return t_bin(Bin::Or, &t_not(c), a),
            _ => {}
        }
    }
    mk(a.w, K::Ite(c.clone(), a.clone(), b.clone()))
}
pub fn t_ext(a: &T, lo: u32, w: u32) -> T {
    if lo == 0 && w == a.w {
        return a.clone();
    }
    match &a.k {
        K::C(c) => return konst(c >> lo, w),
        K::Ext(x, l) => return t_ext(x, l + lo, w),
        K::Cat(h, l) => {
            if lo + w <= l.w {
                return t_ext(l, lo, w);
            }
            if lo >= l.w {
                return t_ext(h, lo - l.w, w);
            }
        }
        K::Zx(x) => {
            if lo >= x.w {
                return konst(0, w);
            }
            if lo + w <= x.w {
                return t_ext(x, lo, w);
            }
            if lo == 0 {
                return t_zx(x, w);
            }
        }
        K::Sx(x) => {
            if lo + w <= x.w {
                return t_ext(x, lo, w);
            }
        }
        K::Ite(c, x, y) if x.c().is_some() && y.c().is_some() => {
            return t_ite(c, &t_ext(x, lo, w), &t_ext(y, lo, w));
        }
        _ => {}
    }
    mk(w, K::Ext(a.clone(), lo))
}
pub fn t_cat(h: &T, l: &T) -> T {
    let w = h.w + l.w;
    if let (Some(a), Some(b)) = (h.c(), l.c()) {
        return konst((a << l.w) | b, w);
    }
    if h.c() == Some(0) {
        return t_zx(l, w);
    }
    if let (K::Ext(x, lo1), K::Ext(y, lo0)) = (&h.k, &l.k) {
        if x.h == y.h && *lo1 == lo0 + l.w {
            return t_ext(x, *lo0, w);
        }
    }
    if let K::Ext(x, lo1) = &h.k {
        if x.h == l.h && *lo1 == l.w {
            return t_ext(x, 0, w);
        }
    }
    mk(w, K::Cat(h.clone(), l.clone()))
}
pub fn t_zx(a: &T, w: u32) -> T {
    if w == a.w {
        return a.clone();
    }
    match &a.k {
        K::C(c) => konst(*c, w),
        K::Zx(x) => t_zx(x, w),
        K::Ite(c, x, y) if x.c().is_some() && y.c().is_some() => t_ite(c, &t_zx(x, w), &t_zx(y, w)),
        _ => mk(w, K::Zx(a.clone())),
    }
}
pub fn t_sx(a: &T, w: u32) -> T {
    if w == a.w {
        return a.clone();
    }
    match &a.k {
        K::C(c) => konst(sx(*c, a.w) as u128, w),
        _ => mk(w, K::Sx(a.clone())),
    }
}

/// evaluate under an assignment
pub fn eval(t: &T, m: &[u64]) -> u128 {
    if t.depth > 24 {
        let mut memo = std::collections::HashMap::new();
        return eval_memo(t, m, &mut memo);
    }
    eval_k(t, m, &mut |x| eval(x, m))
}
fn eval_memo(t: &T, m: &[u64], memo: &mut std::collections::HashMap<u128, u128>) -> u128 {
    if let Some(v) = memo.get(&t.h) {
        return *v;
    }
    let v = eval_k(t, m, &mut |x| eval_memo(x, m, memo));
    memo.insert(t.h, v);
    v
}
fn eval_k(t: &T, m: &[u64], f: &mut dyn FnMut(&T) -> u128) -> u128 {
    let msk = mask(t.w);
    match &t.k {
        K::Var(i) => (*m.get(*i as usize).unwrap_or(&0)) as u128 & msk,
        K::C(c) => *c,
        K::Bin(o, a, b) => {
            let (x, y) = (f(a), f(b));
            cbin(*o, t.w, x, y).unwrap_or_else(|| match o {
                // SMT-LIB semantics for the total operators
                Bin::UDiv => msk,
                Bin::URem => x,
                Bin::SRem => x,
                Bin::SDiv => {
                    if sx(x, t.w) < 0 {
                        1
                    } else {
                        msk
                    }
                }
                Bin::AShr => {
                    if sx(x, t.w) < 0 {
                        msk
                    } else {
                        0
                    }
                }
                _ => 0,
            })
        }
        K::Cmp(p, a, b) => ccmp(*p, a.w, f(a), f(b)) as u128,
        K::Not(a) => f(a) ^ 1,
        K::Ite(c, a, b) => {
            if f(c) == 1 {
                f(a)
            } else {
                f(b)
            }
        }
        K::Ext(a, lo) => (f(a) >> lo) & msk,
        K::Cat(h, l) => (f(h) << l.w) | f(l),
        K::Zx(a) => f(a),
        K::Sx(a) => (sx(f(a), a.w) as u128) & msk,
    }
}

impl Val {
    pub fn int(v: u128, w: u32) -> Val {
        let v = v & mask(w);
        if w <= 64 {
            Val::I(v as u64)
        } else {
            Val::W(Box::new(v))
        }
    }
    pub fn term(t: T) -> Val {
        if let K::C(c) = t.k {
            Val::int(c, t.w)
        } else {
            Val::S(t)
        }
    }
    pub fn as_u64(&self) -> Option<u64> {
        match self {
            Val::I(x) => Some(*x),
            _ => None,
        }
    }
    pub fn as_u128(&self) -> Option<u128> {
        match self {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }
    /// as a term of width w; None when (partly) undefined or aggregate
    pub fn to_term(&self, w: u32) -> Option<T> {
        match self {
            Val::I(x) => Some(konst(*x as u128, w)),
            Val::W(x) => Some(konst(**x, w)),
            Val::S(t) => Some(t.clone()),
            _ => None,
        }
    }
}

pub fn bin(op: Bin, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        if w <= 64 {
            let m = mask(w) as u64;
            let r = match op {
                Bin::Add => x.wrapping_add(*y) & m,
                Bin::Sub => x.wrapping_sub(*y) & m,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                _ => return cbin(op, w, *x as u128, *y as u128).map(|r| Val::I(r as u64)).unwrap_or(Val::U),
            };
            return Val::I(r);
        }
    }
    match (a.as_u128(), b.as_u128()) {
        (Some(x), Some(y)) => cbin(op, w, x, y).map(|r| Val::int(r, w)).unwrap_or(Val::U),
        _ => match (a.to_term(w), b.to_term(w)) {
            (Some(x), Some(y)) => Val::term(t_bin(op, &x, &y)),
            (x, y) => {
                // undef & 0, undef * 0, undef | -1
                let c = x.or(y).and_then(|t| t.c());
                match (op, c) {
                    (Bin::And, Some(0)) | (Bin::Mul, Some(0)) => Val::int(0, w),
                    _ => Val::U,
                }
            }
        },
    }
}
pub fn cmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    match (a.as_u128(), b.as_u128()) {
        (Some(x), Some(y)) => Val::I(ccmp(p, w, x, y) as u64),
        _ => match (a.to_term(w), b.to_term(w)) {
            (Some(x), Some(y)) => Val::term(t_cmp(p, &x, &y)),
            _ => Val::U,
        },
    }
}
