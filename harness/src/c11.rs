//! Equality, order and hash.
use crate::model::*;
use crate::rt::*;
use std::cmp::Ordering::{self, *};
use std::hash::{Hash, Hasher};
use trees::{Forest, Node, RcNode, Tree};

/// data that may be incomparable, as floats are: 255 equals nothing
#[derive(Clone)]
pub struct P(u8);
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        self.0 != 255 && self.0 == o.0
    }
}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> {
        if self.0 == 255 || o.0 == 255 {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}
struct Log {
    n: usize,
    b: [u8; 64],
}
impl Hasher for Log {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, x: &[u8]) {
        let mut k = 0;
        while k < x.len() {
            self.write_u8(x[k]);
            k += 1;
        }
    }
    fn write_u8(&mut self, x: u8) {
        check(self.n < 64, "hashing feeds an unexpected amount of data");
        self.b[self.n] = x;
        self.n += 1;
    }
}
fn log<H: Hash + ?Sized>(x: &H) -> Log {
    let mut l = Log { n: 0, b: [0; 64] };
    x.hash(&mut l);
    l
}
fn same_log(a: &Log, b: &Log) {
    check_eq(a.n as u64, b.n as u64, "equal values hash differently");
    let mut k = 0;
    while k < a.n && k < b.n {
        check_eq(a.b[k] as u64, b.b[k] as u64, "equal values hash differently");
        k += 1;
    }
}
// ---- what the results should be
fn cmp(m: &M, a: u8, b: u8, skip: bool, partial: bool) -> Option<Ordering> {
    if !skip {
        let (x, y) = (m.v[a as usize], m.v[b as usize]);
        if partial && (x == 255 || y == 255) {
            return None;
        }
        if x < y {
            return Some(Less);
        }
        if x > y {
            return Some(Greater);
        }
    }
    let mut k = 0;
    loop {
        match (k < m.deg(a), k < m.deg(b)) {
            (false, false) => return Some(Equal),
            (false, true) => return Some(Less),
            (true, false) => return Some(Greater),
            _ => {}
        }
        let r = cmp(m, m.child(a, k), m.child(b, k), false, partial);
        if r != Some(Equal) {
            return r;
        }
        k += 1;
    }
}
fn eq(m: &M, a: u8, b: u8, skip: bool, partial: bool) -> bool {
    if !skip {
        let (x, y) = (m.v[a as usize], m.v[b as usize]);
        if x != y || (partial && x == 255) {
            return false;
        }
    }
    if m.deg(a) != m.deg(b) {
        return false;
    }
    let mut k = 0;
    while k < m.deg(a) {
        if !eq(m, m.child(a, k), m.child(b, k), false, partial) {
            return false;
        }
        k += 1;
    }
    true
}
fn code(o: Option<Ordering>) -> u64 {
    match o {
        None => 3,
        Some(Less) => 0,
        Some(Equal) => 1,
        Some(Greater) => 2,
    }
}
fn compare<X: PartialEq + PartialOrd>(x: &X, y: &X, m: &M, a: u8, b: u8, skip: bool, partial: bool) {
    match pick(4) {
        0 => {
            let r = x == y;
            observe(r as u64);
            check(r == eq(m, a, b, skip, partial), "== is wrong");
        }
        1 => {
            let r = x != y;
            observe(r as u64);
            check(r != eq(m, a, b, skip, partial), "!= is wrong");
        }
        2 => {
            let r = x.partial_cmp(y);
            observe(code(r));
            check_eq(code(r), code(cmp(m, a, b, skip, partial)), "partial_cmp is wrong");
        }
        _ => {
            let (r, w) = match pick(4) {
                0 => (x < y, 0),
                1 => (x <= y, 1),
                2 => (x > y, 2),
                _ => (x >= y, 3),
            };
            observe(r as u64);
            let c = cmp(m, a, b, skip, partial);
            let want = match w {
                0 => c == Some(Less),
                1 => c == Some(Less) || c == Some(Equal),
                2 => c == Some(Greater),
                _ => c == Some(Greater) || c == Some(Equal),
            };
            check(r == want, "<, <=, > or >= is wrong");
        }
    }
}
fn total<X: Ord + Hash>(x: &X, y: &X, m: &M, a: u8, b: u8, skip: bool) {
    match pick(3) {
        0 => {
            let r = x.cmp(y);
            observe(code(Some(r)));
            check_eq(code(Some(r)), code(cmp(m, a, b, skip, false)), "cmp is wrong");
        }
        1 => {
            if eq(m, a, b, skip, false) {
                same_log(&log(x), &log(y));
                cover("equal values hashed");
            }
        }
        _ => compare(x, y, m, a, b, skip, false),
    }
}
/// params: nodes in the first tree (up to), in the second (up to)
fn tree() {
    begin();
    {
        let mut m = M::new();
        let a = any_shape_upto(&mut m, param(0));
        fill(&mut m, a);
        let b = any_shape_upto(&mut m, param(1));
        fill(&mut m, b);
        let (sa, sb) = (st(pick(2)), st(pick(2)));
        let t = build(&mut m, a, sa);
        let u = build(&mut m, b, sb);
        match pick(3) {
            0 => total(&t, &u, &m, a, b, false),
            1 => total::<Node<Tok>>(t.root(), u.root(), &m, a, b, false),
            _ => {
                let (t, u) = (RcNode::from(t), RcNode::from(u));
                total(&t, &u, &m, a, b, false);
            }
        }
        cover("trees compared");
    }
    end();
}
fn forest() {
    begin();
    {
        let mut m = M::new();
        let a = any_forest_upto(&mut m, param(0));
        fill(&mut m, a);
        let b = any_forest_upto(&mut m, param(1));
        fill(&mut m, b);
        let (sa, sb) = (st(pick(2)), st(pick(2)));
        let t = build_forest(&mut m, a, sa);
        let u = build_forest(&mut m, b, sb);
        total(&t, &u, &m, a, b, true);
        cover("forests compared");
    }
    end();
}
fn build_p(m: &M, i: u8) -> Tree<P> {
    let mut t = Tree::new(P(m.v[i as usize]));
    let mut k = 0;
    while k < m.deg(i) {
        t.push_back(build_p(m, m.child(i, k)));
        k += 1;
    }
    t
}
/// data without a total order
fn partial() {
    begin();
    {
        let mut m = M::new();
        let a = any_shape_upto(&mut m, param(0));
        fill(&mut m, a);
        let b = any_shape_upto(&mut m, param(1));
        fill(&mut m, b);
        let (mut t, mut u) = (build_p(&m, a), build_p(&m, b));
        match pick(4) {
            0 => compare(&t, &u, &m, a, b, false, true),
            1 => compare::<Node<P>>(t.root(), u.root(), &m, a, b, false, true),
            2 => compare(&t.abandon(), &u.abandon(), &m, a, b, true, true),
            _ => compare(&RcNode::from(t), &RcNode::from(u), &m, a, b, false, true),
        }
        cover("partial orders compared");
    }
    end();
}
/// a tree equals itself, however it is stored, and a clone equals its original
fn reflexive() {
    begin();
    {
        let mut m = M::new();
        let a = any_shape_upto(&mut m, param(0));
        fill(&mut m, a);
        let mut m2 = m;
        let t = build(&mut m, a, st(pick(3)));
        let u = if any_bool() { t.clone() } else { build(&mut m2, a, st(pick(3))) };
        check(t == u && !(t != u) && t.cmp(&u) == Equal && t.partial_cmp(&u) == Some(Equal), "equal trees compare unequal");
        check(t.root() == u.root(), "equal nodes compare unequal");
        same_log(&log(&t), &log(&u));
        same_log(&log(t.root()), &log(u.root()));
        let (mut t, mut u) = (t, u);
        let (f, g) = (t.abandon(), u.abandon());
        check(f == g && !(f != g) && f.cmp(&g) == Equal, "equal forests compare unequal");
        same_log(&log(&f), &log(&g));
        if any_bool() {
            check(f == f.clone(), "a forest's clone is not equal to it");
        }
        cover("equal values compared");
    }
    end();
}
/// Two wide nodes that differ in one child, or in length. params: children
fn wide() {
    begin();
    {
        let n = param(0);
        let p = pos(n);
        let longer = pick(3); // 1: first, 2: second has one more child
        let differ = any_bool();
        let mk = |second: bool| {
            let mut t = Tree::new(P(7));
            let mut k = 0;
            while k < n {
                t.push_back(Tree::new(P(if second && differ && k == p { 9 } else { 8 })));
                k += 1;
            }
            if (second && longer == 2) || (!second && longer == 1) {
                t.push_back(Tree::new(P(0)));
            }
            t
        };
        let (t, u) = (mk(false), mk(true));
        let want = if differ {
            Less
        } else if longer == 1 {
            Greater
        } else if longer == 2 {
            Less
        } else {
            Equal
        };
        check_eq(code(t.partial_cmp(&u)), code(Some(want)), "partial_cmp is wrong");
        check((t == u) == (want == Equal), "== is wrong");
        check((t != u) == (want != Equal), "!= is wrong");
        cover("wide nodes compared");
    }
    end();
}
fn big() {
    crate::big::compare()
}
fn huge() {
    crate::huge::huge(crate::huge::COMPARE)
}
crate::harnesses! {
    c11_huge => huge,
    c11_big => big,
    c11_tree => tree,
    c11_forest => forest,
    c11_partial => partial,
    c11_reflexive => reflexive,
    c11_wide => wide,
}
