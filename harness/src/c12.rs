//! Display.
use crate::model::*;
use crate::rt::*;
use std::fmt::{self, Display, Write};
use trees::{Forest, Node, RcNode, Tree};

/// printed as one character, or as two
#[derive(Clone)]
pub struct D(u8);
impl Display for D {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        reached()?;
        if self.0 & 1 == 0 {
            f.write_char((self.0 >> 1) as char)
        } else {
            f.write_str("<>")
        }
    }
}
/// the datum whose formatting fails, the data formatted, the text so far
static mut BAD: usize = usize::MAX;
static mut SEEN: usize = 0;
static mut TEXT: usize = 0;
static mut BEFORE: [usize; 16] = [0; 16];
fn reached() -> fmt::Result {
    unsafe {
        let k = SEEN;
        SEEN += 1;
        if k == BAD {
            return Err(fmt::Error);
        }
        if k < 16 {
            BEFORE[k] = TEXT;
        }
        Ok(())
    }
}
struct Out {
    n: usize,
    b: [u8; 96],
}
impl Out {
    fn put(&mut self, s: &[u8]) {
        let mut k = 0;
        while k < s.len() {
            check(self.n < 96, "the output is too long");
            self.b[self.n] = s[k];
            self.n += 1;
            k += 1;
        }
    }
}
impl Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.put(s.as_bytes());
        Ok(())
    }
}
fn want(m: &M, i: u8, o: &mut Out) {
    let v = m.v[i as usize];
    if v & 1 == 0 {
        o.put(&[v >> 1]);
    } else {
        o.put(b"<>");
    }
    if m.deg(i) > 0 {
        list(m, i, o);
    }
}
fn list(m: &M, i: u8, o: &mut Out) {
    o.put(b"( ");
    let mut k = 0;
    while k < m.deg(i) {
        want(m, m.child(i, k), o);
        o.put(b" ");
        k += 1;
    }
    o.put(b")");
}
fn compare<X: Display + ?Sized>(x: &X, w: &Out) {
    let mut o = Out { n: 0, b: [0; 96] };
    check(write!(o, "{}", x).is_ok(), "formatting failed");
    check_eq(o.n as u64, w.n as u64, "the printed text has the wrong length");
    let mut k = 0;
    while k < o.n && k < w.n {
        check_eq(o.b[k] as u64, w.b[k] as u64, "the printed text is wrong");
        observe(o.b[k] as u64);
        k += 1;
    }
}
fn build_d(m: &M, i: u8) -> Tree<D> {
    let mut t = Tree::new(D(m.v[i as usize]));
    let mut k = 0;
    while k < m.deg(i) {
        t.push_back(build_d(m, m.child(i, k)));
        k += 1;
    }
    t
}
/// params: nodes (up to)
fn tree() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let mut t = build_d(&m, r);
        if any_bool() {
            t = Tree::from(t.into_bfs());
        }
        let mut w = Out { n: 0, b: [0; 96] };
        match pick(5) {
            0 => {
                want(&m, r, &mut w);
                compare(&t, &w)
            }
            1 => {
                let l = m.preorder(r);
                let x = l.k[pick(l.n)];
                want(&m, x, &mut w);
                compare(at(t.root(), &m.path(r, x)), &w)
            }
            2 => {
                want(&m, r, &mut w);
                compare(&RcNode::from(t), &w)
            }
            3 => {
                if m.deg(r) == 0 {
                    w.put(b"()");
                } else {
                    list(&m, r, &mut w);
                }
                compare(&t.abandon(), &w);
                cover("forest printed");
            }
            _ => {
                want(&m, r, &mut w);
                let s = t.to_string();
                check_eq(s.len() as u64, w.n as u64, "the printed text has the wrong length");
                let mut k = 0;
                while k < s.len() && k < w.n {
                    check_eq(s.as_bytes()[k] as u64, w.b[k] as u64, "the printed text is wrong");
                    k += 1;
                }
                cover("to_string printed");
            }
        }
    }
    end();
}
/// A writer that takes a number of bytes and then fails.
struct Failing {
    left: usize,
    o: Out,
}
impl Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.o.put(s.as_bytes());
        Ok(())
    }
}
fn fails<X: Display + ?Sized>(x: &X, w: &Out, room: usize) {
    let mut f = Failing { left: room, o: Out { n: 0, b: [0; 96] } };
    let r = write!(f, "{}", x);
    check_eq(r.is_err() as u64, (w.n > room) as u64, "a failed write is not reported, or an error is made up");
    check(f.o.n <= w.n, "more was written than there is to print");
    let mut k = 0;
    while k < f.o.n && k < w.n {
        check_eq(f.o.b[k] as u64, w.b[k] as u64, "what was written before the failure is wrong");
        k += 1;
    }
    if r.is_err() && room > 0 {
        cover("failed half way");
    }
}
/// the writer fails at any point: that is reported, and what was written is right.
/// params: nodes (up to)
fn failing() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        let mut l = m.preorder(r);
        while l.n > 0 {
            l.n -= 1;
            m.v[l.k[l.n] as usize] = ((l.n as u8 + b'a') << 1) | (l.n as u8 & 1);
        }
        let mut t = build_d(&m, r);
        let mut w = Out { n: 0, b: [0; 96] };
        match pick(4) {
            0 => {
                want(&m, r, &mut w);
                fails(&t, &w, pick(w.n + 1));
                compare(&t, &w);
            }
            1 => {
                if m.deg(r) == 0 {
                    w.put(b"()");
                } else {
                    list(&m, r, &mut w);
                }
                let g = t.abandon();
                fails(&g, &w, pick(w.n + 1));
                compare(&g, &w);
            }
            2 => {
                want(&m, r, &mut w);
                fails(t.root(), &w, pick(w.n + 1));
            }
            _ => {
                want(&m, r, &mut w);
                let h = RcNode::from(t);
                fails(&h, &w, pick(w.n + 1));
                // no borrow is left behind
                let same = h.data().clone();
                *h.data_mut() = same;
                compare(&h, &w);
            }
        }
    }
    end();
}
/// Debug: the same notation with `@address ` after each datum and no blank after
/// a child. params: nodes (up to)
struct Strip {
    skip: bool,
    o: Out,
    /// the addresses, in order
    n: usize,
    a: [u64; 16],
}
impl Write for Strip {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        let mut k = 0;
        while k < s.len() {
            let c = s[k];
            if c == b' ' {
                self.skip = false;
            }
            if self.skip && self.n > 0 && self.n <= 16 {
                let a = &mut self.a[self.n - 1];
                match c {
                    b'0'..=b'9' => *a = *a * 16 + (c - b'0') as u64,
                    b'a'..=b'f' => *a = *a * 16 + (c - b'a') as u64 + 10,
                    b'x' => check(*a == 0, "the debug text has a malformed address"),
                    _ => check(false, "the debug text has a malformed address"),
                }
            }
            if !self.skip {
                self.o.put(&[c]);
            }
            if c == b'@' {
                self.skip = true;
                self.n += 1;
            }
            k += 1;
        }
        Ok(())
    }
}
impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        reached()?;
        f.write_char(self.0 as char)
    }
}
fn want_debug(m: &M, i: u8, o: &mut Out) {
    o.put(&[m.v[i as usize]]);
    o.put(b"@ ");
    if m.deg(i) > 0 {
        o.put(b"( ");
        let mut k = 0;
        while k < m.deg(i) {
            want_debug(m, m.child(i, k), o);
            k += 1;
        }
        o.put(b")");
    }
}
fn addresses(n: &Node<D>, l: &mut Vec<u64>) {
    l.push(n as *const Node<D> as u64);
    for c in n.iter() {
        addresses(c, l);
    }
}
fn compare_debug<X: fmt::Debug + ?Sized>(x: &X, w: &Out, l: &Vec<u64>) {
    let mut s = Strip { skip: false, o: Out { n: 0, b: [0; 96] }, n: 0, a: [0; 16] };
    check(write!(s, "{:?}", x).is_ok(), "formatting failed");
    check_eq(s.o.n as u64, w.n as u64, "the debug text has the wrong length");
    let mut k = 0;
    while k < s.o.n && k < w.n {
        check_eq(s.o.b[k] as u64, w.b[k] as u64, "the debug text is wrong");
        k += 1;
    }
    k = 0;
    while k < l.len() {
        check(k < s.n && s.a[k] == l[k], "the debug text does not have the node's address");
        k += 1;
    }
}
fn debug() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        let l = m.preorder(r);
        let mut k = 0;
        while k < l.n {
            m.v[l.k[k] as usize] = k as u8 + b'P';
            k += 1;
        }
        let mut t = build_d(&m, r);
        if any_bool() {
            t = Tree::from(t.into_bfs());
        }
        let mut l2 = Vec::new();
        let mut w = Out { n: 0, b: [0; 96] };
        match pick(4) {
            0 => {
                want_debug(&m, r, &mut w);
                addresses(t.root(), &mut l2);
                compare_debug(&t, &w, &l2)
            }
            1 => {
                let x = l.k[pick(l.n)];
                want_debug(&m, x, &mut w);
                let n = at(t.root(), &m.path(r, x));
                addresses(n, &mut l2);
                compare_debug(n, &w, &l2)
            }
            2 => {
                // of handles, whose addresses are not the nodes'
                want_debug(&m, r, &mut w);
                compare_debug(&RcNode::from(t), &w, &l2)
            }
            _ => {
                let f = t.abandon();
                if m.deg(r) == 0 {
                    w.put(b"()");
                } else {
                    w.put(b"( ");
                    let mut k = 0;
                    for c in f.iter() {
                        want_debug(&m, m.child(r, k), &mut w);
                        w.put(b" ");
                        addresses(c, &mut l2);
                        k += 1;
                    }
                    w.put(b")");
                }
                compare_debug(&f, &w, &l2);
                cover("forest printed for debugging");
            }
        }
    }
    end();
}
/// A writer one of whose calls fails.
struct Once {
    bad: usize,
    calls: usize,
    before: Vec<usize>,
    skip: bool,
    o: Out,
}
impl Write for Once {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.calls == self.bad {
            self.calls += 1;
            return Err(fmt::Error);
        }
        self.calls += 1;
        self.before.push(self.o.n);
        for &c in s.as_bytes() {
            if c == b' ' {
                self.skip = false;
            }
            if !self.skip {
                self.o.put(&[c]);
            }
            if c == b'@' {
                self.skip = true;
            }
        }
        unsafe { TEXT = self.o.n }
        Ok(())
    }
}
fn once<X: Display + fmt::Debug + ?Sized>(x: &X, dbg: bool, bad: usize, datum: usize) -> (Once, bool) {
    let mut w = Once { bad, calls: 0, before: Vec::new(), skip: false, o: Out { n: 0, b: [0; 96] } };
    unsafe {
        BAD = datum;
        SEEN = 0;
        TEXT = 0;
    }
    let r = if dbg { write!(w, "{:?}", x) } else { write!(w, "{}", x) };
    unsafe { BAD = usize::MAX }
    (w, r.is_err())
}
fn stops<X: Display + fmt::Debug + ?Sized>(x: &X) {
    let dbg = pick(2) == 1;
    let (all, bad) = once(x, dbg, usize::MAX, usize::MAX);
    check(!bad, "formatting failed");
    let (w, bad, upto);
    if pick(2) == 0 {
        let k = pick(all.before.len());
        upto = all.before[k];
        (w, bad) = once(x, dbg, k, usize::MAX);
        cover("one write failed");
    } else {
        let n = unsafe { SEEN };
        if n == 0 {
            return;
        }
        let k = pick(n);
        upto = unsafe { BEFORE[k] };
        (w, bad) = once(x, dbg, usize::MAX, k);
        cover("a datum could not be formatted");
    }
    check(bad, "a failure is not reported");
    check_eq(w.o.n as u64, upto as u64, "writing went on after a failure, or ended before");
    let mut k = 0;
    while k < w.o.n && k < all.o.n {
        check_eq(w.o.b[k] as u64, all.o.b[k] as u64, "what was written before the failure is wrong");
        k += 1;
    }
}
/// one write or one datum fails: that is reported and nothing more is written.
/// params: nodes (up to)
fn error() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        let l = m.preorder(r);
        let mut k = 0;
        while k < l.n {
            m.v[l.k[k] as usize] = ((k as u8 + b'a') << 1) | (k as u8 & 1);
            if m.v[l.k[k] as usize] >= 128 {
                m.v[l.k[k] as usize] = b'A' + k as u8;
            }
            k += 1;
        }
        let mut t = build_d(&m, r);
        match pick(4) {
            0 => stops(&t),
            1 => stops(&t.abandon()),
            2 => stops(at(t.root(), &m.path(r, l.k[pick(l.n)]))),
            _ => {
                let h = RcNode::from(t);
                stops(&h);
                // no borrow is left behind
                let same = h.data().clone();
                check(!catch(|| *h.data_mut() = same), "a borrow is left behind by a failure");
            }
        }
    }
    end();
}
/// Large trees, by any of the public ways. params: shape (3)
fn big() {
    begin();
    {
        let mut b = crate::big::B::new();
        let r = b.shape(param(0), param(1), param(2));
        let mut k = 0;
        while k < b.ch.len() {
            b.v[k] = if k % 5 == 4 { any8() & 0x7f } else { b'a' + (k % 26) as u8 };
            k += 1;
        }
        let mut t = big_d(&b, r);
        if any_bool() {
            t = Tree::from(t.into_bfs());
        }
        let x = crate::big::some(b.ch.len());
        let p = b.path(r, x);
        let dbg = any_bool();
        let mut w = Vec::new();
        match pick(3) {
            0 => {
                let n = crate::big::at(t.root(), &p);
                big_want(&b, x, dbg, &mut w);
                let mut o = Long { v: Vec::new(), skip: false };
                check(if dbg { write!(o, "{:?}", n) } else { write!(o, "{}", n) }.is_ok(), "formatting failed");
                long(&o.v, &w);
            }
            1 => {
                big_want(&b, r, dbg, &mut w);
                let h = RcNode::from(t);
                let mut o = Long { v: Vec::new(), skip: false };
                check(if dbg { write!(o, "{:?}", h) } else { write!(o, "{}", h) }.is_ok(), "formatting failed");
                long(&o.v, &w);
            }
            _ => {
                let f = t.abandon();
                w.extend_from_slice(b"( ");
                for &c in b.ch[r].iter() {
                    big_want(&b, c, dbg, &mut w);
                    w.push(b' ');
                }
                w.push(b')');
                let mut o = Long { v: Vec::new(), skip: false };
                check(if dbg { write!(o, "{:?}", f) } else { write!(o, "{}", f) }.is_ok(), "formatting failed");
                long(&o.v, &w);
            }
        }
        cover("big printed");
    }
    end();
}
/// everything but the addresses
struct Long {
    v: Vec<u8>,
    skip: bool,
}
impl Write for Long {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &c in s.as_bytes() {
            if c == b' ' {
                self.skip = false;
            }
            if !self.skip {
                self.v.push(c);
            }
            if c == b'@' {
                self.skip = true;
            }
        }
        Ok(())
    }
}
#[derive(Clone)]
struct L(u8);
impl Display for L {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_char((self.0 & 0x5f | 0x21) as char)
    }
}
impl fmt::Debug for L {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_char((self.0 & 0x1f | 0x21) as char)
    }
}
fn big_d(b: &crate::big::B, i: usize) -> Tree<L> {
    let mut t = Tree::new(L(b.v[i]));
    for &c in b.ch[i].iter() {
        t.push_back(big_d(b, c));
    }
    t
}
fn big_want(b: &crate::big::B, i: usize, dbg: bool, w: &mut Vec<u8>) {
    w.push(b.v[i] & if dbg { 0x1f } else { 0x5f } | 0x21);
    if dbg {
        w.extend_from_slice(b"@ ");
    }
    if b.ch[i].len() > 0 {
        w.extend_from_slice(b"( ");
        for &c in b.ch[i].iter() {
            big_want(b, c, dbg, w);
            if !dbg {
                w.push(b' ');
            }
        }
        w.push(b')');
    }
}
fn long(o: &[u8], w: &[u8]) {
    check_eq(o.len() as u64, w.len() as u64, "the printed text has the wrong length");
    let mut k = 0;
    while k < o.len() && k < w.len() {
        check_eq(o[k] as u64, w[k] as u64, "the printed text is wrong");
        k += 1;
    }
}
crate::harnesses! {
    c12_big => big,
    c12_tree => tree,
    c12_failing => failing,
    c12_debug => debug,
    c12_error => error,
}
