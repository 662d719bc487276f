//! Reference model: ordered trees in plain arrays, plus drop-tracking data.
use crate::rt::*;
use std::pin::Pin;
use trees::{Forest, Node, Tree};

// ---------------------------------------------------------------- tokens
pub const MAXTOK: usize = 1024;
pub static mut DROPS: [u8; MAXTOK] = [0; MAXTOK];
pub static mut NEXT: usize = 0;
/// which datum this one is a clone of
pub static mut ORIGIN: [u16; MAXTOK] = [0; MAXTOK];
pub static mut BASE: u64 = 0;
/// the fuse-th use of user code on a datum (clone, comparison, hash) panics
pub static mut FUSE: usize = usize::MAX;
/// the fuse-th destruction of a datum panics
pub static mut DROP_FUSE: usize = usize::MAX;
/// what user code does at its hook-th use, besides its work; the argument is the
/// datum that is being destroyed, if any
pub static mut HOOK: Option<fn(Option<u16>)> = None;
pub static mut HOOK_AT: usize = usize::MAX;
pub static mut DROP_HOOK_AT: usize = usize::MAX;
/// a use of user code on a datum
pub fn tick() {
    unsafe {
        if HOOK_AT != usize::MAX {
            if HOOK_AT == 0 {
                HOOK_AT = usize::MAX;
                if let Some(f) = HOOK {
                    f(None);
                }
            } else {
                HOOK_AT -= 1;
            }
        }
        if FUSE != usize::MAX {
            if FUSE == 0 {
                FUSE = usize::MAX;
                panic!("user code");
            }
            FUSE -= 1;
        }
    }
}

/// A datum whose construction and destruction are tracked.
pub struct Tok {
    pub v: u8,
    pub id: u16,
}
impl Tok {
    pub fn new(v: u8) -> Tok {
        unsafe {
            let id = NEXT;
            if id >= MAXTOK {
                panic!("harness: too many tokens");
            }
            NEXT = id + 1;
            Tok { v, id: id as u16 }
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe {
            let k = self.id as usize;
            check(k < MAXTOK && k < NEXT, "a datum that never existed was dropped");
            DROPS[k] += 1;
            check(DROPS[k] == 1, "a datum was dropped twice");
            if DROP_HOOK_AT != usize::MAX {
                if DROP_HOOK_AT == 0 {
                    DROP_HOOK_AT = usize::MAX;
                    if let Some(f) = HOOK {
                        f(Some(self.id));
                    }
                } else {
                    DROP_HOOK_AT -= 1;
                }
            }
            if DROP_FUSE != usize::MAX {
                if DROP_FUSE == 0 {
                    DROP_FUSE = usize::MAX;
                    panic!("user destructor");
                }
                DROP_FUSE -= 1;
            }
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        tick();
        let t = Tok::new(self.v);
        unsafe { ORIGIN[t.id as usize] = self.id }
        t
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        tick();
        self.v == o.v
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        tick();
        self.v.cmp(&o.v)
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        tick();
        f.write_str("tok")
    }
}
impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        tick();
        f.write_str("tok")
    }
}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        tick();
        h.write_u8(self.v)
    }
}

/// start of a harness
pub fn begin() {
    unsafe {
        DROPS = [0; MAXTOK];
        NEXT = 0;
        FUSE = usize::MAX;
        DROP_FUSE = usize::MAX;
        HOOK = None;
        HOOK_AT = usize::MAX;
        DROP_HOOK_AT = usize::MAX;
        BASE = live();
    }
}
/// is the datum with this id still alive?
pub fn alive(id: u16) -> bool {
    unsafe { DROPS[id as usize] == 0 }
}
/// end of a harness: every datum dropped exactly once, no heap block left over
pub fn end() {
    unsafe {
        let mut i = 0;
        while i < NEXT {
            check(DROPS[i] == 1, "a datum was never dropped");
            i += 1;
        }
        check(live() == BASE, "heap memory was leaked");
    }
}
/// bytes still allocated since `begin`
pub fn live_since() -> u64 {
    unsafe { live() - BASE }
}

// ---------------------------------------------------------------- model
pub const MAXN: usize = 32;
pub const MAXC: usize = 14;
pub const NONE: u8 = 255;
#[derive(Clone, Copy)]
pub struct M {
    pub n: usize,
    pub par: [u8; MAXN],
    pub nch: [u8; MAXN],
    pub ch: [[u8; MAXC]; MAXN],
    pub v: [u8; MAXN],
    pub id: [u16; MAXN],
}
impl M {
    pub fn new() -> M {
        M { n: 0, par: [NONE; MAXN], nch: [0; MAXN], ch: [[0; MAXC]; MAXN], v: [0; MAXN], id: [0; MAXN] }
    }
    /// a new detached node
    pub fn node(&mut self, v: u8) -> u8 {
        let k = self.n;
        if k >= MAXN {
            panic!("harness: model full");
        }
        self.n = k + 1;
        self.v[k] = v;
        k as u8
    }
    pub fn deg(&self, i: u8) -> usize {
        self.nch[i as usize] as usize
    }
    pub fn child(&self, i: u8, k: usize) -> u8 {
        self.ch[i as usize][k]
    }
    pub fn parent(&self, i: u8) -> u8 {
        self.par[i as usize]
    }
    pub fn insert(&mut self, p: u8, pos: usize, c: u8) {
        let n = self.deg(p);
        if n >= MAXC {
            panic!("harness: too many children");
        }
        let row = &mut self.ch[p as usize];
        let mut k = n;
        while k > pos {
            row[k] = row[k - 1];
            k -= 1;
        }
        row[pos] = c;
        self.nch[p as usize] = (n + 1) as u8;
        self.par[c as usize] = p;
    }
    pub fn push_back(&mut self, p: u8, c: u8) {
        let n = self.deg(p);
        self.insert(p, n, c)
    }
    pub fn index(&self, c: u8) -> usize {
        let p = self.par[c as usize];
        let mut k = 0;
        while self.ch[p as usize][k] != c {
            k += 1;
        }
        k
    }
    pub fn detach(&mut self, c: u8) {
        let p = self.par[c as usize];
        let mut k = self.index(c);
        let n = self.deg(p);
        let row = &mut self.ch[p as usize];
        while k + 1 < n {
            row[k] = row[k + 1];
            k += 1;
        }
        self.nch[p as usize] = (n - 1) as u8;
        self.par[c as usize] = NONE;
    }
    pub fn count(&self, i: u8) -> usize {
        let mut s = 1;
        let mut k = 0;
        while k < self.deg(i) {
            s += self.count(self.child(i, k));
            k += 1;
        }
        s
    }
    pub fn height(&self, i: u8) -> usize {
        let mut h = 0;
        let mut k = 0;
        while k < self.deg(i) {
            h = h.max(self.height(self.child(i, k)));
            k += 1;
        }
        h + 1
    }
    /// child positions from `root` down to `i`
    pub fn path(&self, root: u8, i: u8) -> Path {
        let mut rev = [0u8; MAXN];
        let mut n = 0;
        let mut c = i;
        while c != root {
            rev[n] = self.index(c) as u8;
            n += 1;
            c = self.par[c as usize];
        }
        let mut p = Path { n, k: [0; MAXN] };
        let mut j = 0;
        while j < n {
            p.k[j] = rev[n - 1 - j];
            j += 1;
        }
        p
    }
    /// nodes of the subtree in preorder
    pub fn preorder(&self, i: u8) -> List {
        let mut l = List { n: 0, k: [0; MAXN] };
        self.pre(i, &mut l);
        l
    }
    fn pre(&self, i: u8, l: &mut List) {
        l.k[l.n] = i;
        l.n += 1;
        let mut k = 0;
        while k < self.deg(i) {
            self.pre(self.child(i, k), l);
            k += 1;
        }
    }
    /// nodes of the subtree level by level, without the root if `skip`
    pub fn bfs(&self, i: u8, skip: bool) -> List {
        let mut l = List { n: 0, k: [0; MAXN] };
        l.k[0] = i;
        l.n = 1;
        let mut h = 0;
        while h < l.n {
            let c = l.k[h];
            h += 1;
            let mut k = 0;
            while k < self.deg(c) {
                l.k[l.n] = self.child(c, k);
                l.n += 1;
                k += 1;
            }
        }
        if skip {
            let mut k = 1;
            while k < l.n {
                l.k[k - 1] = l.k[k];
                k += 1;
            }
            l.n -= 1;
        }
        l
    }
    /// copy the subtree of `i`; returns the root of the copy
    pub fn copy(&mut self, i: u8) -> u8 {
        let r = self.node(self.v[i as usize]);
        self.id[r as usize] = self.id[i as usize];
        let mut k = 0;
        while k < self.deg(i) {
            let c = self.copy(self.child(i, k));
            self.push_back(r, c);
            k += 1;
        }
        r
    }
}
#[derive(Clone, Copy)]
pub struct Path {
    pub n: usize,
    pub k: [u8; MAXN],
}
pub type List = Path;

/// a symbolic ordered-tree shape with exactly n nodes (every shape, each once)
pub fn any_shape(m: &mut M, n: usize) -> u8 {
    let mut stack = [0u8; MAXN];
    let r = m.node(0);
    stack[0] = r;
    let mut d = 0; // depth of the last node
    let mut i = 1;
    while i < n {
        // depth of the next node in preorder: 1..=d+1
        let nd = 1 + pick(d + 1);
        let c = m.node(0);
        m.push_back(stack[nd - 1], c);
        stack[nd] = c;
        d = nd;
        i += 1;
    }
    r
}
/// a shape with at most n nodes
pub fn any_shape_upto(m: &mut M, n: usize) -> u8 {
    let k = 1 + pick(n);
    any_shape(m, k)
}
/// forest shape: `m` gets a virtual root
pub fn any_forest_upto(m: &mut M, n: usize) -> u8 {
    let k = 1 + pick(n + 1);
    any_shape(m, k)
}
/// give every node of the subtree a datum
pub fn fill(m: &mut M, i: u8) {
    let l = m.preorder(i);
    let mut k = 0;
    while k < l.n {
        let x = l.k[k] as usize;
        m.v[x] = any8();
        k += 1;
    }
}

// ---------------------------------------------------------------- real trees
/// how a tree's nodes are stored
#[derive(Clone, Copy, PartialEq)]
pub enum St {
    Scattered, // one allocation per node
    Piled,     // all nodes in one buffer
    Mixed,     // the root's subtrees alternate between the two
}
pub fn st(k: usize) -> St {
    match k {
        0 => St::Scattered,
        1 => St::Piled,
        _ => St::Mixed,
    }
}

/// Build the subtree of `i` node by node.
pub fn build_scattered(m: &mut M, i: u8) -> Tree<Tok> {
    let d = Tok::new(m.v[i as usize]);
    m.id[i as usize] = d.id;
    let mut t = Tree::new(d);
    let mut k = 0;
    while k < m.deg(i) {
        let c = build_scattered(m, m.child(i, k));
        t.push_back(c);
        k += 1;
    }
    t
}
/// move a tree into one contiguous buffer
pub fn pile(t: Tree<Tok>) -> Tree<Tok> {
    Tree::from(t.into_bfs())
}
pub fn pile_forest(f: Forest<Tok>) -> Forest<Tok> {
    Forest::from(f.into_bfs())
}
pub fn build(m: &mut M, i: u8, s: St) -> Tree<Tok> {
    match s {
        St::Scattered => build_scattered(m, i),
        St::Piled => pile(build_scattered(m, i)),
        St::Mixed => {
            let d = Tok::new(m.v[i as usize]);
            m.id[i as usize] = d.id;
            let mut t = pile(Tree::new(d));
            let mut k = 0;
            while k < m.deg(i) {
                let mut c = build_scattered(m, m.child(i, k));
                if k % 2 == 0 {
                    c = pile(c);
                }
                t.push_back(c);
                k += 1;
            }
            t
        }
    }
}
pub fn build_forest(m: &mut M, root: u8, s: St) -> Forest<Tok> {
    let mut f = Forest::new();
    let mut k = 0;
    while k < m.deg(root) {
        let c = m.child(root, k);
        f.push_back(build(m, c, if s == St::Mixed && k % 2 == 0 { St::Piled } else { St::Scattered }));
        k += 1;
    }
    if s == St::Piled {
        f = pile_forest(f);
    }
    f
}

pub fn at_mut<'a>(mut cur: Pin<&'a mut Node<Tok>>, p: &Path) -> Pin<&'a mut Node<Tok>> {
    let mut j = 0;
    while j < p.n {
        let mut it = unsafe { Pin::get_unchecked_mut(cur) }.iter_mut();
        let mut k = p.k[j];
        let mut c = it.next();
        while k > 0 {
            c = it.next();
            k -= 1;
        }
        match c {
            Some(c) => cur = c,
            None => {
                check(false, "a node that should be there was not reachable");
                panic!()
            }
        }
        j += 1;
    }
    cur
}
pub fn at<'a, T>(mut cur: &'a Node<T>, p: &Path) -> &'a Node<T> {
    let mut j = 0;
    while j < p.n {
        let mut it = cur.iter();
        let mut k = p.k[j];
        let mut c = it.next();
        while k > 0 {
            c = it.next();
            k -= 1;
        }
        match c {
            Some(c) => cur = c,
            None => {
                check(false, "a node that should be there was not reachable");
                panic!()
            }
        }
        j += 1;
    }
    cur
}
/// node of a forest; the first step selects the tree
pub fn at_forest_mut<'a>(f: &'a mut Forest<Tok>, p: &Path) -> Pin<&'a mut Node<Tok>> {
    let mut it = f.iter_mut();
    let mut k = p.k[0];
    let mut c = it.next();
    while k > 0 {
        c = it.next();
        k -= 1;
    }
    let mut q = Path { n: p.n - 1, k: [0; MAXN] };
    let mut j = 1;
    while j < p.n {
        q.k[j - 1] = p.k[j];
        j += 1;
    }
    match c {
        Some(c) => at_mut(c, &q),
        None => {
            check(false, "a tree that should be in the forest was not reachable");
            panic!()
        }
    }
}

/// order, data and identity of everything below `node`
pub fn same(node: &Node<Tok>, m: &M, i: u8) {
    check_eq(node.data().id as u64, m.id[i as usize] as u64, "wrong datum at a position");
    check_eq(node.data().v as u64, m.v[i as usize] as u64, "a datum changed its value");
    observe(node.data().v as u64);
    let mut it = node.iter();
    let mut k = 0;
    while k < m.deg(i) {
        match it.next() {
            Some(c) => same(c, m, m.child(i, k)),
            None => check(false, "a child is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra child is present");
}
pub fn same_forest(f: &Forest<Tok>, m: &M, r: u8) {
    let mut it = f.iter();
    let mut k = 0;
    while k < m.deg(r) {
        match it.next() {
            Some(c) => same(c, m, m.child(r, k)),
            None => check(false, "a tree of the forest is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra tree is present in the forest");
}
/// degree, node count and emptiness of everything below `node`
pub fn sizes<T>(node: &Node<T>, m: &M, i: u8) {
    check_eq(node.degree() as u64, m.deg(i) as u64, "degree is wrong");
    check_eq(node.node_count() as u64, m.count(i) as u64, "node count is wrong");
    observe(node.degree() as u64);
    observe(node.node_count() as u64);
    check(node.has_no_child() == (m.deg(i) == 0), "has_no_child is wrong");
    let mut it = node.iter();
    let mut k = 0;
    while k < m.deg(i) {
        match it.next() {
            Some(c) => sizes(c, m, m.child(i, k)),
            None => check(false, "a child is missing"),
        }
        k += 1;
    }
}
pub fn sizes_forest<T>(f: &Forest<T>, m: &M, r: u8) {
    check_eq(f.degree() as u64, m.deg(r) as u64, "forest degree is wrong");
    check_eq(f.node_count() as u64, m.count(r) as u64 - 1, "forest node count is wrong");
    check(f.has_no_child() == (m.deg(r) == 0), "forest has_no_child is wrong");
    let mut it = f.iter();
    let mut k = 0;
    while k < m.deg(r) {
        match it.next() {
            Some(c) => sizes(c, m, m.child(r, k)),
            None => check(false, "a tree of the forest is missing"),
        }
        k += 1;
    }
}
/// parent/front/back of everything below `node`
pub fn links<T>(node: &Node<T>, m: &M, i: u8) {
    let n = m.deg(i);
    check(node.front().is_none() == (n == 0), "front() of a node is wrong");
    check(node.back().is_none() == (n == 0), "back() of a node is wrong");
    let mut it = node.iter();
    let mut k = 0;
    while k < n {
        match it.next() {
            Some(c) => {
                match c.parent() {
                    Some(p) => check(std::ptr::eq(p, node), "parent() is not the node that lists this child"),
                    None => check(false, "parent() of a child is None"),
                }
                if k == 0 {
                    if let Some(f) = node.front() {
                        check(std::ptr::eq(f, c), "front() is not the first child");
                    }
                }
                if k + 1 == n {
                    if let Some(b) = node.back() {
                        check(std::ptr::eq(b, c), "back() is not the last child");
                    }
                }
                links(c, m, m.child(i, k));
            }
            None => check(false, "a child is missing"),
        }
        k += 1;
    }
}
pub fn links_tree<T>(t: &Tree<T>, m: &M, i: u8) {
    check(t.root().parent().is_none(), "parent() of a root is not None");
    links(t.root(), m, i);
}
pub fn links_forest<T>(f: &Forest<T>, m: &M, r: u8) {
    let n = m.deg(r);
    check(f.front().is_none() == (n == 0), "front() of a forest is wrong");
    check(f.back().is_none() == (n == 0), "back() of a forest is wrong");
    let mut it = f.iter();
    let mut k = 0;
    while k < n {
        match it.next() {
            Some(c) => {
                check(c.parent().is_none(), "parent() of a forest's tree is not None");
                if k == 0 {
                    if let Some(x) = f.front() {
                        check(std::ptr::eq(x, c), "front() of a forest is not its first tree");
                    }
                }
                if k + 1 == n {
                    if let Some(x) = f.back() {
                        check(std::ptr::eq(x, c), "back() of a forest is not its last tree");
                    }
                }
                links(c, m, m.child(r, k));
            }
            None => check(false, "a tree of the forest is missing"),
        }
        k += 1;
    }
}

/// Take a tree apart and check each piece: `from_back` selects the end.
pub fn drain(mut t: Tree<Tok>, m: &mut M, i: u8, from_back: bool) {
    let mut left = m.deg(i);
    loop {
        let x = if from_back { t.pop_back() } else { t.pop_front() };
        match x {
            Some(c) => {
                if left == 0 {
                    check(false, "popped more children than there are");
                    break;
                }
                let k = if from_back { left - 1 } else { m.deg(i) - left };
                left -= 1;
                drain(c, m, m.child(i, k), from_back);
            }
            None => {
                check(left == 0, "pop returned None although children are left");
                break;
            }
        }
    }
    check_eq(t.data().id as u64, m.id[i as usize] as u64, "wrong datum at a position");
    check_eq(t.data().v as u64, m.v[i as usize] as u64, "a datum changed its value");
}
pub fn drain_forest(mut t: Forest<Tok>, m: &mut M, i: u8, from_back: bool) {
    let mut left = m.deg(i);
    loop {
        let x = if from_back { t.pop_back() } else { t.pop_front() };
        match x {
            Some(c) => {
                if left == 0 {
                    check(false, "popped more trees than there are");
                    break;
                }
                let k = if from_back { left - 1 } else { m.deg(i) - left };
                left -= 1;
                drain(c, m, m.child(i, k), from_back);
            }
            None => {
                check(left == 0, "pop returned None although trees are left");
                break;
            }
        }
    }
}
