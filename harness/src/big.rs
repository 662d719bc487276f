//! Larger trees of several shapes: one operation at a node, with a large operand.
use crate::model::*;
use crate::rt::*;
use crate::world::*;
use std::pin::Pin;
use trees::{Forest, Node, Tree};

/// The reference: nodes are numbered in preorder when built; `root` lists are explicit.
pub struct B {
    pub ch: Vec<Vec<usize>>,
    pub par: Vec<usize>,
    pub id: Vec<u16>,
    pub v: Vec<u8>,
    pub addr: Vec<usize>,
}
pub const NO: usize = usize::MAX;
impl B {
    pub fn new() -> B {
        B { ch: Vec::new(), par: Vec::new(), id: Vec::new(), v: Vec::new(), addr: Vec::new() }
    }
    pub fn node(&mut self, p: usize) -> usize {
        let k = self.ch.len();
        self.ch.push(Vec::new());
        self.par.push(p);
        self.id.push(u16::MAX);
        self.v.push(0);
        self.addr.push(0);
        if p != NO {
            self.ch[p].push(k);
        }
        k
    }
    /// kind 0: a children, each with b children
    /// kind 1: b levels of (leaf, next level, leaf) around a node with a leaves
    /// kind 2: every node above level b has a children
    /// kind 3: a chain of a nodes, each with b leaves, in turn before and after the next
    pub fn shape(&mut self, kind: usize, a: usize, b: usize) -> usize {
        let r = self.node(NO);
        match kind {
            0 => {
                for _ in 0..a {
                    let c = self.node(r);
                    for _ in 0..b {
                        self.node(c);
                    }
                }
            }
            1 => {
                self.layer(r, a, b);
            }
            2 => self.full(r, a, b),
            _ => self.comb(r, a, b),
        }
        r
    }
    fn layer(&mut self, p: usize, a: usize, b: usize) {
        if b == 0 {
            for _ in 0..a {
                self.node(p);
            }
        } else {
            self.node(p);
            let c = self.node(p);
            self.layer(c, a, b - 1);
            self.node(p);
        }
    }
    fn full(&mut self, p: usize, a: usize, b: usize) {
        if b > 0 {
            for _ in 0..a {
                let c = self.node(p);
                self.full(c, a, b - 1);
            }
        }
    }
    fn comb(&mut self, p: usize, a: usize, b: usize) {
        if a == 0 {
            return;
        }
        if a % 2 == 0 {
            for _ in 0..b {
                self.node(p);
            }
        }
        let c = self.node(p);
        self.comb(c, a - 1, b);
        if a % 2 == 1 {
            for _ in 0..b {
                self.node(p);
            }
        }
    }
    pub fn count(&self, i: usize) -> usize {
        let mut s = 1;
        for &c in self.ch[i].iter() {
            s += self.count(c);
        }
        s
    }
    pub fn index(&self, c: usize) -> usize {
        let p = self.par[c];
        let mut k = 0;
        while self.ch[p][k] != c {
            k += 1;
        }
        k
    }
    pub fn detach(&mut self, c: usize) {
        let (p, k) = (self.par[c], self.index(c));
        self.ch[p].remove(k);
        self.par[c] = NO;
    }
    pub fn insert(&mut self, p: usize, k: usize, c: usize) {
        self.ch[p].insert(k, c);
        self.par[c] = p;
    }
    /// child positions from `r` down to `i`
    pub fn path(&self, r: usize, mut i: usize) -> Vec<usize> {
        let mut v = Vec::new();
        while i != r {
            v.push(self.index(i));
            i = self.par[i];
        }
        v.reverse();
        v
    }
    pub fn level_order(&self, i: usize, skip: bool) -> Vec<usize> {
        let mut v = vec![i];
        let mut k = 0;
        while k < v.len() {
            for &c in self.ch[v[k]].iter() {
                v.push(c);
            }
            k += 1;
        }
        if skip {
            v.remove(0);
        }
        v
    }
    fn scattered(&mut self, i: usize) -> Tree<Tok> {
        let d = Tok::new(any8());
        self.id[i] = d.id;
        self.v[i] = d.v;
        let mut t = Tree::new(d);
        let mut k = 0;
        while k < self.ch[i].len() {
            let c = self.scattered(self.ch[i][k]);
            t.push_back(c);
            k += 1;
        }
        t
    }
    /// how: 0 scattered, 1 in one buffer, 2 every other child of the root in its own
    pub fn build(&mut self, i: usize, how: usize) -> Tree<Tok> {
        if how < 2 {
            let t = self.scattered(i);
            return if how == 1 { pile(t) } else { t };
        }
        let d = Tok::new(any8());
        self.id[i] = d.id;
        self.v[i] = d.v;
        let mut t = Tree::new(d);
        let mut k = 0;
        while k < self.ch[i].len() {
            let c = self.build(self.ch[i][k], 1 - k % 2);
            t.push_back(c);
            k += 1;
        }
        t
    }
    pub fn addresses(&mut self, n: &Node<Tok>, i: usize) {
        self.addr[i] = n as *const Node<Tok> as usize;
        let mut k = 0;
        for c in n.iter() {
            if k < self.ch[i].len() {
                let j = self.ch[i][k];
                self.addresses(c, j);
            }
            k += 1;
        }
    }
}
/// one of n: every one if there are few, else ends, middle and edges
pub fn some(n: usize) -> usize {
    if n <= 12 || param(7) == 1 {
        return pick(n);
    }
    let l = [0, 1, 2, n / 2, 17, 127, 255, 256, n - 2, n - 1];
    let k = l[pick(10)];
    if k < n {
        k
    } else {
        n - 1
    }
}
pub fn at<'a, T>(mut n: &'a Node<T>, p: &[usize]) -> &'a Node<T> {
    for &k in p {
        n = match n.iter().nth(k) {
            Some(c) => c,
            None => {
                check(false, "a node that should be there was not reachable");
                panic!()
            }
        };
    }
    n
}
pub fn at_mut<'a>(mut n: Pin<&'a mut Node<Tok>>, p: &[usize]) -> Pin<&'a mut Node<Tok>> {
    for &k in p {
        n = match unsafe { Pin::get_unchecked_mut(n) }.iter_mut().nth(k) {
            Some(c) => c,
            None => {
                check(false, "a node that should be there was not reachable");
                panic!()
            }
        };
    }
    n
}
/// Checks the subtree; returns its number of nodes. `copy`: the data must be clones.
pub fn verify(n: &Node<Tok>, b: &B, i: usize, lens: u8, copy: bool) -> usize {
    if lens & ORDER != 0 {
        let id = n.data().id;
        if copy {
            check(id != b.id[i], "a copy shares a datum with its original");
            check_eq(unsafe { ORIGIN[id as usize] } as u64, b.id[i] as u64, "wrong datum at a position of a copy");
        } else {
            check_eq(id as u64, b.id[i] as u64, "wrong datum at a position");
        }
        check_eq(n.data().v as u64, b.v[i] as u64, "a datum changed its value");
    }
    if lens & ADDR != 0 {
        check_eq(n as *const Node<Tok> as u64, b.addr[i] as u64, "a node has moved in memory");
    }
    let deg = b.ch[i].len();
    if lens & LINKS != 0 {
        check(n.front().is_none() == (deg == 0), "front() of a node is wrong");
        check(n.back().is_none() == (deg == 0), "back() of a node is wrong");
    }
    let mut total = 1;
    let mut it = n.iter();
    let mut k = 0;
    while k < deg {
        match it.next() {
            Some(c) => {
                if lens & LINKS != 0 {
                    check(c.parent().map_or(false, |p| std::ptr::eq(p, n)), "parent() is not the node that lists this child");
                    if k == 0 {
                        check(n.front().map_or(false, |f| std::ptr::eq(f, c)), "front() is not the first child");
                    }
                    if k + 1 == deg {
                        check(n.back().map_or(false, |f| std::ptr::eq(f, c)), "back() is not the last child");
                    }
                }
                total += verify(c, b, b.ch[i][k], lens, copy)
            }
            None => check(false, "a child is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra child is present");
    if lens & SIZE != 0 {
        check_eq(n.degree() as u64, deg as u64, "degree is wrong");
        check_eq(n.node_count() as u64, total as u64, "node count is wrong");
        check(n.has_no_child() == (deg == 0), "has_no_child is wrong");
    }
    total
}
pub fn verify_tree(t: &Tree<Tok>, b: &B, i: usize, lens: u8, copy: bool) {
    if lens & LINKS != 0 {
        check(t.root().parent().is_none(), "parent() of a root is not None");
    }
    verify(t.root(), b, i, lens, copy);
}
pub fn verify_forest(f: &Forest<Tok>, b: &B, i: usize, lens: u8, copy: bool) {
    let deg = b.ch[i].len();
    let mut total = 0;
    let mut it = f.iter();
    let mut k = 0;
    while k < deg {
        match it.next() {
            Some(c) => {
                if lens & LINKS != 0 {
                    check(c.parent().is_none(), "parent() of a forest's tree is not None");
                    if k == 0 {
                        check(f.front().map_or(false, |f| std::ptr::eq(f, c)), "front() of a forest is not its first tree");
                    }
                    if k + 1 == deg {
                        check(f.back().map_or(false, |f| std::ptr::eq(f, c)), "back() of a forest is not its last tree");
                    }
                }
                total += verify(c, b, b.ch[i][k], lens, copy)
            }
            None => check(false, "a tree of the forest is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra tree is present in the forest");
    if lens & SIZE != 0 {
        check_eq(f.degree() as u64, deg as u64, "forest degree is wrong");
        check_eq(f.node_count() as u64, total as u64, "forest node count is wrong");
    }
}
/// params: shape of the tree (3), shape of the operand (3)
pub fn ops(lens: u8) {
    begin();
    {
        let mut b = B::new();
        let r = b.shape(param(0), param(1), param(2));
        let n = b.count(r);
        let o = b.shape(param(3), param(4), param(5));
        let mut t = b.build(r, pick(3));
        let mut u = Some(b.build(o, pick(2)));
        if lens & ADDR != 0 {
            b.addresses(t.root(), r);
            b.addresses(u.as_ref().unwrap().root(), o);
        }
        let x = some(n);
        let p = b.path(r, x);
        let mut gone = None;
        let mut gone_root = NO;
        {
            let y = at_mut(t.root_mut(), &p);
            let y = unsafe { Pin::get_unchecked_mut(y) };
            match pick(9) {
                0 => {
                    if x != r {
                        gone = Some(y.detach());
                        b.detach(x);
                        gone_root = x;
                    }
                }
                1 => {
                    if x != r {
                        y.insert_prev_sib(u.take().unwrap());
                        let k = b.index(x);
                        b.insert(b.par[x], k, o);
                    }
                }
                2 => {
                    if x != r {
                        y.insert_next_sib(u.take().unwrap());
                        let k = b.index(x);
                        b.insert(b.par[x], k + 1, o);
                    }
                }
                3 => {
                    y.push_front(u.take().unwrap());
                    b.insert(x, 0, o);
                }
                4 => {
                    y.push_back(u.take().unwrap());
                    let k = b.ch[x].len();
                    b.insert(x, k, o);
                }
                5 => {
                    let u = u.as_mut().unwrap();
                    y.prepend(u.abandon());
                    // the abandoned root is a node of its own now
                    b.addr[o] = u.root() as *const Node<Tok> as usize;
                    let mut k = 0;
                    while b.ch[o].len() > 0 {
                        let c = b.ch[o][0];
                        b.detach(c);
                        b.insert(x, k, c);
                        k += 1;
                    }
                }
                6 => {
                    let u = u.as_mut().unwrap();
                    y.append(u.abandon());
                    // the abandoned root is a node of its own now
                    b.addr[o] = u.root() as *const Node<Tok> as usize;
                    let mut k = b.ch[x].len();
                    while b.ch[o].len() > 0 {
                        let c = b.ch[o][0];
                        b.detach(c);
                        b.insert(x, k, c);
                        k += 1;
                    }
                }
                7 => {
                    gone = y.pop_front();
                    if b.ch[x].len() > 0 {
                        gone_root = b.ch[x][0];
                        b.detach(gone_root);
                    }
                }
                _ => {
                    gone = y.pop_back();
                    if b.ch[x].len() > 0 {
                        gone_root = *b.ch[x].last().unwrap();
                        b.detach(gone_root);
                    }
                }
            }
        }
        check(gone.is_some() == (gone_root != NO), "a removal yields a tree although there is none, or the other way round");
        verify_tree(&t, &b, r, lens, false);
        if let Some(u) = &u {
            verify_tree(u, &b, o, lens, false);
        }
        if let Some(g) = &gone {
            verify_tree(g, &b, gone_root, lens, false);
        }
        match pick(5) {
            0 => {
                // the changed tree becomes part of what was removed or not used
                let (mut w, wr) = match (gone.take(), u.take()) {
                    (Some(g), _) => (g, gone_root),
                    (_, Some(u)) => (u, o),
                    _ => {
                        let d = Tok::new(any8());
                        let k = b.node(NO);
                        b.id[k] = d.id;
                        b.v[k] = d.v;
                        let w = Tree::new(d);
                        b.addr[k] = w.root() as *const Node<Tok> as usize;
                        (w, k)
                    }
                };
                w.push_back(t);
                let k = b.ch[wr].len();
                b.insert(wr, k, r);
                verify_tree(&w, &b, wr, lens, false);
            }
            1 => {
                // its children become a forest and get siblings
                let mut f = t.abandon();
                verify_forest(&f, &b, r, lens, false);
                b.ch[r].reserve(2);
                if let Some(g) = gone.take() {
                    f.push_front(g);
                    b.insert(r, 0, gone_root);
                }
                if let Some(u) = u.take() {
                    f.push_back(u);
                    let k = b.ch[r].len();
                    b.insert(r, k, o);
                }
                verify_forest(&f, &b, r, lens, false);
            }
            2 => {
                // abandoned in the middle of an owning iteration
                let mut k = pick(3).min(b.ch[r].len());
                let mut it = t.abandon().into_iter();
                let mut j = 0;
                while k > 0 {
                    match it.next() {
                        Some(c) => verify_tree(&c, &b, b.ch[r][j], lens & !LINKS, false),
                        None => check(false, "a child is missing"),
                    }
                    j += 1;
                    k -= 1;
                }
            }
            3 => {
                let mut it = t.into_bfs().wrap().iter();
                let l = b.level_order(r, false);
                let k = some(l.len() + 1);
                let mut j = 0;
                while j < k {
                    match it.next() {
                        Some(v) => {
                            if lens & ORDER != 0 {
                                check_eq(v.data.id as u64, b.id[l[j]] as u64, "breadth-first iteration yields the wrong node")
                            }
                        }
                        None => check(false, "breadth-first iteration ends early"),
                    }
                    j += 1;
                }
            }
            _ => {
                if any_bool() {
                    drop(u.take());
                    drop(gone.take());
                }
                drop(t);
                if let Some(g) = &gone {
                    verify_tree(g, &b, gone_root, lens, false);
                }
            }
        }
        cover("big checked");
    }
    end();
}

// ---------------------------------------------------------------- the other properties
fn start() -> (B, usize, Tree<Tok>) {
    let mut b = B::new();
    let r = b.shape(param(0), param(1), param(2));
    let t = b.build(r, pick(3));
    (b, r, t)
}
fn expect_visits<T: std::borrow::Borrow<Tok>, I: Iterator<Item = trees::bfs::Visit<T>>>(x: trees::bfs::Bfs<I>, b: &B, l: &[usize], deg: usize, below: usize) {
    let (mut it, size) = x.iter_and_size();
    check_eq(size.degree as u64, deg as u64, "the degree of a breadth-first iteration is wrong");
    check_eq(size.descendants as u64, below as u64, "the number of descendants of a breadth-first iteration is wrong");
    for &i in l {
        match it.next() {
            Some(v) => {
                check_eq(v.data.borrow().id as u64, b.id[i] as u64, "breadth-first iteration yields the wrong node");
                check_eq(v.data.borrow().v as u64, b.v[i] as u64, "a datum changed its value");
                check_eq(v.size.degree as u64, b.ch[i].len() as u64, "a visit's degree is wrong");
                check_eq(v.size.descendants as u64, b.count(i) as u64 - 1, "a visit's number of descendants is wrong");
            }
            None => check(false, "breadth-first iteration ends early"),
        }
    }
    check(it.next().is_none(), "breadth-first iteration yields too many nodes");
}
struct Mut<'a>(&'a mut Tok);
impl<'a> std::borrow::Borrow<Tok> for Mut<'a> {
    fn borrow(&self) -> &Tok {
        self.0
    }
}
/// params: shape (3)
pub fn bfs() {
    begin();
    {
        let (b, r, mut t) = start();
        let x = some(b.ch.len());
        let p = b.path(r, x);
        let (sub, below) = (b.level_order(x, false), b.level_order(x, true));
        match pick(6) {
            0 => expect_visits(at(t.root(), &p).bfs().wrap(), &b, &sub, 1, below.len()),
            1 => expect_visits(at(t.root(), &p).bfs_children().wrap(), &b, &below, b.ch[x].len(), below.len()),
            2 => expect_visits(at_mut(t.root_mut(), &p).bfs_mut().map(Mut).wrap(), &b, &sub, 1, below.len()),
            3 => expect_visits(at_mut(t.root_mut(), &p).bfs_children_mut().map(Mut).wrap(), &b, &below, b.ch[x].len(), below.len()),
            4 => expect_visits(t.into_bfs().wrap(), &b, &b.level_order(r, false), 1, b.ch.len() - 1),
            _ => {
                let mut f = t.abandon();
                let l = b.level_order(r, true);
                let deg = b.ch[r].len();
                match pick(3) {
                    0 => expect_visits(f.bfs().wrap(), &b, &l, deg, l.len()),
                    1 => expect_visits(f.bfs_mut().map(Mut).wrap(), &b, &l, deg, l.len()),
                    _ => expect_visits(f.into_bfs().wrap(), &b, &l, deg, l.len()),
                }
            }
        }
        cover("big iteration complete");
    }
    end();
}
const ALL: u8 = ORDER | SIZE | LINKS;
/// params: shape (3)
pub fn copies() {
    begin();
    {
        let (b, r, mut t) = start();
        let x = some(b.ch.len());
        let p = b.path(r, x);
        match pick(6) {
            0 => {
                let u = Tree::from(t.into_bfs());
                verify_tree(&u, &b, r, ALL, false);
            }
            1 => {
                let u = at(t.root(), &p).deep_clone();
                verify_tree(&u, &b, x, ALL, true);
                verify_tree(&t, &b, r, ALL, false);
                if any_bool() {
                    drop(t);
                    verify_tree(&u, &b, x, ALL, true);
                } else {
                    drop(u);
                    verify_tree(&t, &b, r, ALL, false);
                }
            }
            2 => {
                let u = at(t.root(), &p).deep_clone_forest();
                drop(t);
                verify_forest(&u, &b, x, ALL, true);
            }
            3 => {
                let u = t.clone();
                drop(t);
                verify_tree(&u, &b, r, ALL, true);
            }
            4 => {
                let f = t.abandon();
                if any_bool() {
                    let g = f.clone();
                    verify_forest(&f, &b, r, ALL, false);
                    drop(f);
                    verify_forest(&g, &b, r, ALL, true);
                } else {
                    let g = Forest::from(f.into_bfs());
                    verify_forest(&g, &b, r, ALL, false);
                }
            }
            _ => {
                let h = trees::RcNode::from(t);
                let u = h.deep_clone();
                drop(h);
                verify_tree(&u, &b, r, ALL, true);
            }
        }
        cover("big copied");
    }
    end();
}
fn events(b: &B, i: usize, v: &mut Vec<(usize, u64)>) {
    if b.ch[i].len() == 0 {
        v.push((i, 2));
    } else {
        v.push((i, 0));
        for &c in b.ch[i].iter() {
            events(b, c, v);
        }
        v.push((i, 1));
    }
}
fn walk_through<W: crate::walks::Walk>(w: &mut W, b: &B, r: usize, e: &[(usize, u64)], forest: bool) {
    use trees::walk::Visit;
    let by_next = any_bool();
    let see = |v: Option<Visit<'_, Tok>>, i: usize, kind: u64| match v {
        Some(v) => {
            let (x, q) = match v {
                Visit::Begin(x) => (x, 0),
                Visit::End(x) => (x, 1),
                Visit::Leaf(x) => (x, 2),
            };
            check_eq(x.data().id as u64, b.id[i] as u64, "a walk visits the wrong node");
            check_eq(q, kind, "a walk reports the wrong kind of visit");
        }
        None => check(false, "a walk ends early"),
    };
    let mut k = 0;
    for &(i, kind) in e {
        k += 1;
        see(w.get(), i, kind);
        let p = b.par[i];
        let want = if p == NO || (forest && p == r) { u32::MAX } else { b.id[p] as u32 };
        check_eq(crate::walks::parent_id(w.get_parent()) as u64, want as u64, "a walk's parent is wrong");
        if by_next {
            let v = w.next();
            if k < e.len() {
                see(v, e[k].0, e[k].1);
            } else {
                check(v.is_none(), "a walk goes on after its end");
            }
        } else {
            w.forward();
        }
    }
    check(w.get().is_none(), "a walk goes on after its end");
}
/// params: shape (3)
pub fn walk() {
    begin();
    {
        let (b, r, mut t) = start();
        let mut e = Vec::new();
        if any_bool() {
            events(&b, r, &mut e);
            let mut w = trees::TreeWalk::from(t);
            walk_through(&mut w, &b, r, &e, false);
        } else {
            for &c in b.ch[r].iter() {
                events(&b, c, &mut e);
            }
            let mut w = trees::ForestWalk::from(t.abandon());
            walk_through(&mut w, &b, r, &e, true);
        }
        cover("big walked");
    }
    end();
}
/// Writes to some node. params: shape (3)
pub fn write() {
    begin();
    {
        let (mut b, r, mut t) = start();
        let x = some(b.ch.len());
        let p = b.path(r, x);
        let v = any8();
        match pick(4) {
            0 => at_mut(t.root_mut(), &p).data_mut().v = v,
            1 => {
                let mut k = 0;
                let l = b.level_order(r, false);
                for visit in t.bfs_mut().iter {
                    if l[k] == x {
                        visit.data.v = v;
                    }
                    k += 1;
                }
            }
            2 => {
                let h = trees::RcNode::from(t);
                at_rc(&h, &p).data_mut().v = v;
                t = unsafe { h.into_tree() };
            }
            _ => {
                // all children of x
                let mut k = 0;
                for mut c in unsafe { Pin::get_unchecked_mut(at_mut(t.root_mut(), &p)) }.iter_mut() {
                    c.data_mut().v = v;
                    let j = b.ch[x][k];
                    b.v[j] = v;
                    k += 1;
                }
                check_eq(k as u64, b.ch[x].len() as u64, "iter_mut misses a child");
                at_mut(t.root_mut(), &p).data_mut().v = v;
            }
        }
        b.v[x] = v;
        verify_tree(&t, &b, r, ORDER, false);
        cover("big written");
    }
    end();
}
pub fn at_rc(h: &trees::RcNode<Tok>, p: &[usize]) -> trees::RcNode<Tok> {
    let mut h = h.clone();
    for &k in p {
        let c = h.iter_rc().nth(k);
        h = match c {
            Some(c) => c,
            None => {
                check(false, "a node that should be there was not reachable");
                panic!()
            }
        };
    }
    h
}
/// operators with large operands. params: shape (3), shape (3)
pub fn notation() {
    begin();
    {
        let mut b = B::new();
        let r = b.shape(param(0), param(1), param(2));
        let o = b.shape(param(3), param(4), param(5));
        let mut t = b.build(r, pick(2));
        let mut u = b.build(o, pick(2));
        let splice = |b: &mut B| {
            while b.ch[o].len() > 0 {
                let c = b.ch[o][0];
                b.detach(c);
                let k = b.ch[r].len();
                b.insert(r, k, c);
            }
        };
        match pick(5) {
            0 => {
                let k = b.ch[r].len();
                let x = t / u;
                b.insert(r, k, o);
                verify_tree(&x, &b, r, ALL, false);
            }
            1 => {
                let x = t / u.abandon();
                splice(&mut b);
                verify_tree(&x, &b, r, ALL, false);
            }
            2 => {
                let x = t - u;
                let k = b.node(NO);
                b.insert(k, 0, r);
                b.insert(k, 1, o);
                verify_forest(&x, &b, k, ALL, false);
            }
            3 => {
                let x = t.abandon() - u.abandon();
                splice(&mut b);
                verify_forest(&x, &b, r, ALL, false);
            }
            _ => {
                let x = t.abandon() - u;
                let k = b.ch[r].len();
                b.insert(r, k, o);
                verify_forest(&x, &b, r, ALL, false);
            }
        }
        cover("big operands");
    }
    end();
}
struct Fed(Vec<u8>);
impl std::hash::Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, x: &[u8]) {
        self.0.extend_from_slice(x)
    }
}
/// Two equal trees, one of which then gets another datum or one node more or less
/// somewhere. params: shape (3)
pub fn compare() {
    use std::cmp::Ordering::*;
    begin();
    {
        let (b, r, mut t) = start();
        let mut u = t.clone();
        let x = some(b.ch.len());
        let p = b.path(r, x);
        let mut want = Equal; // t compared with u
        let mut in_forest = true; // is the difference below the root?
        match pick(3) {
            0 => {
                let v = any8();
                at_mut(u.root_mut(), &p).data_mut().v = v;
                want = b.v[x].cmp(&v);
                in_forest = x != r;
            }
            1 => {
                // x gets one more child
                at_mut(u.root_mut(), &p).push_back(Tree::new(Tok::new(any8())));
                want = Less;
            }
            _ => {
                if x != r {
                    // a last child goes
                    let y = *b.ch[b.par[x]].last().unwrap();
                    let q = b.path(r, y);
                    drop(unsafe { Pin::get_unchecked_mut(at_mut(u.root_mut(), &q)) }.detach());
                    want = Greater;
                }
            }
        }
        match pick(3) {
            0 => {
                if want == Equal {
                    let (mut p, mut q) = (Fed(Vec::new()), Fed(Vec::new()));
                    std::hash::Hash::hash(&t, &mut p);
                    std::hash::Hash::hash(&u, &mut q);
                    check_eq(p.0.len() as u64, q.0.len() as u64, "equal values hash differently");
                    let mut k = 0;
                    while k < p.0.len() && k < q.0.len() {
                        check_eq(p.0[k] as u64, q.0[k] as u64, "equal values hash differently");
                        k += 1;
                    }
                }
                check((t == u) == (want == Equal), "== is wrong");
                check((u != t) == (want != Equal), "!= is wrong");
                check(t.cmp(&u) == want, "cmp is wrong");
                check(u.partial_cmp(&t) == Some(want.reverse()), "partial_cmp is wrong");
            }
            1 => {
                check((t.root() == u.root()) == (want == Equal), "== is wrong");
                check((t.root() < u.root()) == (want == Less), "< is wrong");
                check((t.root() >= u.root()) == (want != Less), ">= is wrong");
            }
            _ => {
                if in_forest {
                    let (f, g) = (t.abandon(), u.abandon());
                    check((f == g) == (want == Equal), "== is wrong");
                    check(f.cmp(&g) == want, "cmp is wrong");
                    check((f > g) == (want == Greater), "> is wrong");
                }
            }
        }
        cover("big compared");
    }
    end();
}
/// Handles on two nodes and the root, weak handles on the same. params: shape (3), shape (3)
pub fn handles(lens: u8) {
    begin();
    {
        let mut b = B::new();
        let r = b.shape(param(0), param(1), param(2));
        let n = b.ch.len();
        let o = b.shape(param(3), param(4), param(5));
        let t = b.build(r, pick(3));
        let mut u = Some(b.build(o, pick(2)));
        let x = some(n);
        let y = if lens & LIVES != 0 { [1, n / 2, n - 1][pick(3)] } else { n - 1 };
        let mut root = Some(trees::RcNode::from(t));
        let hx = at_rc(root.as_ref().unwrap(), &b.path(r, x));
        let hy = at_rc(root.as_ref().unwrap(), &b.path(r, y));
        let wx = hx.downgrade();
        let wr = root.as_ref().unwrap().downgrade();
        match pick(6) {
            0 => {
                if x != r {
                    hx.detach();
                    b.detach(x);
                }
            }
            1 => {
                if x != r {
                    let k = b.index(x);
                    if any_bool() {
                        hx.insert_prev_sib(u.take().unwrap());
                        b.insert(b.par[x], k, o);
                    } else {
                        hx.insert_next_sib(u.take().unwrap());
                        b.insert(b.par[x], k + 1, o);
                    }
                }
            }
            2 => {
                let k = b.ch[x].len();
                if any_bool() {
                    hx.push_front(u.take().unwrap());
                    b.insert(x, 0, o);
                } else {
                    hx.push_back(u.take().unwrap());
                    b.insert(x, k, o);
                }
            }
            3 => {
                let front = any_bool();
                let mut k = if front { 0 } else { b.ch[x].len() };
                let f = u.as_mut().unwrap().abandon();
                if front {
                    hx.prepend(f);
                } else {
                    hx.append(f);
                }
                while b.ch[o].len() > 0 {
                    let c = b.ch[o][0];
                    b.detach(c);
                    b.insert(x, k, c);
                    k += 1;
                }
            }
            4 => {
                let front = any_bool();
                let g = if front { hx.pop_front() } else { hx.pop_back() };
                let d = b.ch[x].len();
                check(g.is_some() == (d > 0), "a removal yields a node although there is none, or the other way round");
                if let Some(g) = g {
                    let c = b.ch[x][if front { 0 } else { d - 1 }];
                    b.detach(c);
                    check_eq(g.data().id as u64, b.id[c] as u64, "the wrong child was popped");
                    check(g.is_root(), "a removed node still has a parent");
                }
            }
            _ => {
                let i = at_rc(root.as_ref().unwrap(), &b.path(r, x));
                drop(i);
            }
        }
        drop(u.take());
        if any_bool() {
            drop(root.take());
        }
        // every datum lives as long as a handle is on a node above it
        let mut held = vec![false; b.ch.len()];
        if root.is_some() {
            hold(&b, r, &mut held);
        }
        hold(&b, x, &mut held);
        hold(&b, y, &mut held);
        if lens & LIVES != 0 {
            for i in 0..n {
                check(alive(b.id[i]) == held[i], "a node does not live exactly as long as a handle or a parent keeps it");
            }
        }
        if lens & WEAK != 0 {
            check(wr.upgrade().is_some() == held[r], "upgrade of a weak handle is wrong");
            match wx.upgrade() {
                Some(h) => check_eq(h.data().id as u64, b.id[x] as u64, "upgrade yields the wrong node"),
                None => check(false, "a living node was not upgraded"),
            }
        }
        if lens & SHAPE != 0 {
            if let Some(h) = &root {
                same_rc(h, &b, r, &held);
            }
            same_rc(&hx, &b, x, &held);
            same_rc(&hy, &b, y, &held);
        }
        if any_bool() {
            drop(hx);
            if lens & WEAK != 0 {
                let mut held = vec![false; b.ch.len()];
                if root.is_some() {
                    hold(&b, r, &mut held);
                }
                hold(&b, y, &mut held);
                check(wx.upgrade().is_some() == held[x], "upgrade of a weak handle is wrong");
            }
            drop(hy);
        } else {
            drop(hy);
            if lens & SHAPE != 0 {
                same_rc(&hx, &b, x, &held);
            }
            drop(root.take());
            drop(hx);
        }
        if lens & WEAK != 0 && root.is_none() {
            check(wx.upgrade().is_none() && wr.upgrade().is_none(), "a dead node was upgraded");
        }
        cover("big handled");
    }
    end();
}
pub const LIVES: u8 = 1;
pub const WEAK: u8 = 2;
pub const SHAPE: u8 = 4;
fn hold(b: &B, i: usize, held: &mut Vec<bool>) {
    held[i] = true;
    for &c in b.ch[i].iter() {
        hold(b, c, held);
    }
}
fn same_rc(h: &trees::RcNode<Tok>, b: &B, i: usize, held: &Vec<bool>) -> usize {
    check_eq(h.data().id as u64, b.id[i] as u64, "wrong datum at a position");
    check_eq(h.data().v as u64, b.v[i] as u64, "a datum changed its value");
    let p = b.par[i];
    match h.parent() {
        Some(q) => check(p != NO && held[p] && q.data().id == b.id[p], "parent() is wrong"),
        None => check(p == NO || !held[p], "parent() of a child is None"),
    }
    let deg = b.ch[i].len();
    check_eq(h.degree() as u64, deg as u64, "degree is wrong");
    match h.front() {
        Some(c) => check(deg > 0 && c.data().id == b.id[b.ch[i][0]], "front() is wrong"),
        None => check(deg == 0, "front() of a branch is None"),
    }
    match h.back() {
        Some(c) => check(deg > 0 && c.data().id == b.id[b.ch[i][deg - 1]], "back() is wrong"),
        None => check(deg == 0, "back() of a branch is None"),
    }
    let mut total = 1;
    let mut it = h.iter_rc();
    let mut k = 0;
    while k < deg {
        match it.next() {
            Some(c) => total += same_rc(&c, b, b.ch[i][k], held),
            None => check(false, "a child is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra child is present");
    check_eq(h.node_count() as u64, total as u64, "node count is wrong");
    total
}
/// The fuse-th use of user code panics. params: shape (3)
pub fn panics() {
    begin();
    {
        let (b, r, mut t) = start();
        let n = b.ch.len();
        let fuse = some(n);
        match pick(5) {
            0 => {
                unsafe { FUSE = fuse }
                check(catch(|| drop(t.clone())), "harness: user code was not reached");
            }
            1 => {
                let u = t.clone();
                unsafe { FUSE = fuse }
                check(catch(|| check(t == u, "a tree is not equal to its copy")), "harness: user code was not reached");
            }
            2 => {
                let mut k = 0;
                let f = move |d: Tok| {
                    if k == fuse {
                        panic!("user code");
                    }
                    k += 1;
                    d
                };
                check(catch(|| drop(Tree::from(t.into_bfs().map(f)))), "a panic of user code was not passed on");
                t = Tree::new(Tok::new(0));
            }
            3 => {
                unsafe { DROP_FUSE = fuse }
                check(catch(|| drop(t)), "a panic of a destructor was not passed on");
                t = Tree::new(Tok::new(0));
            }
            _ => {
                let h = trees::RcNode::from(t);
                unsafe { FUSE = fuse }
                check(catch(|| drop(h.deep_clone())), "harness: user code was not reached");
                unsafe { FUSE = usize::MAX }
                check(!catch(|| h.data_mut().v ^= 0), "a borrow is left behind by a panic");
                t = unsafe { h.into_tree() };
            }
        }
        unsafe {
            FUSE = usize::MAX;
            DROP_FUSE = usize::MAX;
        }
        if t.degree() > 0 {
            verify_tree(&t, &b, r, ALL, false);
            drop(t);
            for i in 0..n {
                check(!alive(b.id[i]), "a datum of an untouched tree was never dropped");
            }
        }
        cover("big panicked");
    }
}
