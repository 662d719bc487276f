//! Shared ownership: a tree reached through counted handles, with its model.
//!
//! Model: a node lives as long as it has a strong handle or a parent.  When it
//! dies its children lose their parent.
use crate::model::*;
use crate::rt::*;
use trees::{Forest, IterRc, Node, RcNode, Tree, WeakNode};

pub const H: usize = 5;
pub const W: usize = 3;
pub const LIFE: u8 = 1;
pub const STRUCT: u8 = 2;
pub const WEAK: u8 = 4;

pub struct RcWorld {
    pub m: M,
    pub dead: [bool; MAXN],
    pub h: [Option<RcNode<Tok>>; H],
    pub hn: [u8; H],
    pub w: [Option<WeakNode<Tok>>; W],
    pub wn: [u8; W],
    pub it: Option<IterRc<Tok>>,
    /// the node the iterator visits next, and how many it still may visit
    pub itn: u8,
    pub itl: usize,
    /// something was changed or dropped
    pub touched: bool,
    /// a clone of it
    pub it2: Option<IterRc<Tok>>,
    pub it2n: u8,
    pub it2l: usize,
    pub lens: u8,
    /// a handle that the harness holds besides
    pub held: u8,
}
/// the node at the end of a path, through handles
pub fn at_rc(r: &RcNode<Tok>, p: &Path) -> RcNode<Tok> {
    let mut c = r.clone();
    let mut j = 0;
    while j < p.n {
        let mut it = c.iter_rc();
        let mut x = it.next();
        let mut k = p.k[j];
        while k > 0 {
            x = it.next();
            k -= 1;
        }
        match x {
            Some(x) => c = x,
            None => {
                check(false, "a node that should be there was not reachable");
                panic!()
            }
        }
        j += 1;
    }
    c
}
/// everything below a handle
pub fn same_rc(r: &RcNode<Tok>, m: &M, i: u8) {
    {
        let d = r.data();
        check_eq(d.id as u64, m.id[i as usize] as u64, "wrong datum at a position");
        check_eq(d.v as u64, m.v[i as usize] as u64, "a datum changed its value");
        observe(d.v as u64);
    }
    check_eq(r.degree() as u64, m.deg(i) as u64, "degree is wrong");
    check_eq(r.node_count() as u64, m.count(i) as u64, "node count is wrong");
    check(r.has_no_child() == (m.deg(i) == 0), "has_no_child is wrong");
    let ends = [(r.front(), 0), (r.back(), m.deg(i).wrapping_sub(1))];
    for (x, k) in ends {
        match x {
            Some(x) => {
                check(m.deg(i) > 0, "front() or back() of a leaf is not None");
                if m.deg(i) > 0 {
                    check_eq(x.data().id as u64, m.id[m.child(i, k) as usize] as u64, "front() or back() is wrong");
                }
            }
            None => check(m.deg(i) == 0, "front() or back() of a branch is None"),
        }
    }
    let mut it = r.iter_rc();
    let mut k = 0;
    while k < m.deg(i) {
        match it.next() {
            Some(c) => {
                match c.parent() {
                    Some(p) => check_eq(p.data().id as u64, m.id[i as usize] as u64, "parent() is wrong"),
                    None => check(false, "parent() of a child is None"),
                }
                check(!c.is_root(), "a child claims to be a root");
                same_rc(&c, m, m.child(i, k));
            }
            None => check(false, "a child is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra child is present");
}

impl RcWorld {
    /// one handle on the root, one more on any node
    pub fn new(n: usize, s: St, lens: u8, second: bool) -> RcWorld {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, n);
        fill(&mut m, r);
        let t = build(&mut m, r, s);
        let root = RcNode::from(t);
        let mut w = RcWorld {
            m,
            dead: [false; MAXN],
            h: [None, None, None, None, None],
            hn: [NONE; H],
            w: [None, None, None],
            wn: [NONE; W],
            it: None,
            itn: NONE,
            itl: 0,
            touched: false,
            it2: None,
            it2n: NONE,
            it2l: 0,
            lens,
            held: NONE,
        };
        if second {
            let l = m.preorder(r);
            let x = l.k[pick(l.n)];
            let p = m.path(r, x);
            w.h[1] = Some(at_rc(&root, &p));
            w.hn[1] = x;
        }
        w.h[0] = Some(root);
        w.hn[0] = r;
        w
    }
    pub fn hold(&mut self, x: u8) -> u8 {
        core::mem::replace(&mut self.held, x)
    }
    pub fn unhold(&mut self, before: u8) {
        self.held = before;
    }
    fn handles(&self, x: u8) -> usize {
        let mut n = (self.itn == x) as usize + (self.it2n == x) as usize + (self.held == x) as usize;
        let mut k = 0;
        while k < H {
            if self.hn[k] == x {
                n += 1;
            }
            k += 1;
        }
        n
    }
    /// let die what has neither a handle nor a parent
    pub fn gc(&mut self) {
        loop {
            let mut again = false;
            let mut i = 0;
            while i < self.m.n {
                let x = i as u8;
                if !self.dead[i] && self.m.parent(x) == NONE && self.handles(x) == 0 {
                    self.dead[i] = true;
                    while self.m.deg(x) > 0 {
                        let c = self.m.child(x, 0);
                        self.m.detach(c);
                    }
                    again = true;
                }
                i += 1;
            }
            if !again {
                break;
            }
        }
    }
    pub fn put(&mut self, r: Option<RcNode<Tok>>, x: u8) {
        match r {
            None => check(x == NONE, "an operation returned None although there is such a node"),
            Some(r) => {
                if x == NONE {
                    check(false, "an operation returned a node although there is none");
                    return;
                }
                let mut k = 0;
                while k + 1 < H && self.h[k].is_some() {
                    k += 1;
                }
                self.hn[k] = x;
                self.h[k] = Some(r); // the last slot's older handle is dropped here
            }
        }
    }
    pub fn put_weak(&mut self, r: WeakNode<Tok>, x: u8) {
        let mut k = 0;
        while k + 1 < W && self.w[k].is_some() {
            k += 1;
        }
        self.wn[k] = x;
        self.w[k] = Some(r);
    }
    /// index of a handle, or H
    pub fn any_handle(&self) -> usize {
        let mut l = [0; H];
        let mut n = 0;
        let mut k = 0;
        while k < H {
            if self.h[k].is_some() {
                l[n] = k;
                n += 1;
            }
            k += 1;
        }
        if n == 0 {
            H
        } else {
            l[pick(n)]
        }
    }
    pub fn fresh(&mut self) -> (Tree<Tok>, u8) {
        let v = any8();
        let x = Tok::new(v);
        let c = self.m.node(v);
        self.m.id[c as usize] = x.id;
        // dead until linked would confuse gc(); the caller links it at once
        let t = Tree::new(x);
        (if self.piled() { pile(t) } else { t }, c)
    }
    fn piled(&self) -> bool {
        // both storages occur without another choice
        self.m.n % 2 == 0
    }
    fn child_at(&self, x: u8, back: bool) -> u8 {
        let n = self.m.deg(x);
        if n == 0 {
            NONE
        } else {
            self.m.child(x, if back { n - 1 } else { 0 })
        }
    }
    // ------------------------------------------------ handle operations
    pub fn op_clone(&mut self) {
        let k = self.any_handle();
        if k < H {
            let r = self.h[k].as_ref().unwrap().clone();
            self.put(Some(r), self.hn[k]);
        }
    }
    pub fn op_drop(&mut self) {
        let k = self.any_handle();
        if k < H {
            self.touched = true;
            self.hn[k] = NONE;
            self.h[k] = None;
        }
    }
    pub fn op_nav(&mut self) {
        let k = self.any_handle();
        if k < H {
            let x = self.hn[k];
            let h = self.h[k].as_ref().unwrap();
            let (r, y) = match pick(3) {
                0 => (h.front(), self.child_at(x, false)),
                1 => (h.back(), self.child_at(x, true)),
                _ => (h.parent(), self.m.parent(x)),
            };
            self.put(r, y);
        }
    }
    pub fn op_downgrade(&mut self) {
        let k = self.any_handle();
        if k < H {
            let r = self.h[k].as_ref().unwrap().downgrade();
            self.put_weak(r, self.hn[k]);
        }
    }
    pub fn op_upgrade(&mut self) {
        let k = pick(W);
        if let Some(w) = &self.w[k] {
            let x = self.wn[k];
            let r = w.upgrade();
            if self.dead[x as usize] {
                check(r.is_none(), "a weak handle of a dead node was upgraded");
                cover("upgrade of a dead node");
            } else {
                if let Some(r) = &r {
                    check_eq(r.data().id as u64, self.m.id[x as usize] as u64, "a weak handle was upgraded to the wrong node");
                }
                self.put(r, x);
            }
        }
    }
    pub fn op_drop_weak(&mut self) {
        let k = pick(W);
        self.wn[k] = NONE;
        self.w[k] = None;
    }
    // ------------------------------------------------ structure
    pub fn op_struct(&mut self) {
        let k = self.any_handle();
        self.op_struct_at(k)
    }
    pub fn op_struct_at(&mut self, k: usize) {
        if k >= H {
            return;
        }
        self.touched = true;
        let x = self.hn[k];
        let h = self.h[k].as_ref().unwrap().clone();
        // the clone above is not in the model: it is dropped before gc()
        let has_parent = self.m.parent(x) != NONE;
        match pick(if has_parent { 11 } else { 8 }) {
            0 => {
                let (t, c) = self.fresh();
                h.push_front(t);
                self.m.insert(x, 0, c);
            }
            1 => {
                let (t, c) = self.fresh();
                h.push_back(t);
                self.m.push_back(x, c);
            }
            2 | 3 => {
                let back = any_bool();
                let r = if back { h.pop_back() } else { h.pop_front() };
                let c = self.child_at(x, back);
                if c != NONE {
                    self.m.detach(c);
                }
                if any_bool() {
                    drop(r);
                } else {
                    self.put(r, c);
                }
            }
            4 | 5 => {
                let back = any_bool();
                let (t, c) = self.fresh();
                let (u, d) = self.fresh();
                let mut f = Forest::new();
                f.push_back(t);
                f.push_back(u);
                let pos = if back { self.m.deg(x) } else { 0 };
                if back {
                    h.append(f);
                } else {
                    h.prepend(f);
                }
                self.m.insert(x, pos, c);
                self.m.insert(x, pos + 1, d);
            }
            6 => {
                let (t, c) = self.fresh();
                let (u, d) = self.fresh();
                let mut e = h.clone();
                e.extend([t, u]);
                self.m.push_back(x, c);
                self.m.push_back(x, d);
            }
            7 => {
                let v = any8();
                h.data_mut().v = v;
                self.m.v[x as usize] = v;
            }
            8 => {
                h.detach();
                self.m.detach(x);
            }
            9 => {
                let (t, c) = self.fresh();
                h.insert_prev_sib(t);
                let (p, i) = (self.m.parent(x), self.m.index(x));
                self.m.insert(p, i, c);
            }
            _ => {
                let (t, c) = self.fresh();
                h.insert_next_sib(t);
                let (p, i) = (self.m.parent(x), self.m.index(x));
                self.m.insert(p, i + 1, c);
            }
        }
    }
    fn top(&self, x: u8) -> u8 {
        let mut x = x;
        while self.m.parent(x) != NONE {
            x = self.m.parent(x);
        }
        x
    }
    /// A root with one handle goes, with all that is below it and is being held,
    /// to another handle's tree. False if there is none.
    pub fn op_move(&mut self) -> bool {
        let mut l = [(0, 0); H * H];
        let mut n = 0;
        let mut k = 0;
        while k < H {
            let x = self.hn[k];
            if self.h[k].is_some() && self.m.parent(x) == NONE && self.handles(x) == 1 {
                let mut j = 0;
                while j < H {
                    if self.h[j].is_some() && self.top(self.hn[j]) != x {
                        l[n] = (k, j);
                        n += 1;
                    }
                    j += 1;
                }
            }
            k += 1;
        }
        if n == 0 {
            return false;
        }
        self.touched = true;
        let (k, j) = l[pick(n)];
        let (x, y) = (self.hn[k], self.hn[j]);
        let h = self.h[k].take().unwrap();
        self.hn[k] = NONE;
        let t = unsafe { h.into_tree() };
        check_eq(t.node_count() as u64, self.m.count(x) as u64, "node count is wrong");
        let d = self.h[j].as_ref().unwrap();
        let p = self.m.parent(y);
        match pick(if p == NONE { 4 } else { 6 }) {
            0 => {
                d.push_front(t);
                self.m.insert(y, 0, x);
            }
            1 => {
                d.push_back(t);
                self.m.push_back(y, x);
            }
            o @ (2 | 3) => {
                let mut f = Forest::new();
                f.push_back(t);
                if any_bool() {
                    let v = any8();
                    let q = Tok::new(v);
                    let c = self.m.node(v);
                    self.m.id[c as usize] = q.id;
                    f.push_front(Tree::new(q));
                    if o == 2 {
                        d.prepend(f);
                        self.m.insert(y, 0, c);
                        self.m.insert(y, 1, x);
                    } else {
                        d.append(f);
                        self.m.push_back(y, c);
                        self.m.push_back(y, x);
                    }
                } else if o == 2 {
                    d.prepend(f);
                    self.m.insert(y, 0, x);
                } else {
                    d.append(f);
                    self.m.push_back(y, x);
                }
            }
            4 => {
                d.insert_prev_sib(t);
                let i = self.m.index(y);
                self.m.insert(p, i, x);
            }
            _ => {
                d.insert_next_sib(t);
                let i = self.m.index(y);
                self.m.insert(p, i + 1, x);
            }
        }
        cover("moved while held");
        true
    }
    pub fn op_deep_clone(&mut self) {
        let k = self.any_handle();
        self.op_deep_clone_at(k)
    }
    pub fn op_deep_clone_at(&mut self, k: usize) {
        if k >= H {
            return;
        }
        let x = self.hn[k];
        let t = self.h[k].as_ref().unwrap().deep_clone();
        let c = self.m.copy(x);
        let mut l = self.m.preorder(c);
        adopt(t.root(), &mut self.m, &mut l, 0);
        self.put(Some(RcNode::from(t)), c);
    }
    // ------------------------------------------------ iteration
    pub fn op_iter(&mut self) {
        if self.it.is_none() || any_bool() {
            let k = self.any_handle();
            if k < H {
                let x = self.hn[k];
                let it = self.h[k].as_ref().unwrap().iter_rc();
                self.itl = self.m.deg(x);
                self.itn = self.child_at(x, false);
                self.it = Some(it);
            }
        } else {
            self.op_next();
        }
    }
    /// clone the iterator, and keep both or one of them
    pub fn op_clone_iter(&mut self) {
        if let Some(it) = &self.it {
            let two = it.clone();
            self.it2 = Some(two);
            self.it2n = self.itn;
            self.it2l = self.itl;
            match pick(3) {
                0 => {
                    self.swap_iter();
                    self.it2 = None;
                    self.it2n = NONE;
                    self.it2l = 0;
                    cover("a cloned iterator outlives its original");
                }
                1 => self.swap_iter(),
                _ => {}
            }
        }
    }
    pub fn swap_iter(&mut self) {
        core::mem::swap(&mut self.it, &mut self.it2);
        core::mem::swap(&mut self.itn, &mut self.it2n);
        core::mem::swap(&mut self.itl, &mut self.it2l);
    }
    pub fn op_next(&mut self) {
        if let Some(it) = &mut self.it {
            let x = self.itn;
            let r = it.next();
            if x == NONE {
                check(r.is_none(), "an iterator goes on after its end");
                check(it.size_hint() == (0, Some(0)), "an ended iterator claims that something is left");
                return;
            }
            self.itl -= 1;
            self.itn = NONE;
            let p = self.m.parent(x);
            if self.itl > 0 && p != NONE {
                let k = self.m.index(x) + 1;
                if k < self.m.deg(p) {
                    self.itn = self.m.child(p, k);
                }
            }
            let (lo, hi) = it.size_hint();
            if !self.touched {
                check(lo == self.itl && hi == Some(self.itl), "iter_rc announces a wrong number of nodes");
            } else if self.itn != NONE {
                check(hi.map_or(true, |hi| hi > 0), "iter_rc announces its end too early");
            }
            if let Some(r) = &r {
                check_eq(r.data().id as u64, self.m.id[x as usize] as u64, "iter_rc visits the wrong node");
            }
            self.put(r, x);
        }
    }
    // ------------------------------------------------ checks
    pub fn verify(&self) {
        let m = &self.m;
        if self.lens & LIFE != 0 {
            let mut i = 0;
            while i < m.n {
                check_eq(alive(m.id[i]) as u64, !self.dead[i] as u64, "a node does not live exactly as long as a handle or a parent keeps it");
                i += 1;
            }
        }
        let mut k = 0;
        while k < H {
            if let Some(r) = &self.h[k] {
                let x = self.hn[k];
                check_eq(r.data().id as u64, m.id[x as usize] as u64, "a handle leads to the wrong node");
                if self.lens & STRUCT != 0 {
                    let p = m.parent(x);
                    check(r.is_root() == (p == NONE), "is_root() is wrong");
                    match r.parent() {
                        Some(q) => {
                            check(p != NONE, "parent() of a root is not None");
                            if p != NONE {
                                check_eq(q.data().id as u64, m.id[p as usize] as u64, "parent() is wrong");
                            }
                        }
                        None => check(p == NONE, "parent() of a child is None"),
                    }
                    // a subtree that another handle's subtree contains is checked there
                    if p == NONE {
                        same_rc(r, m, x);
                    }
                }
            }
            k += 1;
        }
        if self.lens & WEAK != 0 {
            k = 0;
            while k < W {
                if let Some(w) = &self.w[k] {
                    let x = self.wn[k] as usize;
                    match w.upgrade() {
                        Some(r) => {
                            check(!self.dead[x], "a weak handle of a dead node was upgraded");
                            check_eq(r.data().id as u64, m.id[x] as u64, "a weak handle was upgraded to the wrong node");
                        }
                        None => check(self.dead[x], "a weak handle of a live node was not upgraded"),
                    }
                }
                k += 1;
            }
        }
    }
    /// drop all handles, first to last or last to first
    pub fn finish(self) {
        let (rev, weak_first) = (any_bool(), any_bool());
        self.finish_in(rev, weak_first)
    }
    pub fn finish_in(mut self, rev: bool, weak_first: bool) {
        if weak_first {
            self.w = [None, None, None];
            self.wn = [NONE; W];
        }
        let mut k = 0;
        while k < H {
            let j = if rev { H - 1 - k } else { k };
            if self.h[j].is_some() {
                self.hn[j] = NONE;
                self.h[j] = None;
                self.gc();
                self.verify();
            }
            k += 1;
        }
        self.it = None;
        self.itn = NONE;
        self.gc();
        self.verify();
        self.it2 = None;
        self.it2n = NONE;
        self.gc();
        self.verify();
        let mut i = 0;
        while i < self.m.n {
            check(self.dead[i], "harness: a node survives all handles");
            i += 1;
        }
        cover("all handles dropped");
    }
}
pub fn adopt(n: &Node<Tok>, m: &mut M, l: &mut List, k: usize) -> usize {
    check(k < l.n, "a copy has too many nodes");
    let c = l.k[k];
    let id = n.data().id;
    check_eq(unsafe { ORIGIN[id as usize] } as u64, m.id[c as usize] as u64, "wrong datum at a position of a copy");
    m.id[c as usize] = id;
    let mut j = k + 1;
    for x in n.iter() {
        j = adopt(x, m, l, j);
    }
    j
}

/// Very many handles on one node, strong, weak or both; none is lost count of.
/// params: handles
pub fn handles() {
    begin();
    {
        let n = param(0);
        let mut t = Tree::new(Tok::new(any8()));
        t.push_back(Tree::new(Tok::new(any8())));
        t.push_back(Tree::new(Tok::new(any8())));
        let t = if any_bool() { pile(t) } else { t };
        let root = RcNode::from(t);
        let on_root = any_bool();
        // keep none but these on the node
        let (first, rest) = if on_root { (root, None) } else { (root.front().unwrap(), Some(root)) };
        let id = first.data().id;
        let kind = pick(3);
        let mut strong: Vec<RcNode<Tok>> = Vec::new();
        let mut weak: Vec<WeakNode<Tok>> = Vec::new();
        let mut k = 0;
        while k < n {
            if kind != 1 {
                strong.push(if k % 2 == 0 || strong.is_empty() { first.clone() } else { strong[k / 2].clone() });
            }
            if kind != 0 {
                weak.push(first.downgrade());
            }
            k += 1;
        }
        drop(rest);
        check(alive(id), "a node with handles died");
        if let Some(w) = weak.last() {
            check(w.upgrade().is_some(), "a weak handle of a live node was not upgraded");
        }
        drop(first);
        let newest_first = any_bool();
        let weak_first = any_bool();
        if weak_first {
            weak.truncate(1);
        }
        k = strong.len();
        while k > 0 {
            check(alive(id), "a node with handles died");
            if newest_first {
                drop(strong.pop());
            } else {
                drop(strong.swap_remove(0));
            }
            k -= 1;
        }
        check(!alive(id), "a node outlived its last handle");
        k = weak.len();
        while k > 0 {
            // near the ends and the edges of small integer types
            if k < 3 || k + 3 > n || k % 128 < 2 {
                check(weak[k - 1].upgrade().is_none(), "a weak handle of a dead node was upgraded");
            }
            drop(weak.pop());
            k -= 1;
        }
        cover("many handles dropped");
    }
    end();
}

/// A node inside is taken out and moved elsewhere while it, what is below it
/// and what it came from are held. params: nodes (up to), operations after that
pub fn moves(lens: u8) {
    begin();
    {
        let mut w = RcWorld::new(param(0), st(pick(3)), lens, true);
        let (r, x) = (w.hn[0], w.hn[1]);
        if x == r {
            return;
        }
        // one more handle on any node
        let l = w.m.preorder(r);
        let y = l.k[pick(l.n)];
        let h = at_rc(w.h[0].as_ref().unwrap(), &w.m.path(r, y));
        if lens & WEAK != 0 {
            w.w[0] = Some(w.h[1].as_ref().unwrap().downgrade());
            w.wn[0] = x;
            w.w[1] = Some(h.downgrade());
            w.wn[1] = y;
            if y == x && any_bool() {
                w.w[2] = Some(w.h[0].as_ref().unwrap().downgrade());
                w.wn[2] = r;
            }
        }
        if y != x {
            w.h[2] = Some(h);
            w.hn[2] = y;
        } else {
            drop(h);
        }
        w.h[1].as_ref().unwrap().detach();
        w.m.detach(x);
        w.verify();
        if !w.op_move() {
            return;
        }
        w.gc();
        w.verify();
        let mut k = 0;
        while k < param(1) {
            match pick(5) {
                0 => w.op_drop(),
                1 => w.op_nav(),
                2 => {
                    if lens & WEAK != 0 {
                        w.op_upgrade()
                    } else {
                        w.op_deep_clone()
                    }
                }
                3 => {
                    if !w.op_move() {
                        return;
                    }
                }
                _ => w.op_struct(),
            }
            w.gc();
            w.verify();
            k += 1;
        }
        w.finish();
        cover("moves complete");
    }
    end();
}
