//! A small world of trees, and one step of a mutation history in it.
use crate::model::*;
use crate::rt::*;
use std::pin::Pin;
use trees::{Forest, Node, Tree};

/// The world of a mutation history: one tree, one forest, one spare tree.
pub struct World {
    pub m: M,
    pub t: Option<Tree<Tok>>,
    pub rt: u8,
    pub f: Option<Forest<Tok>>,
    pub rf: u8,
    pub spare: Option<Tree<Tok>>,
    pub rs: u8,
    /// which aspects to check
    pub lens: u8,
    /// operands are trees of four nodes (else of one)
    pub big: bool,
    /// where each model node was first seen in memory (0: not seen yet)
    pub addr: [u64; MAXN],
}
pub const ORDER: u8 = 1;
pub const SIZE: u8 = 2;
pub const LINKS: u8 = 4;
pub const OWN: u8 = 8;
pub const ADDR: u8 = 16;
impl World {
    pub fn new(n: usize, nf: usize, s: St, lens: u8) -> World {
        let mut m = M::new();
        let rt = any_shape_upto(&mut m, n);
        fill(&mut m, rt);
        let t = build(&mut m, rt, s);
        let rf = if nf == 0 { m.node(0) } else { any_forest_upto(&mut m, nf) };
        fill(&mut m, rf);
        let f = build_forest(&mut m, rf, s);
        World { m, t: Some(t), rt, f: Some(f), rf, spare: None, rs: NONE, lens, big: param(3) == 1, addr: [0; MAXN] }
    }
    /// a world with this tree alone
    pub fn of(mut m: M, t: Tree<Tok>, rt: u8, lens: u8) -> World {
        let rf = m.node(0);
        World { m, t: Some(t), rt, f: Some(Forest::new()), rf, spare: None, rs: NONE, lens, big: false, addr: [0; MAXN] }
    }
    fn fresh(&mut self) -> (Tree<Tok>, u8) {
        // the spare tree if there is one, else a new node
        if let Some(t) = self.spare.take() {
            let r = self.rs;
            self.rs = NONE;
            return (t, r);
        }
        if self.big {
            // a( b( c ) d )
            let k = self.m.node(any8());
            let b = self.m.node(any8());
            let c = self.m.node(any8());
            let d = self.m.node(any8());
            self.m.push_back(k, b);
            self.m.push_back(b, c);
            self.m.push_back(k, d);
            let t = build_scattered(&mut self.m, k);
            return (if k % 8 < 4 { pile(t) } else { t }, k);
        }
        self.leaf()
    }
    fn leaf(&mut self) -> (Tree<Tok>, u8) {
        let v = any8();
        let k = self.m.node(v);
        let d = Tok::new(v);
        self.m.id[k as usize] = d.id;
        (Tree::new(d), k)
    }
    /// Make the tree, the spare tree or the forest's first tree a child of a
    /// new tree and give it siblings there or take it out again: whatever it
    /// went through before must not show.
    pub fn probe(&mut self) {
        let had_spare = self.spare.is_some();
        let (x, c) = match pick(3) {
            0 if had_spare => {
                let x = self.spare.take().unwrap();
                (x, std::mem::replace(&mut self.rs, NONE))
            }
            1 => {
                let x = self.f.as_mut().unwrap().pop_front();
                let c = self.m_pop(self.rf, true);
                match x {
                    Some(x) => (x, c),
                    None => {
                        check(c == NONE, "an operation returned None although there was something to return");
                        return;
                    }
                }
            }
            0 => return,
            _ => {
                // the world's tree is replaced by the one it becomes a part of
                (self.t.take().unwrap(), self.rt)
            }
        };
        let (mut p, r) = self.leaf();
        match pick(4) {
            0 => {
                p.push_back(x);
                self.m.push_back(r, c);
            }
            1 => {
                let (y, d) = self.leaf();
                p.push_back(y);
                self.m.push_back(r, d);
                p.push_front(x);
                self.m.insert(r, 0, c);
            }
            2 => {
                let (y, d) = self.leaf();
                p.push_back(y);
                self.m.push_back(r, d);
                p.push_back(x);
                self.m.push_back(r, c);
            }
            _ => {
                let (y, d) = self.leaf();
                let (z, e) = self.leaf();
                p.push_back(y);
                self.m.push_back(r, d);
                p.push_back(z);
                self.m.push_back(r, e);
                match p.front_mut() {
                    Some(mut y) => y.insert_next_sib(x),
                    None => check(false, "a child that should be there was not reachable"),
                }
                self.m.insert(r, 1, c);
            }
        }
        // the old tree (if that is still there) is dropped here
        self.t = Some(p);
        self.rt = r;
        self.verify();
        let k = self.m.index(c);
        let (y, d) = self.leaf();
        let mut p = self.t.take().unwrap();
        let mut got = None;
        let op = pick(3);
        match p.iter_mut().nth(k) {
            Some(mut x) => match op {
                0 => x.insert_prev_sib(y),
                1 => x.insert_next_sib(y),
                _ => {
                    drop(y);
                    got = Some(x.detach())
                }
            },
            None => check(false, "a child that should be there was not reachable"),
        }
        self.t = Some(p);
        match op {
            0 => self.m.insert(r, k, d),
            1 => self.m.insert(r, k + 1, d),
            _ => {
                self.m.detach(c);
                self.keep(got, c);
            }
        }
        self.verify();
        cover("put into another tree");
    }
    fn keep(&mut self, t: Option<Tree<Tok>>, c: u8) {
        match t {
            Some(t) => {
                if c == NONE {
                    check(false, "an operation returned a tree although there was nothing to return");
                    return;
                }
                if self.lens & ORDER != 0 {
                    same(t.root(), &self.m, c);
                }
                self.spare = Some(t); // an older spare is dropped here
                self.rs = c;
            }
            None => check(c == NONE, "an operation returned None although there was something to return"),
        }
    }
    /// every datum is alive exactly if it is in one of the world's trees
    pub fn own(&self) {
        let mut here = [false; MAXTOK];
        if self.t.is_some() {
            self.mark(self.rt, &mut here);
        }
        if self.f.is_some() {
            let mut k = 0;
            while k < self.m.deg(self.rf) {
                self.mark(self.m.child(self.rf, k), &mut here);
                k += 1;
            }
        }
        if self.spare.is_some() {
            self.mark(self.rs, &mut here);
        }
        let mut i = 0;
        while i < unsafe { NEXT } {
            check_eq(alive(i as u16) as u64, here[i] as u64, "a datum is not alive exactly while it is in a tree");
            i += 1;
        }
    }
    fn mark(&self, i: u8, here: &mut [bool; MAXTOK]) {
        here[self.m.id[i as usize] as usize] = true;
        let mut k = 0;
        while k < self.m.deg(i) {
            self.mark(self.m.child(i, k), here);
            k += 1;
        }
    }
    fn addrs(&mut self, node: &Node<Tok>, i: u8) {
        let a = node as *const Node<Tok> as u64;
        if self.addr[i as usize] == 0 {
            self.addr[i as usize] = a;
        } else {
            check_eq(a, self.addr[i as usize], "a node has moved in memory");
        }
        let mut it = node.iter();
        let mut k = 0;
        while k < self.m.deg(i) {
            match it.next() {
                Some(c) => {
                    let c = unsafe { &*(c as *const Node<Tok>) };
                    let j = self.m.child(i, k);
                    self.addrs(c, j)
                }
                None => check(false, "a child is missing"),
            }
            k += 1;
        }
    }
    fn all_addrs(&mut self) {
        let t = self.t.take();
        if let Some(t) = &t {
            let r = self.rt;
            self.addrs(t.root(), r);
        }
        self.t = t;
        let f = self.f.take();
        if let Some(f) = &f {
            let mut it = f.iter();
            let mut k = 0;
            while k < self.m.deg(self.rf) {
                match it.next() {
                    Some(c) => {
                        let j = self.m.child(self.rf, k);
                        self.addrs(c, j)
                    }
                    None => check(false, "a tree of the forest is missing"),
                }
                k += 1;
            }
        }
        self.f = f;
        let s = self.spare.take();
        if let Some(s) = &s {
            let r = self.rs;
            self.addrs(s.root(), r);
        }
        self.spare = s;
    }
    pub fn verify(&mut self) {
        if self.lens & ADDR != 0 {
            self.all_addrs();
        }
        if self.lens & OWN != 0 {
            self.own();
        }
        let m = &self.m;
        if let Some(t) = &self.t {
            if self.lens & ORDER != 0 {
                same(t.root(), m, self.rt);
            }
            if self.lens & SIZE != 0 {
                sizes(t.root(), m, self.rt);
            }
            if self.lens & LINKS != 0 {
                links_tree(t, m, self.rt);
            }
        }
        if let Some(f) = &self.f {
            if self.lens & ORDER != 0 {
                same_forest(f, m, self.rf);
            }
            if self.lens & SIZE != 0 {
                sizes_forest(f, m, self.rf);
            }
            if self.lens & LINKS != 0 {
                links_forest(f, m, self.rf);
            }
        }
        if let Some(t) = &self.spare {
            if self.lens & ORDER != 0 {
                same(t.root(), m, self.rs);
            }
            if self.lens & SIZE != 0 {
                sizes(t.root(), m, self.rs);
            }
            if self.lens & LINKS != 0 {
                links_tree(t, m, self.rs);
            }
        }
    }
    /// operations on the tree's root through `Tree`
    pub fn op_tree(&mut self) {
        let r = self.rt;
        let mut t = self.t.take().unwrap();
        match pick(7) {
            0 => {
                let (x, c) = self.fresh();
                t.push_front(x);
                self.m.insert(r, 0, c);
            }
            1 => {
                let (x, c) = self.fresh();
                t.push_back(x);
                self.m.push_back(r, c);
            }
            2 => {
                let x = t.pop_front();
                let c = self.m_pop(r, true);
                self.keep(x, c);
            }
            3 => {
                let x = t.pop_back();
                let c = self.m_pop(r, false);
                self.keep(x, c);
            }
            4 => {
                let f = self.f.take().unwrap();
                t.prepend(f);
                self.m_splice(r, true);
                self.f = Some(Forest::new());
            }
            5 => {
                let f = self.f.take().unwrap();
                t.append(f);
                self.m_splice(r, false);
                self.f = Some(Forest::new());
            }
            _ => {
                let f = t.abandon();
                self.addr[r as usize] = 0; // abandon moves the root's data into a new node
                // the children become the forest (the old forest is dropped)
                let nr = self.m.node(0);
                while self.m.deg(r) > 0 {
                    let c = self.m.child(r, 0);
                    self.m.detach(c);
                    self.m.push_back(nr, c);
                }
                self.rf = nr;
                self.f = Some(f);
            }
        }
        self.t = Some(t);
    }
    fn m_pop(&mut self, r: u8, front: bool) -> u8 {
        let n = self.m.deg(r);
        if n == 0 {
            return NONE;
        }
        let c = self.m.child(r, if front { 0 } else { n - 1 });
        self.m.detach(c);
        c
    }
    fn m_splice(&mut self, r: u8, front: bool) {
        let mut pos = if front { 0 } else { self.m.deg(r) };
        while self.m.deg(self.rf) > 0 {
            let c = self.m.child(self.rf, 0);
            self.m.detach(c);
            self.m.insert(r, pos, c);
            pos += 1;
        }
    }
    /// operations on the forest through `Forest`
    pub fn op_forest(&mut self) {
        let r = self.rf;
        let mut f = self.f.take().unwrap();
        match pick(6) {
            0 => {
                let (x, c) = self.fresh();
                f.push_front(x);
                self.m.insert(r, 0, c);
            }
            1 => {
                let (x, c) = self.fresh();
                f.push_back(x);
                self.m.push_back(r, c);
            }
            2 => {
                let x = f.pop_front();
                let c = self.m_pop(r, true);
                self.keep(x, c);
            }
            3 => {
                let x = f.pop_back();
                let c = self.m_pop(r, false);
                self.keep(x, c);
            }
            k => {
                // a second forest of up to two trees
                let cnt = pick(3);
                let mut g = Forest::new();
                let mut cs = [0u8; 2];
                let mut j = 0;
                while j < cnt {
                    let (x, c) = self.fresh();
                    g.push_back(x);
                    cs[j] = c;
                    j += 1;
                }
                let mut pos = if k == 4 { 0 } else { self.m.deg(r) };
                if k == 4 {
                    f.prepend(g);
                } else {
                    f.append(g);
                }
                j = 0;
                while j < cnt {
                    self.m.insert(r, pos, cs[j]);
                    pos += 1;
                    j += 1;
                }
            }
        }
        self.f = Some(f);
    }
    /// operations on a node of the tree, or of the forest, through `Node`
    pub fn op_node(&mut self, in_forest: bool) {
        let root = if in_forest { self.rf } else { self.rt };
        let l = self.m.preorder(root);
        // any node; the virtual root of a forest is not one
        let lo = if in_forest { 1 } else { 0 };
        if l.n <= lo {
            return;
        }
        let x = l.k[lo + pick(l.n - lo)];
        let path = self.m.path(root, x);
        let mut t = self.t.take().unwrap();
        let mut f = self.f.take().unwrap();
        let is_root = self.m.parent(x) == NONE;
        let op = pick(if is_root { 6 } else { 9 });
        // operands first
        let mut piece = None;
        let mut pc = NONE;
        let mut forest = None;
        match op {
            0 | 1 | 6 | 7 => {
                let (a, c) = self.fresh();
                piece = Some(a);
                pc = c;
            }
            4 | 5 => {
                if in_forest {
                    // a forest made of one new tree
                    let (a, c) = self.fresh();
                    let mut g = Forest::new();
                    g.push_back(a);
                    forest = Some(g);
                    pc = c;
                } else {
                    forest = Some(std::mem::replace(&mut f, Forest::new()));
                }
            }
            _ => {}
        }
        let mut got = None;
        {
            let mut node: Pin<&mut Node<Tok>> = if in_forest { at_forest_mut(&mut f, &path) } else { at_mut(t.root_mut(), &path) };
            match op {
                0 => node.push_front(piece.take().unwrap()),
                1 => node.push_back(piece.take().unwrap()),
                2 => got = node.pop_front(),
                3 => got = node.pop_back(),
                4 => node.prepend(forest.take().unwrap()),
                5 => node.append(forest.take().unwrap()),
                6 => node.insert_prev_sib(piece.take().unwrap()),
                7 => node.insert_next_sib(piece.take().unwrap()),
                _ => got = Some(node.detach()),
            }
        }
        self.t = Some(t);
        self.f = Some(f);
        match op {
            0 => self.m.insert(x, 0, pc),
            1 => self.m.push_back(x, pc),
            2 => {
                let c = self.m_pop(x, true);
                self.keep(got, c);
            }
            3 => {
                let c = self.m_pop(x, false);
                self.keep(got, c);
            }
            4 | 5 => {
                if in_forest {
                    let pos = if op == 4 { 0 } else { self.m.deg(x) };
                    self.m.insert(x, pos, pc);
                } else {
                    self.m_splice(x, op == 4);
                }
            }
            6 => {
                let (p, k) = (self.m.parent(x), self.m.index(x));
                self.m.insert(p, k, pc);
            }
            7 => {
                let (p, k) = (self.m.parent(x), self.m.index(x));
                self.m.insert(p, k + 1, pc);
            }
            _ => {
                self.m.detach(x);
                self.keep(got, x);
            }
        }
    }
    pub fn step(&mut self) {
        match pick(4) {
            0 => self.op_tree(),
            1 => self.op_forest(),
            2 => self.op_node(false),
            _ => self.op_node(true),
        }
    }
    /// take everything apart from either end, checking each piece
    pub fn finish(mut self) {
        let back = any_bool();
        let t = self.t.take().unwrap();
        drain(t, &mut self.m, self.rt, back);
        let f = self.f.take().unwrap();
        drain_forest(f, &mut self.m, self.rf, back);
        if let Some(s) = self.spare.take() {
            drain(s, &mut self.m, self.rs, back);
        }
    }
}
