//! Jumps of a depth-first cursor.
use crate::model::*;
use crate::rt::*;
use crate::walks::*;
use trees::{Forest, ForestWalk, Tree, TreeWalk};

#[derive(Clone, Copy)]
enum Pos {
    /// on a node; true after its children
    On(u8, bool),
    /// past the last child of this node (NONE: past the last tree)
    Past(u8),
    Done,
}
struct Cur<'a> {
    m: &'a M,
    pos: Pos,
    /// virtual root of a forest, or NONE
    fr: u8,
    /// first node, or NONE in an empty forest
    first: u8,
}
impl<'a> Cur<'a> {
    fn up(&self, i: u8) -> u8 {
        let p = self.m.parent(i);
        if p == self.fr {
            NONE
        } else {
            p
        }
    }
    fn now(&self) -> Option<(u8, bool)> {
        match self.pos {
            Pos::On(i, e) => Some((i, e)),
            _ => None,
        }
    }
    /// the k-th next sibling
    fn sib(&self, i: u8, k: usize) -> u8 {
        let p = self.m.parent(i);
        if p == NONE {
            return if k == 0 { i } else { NONE };
        }
        let j = self.m.index(i) + k;
        if j < self.m.deg(p) {
            self.m.child(p, j)
        } else {
            NONE
        }
    }
    fn end_of(&self, p: u8) -> Pos {
        if p == NONE {
            Pos::Done
        } else {
            Pos::On(p, true)
        }
    }
    fn forward(&mut self) {
        self.pos = match self.pos {
            Pos::On(i, false) if self.m.deg(i) > 0 => Pos::On(self.m.child(i, 0), false),
            Pos::On(i, _) => {
                let s = self.sib(i, 1);
                if s != NONE {
                    Pos::On(s, false)
                } else {
                    self.end_of(self.up(i))
                }
            }
            Pos::Past(p) => self.end_of(p),
            Pos::Done => Pos::Done,
        }
    }
    fn parent(&self) -> u8 {
        match self.pos {
            Pos::On(i, _) => self.up(i),
            Pos::Past(p) => p,
            Pos::Done => NONE,
        }
    }
    fn to_parent(&mut self) {
        self.pos = self.end_of(self.parent())
    }
    fn to_sib(&mut self, n: usize) {
        if let Pos::On(i, _) = self.pos {
            let s = self.sib(i, n);
            self.pos = if s != NONE { Pos::On(s, false) } else { Pos::Past(self.up(i)) };
        }
    }
    /// false: nothing happened
    fn to_child(&mut self, n: usize) -> bool {
        match self.pos {
            Pos::On(i, _) => {
                let d = self.m.deg(i);
                if d == 0 {
                    return false;
                }
                self.pos = if n < d { Pos::On(self.m.child(i, n), false) } else { Pos::Past(i) };
                true
            }
            _ => false,
        }
    }
    fn revisit(&mut self) {
        self.pos = match self.pos {
            Pos::On(i, _) => Pos::On(i, false),
            Pos::Done if self.first != NONE => Pos::On(self.first, false),
            p => p,
        }
    }
}
fn drive<W: Walk>(w: &mut W, c: &mut Cur, steps: usize) {
    let m = c.m;
    expect(w.get(), m, c.now());
    let mut k = 0;
    while k < steps {
        match pick(6) {
            0 => {
                w.forward();
                c.forward();
            }
            1 => {
                c.forward();
                let want = c.now();
                expect(w.next(), m, want);
            }
            2 => {
                c.to_parent();
                let want = c.now();
                expect(w.to_parent(), m, want);
            }
            3 => {
                let n = pick(param(2));
                c.to_sib(n);
                let want = c.now();
                expect(w.to_sib(n), m, want);
                if let Pos::Past(_) = c.pos {
                    cover("jumped past the last sibling");
                }
            }
            4 => {
                let n = pick(param(2));
                let moved = c.to_child(n);
                let want = if moved { c.now() } else { None };
                expect(w.to_child(n), m, want);
            }
            _ => {
                w.revisit();
                c.revisit();
            }
        }
        expect(w.get(), m, c.now());
        let p = c.parent();
        let want = if p == NONE { u32::MAX } else { m.id[p as usize] as u32 };
        check_eq(parent_id(w.get_parent()) as u64, want as u64, "get_parent() is wrong");
        k += 1;
    }
    // and on to the end
    let mut left = 2 * m.n + 2;
    loop {
        let done = matches!(c.pos, Pos::Done);
        c.forward();
        let want = c.now();
        expect(w.next(), m, want);
        if done {
            break;
        }
        left -= 1;
        check(left > 0, "a walk does not end");
    }
    cover("walked to the end");
}
/// params: nodes (up to), jumps, range of jump distances
fn tree() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let t = build(&mut m, r, st(pick(2)));
        let mut w = TreeWalk::from(t);
        let mut c = Cur { m: &m, pos: Pos::On(r, false), fr: NONE, first: r };
        drive(&mut w, &mut c, param(1));
        let t = Tree::from(w);
        same(t.root(), &m, r);
    }
    end();
}
fn forest() {
    begin();
    {
        let mut m = M::new();
        let r = any_forest_upto(&mut m, param(0));
        fill(&mut m, r);
        let f = build_forest(&mut m, r, st(pick(2)));
        let mut w = ForestWalk::from(f);
        let first = if m.deg(r) == 0 { NONE } else { m.child(r, 0) };
        let pos = if first == NONE { Pos::Done } else { Pos::On(first, false) };
        let mut c = Cur { m: &m, pos, fr: r, first };
        drive(&mut w, &mut c, param(1));
        let f = Forest::from(w);
        same_forest(&f, &m, r);
    }
    end();
}
/// A wide node: jumps to any child and on to any sibling. params: children, -, -
fn wide() {
    begin();
    {
        let n = param(0);
        let is_forest = any_bool();
        let mut f = Forest::new();
        let mut k = 0;
        while k < n {
            f.push_back(Tree::new(Tok::new(any8())));
            k += 1;
        }
        if any_bool() {
            f = pile_forest(f);
        }
        let (a, b) = (pos(n + 1), pos(n + 1));
        if is_forest {
            let mut w = ForestWalk::from(f);
            jump(&mut w, a, b, n, false);
        } else {
            let mut t = Tree::new(Tok::new(any8()));
            t.append(f);
            let mut w = TreeWalk::from(t);
            jump(&mut w, a, b, n, true);
        }
        cover("wide jumps done");
    }
    end();
}
fn at_id(v: Option<trees::walk::Visit<'_, Tok>>, want: usize, n: usize) -> bool {
    match v {
        None => {
            check(want >= n, "a jump to an existing node failed");
            false
        }
        Some(v) => {
            check(want < n, "a jump past the last node did not fail");
            check_eq(v.node().data().id as u64, want as u64, "a jump reached the wrong node");
            true
        }
    }
}
fn jump<W: Walk>(w: &mut W, a: usize, b: usize, n: usize, tree: bool) {
    let ok = if tree { at_id(w.to_child(a), a, n) } else { at_id(w.to_sib(a), a, n) };
    if ok {
        at_id(w.to_sib(b), a + b, n);
        let k = a + b;
        if k < n {
            match w.next() {
                Some(v) => check_eq(v.node().data().id as u64, (k + 1) as u64, "a walk goes on wrongly after a jump"),
                None => check(!tree && k + 1 == n, "a walk ends early after a jump"),
            }
        }
    }
}
fn huge() {
    crate::huge::huge(crate::huge::WALK)
}
crate::harnesses! {
    c10_huge => huge,
    c10_tree => tree,
    c10_forest => forest,
    c10_wide => wide,
}
