//! Depth-first walks from begin to end.
use crate::model::*;
use crate::rt::*;
use crate::walks::*;
use crate::world::World;
use trees::{Forest, ForestWalk, Tree, TreeWalk};

struct Events {
    n: usize,
    node: [u8; 2 * MAXN],
    end: [bool; 2 * MAXN],
}
fn events(m: &M, i: u8, e: &mut Events) {
    let put = |e: &mut Events, end| {
        e.node[e.n] = i;
        e.end[e.n] = end;
        e.n += 1;
    };
    put(e, false);
    if m.deg(i) > 0 {
        let mut k = 0;
        while k < m.deg(i) {
            events(m, m.child(i, k), e);
            k += 1;
        }
        put(e, true);
    }
}
/// up to `cut` steps of a walk
fn walk<W: Walk>(w: &mut W, m: &M, e: &Events, cut: usize, fr: u8) {
    let style = pick(3);
    let rounds = if cut > e.n { 2 } else { 1 };
    let mut r = 0;
    while r < rounds {
        let mut k = 0;
        while k <= e.n && k < cut {
            if k == e.n {
                expect(w.get(), m, None);
                check(w.next().is_none(), "a walk goes on after its end");
                w.forward();
                expect(w.get(), m, None);
                cover("walk complete");
                break;
            }
            let want = Some((e.node[k], e.end[k]));
            expect(w.get(), m, want);
            check(parent_id(w.get_parent()) == parent_want(m, e.node[k], fr), "get_parent() is wrong");
            if style == 2 {
                expect(w.get(), m, want);
            }
            if style == 1 {
                w.forward();
            } else {
                let next = if k + 1 < e.n { Some((e.node[k + 1], e.end[k + 1])) } else { None };
                expect(w.next(), m, next);
            }
            k += 1;
        }
        if r + 1 < rounds {
            w.revisit(); // from the start again
        }
        r += 1;
    }
}
/// params: nodes (up to)
fn tree() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let t = build(&mut m, r, st(pick(3)));
        let mut e = Events { n: 0, node: [0; 2 * MAXN], end: [false; 2 * MAXN] };
        events(&m, r, &mut e);
        let mut w = TreeWalk::from(t);
        let cut = pick(e.n + 2);
        walk(&mut w, &m, &e, cut, NONE);
        if any_bool() {
            let t = Tree::from(w);
            same(t.root(), &m, r);
            links_tree(&t, &m, r);
            cover("tree taken back");
        }
    }
    end();
}
/// params: nodes (up to)
fn forest() {
    begin();
    {
        let mut m = M::new();
        let r = any_forest_upto(&mut m, param(0));
        fill(&mut m, r);
        let f = build_forest(&mut m, r, st(pick(3)));
        let mut e = Events { n: 0, node: [0; 2 * MAXN], end: [false; 2 * MAXN] };
        let mut k = 0;
        while k < m.deg(r) {
            events(&m, m.child(r, k), &mut e);
            k += 1;
        }
        let mut w = ForestWalk::from(f);
        let cut = pick(e.n + 2);
        walk(&mut w, &m, &e, cut, r);
        if any_bool() {
            let f = Forest::from(w);
            same_forest(&f, &m, r);
            links_forest(&f, &m, r);
            cover("forest taken back");
        }
    }
    end();
}
/// after a mutation history. params: nodes, forest nodes, operations
fn history() {
    begin();
    {
        let mut w = World::new(param(0), param(1), st(pick(3)), 0);
        let mut k = 0;
        while k < param(2) {
            w.step();
            k += 1;
        }
        let mut e = Events { n: 0, node: [0; 2 * MAXN], end: [false; 2 * MAXN] };
        events(&w.m, w.rt, &mut e);
        let mut t = TreeWalk::from(w.t.take().unwrap());
        walk(&mut t, &w.m, &e, 2 * MAXN, NONE);
        let mut e = Events { n: 0, node: [0; 2 * MAXN], end: [false; 2 * MAXN] };
        let mut k = 0;
        while k < w.m.deg(w.rf) {
            events(&w.m, w.m.child(w.rf, k), &mut e);
            k += 1;
        }
        let mut f = ForestWalk::from(w.f.take().unwrap());
        walk(&mut f, &w.m, &e, 2 * MAXN, w.rf);
    }
    end();
}
/// A long chain that ends in a wide node. params: depth, width
fn large() {
    begin();
    {
        let (d, n) = (param(0), param(1));
        // ids: leaves 0.., then the chain upwards
        let mut t = Tree::new(Tok::new(any8())); // id 0 : bottom of the chain
        let mut k = 0;
        while k < n {
            t.push_back(Tree::new(Tok::new(any8())));
            k += 1;
        }
        k = 0;
        while k < d {
            let mut p = Tree::new(Tok::new(any8())); // id n+1+k
            p.push_back(t);
            t = p;
            k += 1;
        }
        if any_bool() {
            t = pile(t);
        }
        let mut w = TreeWalk::from(t);
        let mut k = 0;
        let total = 2 * (d + 1) + n;
        while k < total {
            let (id, kind) = if k < d {
                (n + d - k, 0)
            } else if k == d {
                (0, if n == 0 { 2 } else { 0 })
            } else if k <= d + n {
                (k - d, 2)
            } else if k == d + n + 1 {
                (0, 1)
            } else {
                (k - d - 1, 1)
            };
            use trees::walk::Visit;
            match w.get() {
                Some(v) => {
                    let (x, q) = match v {
                        Visit::Begin(x) => (x, 0),
                        Visit::End(x) => (x, 1),
                        Visit::Leaf(x) => (x, 2),
                    };
                    check_eq(x.data().id as u64, id as u64, "a walk visits the wrong node");
                    check_eq(q, kind, "a walk reports the wrong kind of visit");
                }
                None => check(false, "a walk ends early"),
            }
            w.forward();
            k += 1;
        }
        check(w.get().is_none(), "a walk goes on after its end");
        cover("large walk complete");
    }
    end();
}
fn big() {
    crate::big::walk()
}
fn huge() {
    crate::huge::huge(crate::huge::ALL)
}
crate::harnesses! {
    c09_huge => huge,
    c09_big => big,
    c09_tree => tree,
    c09_forest => forest,
    c09_history => history,
    c09_large => large,
}
