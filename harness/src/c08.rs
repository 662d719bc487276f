//! Copies and round trips through breadth-first iteration.
use crate::model::*;
use crate::rt::*;
use crate::world::World;
use trees::{Forest, Node, Tree};

/// The model of a copy of `i`'s subtree: each datum must be a clone, made since
/// `first`, of the datum at the same place.
fn copied(n: &Node<Tok>, m: &mut M, i: u8, first: usize) -> u8 {
    let c = m.copy(i);
    adopt(n, m, c, first);
    c
}
fn adopt(n: &Node<Tok>, m: &mut M, c: u8, first: usize) {
    let id = n.data().id;
    check_eq(unsafe { ORIGIN[id as usize] } as u64, m.id[c as usize] as u64, "wrong datum at a position of a copy");
    check(id as usize >= first, "a copy shares a datum with its original");
    m.id[c as usize] = id;
    let mut it = n.iter();
    let mut k = 0;
    while k < m.deg(c) {
        match it.next() {
            Some(x) => {
                let j = m.child(c, k);
                adopt(x, m, j, first)
            }
            None => check(false, "a child is missing in a copy"),
        }
        k += 1;
    }
}
fn copied_forest(f: &Forest<Tok>, m: &mut M, i: u8, first: usize) -> u8 {
    let c = m.copy(i);
    let mut it = f.iter();
    let mut k = 0;
    while k < m.deg(c) {
        match it.next() {
            Some(x) => {
                let j = m.child(c, k);
                adopt(x, m, j, first)
            }
            None => check(false, "a tree is missing in a copy"),
        }
        k += 1;
    }
    c
}
fn full(t: &Tree<Tok>, m: &M, r: u8) {
    same(t.root(), m, r);
    sizes(t.root(), m, r);
    links_tree(t, m, r);
}
fn full_f(f: &Forest<Tok>, m: &M, r: u8) {
    same_forest(f, m, r);
    sizes_forest(f, m, r);
    links_forest(f, m, r);
}
/// a mutation of one of two trees must not be seen in the other
fn poke(t: &mut Tree<Tok>, m: &mut M, r: u8) {
    let v = any8();
    match pick(4) {
        0 => {
            let mut n = t.root_mut();
            n.data_mut().v = v;
            m.v[r as usize] = v;
        }
        1 => {
            let x = Tok::new(v);
            let c = m.node(v);
            m.id[c as usize] = x.id;
            t.push_front(Tree::new(x));
            m.insert(r, 0, c);
        }
        2 => {
            if m.deg(r) > 0 {
                t.pop_back();
                let c = m.child(r, m.deg(r) - 1);
                m.detach(c);
            }
        }
        _ => {
            let l = m.preorder(r);
            let x = l.k[pick(l.n)];
            let p = m.path(r, x);
            let mut n = at_mut(t.root_mut(), &p);
            n.data_mut().v = v;
            m.v[x as usize] = v;
        }
    }
}

/// params: nodes (up to)
fn tree() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let s = st(pick(3));
        let mut t = build(&mut m, r, s);
        let first = unsafe { NEXT };
        let x = {
            let l = m.preorder(r);
            l.k[pick(l.n)]
        };
        let p = m.path(r, x);
        match pick(5) {
            0 => {
                // moved: the very same data
                let u = Tree::from(t.into_bfs());
                full(&u, &m, r);
                let v = Tree::from(u.into_bfs());
                full(&v, &m, r);
                cover("moved through bfs");
            }
            1 => {
                // references, in the same places
                {
                    let n = at(t.root(), &p);
                    let u: Tree<&Tok> = Tree::from(n.bfs());
                    sizes(u.root(), &m, x);
                    links_tree(&u, &m, x);
                    refs(u.root(), &m, x);
                    let f: Forest<&Tok> = Forest::from(n.bfs_children());
                    sizes_forest(&f, &m, x);
                    links_forest(&f, &m, x);
                }
                full(&t, &m, r);
            }
            2 => {
                // a subtree cloned
                let mut u = at(t.root(), &p).deep_clone();
                let c = copied(u.root(), &mut m, x, first);
                full(&u, &m, c);
                full(&t, &m, r);
                if any_bool() {
                    poke(&mut u, &mut m, c);
                } else {
                    poke(&mut t, &mut m, r);
                }
                full(&u, &m, c);
                full(&t, &m, r);
                if any_bool() {
                    drop(t);
                    full(&u, &m, c);
                } else {
                    drop(u);
                    full(&t, &m, r);
                }
                cover("subtree cloned");
            }
            3 => {
                let f = at(t.root(), &p).deep_clone_forest();
                let c = copied_forest(&f, &mut m, x, first);
                full_f(&f, &m, c);
                full(&t, &m, r);
                poke(&mut t, &mut m, r);
                full_f(&f, &m, c);
                drop(t);
                full_f(&f, &m, c);
                cover("children cloned");
            }
            _ => {
                if any_bool() {
                    // another element type and back
                    let u: Tree<(u16, u8)> = Tree::from(t.bfs().map(|k| (k.id, k.v)));
                    sizes(u.root(), &m, r);
                    pairs(u.root(), &m, r);
                } else {
                    let u = t.clone();
                    let c = copied(u.root(), &mut m, r, first);
                    full(&u, &m, c);
                    full(&t, &m, r);
                    let w = Tree::from(u.bfs().map(|k| (k.id, k.v)));
                    pairs(w.root(), &m, c);
                }
            }
        }
    }
    end();
}
fn refs(n: &Node<&Tok>, m: &M, i: u8) {
    check_eq(n.data().id as u64, m.id[i as usize] as u64, "wrong datum at a position");
    let mut k = 0;
    for c in n.iter() {
        check(k < m.deg(i), "an extra child is present");
        refs(c, m, m.child(i, k));
        k += 1;
    }
    check_eq(k as u64, m.deg(i) as u64, "a child is missing");
}
fn pairs(n: &Node<(u16, u8)>, m: &M, i: u8) {
    check_eq(n.data().0 as u64, m.id[i as usize] as u64, "wrong datum at a position");
    check_eq(n.data().1 as u64, m.v[i as usize] as u64, "a datum changed its value");
    let mut k = 0;
    for c in n.iter() {
        check(k < m.deg(i), "an extra child is present");
        pairs(c, m, m.child(i, k));
        k += 1;
    }
    check_eq(k as u64, m.deg(i) as u64, "a child is missing");
}
/// params: nodes (up to)
fn forest() {
    begin();
    {
        let mut m = M::new();
        let r = any_forest_upto(&mut m, param(0));
        fill(&mut m, r);
        let s = st(pick(3));
        let mut f = build_forest(&mut m, r, s);
        let first = unsafe { NEXT };
        match pick(3) {
            0 => {
                let g = Forest::from(f.into_bfs());
                full_f(&g, &m, r);
                let h = Forest::from(g.into_bfs());
                full_f(&h, &m, r);
                cover("forest moved through bfs");
            }
            1 => {
                let mut g = f.clone();
                let c = copied_forest(&g, &mut m, r, first);
                full_f(&g, &m, c);
                full_f(&f, &m, r);
                let x = Tok::new(any8());
                let k = m.node(x.v);
                m.id[k as usize] = x.id;
                if any_bool() {
                    g.push_back(Tree::new(x));
                    m.push_back(c, k);
                } else {
                    f.push_back(Tree::new(x));
                    m.push_back(r, k);
                }
                full_f(&g, &m, c);
                full_f(&f, &m, r);
                if any_bool() {
                    drop(f);
                    full_f(&g, &m, c);
                } else {
                    drop(g);
                    full_f(&f, &m, r);
                }
                cover("forest cloned");
            }
            _ => {
                let g = Forest::from(f.bfs().map(|k| (k.id, k.v)));
                sizes_forest(&g, &m, r);
                let mut k = 0;
                for c in g.iter() {
                    check(k < m.deg(r), "an extra tree is present");
                    pairs(c, &m, m.child(r, k));
                    k += 1;
                }
                check_eq(k as u64, m.deg(r) as u64, "a tree is missing");
            }
        }
    }
    end();
}
/// copies of trees with a mutation history. params: nodes, forest nodes, operations
fn history() {
    begin();
    {
        let mut w = World::new(param(0), param(1), st(pick(3)), 0);
        let mut k = 0;
        while k < param(2) {
            w.step();
            k += 1;
        }
        let t = w.t.take().unwrap();
        let f = w.f.take().unwrap();
        let mut m = w.m;
        if any_bool() {
            let first = unsafe { NEXT };
            let u = t.clone();
            let c = copied(u.root(), &mut m, w.rt, first);
            let first = unsafe { NEXT };
            let g = f.clone();
            let d = copied_forest(&g, &mut m, w.rf, first);
            full(&u, &m, c);
            full_f(&g, &m, d);
            full(&t, &m, w.rt);
            full_f(&f, &m, w.rf);
        } else {
            let u = Tree::from(t.into_bfs());
            let g = Forest::from(f.into_bfs());
            full(&u, &m, w.rt);
            full_f(&g, &m, w.rf);
            let mut w2 = World { m, t: Some(u), rt: w.rt, f: Some(g), rf: w.rf, spare: w.spare.take(), rs: w.rs, lens: 7, big: false, addr: [0; MAXN] };
            w2.step();
            w2.verify();
            cover("mutated after a round trip");
        }
    }
    end();
}
fn big() {
    crate::big::copies()
}
fn huge() {
    crate::huge::huge(crate::huge::COPY)
}
crate::harnesses! {
    c08_huge => huge,
    c08_big => big,
    c08_tree => tree,
    c08_forest => forest,
    c08_history => history,
}
