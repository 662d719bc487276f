//! The operators `-` and `/`.
use crate::model::*;
use crate::rt::*;
use trees::{fr, tr, Forest, Tree};

/// order and values; data of clones must be clones of the right datum
fn chk(n: &trees::Node<Tok>, m: &M, i: u8, cloned: &[(u8, bool)]) {
    // which operand does i belong to?
    let mut top = i;
    let mut cl = false;
    loop {
        let mut k = 0;
        let mut found = false;
        while k < cloned.len() {
            if cloned[k].0 == top {
                cl = cloned[k].1;
                found = true;
            }
            k += 1;
        }
        if found || m.parent(top) == NONE {
            break;
        }
        top = m.parent(top);
    }
    let id = n.data().id;
    if cl {
        check_eq(unsafe { ORIGIN[id as usize] } as u64, m.id[i as usize] as u64, "an operator put the wrong datum at a place");
        check(id != m.id[i as usize], "an operator on references did not copy");
    } else {
        check_eq(id as u64, m.id[i as usize] as u64, "an operator put the wrong datum at a place");
    }
    check_eq(n.data().v as u64, m.v[i as usize] as u64, "a datum changed its value");
    observe(n.data().v as u64);
    let mut it = n.iter();
    let mut k = 0;
    while k < m.deg(i) {
        match it.next() {
            Some(c) => chk(c, m, m.child(i, k), cloned),
            None => check(false, "a child is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra child is present");
}
fn chk_tree(t: &Tree<Tok>, m: &M, i: u8, cl: &[(u8, bool)]) {
    chk(t.root(), m, i, cl);
    sizes(t.root(), m, i);
    links_tree(t, m, i);
}
fn chk_forest(f: &Forest<Tok>, m: &M, i: u8, cl: &[(u8, bool)]) {
    let mut it = f.iter();
    let mut k = 0;
    while k < m.deg(i) {
        match it.next() {
            Some(c) => chk(c, m, m.child(i, k), cl),
            None => check(false, "a tree is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra tree is present");
    sizes_forest(f, m, i);
    links_forest(f, m, i);
}
struct Ops {
    m: M,
    a: u8,
    t: Tree<Tok>,
    b: u8,
    u: Tree<Tok>,
    fa: u8,
    f: Forest<Tok>,
    fb: u8,
    g: Forest<Tok>,
}
fn operands(n: usize) -> Ops {
    let mut m = M::new();
    let s = st(pick(2));
    let mut sh = |m: &mut M, forest: bool, used: bool| {
        let r = if !used {
            m.node(0)
        } else if forest {
            any_forest_upto(m, n)
        } else {
            any_shape_upto(m, n)
        };
        fill(m, r);
        r
    };
    // an operator takes two operands: two trees, two forests, or one of each
    let which = pick(3);
    let a = sh(&mut m, false, which != 2);
    let b = sh(&mut m, false, which == 0);
    let fa = sh(&mut m, true, which != 0);
    let fb = sh(&mut m, true, which == 2);
    let t = build(&mut m, a, s);
    let u = build(&mut m, b, s);
    let f = build_forest(&mut m, fa, s);
    let g = build_forest(&mut m, fb, s);
    Ops { m, a, t, b, u, fa, f, fb, g }
}
fn splice(m: &mut M, p: u8, f: u8) {
    while m.deg(f) > 0 {
        let c = m.child(f, 0);
        m.detach(c);
        m.push_back(p, c);
    }
}
/// params: nodes per operand (up to)
fn binary() {
    begin();
    {
        let Ops { mut m, a, t, b, u, fa, f, fb, g } = operands(param(0));
        let m0 = m;
        // marks every node of an operand as cloned or not, by its top nodes
        let mark = |m0: &M, r: u8, forest: bool, cl: bool, v: &mut Vec<(u8, bool)>| {
            if forest {
                let mut k = 0;
                while k < m0.deg(r) {
                    v.push((m0.child(r, k), cl));
                    k += 1;
                }
            } else {
                v.push((r, cl));
            }
        };
        let mut v = Vec::new();
        let (l, r) = (any_bool(), any_bool()); // operand by reference?
        match pick(5) {
            0 => {
                // tree - tree
                let x = match (l, r) {
                    (false, false) => return_(t - u),
                    (false, true) => {
                        let x = t - &u;
                        chk_tree(&u, &m0, b, &[]);
                        x
                    }
                    (true, false) => {
                        let x = &t - u;
                        chk_tree(&t, &m0, a, &[]);
                        x
                    }
                    (true, true) => {
                        let x = &t - &u;
                        chk_tree(&t, &m0, a, &[]);
                        chk_tree(&u, &m0, b, &[]);
                        x
                    }
                };
                mark(&m0, a, false, l, &mut v);
                mark(&m0, b, false, r, &mut v);
                let k = m.node(0);
                m.push_back(k, a);
                m.push_back(k, b);
                chk_forest(&x, &m, k, &v);
                cover("tree - tree");
            }
            1 => {
                // tree / tree
                let x = match (l, r) {
                    (false, false) => t / u,
                    (false, true) => {
                        let x = t / &u;
                        chk_tree(&u, &m0, b, &[]);
                        x
                    }
                    (true, false) => {
                        let x = &t / u;
                        chk_tree(&t, &m0, a, &[]);
                        x
                    }
                    (true, true) => {
                        let x = &t / &u;
                        chk_tree(&t, &m0, a, &[]);
                        chk_tree(&u, &m0, b, &[]);
                        x
                    }
                };
                mark(&m0, a, false, l, &mut v);
                mark(&m0, b, false, r, &mut v);
                m.push_back(a, b);
                chk_tree(&x, &m, a, &v);
                cover("tree / tree");
            }
            2 => {
                // tree / forest
                let x = match (l, r) {
                    (false, false) => t / f,
                    (false, true) => {
                        let x = t / &f;
                        chk_forest(&f, &m0, fa, &[]);
                        x
                    }
                    (true, false) => {
                        let x = &t / f;
                        chk_tree(&t, &m0, a, &[]);
                        x
                    }
                    (true, true) => {
                        let x = &t / &f;
                        chk_tree(&t, &m0, a, &[]);
                        chk_forest(&f, &m0, fa, &[]);
                        x
                    }
                };
                mark(&m0, a, false, l, &mut v);
                mark(&m0, fa, true, r, &mut v);
                splice(&mut m, a, fa);
                chk_tree(&x, &m, a, &v);
                cover("tree / forest");
            }
            3 => {
                // forest - tree
                let x = match (l, r) {
                    (false, false) => f - t,
                    (false, true) => {
                        let x = f - &t;
                        chk_tree(&t, &m0, a, &[]);
                        x
                    }
                    (true, false) => {
                        let x = &f - t;
                        chk_forest(&f, &m0, fa, &[]);
                        x
                    }
                    (true, true) => {
                        let x = &f - &t;
                        chk_tree(&t, &m0, a, &[]);
                        chk_forest(&f, &m0, fa, &[]);
                        x
                    }
                };
                mark(&m0, fa, true, l, &mut v);
                mark(&m0, a, false, r, &mut v);
                m.push_back(fa, a);
                chk_forest(&x, &m, fa, &v);
                cover("forest - tree");
            }
            _ => {
                // forest - forest
                let x = match (l, r) {
                    (false, false) => f - g,
                    (false, true) => {
                        let x = f - &g;
                        chk_forest(&g, &m0, fb, &[]);
                        x
                    }
                    (true, false) => {
                        let x = &f - g;
                        chk_forest(&f, &m0, fa, &[]);
                        x
                    }
                    (true, true) => {
                        let x = &f - &g;
                        chk_forest(&f, &m0, fa, &[]);
                        chk_forest(&g, &m0, fb, &[]);
                        x
                    }
                };
                mark(&m0, fa, true, l, &mut v);
                mark(&m0, fb, true, r, &mut v);
                splice(&mut m, fa, fb);
                chk_forest(&x, &m, fa, &v);
                cover("forest - forest");
            }
        }
    }
    end();
}
fn return_(f: Forest<Tok>) -> Forest<Tok> {
    f
}
/// params: nodes (up to)
fn unary() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let t = build(&mut m, r, st(pick(2)));
        let m0 = m;
        let by_ref = any_bool();
        match pick(3) {
            0 => {
                let f = if by_ref {
                    let f = -&t;
                    chk_tree(&t, &m0, r, &[]);
                    f
                } else {
                    -t
                };
                let k = m.node(0);
                m.push_back(k, r);
                chk_forest(&f, &m, k, &[(r, by_ref)]);
                cover("- tree");
            }
            1 => {
                let u = if by_ref {
                    let u = &t / ();
                    chk_tree(&t, &m0, r, &[]);
                    u
                } else {
                    t / ()
                };
                chk_tree(&u, &m, r, &[(r, by_ref)]);
                cover("tree / ()");
            }
            _ => {
                let e = fr::<Tok>();
                check(e.has_no_child() && e.node_count() == 0, "fr() is not empty");
                let x = Tok::new(any8());
                let id = x.id;
                let one = tr(x);
                check(one.data().id == id && one.node_count() == 1, "tr() is not a single node");
            }
        }
    }
    end();
}
/// the notation of the documentation: tr(a) /( tr(b)/tr(c)/tr(d) ) /( tr(e)-... )
fn nested() {
    begin();
    {
        let mut m = M::new();
        // tree with three subtrees of up to param(0) children each
        let root = m.node(0);
        fill(&mut m, root);
        let x = Tok::new(m.v[root as usize]);
        m.id[root as usize] = x.id;
        let mut t = tr(x);
        let mut j = 0;
        while j < 3 {
            let c = m.node(0);
            m.v[c as usize] = any8();
            let x = Tok::new(m.v[c as usize]);
            m.id[c as usize] = x.id;
            let n = pick(param(0) + 1);
            let mut sub = tr(x);
            let mut f = fr();
            let mut k = 0;
            let as_forest = any_bool();
            while k < n {
                let d = m.node(0);
                m.v[d as usize] = any8();
                let x = Tok::new(m.v[d as usize]);
                m.id[d as usize] = x.id;
                m.push_back(c, d);
                if as_forest {
                    f = f - tr(x);
                } else {
                    sub = sub / tr(x);
                }
                k += 1;
            }
            if as_forest {
                sub = sub / f;
            }
            m.push_back(root, c);
            t = t / sub;
            j += 1;
        }
        chk_tree(&t, &m, root, &[]);
        cover("nested notation");
    }
    end();
}
fn big() {
    crate::big::notation()
}
crate::harnesses! {
    c13_big => big,
    c13_binary => binary,
    c13_unary => unary,
    c13_nested => nested,
}
