use crate::model::*;
use crate::rt::*;
use crate::world::*;
use trees::{Forest, Tree};

/// params: nodes in the tree (up to), nodes in the forest (up to), operations
fn history() {
    begin();
    let mut w = World::new(param(0), param(1), st(pick(3)), OWN);
    w.verify();
    let mut k = 0;
    while k < param(2) {
        w.step();
        w.verify();
        k += 1;
    }
    match pick(4) {
        0 => {
            w.t = None;
            w.own();
            w.f = None;
            w.own();
            w.spare = None;
            w.own();
        }
        1 => {
            w.spare = None;
            w.own();
            w.f = None;
            w.own();
            w.t = None;
            w.own();
        }
        2 => {
            // clones own their own data
            let t = w.t.as_ref().unwrap().clone();
            let f = w.f.as_ref().unwrap().clone();
            let first = unsafe { NEXT };
            let (nt, nf) = (w.m.count(w.rt), w.m.count(w.rf) - 1);
            w.t = None;
            w.f = None;
            w.spare = None;
            let mut i = 0;
            while i < first - nt - nf {
                check(!alive(i as u16), "a datum outlived its tree");
                i += 1;
            }
            while i < first {
                check(alive(i as u16), "a clone's datum died with the original");
                i += 1;
            }
            drop(f);
            drop(t);
        }
        _ => w.finish(),
    }
    cover("history complete");
    end();
}

/// params: nodes (up to).  Owning iterators abandoned after any number of items.
fn consume() {
    begin();
    let s = st(pick(3));
    let mut m = M::new();
    let r = any_shape_upto(&mut m, param(0));
    fill(&mut m, r);
    match pick(4) {
        0 => {
            let t = build(&mut m, r, s);
            let l = m.bfs(r, false);
            let cut = pick(l.n + 1);
            let mut it = t.into_bfs().wrap().iter();
            let mut k = 0;
            while k < cut {
                match it.next() {
                    Some(v) => {
                        let id = m.id[l.k[k] as usize];
                        check_eq(v.data.id as u64, id as u64, "into_bfs yielded the wrong datum");
                        check(alive(id), "a datum died while it was being handed out");
                        drop(v);
                        check(!alive(id), "a dropped datum is still alive");
                    }
                    None => check(false, "into_bfs ended early"),
                }
                k += 1;
            }
            while k < l.n {
                check(alive(m.id[l.k[k] as usize]), "a datum died before it was handed out");
                k += 1;
            }
            drop(it);
            cover("into_bfs abandoned");
        }
        1 => {
            let f = build_forest(&mut m, r, s);
            let l = m.bfs(r, true);
            let cut = pick(l.n + 1);
            let mut it = f.into_bfs().wrap().iter();
            let mut k = 0;
            while k < cut {
                match it.next() {
                    Some(v) => {
                        let id = m.id[l.k[k] as usize];
                        check_eq(v.data.id as u64, id as u64, "into_bfs yielded the wrong datum");
                        drop(v);
                        check(!alive(id), "a dropped datum is still alive");
                    }
                    None => check(false, "into_bfs ended early"),
                }
                k += 1;
            }
            while k < l.n {
                check(alive(m.id[l.k[k] as usize]), "a datum died before it was handed out");
                k += 1;
            }
            drop(it);
            cover("forest into_bfs abandoned");
        }
        2 => {
            let f = build_forest(&mut m, r, s);
            let n = m.deg(r);
            let cut = pick(n + 1);
            let mut it = f.into_iter();
            let mut k = 0;
            while k < cut {
                match it.next() {
                    Some(t) => {
                        check_eq(t.data().id as u64, m.id[m.child(r, k) as usize] as u64, "into_iter yielded the wrong tree");
                        drop(t);
                        check(!alive(m.id[m.child(r, k) as usize]), "a dropped datum is still alive");
                    }
                    None => check(false, "into_iter ended early"),
                }
                k += 1;
            }
            while k < n {
                check(alive(m.id[m.child(r, k) as usize]), "a datum died before it was handed out");
                k += 1;
            }
            drop(it);
            cover("into_iter abandoned");
        }
        _ => {
            let t = build(&mut m, r, s);
            let mut it = t.into_iter();
            if any_bool() {
                match it.next() {
                    Some(t) => check_eq(t.data().id as u64, m.id[r as usize] as u64, "into_iter of a tree yielded the wrong tree"),
                    None => check(false, "into_iter of a tree yielded nothing"),
                }
                check(!alive(m.id[r as usize]), "a dropped datum is still alive");
                check(it.next().is_none(), "into_iter of a tree yielded a second tree");
            } else {
                check(alive(m.id[r as usize]), "a datum died before it was handed out");
            }
        }
    }
    let mut i = 0;
    while i < unsafe { NEXT } {
        check(!alive(i as u16), "a datum outlived its tree");
        i += 1;
    }
    end();
}
/// params: nodes in the tree (up to), nodes in the forest (up to), operations, size of operands
fn probe() {
    begin();
    {
        let mut w = World::new(param(0), param(1), st(pick(3)), OWN);
        w.verify();
        let mut k = 0;
        while k < param(2) {
            w.step();
            k += 1;
        }
        w.probe();
        w.finish();
    }
    end();
}
fn big() {
    crate::big::ops(OWN)
}
fn wide() {
    crate::wide::wide(OWN)
}
fn deep() {
    crate::wide::deep(OWN)
}

crate::harnesses! {
    c04_big => big,
    c04_history => history,
    c04_consume => consume,
    c04_wide => wide,
    c04_deep => deep,
    c04_probe => probe,
    c04_types => types,
}
fn types() {
    crate::types::types()
}
