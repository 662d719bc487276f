//! Breadth-first streams whose sizes need not agree with what they deliver.
use crate::model::*;
use crate::rt::*;
use trees::bfs::{BfsForest, BfsTree, Visit};
use trees::{Forest, Size, Tree};

const MAXV: usize = 10;
/// the sizes a stream announces and how many data it delivers
struct Stream {
    n: usize,
    deg: [usize; MAXV],
    desc: [usize; MAXV],
    // more and more leaves after the n-th
    endless: bool,
}
/// does the stream describe one tree (`open` = 1) or `open` trees of `all` nodes?
/// (the sizes of inner nodes are not looked at)
fn agrees(s: &Stream, from: usize, mut open: usize, all: usize) -> bool {
    let mut k = from;
    while k < s.n {
        if open == 0 {
            return false;
        }
        open = open - 1 + s.deg[k];
        k += 1;
    }
    open == 0 && s.n - from == all && !s.endless
}
/// the nodes the stream describes, below `up`
fn described(s: &Stream, from: usize, m: &mut M, up: u8, open: usize, ids: &[u16; MAXV], vals: &[u8; MAXV], i: &mut [u8; MAXV]) {
    let mut k = from;
    let mut par = up;
    let mut left = open;
    let mut next = from;
    while k < s.n {
        while left == 0 {
            par = i[next];
            left = s.deg[next];
            next += 1;
        }
        i[k] = m.node(vals[k]);
        m.id[i[k] as usize] = ids[k];
        m.push_back(par, i[k]);
        left -= 1;
        k += 1;
    }
}
fn fill_desc(s: &mut Stream) {
    // the sum of the degrees below, if the stream is well-formed; else anything
    let mut first = [0usize; MAXV];
    let mut at = 1;
    let mut k = 0;
    while k < s.n {
        first[k] = at;
        at += s.deg[k];
        k += 1;
    }
    while k > 0 {
        k -= 1;
        let mut d = 0;
        let mut j = first[k];
        while j < first[k] + s.deg[k] && j < s.n {
            d += 1 + s.desc[j];
            j += 1;
        }
        s.desc[k] = d;
    }
}
struct Source {
    s: Stream,
    k: usize,
    ids: *mut [u16; MAXV],
    vals: *mut [u8; MAXV],
}
impl Iterator for Source {
    type Item = Visit<Tok>;
    fn next(&mut self) -> Option<Visit<Tok>> {
        let k = self.k;
        if k >= self.s.n {
            if !self.s.endless || k > self.s.n + 6 {
                return None;
            }
            self.k += 1;
            return Some(Visit { data: Tok::new(0), size: Size::default() });
        }
        self.k += 1;
        let v = any8();
        let data = Tok::new(v);
        unsafe {
            (*self.ids)[k] = data.id;
            (*self.vals)[k] = v;
        }
        Some(Visit { data, size: Size { degree: self.s.deg[k], descendants: self.s.desc[k] } })
    }
}
fn announced(n: usize) -> usize {
    let k = pick(n + 4);
    if k < n + 2 {
        k
    } else if k == n + 2 {
        usize::MAX
    } else {
        usize::MAX - 1
    }
}
fn accepted(out: bool, ok: bool) {
    if ok {
        check(!out, "a breadth-first stream whose sizes agree is refused");
    } else {
        check(out, "a breadth-first stream that contradicts its sizes is accepted");
    }
}
/// a tree from any stream. params: visits (up to), degree (up to)
fn tree() {
    begin();
    let ok;
    {
        let mut s = Stream { n: pick(param(0) + 1), deg: [0; MAXV], desc: [0; MAXV], endless: false };
        let mut k = 0;
        while k < s.n {
            s.deg[k] = pick(param(1) + 1);
            k += 1;
        }
        s.endless = pick(2) == 1;
        fill_desc(&mut s);
        s.desc[0] = announced(s.n);
        ok = s.n > 0 && s.desc[0] < MAXV && agrees(&s, 0, 1, s.desc[0] + 1);
        let (mut ids, mut vals, mut i) = ([0u16; MAXV], [0u8; MAXV], [0u8; MAXV]);
        let (pi, pv) = (&raw mut ids, &raw mut vals);
        let (n, deg, desc) = (s.n, s.deg, s.desc);
        let mut t = None;
        // the size next to the iterator is that of the parent of the root: nothing depends on it
        let size = Size { degree: 1, descendants: s.desc[0] };
        let out = catch(|| t = Some(Tree::from(BfsTree { iter: Source { s, k: 0, ids: pi, vals: pv }, size })));
        accepted(out, ok);
        if let Some(t) = t {
            let s = Stream { n, deg, desc, endless: false };
            let mut m = M::new();
            let up = m.node(0);
            described(&s, 0, &mut m, up, 1, &ids, &vals, &mut i);
            m.detach(i[0]);
            same(t.root(), &m, i[0]);
            sizes(t.root(), &m, i[0]);
            links_tree(&t, &m, i[0]);
            cover("a tree from a stream");
        } else if n > 0 {
            cover("a stream of a tree refused");
        }
    }
    if ok {
        end();
    }
}
/// a forest from any stream. params: visits (up to), degree (up to)
fn forest() {
    begin();
    let ok;
    {
        let mut s = Stream { n: pick(param(0) + 1), deg: [0; MAXV], desc: [0; MAXV], endless: false };
        let mut k = 0;
        while k < s.n {
            s.deg[k] = pick(param(1) + 1);
            k += 1;
        }
        s.endless = pick(2) == 1;
        let (roots, all) = (pick(param(1) + 1), announced(s.n));
        // as if below one more root
        let mut below = Stream { n: s.n + 1, deg: [0; MAXV], desc: [0; MAXV], endless: false };
        below.deg[0] = roots;
        let mut k = 0;
        while k < s.n {
            below.deg[k + 1] = s.deg[k];
            k += 1;
        }
        fill_desc(&mut below);
        let mut k = 0;
        while k < s.n {
            s.desc[k] = below.desc[k + 1];
            k += 1;
        }
        ok = agrees(&s, 0, roots, all);
        let (mut ids, mut vals, mut i) = ([0u16; MAXV], [0u8; MAXV], [0u8; MAXV]);
        let (pi, pv) = (&raw mut ids, &raw mut vals);
        let (n, deg, desc) = (s.n, s.deg, s.desc);
        let mut f = None;
        let size = Size { degree: roots, descendants: all };
        let out = catch(|| f = Some(Forest::from(BfsForest { iter: Source { s, k: 0, ids: pi, vals: pv }, size })));
        accepted(out, ok);
        if let Some(f) = f {
            let s = Stream { n, deg, desc, endless: false };
            let mut m = M::new();
            let r = m.node(0);
            described(&s, 0, &mut m, r, roots, &ids, &vals, &mut i);
            same_forest(&f, &m, r);
            sizes_forest(&f, &m, r);
            links_forest(&f, &m, r);
            cover("a forest from a stream");
        } else {
            cover("a stream of a forest refused");
        }
    }
    if ok {
        end();
    }
}
/// what is left of a breadth-first iterator, given on. params: nodes (up to)
fn rest() {
    begin();
    let ok;
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let was_forest = pick(2) == 1;
        let st = st(pick(3));
        let l = m.bfs(r, was_forest);
        let mut s = Stream { n: l.n, deg: [0; MAXV], desc: [0; MAXV], endless: false };
        let mut k = 0;
        while k < l.n {
            s.deg[k] = m.deg(l.k[k]);
            s.desc[k] = m.count(l.k[k]) - 1;
            k += 1;
        }
        let gone = pick(l.n + 1);
        let (ids, vals, mut i);
        let to_forest = pick(2) == 1;
        let (mut t, mut f) = (None, None);
        let open;
        if to_forest {
            open = pick(3);
            // as many trees as asked for, of as many nodes as there are left, or not
            let all = l.n - gone + pick(2);
            ok = agrees(&s, gone, open, all);
            let size = Size { degree: open, descendants: all };
            let out;
            if was_forest {
                let mut it = build_forest(&mut m, r, st).into_bfs().iter;
                (ids, vals) = known(&m, &l);
                skip(&mut it, gone);
                out = catch(|| f = Some(Forest::from(BfsForest { iter: it, size })));
            } else {
                let mut it = build(&mut m, r, st).into_bfs().iter;
                (ids, vals) = known(&m, &l);
                skip(&mut it, gone);
                out = catch(|| f = Some(Forest::from(BfsForest { iter: it, size })));
            }
            accepted(out, ok);
        } else {
            open = 1;
            ok = gone < l.n && agrees(&s, gone, 1, s.desc[gone] + 1);
            let size = Size { degree: 1, descendants: 0 };
            let out;
            if was_forest {
                let mut it = build_forest(&mut m, r, st).into_bfs().iter;
                (ids, vals) = known(&m, &l);
                skip(&mut it, gone);
                out = catch(|| t = Some(Tree::from(BfsTree { iter: it, size })));
            } else {
                let mut it = build(&mut m, r, st).into_bfs().iter;
                (ids, vals) = known(&m, &l);
                skip(&mut it, gone);
                out = catch(|| t = Some(Tree::from(BfsTree { iter: it, size })));
            }
            accepted(out, ok);
        }
        i = [0u8; MAXV];
        let mut m2 = M::new();
        let up = m2.node(0);
        if ok {
            described(&s, gone, &mut m2, up, open, &ids, &vals, &mut i);
        }
        if let Some(f) = f {
            same_forest(&f, &m2, up);
            sizes_forest(&f, &m2, up);
            links_forest(&f, &m2, up);
            cover("the rest of a stream is a forest");
        } else if let Some(t) = t {
            m2.detach(i[gone]);
            same(t.root(), &m2, i[gone]);
            sizes(t.root(), &m2, i[gone]);
            links_tree(&t, &m2, i[gone]);
            cover("the rest of a stream is a tree");
        } else {
            cover("the rest of a stream refused");
        }
    }
    if ok {
        end();
    }
}
fn skip<T>(it: &mut impl Iterator<Item = T>, n: usize) {
    let mut k = 0;
    while k < n {
        check(it.next().is_some(), "a breadth-first iterator ends too early");
        k += 1;
    }
}
fn known(m: &M, l: &List) -> ([u16; MAXV], [u8; MAXV]) {
    let (mut ids, mut vals) = ([0u16; MAXV], [0u8; MAXV]);
    let mut k = 0;
    while k < l.n {
        ids[k] = m.id[l.k[k] as usize];
        vals[k] = m.v[l.k[k] as usize];
        k += 1;
    }
    (ids, vals)
}
/// inner visits with wrong numbers of descendants: refused, or the tree has the
/// right ones. params: nodes (up to)
fn inner() {
    begin();
    let mut refused = true;
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        let forest = pick(2) == 1;
        let l = m.bfs(r, forest);
        let mut s = Stream { n: l.n, deg: [0; MAXV], desc: [0; MAXV], endless: false };
        let mut k = 0;
        while k < l.n {
            s.deg[k] = m.deg(l.k[k]);
            s.desc[k] = m.count(l.k[k]) - 1;
            // the first one of a tree is its root
            if k > 0 || forest {
                s.desc[k] = [s.desc[k], 0, 3, usize::MAX][pick(4)];
            }
            k += 1;
        }
        let (mut ids, mut vals) = ([0u16; MAXV], [0u8; MAXV]);
        let (pi, pv) = (&raw mut ids, &raw mut vals);
        let iter = Source { s, k: 0, ids: pi, vals: pv };
        let size = Size { degree: if forest { m.deg(r) } else { 1 }, descendants: m.count(r) - 1 };
        let mut t = None;
        let mut f = None;
        catch(|| {
            if forest {
                f = Some(Forest::from(BfsForest { iter, size }))
            } else {
                t = Some(Tree::from(BfsTree { iter, size }))
            }
        });
        let mut k = 0;
        while k < l.n {
            m.id[l.k[k] as usize] = ids[k];
            m.v[l.k[k] as usize] = vals[k];
            k += 1;
        }
        if let Some(f) = f {
            same_forest(&f, &m, r);
            sizes_forest(&f, &m, r);
            links_forest(&f, &m, r);
            refused = false;
            cover("a forest with wrong sizes inside");
        }
        if let Some(t) = t {
            same(t.root(), &m, r);
            sizes(t.root(), &m, r);
            links_tree(&t, &m, r);
            refused = false;
            match pick(3) {
                0 => drop(t),
                1 => drain(t, &mut m, r, any_bool()),
                _ => {
                    let t = pile(t);
                    same(t.root(), &m, r);
                    sizes(t.root(), &m, r);
                }
            }
            cover("a tree with wrong sizes inside");
        }
    }
    if !refused {
        end();
    }
}
/// long streams with one mistake. params: nodes below the root, kind (0 wide, 1 deep)
fn long() {
    begin();
    let ok;
    {
        let n = param(0);
        let deep = param(1) == 1;
        let forest = any_bool();
        // the root (or what stands for it), then the others
        let deg = |k: usize| if deep { (k < n) as usize } else if k == 0 { n } else { 0 };
        let desc = |k: usize| if deep || k == 0 { n - k } else { 0 };
        let mut v: Vec<Visit<u32>> = Vec::with_capacity(n + 2);
        let mut k = 0;
        while k <= n {
            v.push(Visit { data: k as u32, size: Size { degree: deg(k), descendants: desc(k) } });
            k += 1;
        }
        let at = pos(n + 1);
        let kind = pick(7);
        match kind {
            0 => (),
            1 => v[at].size.degree += 1,
            2 => {
                if v[at].size.degree == 0 {
                    return;
                }
                v[at].size.degree -= 1
            }
            3 => {
                if at == 0 {
                    return;
                }
                v.remove(at);
            }
            4 => v.insert(at + 1, Visit { data: 0, size: Size { degree: 0, descendants: 0 } }),
            5 => v[0].size.descendants += 1,
            _ => v[0].size.descendants -= 1,
        }
        ok = kind == 0;
        let mut sum = 0u64;
        let mut count = 0;
        let (mut t, mut f) = (None, None);
        let out = if forest {
            let size = v.remove(0).size;
            catch(|| f = Some(Forest::from(BfsForest { iter: v.into_iter(), size })))
        } else {
            let size = v[0].size;
            catch(|| t = Some(Tree::from(BfsTree { iter: v.into_iter(), size: Size { degree: 1, descendants: size.descendants } })))
        };
        accepted(out, ok);
        if let Some(f) = &f {
            for visit in f.bfs().iter {
                count += 1;
                sum += *visit.data as u64;
            }
        }
        if let Some(t) = &t {
            check_eq(t.node_count() as u64, n as u64 + 1, "node count is wrong");
            for visit in t.bfs_children().iter {
                count += 1;
                sum += *visit.data as u64;
            }
        }
        if ok {
            check(count == n as u64 && sum == (n * (n + 1) / 2) as u64, "a tree from a long stream has the wrong nodes");
            cover("a long stream accepted");
        } else {
            cover("a long stream refused");
        }
    }
    if ok {
        end();
    }
}
crate::harnesses! {
    c26_long => long,
    c26_tree => tree,
    c26_forest => forest,
    c26_rest => rest,
    c26_inner => inner,
}
