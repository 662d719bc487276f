//! User code that uses handles while an operation on handles runs.
use crate::model::*;
use crate::rcworld::*;
use crate::rt::*;
use std::cmp::Ordering;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use trees::{RcNode, Tree};

struct Null;
impl Hasher for Null {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
impl Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
struct State {
    w: RcWorld,
    /// handles on nodes that are about to die, obtained meanwhile
    kept: Option<RcNode<Tok>>,
    /// root of the trees that the running operation works on
    busy: [u8; 2],
    /// the node that is being extended
    ext: u8,
    fired: bool,
    refused: bool,
    changed: bool,
    /// a datum is being replaced
    replacing: bool,
}
static mut S: *mut State = core::ptr::null_mut();
fn root_of(m: &M, x: u8) -> u8 {
    let mut r = x;
    while m.parent(r) != NONE {
        r = m.parent(r);
    }
    r
}
/// uses any handle, in any way
fn hook(dying: Option<u16>) {
    let s = unsafe { &mut *S };
    s.fired = true;
    let kind = 1 + pick(if dying.is_some() { 7 } else { 5 });
    let k = s.w.any_handle();
    let mut involved = dying.is_some();
    if k < H {
        let r = root_of(&s.w.m, s.w.hn[k]);
        involved = involved || s.busy[0] == r || s.busy[1] == r;
    }
    if s.ext != NONE && k < H {
        // when the trees that the iterator has handed out are added, is not specified
        if s.w.hn[k] == s.ext && kind == 1 {
            s.changed = !catch(|| edit_extended(k));
            s.refused = !s.changed;
            return;
        }
        if kind > 3 && within(&s.w.m, s.w.hn[k], s.ext) {
            return;
        }
    }
    let mut kept = None;
    let out = {
        let w = &mut s.w;
        let kept = &mut kept;
        catch(move || match kind {
            1 => w.op_struct_at(k),
            2 => {
                if k < H {
                    w.hn[k] = NONE;
                    let h = w.h[k].take();
                    drop(h);
                }
            }
            3 => {
                if k < H {
                    let r = w.h[k].as_ref().unwrap().clone();
                    let x = w.hn[k];
                    w.put(Some(r), x);
                }
            }
            4 => w.op_deep_clone_at(k),
            5 => {
                // reads only
                if k < H {
                    let x = w.hn[k];
                    same_rc(w.h[k].as_ref().unwrap(), &w.m, x);
                }
            }
            6 => {
                if k < H {
                    *kept = w.h[k].as_ref().unwrap().parent();
                }
            }
            _ => *kept = w.w[0].as_ref().unwrap().upgrade(),
        })
    };
    if let Some(y) = kept {
        // the node whose datum is replaced is borrowed
        if !catch(|| look(&y)) {
            cover("a dying node was found");
        } else {
            check(s.replacing, "looking at a node that is being dropped was refused");
        }
        if any_bool() {
            s.kept = Some(y);
        } else {
            drop(y);
        }
    }
    s.refused = out;
    if out {
        check(involved, "the use of an uninvolved node was refused");
        cover("refused meanwhile");
    } else if kind < 3 {
        s.changed = true;
        cover("changed meanwhile");
    }
}
fn within(m: &M, a: u8, mut x: u8) -> bool {
    while x != a && m.parent(x) != NONE {
        x = m.parent(x);
    }
    x == a
}
/// edits the children of the node that is being extended
fn edit_extended(k: usize) {
    let s = unsafe { &mut *S };
    let x = s.ext;
    let h = s.w.h[k].as_ref().unwrap().clone();
    if any_bool() {
        let d = Tok::new(any8());
        let c = s.w.m.node(d.v);
        s.w.m.id[c as usize] = d.id;
        h.push_front(Tree::new(d));
        s.w.m.insert(x, 0, c);
        cover("pushed in front of what is being added");
        return;
    }
    let back = any_bool();
    let r = if back { h.pop_back() } else { h.pop_front() };
    match &r {
        Some(y) => {
            let id = y.data().id;
            let mut found = false;
            let mut i = 0;
            while i < s.w.m.deg(x) && !found {
                let c = s.w.m.child(x, i);
                if s.w.m.id[c as usize] == id {
                    s.w.m.detach(c);
                    found = true;
                }
                i += 1;
            }
            check(found, "a node was popped that is not a child");
            cover("popped from what is being extended");
        }
        None => check(s.w.m.deg(x) == s.added(), "pop of a node with children gave none"),
    }
}
impl State {
    /// children that came from the iterator
    fn added(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < self.w.m.deg(self.ext) {
            if self.w.m.id[self.w.m.child(self.ext, i) as usize] >= unsafe { EXT_FROM } {
                n += 1;
            }
            i += 1;
        }
        n
    }
}
static mut EXT_FROM: u16 = 0;
/// a node with its children, whatever they are
fn look(y: &RcNode<Tok>) {
    check(alive(y.data().id), "a node without a datum was found");
    let mut n = 0;
    let mut sum = 1;
    for c in y.iter_rc() {
        check(alive(c.data().id), "a child without a datum was found");
        match c.parent() {
            Some(p) => check_eq(p.data().id as u64, y.data().id as u64, "parent() is wrong"),
            None => check(false, "parent() of a child is None"),
        }
        n += 1;
        sum += c.node_count();
    }
    check_eq(y.degree() as u64, n as u64, "degree is wrong");
    check_eq(y.node_count() as u64, sum as u64, "node count is wrong");
}
fn world(n: usize) -> State {
    let mut w = RcWorld::new(n, st(pick(3)), LIFE | STRUCT, true);
    // another tree, which is not involved
    if any_bool() {
        let a = Tok::new(any8());
        let x = w.m.node(a.v);
        w.m.id[x as usize] = a.id;
        w.h[2] = Some(RcNode::from(Tree::new(a)));
        w.hn[2] = x;
    }
    State { w, kept: None, busy: [NONE; 2], ext: NONE, fired: false, refused: false, changed: false, replacing: false }
}
/// operations that call clone, comparison, hash or formatting of the data.
/// params: nodes (up to)
fn readers() {
    begin();
    {
        let mut s = world(param(0));
        let k = pick(2);
        let x = s.w.hn[k];
        let h = s.w.h[k].as_ref().unwrap().clone();
        s.busy[0] = root_of(&s.w.m, x);
        let n = s.w.m.count(x);
        let at = pick(n);
        let op = pick(8);
        let mut u = None;
        if op > 0 && op < 5 {
            // the copy is one of the trees with handles
            let t = h.deep_clone();
            let c = s.w.m.copy(x);
            let mut l = s.w.m.preorder(c);
            adopt(t.root(), &mut s.w.m, &mut l, 0);
            let q = RcNode::from(t);
            u = Some(q.clone());
            s.w.h[3] = Some(q);
            s.w.hn[3] = c;
            s.busy[1] = c;
        }
        let before = s.w.m;
        // handles that this function holds are handles of the model too
        let hold = s.w.hold(x);
        let mut got = None;
        unsafe {
            S = &mut s;
            HOOK = Some(hook);
            HOOK_AT = at;
        }
        let mut right = true;
        let out = {
            let (got, right) = (&mut got, &mut right);
            catch(|| match op {
                0 => *got = Some(h.deep_clone()),
                1 => *right = h == *u.as_ref().unwrap(),
                2 => *right = !(h != *u.as_ref().unwrap()),
                3 => *right = h.cmp(u.as_ref().unwrap()) == Ordering::Equal,
                4 => *right = h.partial_cmp(u.as_ref().unwrap()) == Some(Ordering::Equal),
                5 => h.hash(&mut Null),
                6 => *right = write!(Null, "{}", h).is_ok(),
                _ => *right = write!(Null, "{:?}", h).is_ok(),
            })
        };
        unsafe {
            HOOK = None;
            HOOK_AT = usize::MAX;
        }
        check(s.fired || s.changed || op > 4 || at > 0, "harness: user code was not reached");
        check(!out, "an operation panicked although user code did not");
        if !s.changed {
            check(right, "a comparison of equal trees went wrong");
        }
        if let Some(t) = &got {
            like(t.root(), &before, x);
            cover("cloned meanwhile");
        }
        drop(got);
        drop(u);
        drop(h);
        s.w.unhold(hold);
        s.w.gc();
        s.w.verify();
        if s.fired {
            cover("a reader went through");
        }
        s.w.finish_in(param(0) % 2 == 0, false);
    }
    end();
}
/// the same values in the same shape
fn like(n: &trees::Node<Tok>, m: &M, i: u8) {
    check_eq(unsafe { ORIGIN[n.data().id as usize] } as u64, m.id[i as usize] as u64, "a copy has the wrong datum at a position");
    check_eq(n.data().v as u64, m.v[i as usize] as u64, "a copy has the wrong value at a position");
    check_eq(n.degree() as u64, m.deg(i) as u64, "the degree of a copy is wrong");
    check_eq(n.node_count() as u64, m.count(i) as u64, "the node count of a copy is wrong");
    let mut k = 0;
    for c in n.iter() {
        if k < m.deg(i) {
            like(c, m, m.child(i, k));
        }
        k += 1;
    }
}
/// operations that destroy data. params: nodes (up to)
fn destructors() {
    begin();
    {
        let mut s = world(param(0));
        // a weak handle on any node
        let r = s.w.hn[0];
        let l = s.w.m.preorder(r);
        let y = l.k[pick(l.n)];
        let p = s.w.m.path(r, y);
        let weak = at_rc(s.w.h[0].as_ref().unwrap(), &p).downgrade();
        s.w.w[0] = Some(weak);
        s.w.wn[0] = y;
        let at = pick(l.n + 1);
        unsafe {
            S = &mut s;
            HOOK = Some(hook);
            DROP_HOOK_AT = at;
        }
        let op = pick(4);
        let out = match op {
            0 => {
                let h = s.w.h[0].take();
                s.w.hn[0] = NONE;
                catch(|| drop(h))
            }
            1 => {
                // a child without other handles
                if s.w.m.deg(r) == 0 {
                    return stop();
                }
                let back = any_bool();
                let c = s.w.m.child(r, if back { s.w.m.deg(r) - 1 } else { 0 });
                s.w.m.detach(c);
                let h = s.w.h[0].as_ref().unwrap().clone();
                let x = if back { h.pop_back() } else { h.pop_front() };
                drop(h);
                catch(|| drop(x))
            }
            2 => {
                // a child that an iterator has
                if s.w.m.deg(r) == 0 {
                    return stop();
                }
                let it = s.w.h[0].as_ref().unwrap().iter_rc();
                let h = s.w.h[0].take();
                s.w.hn[0] = NONE;
                drop(h);
                catch(|| drop(it))
            }
            _ => {
                // a datum is replaced
                s.replacing = true;
                let d = Tok::new(any8());
                let h = s.w.h[0].as_ref().unwrap().clone();
                let (v, id) = (d.v, d.id);
                let hold = s.w.hold(r);
                let out = catch(|| *h.data_mut() = d);
                s.w.m.v[r as usize] = v;
                s.w.m.id[r as usize] = id;
                drop(h);
                s.w.unhold(hold);
                out
            }
        };
        check(!out, "an operation panicked although user code did not");
        unsafe {
            HOOK = None;
            DROP_HOOK_AT = usize::MAX;
        }
        if let Some(y) = s.kept.take() {
            look(&y);
            cover("a dying node was kept");
        }
        s.w.gc();
        s.w.verify();
        if s.fired {
            cover("a destructor went through");
        }
        s.w.finish_in(param(0) % 2 == 0, false);
    }
    end();
}
fn stop() {
    unsafe {
        HOOK = None;
        DROP_HOOK_AT = usize::MAX;
    }
}
/// the iterator given to extend(). params: nodes (up to)
fn extend() {
    begin();
    {
        let mut s = world(param(0));
        let k = pick(2);
        let x = s.w.hn[k];
        let mut h = s.w.h[k].as_ref().unwrap().clone();
        s.busy[0] = root_of(&s.w.m, x);
        let hold = s.w.hold(x);
        s.ext = x;
        let total = 1 + pick(2);
        unsafe {
            EXT_FROM = NEXT as u16;
            S = &mut s;
            HOOK = Some(hook);
            HOOK_AT = pick(total + 1);
        }
        let mut n = 0;
        let out = catch(|| {
            h.extend(std::iter::from_fn(|| {
                let s = unsafe { &mut *S };
                // what came before has been added by now, or will be at the end
                tick();
                if n == total {
                    return None;
                }
                n += 1;
                let d = Tok::new(any8());
                let c = s.w.m.node(d.v);
                s.w.m.id[c as usize] = d.id;
                s.w.m.push_back(x, c);
                Some(Tree::new(d))
            }))
        });
        unsafe {
            HOOK = None;
            HOOK_AT = usize::MAX;
        }
        check(!out, "an operation panicked although user code did not");
        drop(h);
        s.w.unhold(hold);
        s.w.gc();
        s.w.verify();
        cover("extended meanwhile");
        s.w.finish_in(param(0) % 2 == 0, false);
    }
    end();
}
crate::harnesses! {
    c27_readers => readers,
    c27_destructors => destructors,
    c27_extend => extend,
}
