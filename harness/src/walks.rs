//! What TreeWalk and ForestWalk have in common.
use crate::model::*;
use crate::rt::*;
use trees::walk::Visit;
use trees::{ForestWalk, Node, TreeWalk};

pub trait Walk {
    fn get(&self) -> Option<Visit<'_, Tok>>;
    fn next(&mut self) -> Option<Visit<'_, Tok>>;
    fn forward(&mut self);
    fn revisit(&mut self);
    fn to_parent(&mut self) -> Option<Visit<'_, Tok>>;
    fn get_parent(&self) -> Option<&Node<Tok>>;
    fn to_child(&mut self, n: usize) -> Option<Visit<'_, Tok>>;
    fn to_sib(&mut self, n: usize) -> Option<Visit<'_, Tok>>;
}
macro_rules! imp {
    ($t:ident) => {
        impl Walk for $t<Tok> {
            fn get(&self) -> Option<Visit<'_, Tok>> {
                self.get()
            }
            fn next(&mut self) -> Option<Visit<'_, Tok>> {
                self.next()
            }
            fn forward(&mut self) {
                self.forward()
            }
            fn revisit(&mut self) {
                self.revisit()
            }
            fn to_parent(&mut self) -> Option<Visit<'_, Tok>> {
                self.to_parent()
            }
            fn get_parent(&self) -> Option<&Node<Tok>> {
                self.get_parent()
            }
            fn to_child(&mut self, n: usize) -> Option<Visit<'_, Tok>> {
                self.to_child(n)
            }
            fn to_sib(&mut self, n: usize) -> Option<Visit<'_, Tok>> {
                self.to_sib(n)
            }
        }
    };
}
imp!(TreeWalk);
imp!(ForestWalk);

/// `want`: (node, is it the end of the node's visit)
pub fn expect(v: Option<Visit<'_, Tok>>, m: &M, want: Option<(u8, bool)>) {
    match (v, want) {
        (None, None) => {}
        (Some(v), Some((i, end))) => {
            let (x, kind) = match v {
                Visit::Begin(x) => (x, 0),
                Visit::End(x) => (x, 1),
                Visit::Leaf(x) => (x, 2),
            };
            check(std::ptr::eq(v.node(), x), "Visit::node() is not the visited node");
            check_eq(x.data().id as u64, m.id[i as usize] as u64, "a walk visits the wrong node");
            check_eq(x.data().v as u64, m.v[i as usize] as u64, "a datum changed its value");
            observe(x.data().v as u64);
            let k = if m.deg(i) == 0 {
                2
            } else if end {
                1
            } else {
                0
            };
            check_eq(kind, k, "a walk reports the wrong kind of visit");
        }
        (None, Some(_)) => check(false, "a walk has no current node although it should have one"),
        (Some(_), None) => check(false, "a walk has a current node although it should have none"),
    }
}
pub fn parent_id(p: Option<&Node<Tok>>) -> u32 {
    match p {
        None => u32::MAX,
        Some(p) => p.data().id as u32,
    }
}
/// parent as a walk sees it; a forest's virtual root `fr` does not count
pub fn parent_want(m: &M, i: u8, fr: u8) -> u32 {
    let p = m.parent(i);
    if p == NONE || p == fr {
        u32::MAX
    } else {
        m.id[p as usize] as u32
    }
}
