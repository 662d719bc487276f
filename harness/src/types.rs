//! The same manipulations with data of unusual layout.
use crate::model::{begin, end};
use crate::rt::*;
use std::pin::Pin;
use trees::{Forest, Node, RcNode, Tree};

pub trait Elem: Clone + Unpin {
    fn mk(v: u8) -> Self;
    /// the value, as far as the type carries one
    fn val(&self) -> u8;
    const CARRIES: bool = true;
}
static mut LIVE_ELEMS: isize = 0;
static mut MADE: usize = 0;
fn born() {
    unsafe {
        LIVE_ELEMS += 1;
        MADE += 1;
    }
}
fn died() {
    unsafe {
        LIVE_ELEMS -= 1;
        check(LIVE_ELEMS >= 0, "more data dropped than were made");
    }
}

/// zero-sized
pub struct Z;
impl Elem for Z {
    fn mk(_: u8) -> Z {
        born();
        Z
    }
    fn val(&self) -> u8 {
        0
    }
    const CARRIES: bool = false;
}
impl Clone for Z {
    fn clone(&self) -> Z {
        Z::mk(0)
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        died()
    }
}
/// over-aligned
#[repr(align(64))]
pub struct A64(u8);
impl Elem for A64 {
    fn mk(v: u8) -> A64 {
        born();
        A64(v)
    }
    fn val(&self) -> u8 {
        check(self as *const A64 as usize % 64 == 0, "a datum is misaligned");
        self.0
    }
}
impl Clone for A64 {
    fn clone(&self) -> A64 {
        A64::mk(self.0)
    }
}
impl Drop for A64 {
    fn drop(&mut self) {
        died()
    }
}
/// owns heap memory
pub struct B(Box<u8>);
impl Elem for B {
    fn mk(v: u8) -> B {
        born();
        B(Box::new(v))
    }
    fn val(&self) -> u8 {
        *self.0
    }
}
impl Clone for B {
    fn clone(&self) -> B {
        B::mk(*self.0)
    }
}
impl Drop for B {
    fn drop(&mut self) {
        died()
    }
}
/// large
pub struct L([u64; 9], u8);
impl Elem for L {
    fn mk(v: u8) -> L {
        born();
        L([v as u64; 9], v)
    }
    fn val(&self) -> u8 {
        check_eq(self.0[8], self.1 as u64, "a datum was torn");
        self.1
    }
}
impl Clone for L {
    fn clone(&self) -> L {
        L::mk(self.1)
    }
}
impl Drop for L {
    fn drop(&mut self) {
        died()
    }
}
/// one byte
pub struct U(u8);
impl Elem for U {
    fn mk(v: u8) -> U {
        born();
        U(v)
    }
    fn val(&self) -> u8 {
        self.0
    }
}
impl Clone for U {
    fn clone(&self) -> U {
        U::mk(self.0)
    }
}
impl Drop for U {
    fn drop(&mut self) {
        died()
    }
}

fn expect<T: Elem>(n: &Node<T>, v: u8) {
    if T::CARRIES {
        check_eq(n.data().val() as u64, v as u64, "a datum of an unusual type changed its value");
    } else {
        n.data().val();
    }
}
fn run<T: Elem>() {
    let (a, b, c, d, e) = (any8(), any8(), any8(), any8(), any8());
    {
        // a( b( c ) d )
        let mut t: Tree<T> = match pick(3) {
            0 => {
                let mut t = Tree::new(T::mk(a));
                let mut x = Tree::new(T::mk(b));
                x.push_back(Tree::new(T::mk(c)));
                t.push_back(x);
                t.push_back(Tree::new(T::mk(d)));
                t
            }
            1 => Tree::from_tuple((T::mk(a), (T::mk(b), T::mk(c)), T::mk(d))),
            _ => {
                let mut f: Forest<T> = Forest::from_tuple(((T::mk(b), T::mk(c)), T::mk(d)));
                let mut t = Tree::new(T::mk(a));
                if any_bool() {
                    t.append(f);
                } else {
                    let y = f.pop_back();
                    t.prepend(f);
                    if let Some(y) = y {
                        t.push_back(y);
                    }
                }
                t
            }
        };
        check_eq(t.node_count() as u64, 4, "node count is wrong");
        expect(t.root(), a);
        expect(t.front().unwrap(), b);
        expect(t.front().unwrap().front().unwrap(), c);
        expect(t.back().unwrap(), d);
        match pick(9) {
            0 => {
                let x = t.front_mut().unwrap().detach();
                expect(x.root(), b);
                expect(x.front().unwrap(), c);
                expect(t.front().unwrap(), d);
                t.push_back(x);
                expect(t.back().unwrap(), b);
            }
            1 => {
                let f = t.abandon();
                expect(t.root(), a);
                expect(f.front().unwrap(), b);
                expect(f.back().unwrap(), d);
            }
            2 => {
                let u = Tree::from(t.into_bfs());
                expect(u.root(), a);
                expect(u.front().unwrap(), b);
                expect(u.back().unwrap(), d);
                expect(u.front().unwrap().front().unwrap(), c);
                t = u;
            }
            3 => {
                let u = t.clone();
                drop(std::mem::replace(&mut t, Tree::new(T::mk(e))));
                expect(u.front().unwrap().front().unwrap(), c);
                expect(u.back().unwrap(), d);
            }
            4 => {
                let r = RcNode::from(t);
                let x = r.front().unwrap();
                let w = x.downgrade();
                let y = x.front().unwrap();
                drop(x);
                drop(r);
                check(w.upgrade().is_none(), "a weak handle outlived its node");
                if T::CARRIES {
                    check_eq(y.data().val() as u64, c as u64, "a datum of an unusual type changed its value");
                }
                t = Tree::new(T::mk(e));
            }
            5 => {
                t.front_mut().unwrap().insert_next_sib(Tree::new(T::mk(e)));
                let mut it = t.iter();
                expect(it.next().unwrap(), b);
                expect(it.next().unwrap(), e);
                expect(it.next().unwrap(), d);
            }
            6 => {
                let mut k = 0;
                let mut it = t.into_bfs().wrap().iter();
                let cut = pick(5);
                while k < cut {
                    let v = it.next().unwrap();
                    if T::CARRIES {
                        let w = match k {
                            0 => a,
                            1 => b,
                            2 => d,
                            _ => c,
                        };
                        check_eq(v.data.val() as u64, w as u64, "a datum of an unusual type changed its value");
                    }
                    k += 1;
                }
                t = Tree::new(T::mk(e));
            }
            7 => {
                let w = trees::TreeWalk::from(t);
                t = Tree::from(w);
                expect(t.root(), a);
            }
            _ => {
                let mut n = 0;
                while let Some(x) = t.pop_back() {
                    expect(x.root(), if n == 0 { d } else { b });
                    n += 1;
                }
                check_eq(n, 2, "wrong number of children popped");
            }
        }
        t.root().data().val();
        drop(t);
    }
    unsafe { check(LIVE_ELEMS == 0, "data of an unusual type were not dropped exactly once") }
}
pub fn types() {
    begin();
    unsafe {
        LIVE_ELEMS = 0;
        MADE = 0;
    }
    match pick(5) {
        0 => run::<Z>(),
        1 => run::<A64>(),
        2 => run::<B>(),
        3 => run::<L>(),
        _ => run::<U>(),
    }
    cover("types done");
    end();
}
