use crate::model::*;
use crate::rt::*;
use crate::world::*;

/// params: nodes in the tree (up to), nodes in the forest (up to), operations
fn history() {
    begin();
    let mut w = World::new(param(0), param(1), st(pick(3)), SIZE);
    w.verify();
    let mut k = 0;
    while k < param(2) {
        w.step();
        w.verify();
        k += 1;
    }
    cover("history complete");
}
/// params: nodes in the tree (up to), nodes in the forest (up to), operations, size of operands
fn probe() {
    begin();
    {
        let mut w = World::new(param(0), param(1), st(pick(3)), SIZE);
        w.verify();
        let mut k = 0;
        while k < param(2) {
            w.step();
            k += 1;
        }
        w.probe();
        w.finish();
    }
    end();
}
fn big() {
    crate::big::ops(SIZE)
}
fn wide() {
    crate::wide::wide(SIZE)
}
fn deep() {
    crate::wide::deep(SIZE)
}

/// component-wise arithmetic of sizes, over all 64-bit components
fn arith() {
    use trees::Size;
    let (a, b, c, d) = (any64(), any64(), any64(), any64());
    let (mut x, y) = (Size { degree: a as usize, descendants: b as usize }, Size { degree: c as usize, descendants: d as usize });
    let z;
    let sub = any_bool();
    let assign = any_bool();
    if sub {
        assume(a >= c && b >= d);
        if assign {
            x -= y;
            z = x;
        } else {
            z = x - y;
        }
        check_eq(z.degree as u64, a.wrapping_sub(c), "a difference of degrees is wrong");
        check_eq(z.descendants as u64, b.wrapping_sub(d), "a difference of descendants is wrong");
        check(z + y == Size { degree: a as usize, descendants: b as usize }, "sizes do not add up");
    } else {
        assume(a <= u64::MAX - c && b <= u64::MAX - d);
        if assign {
            x += y;
            z = x;
        } else {
            z = x + y;
        }
        check_eq(z.degree as u64, a.wrapping_add(c), "a sum of degrees is wrong");
        check_eq(z.descendants as u64, b.wrapping_add(d), "a sum of descendants is wrong");
        check((z == y) == (a == 0 && b == 0), "comparison of sizes is wrong");
    }
    cover("sizes added");
}

fn huge() {
    crate::huge::huge(crate::huge::SIZE)
}
crate::harnesses! {
    c02_big => big,
    c02_huge => huge,
    c02_history => history,
    c02_wide => wide,
    c02_deep => deep,
    c02_probe => probe,
    c02_arith => arith,
}
