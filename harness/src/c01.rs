use crate::model::*;
use crate::rt::*;
use crate::world::*;

/// params: nodes in the tree (up to), nodes in the forest (up to), operations
fn history() {
    begin();
    let mut w = World::new(param(0), param(1), st(pick(3)), ORDER);
    let mut k = 0;
    while k < param(2) {
        w.step();
        w.verify();
        k += 1;
    }
    cover("history complete");
    w.finish();
    end();
}

/// params: nodes in the tree (up to), nodes in the forest (up to), operations, size of operands
fn probe() {
    begin();
    {
        let mut w = World::new(param(0), param(1), st(pick(3)), ORDER);
        w.verify();
        let mut k = 0;
        while k < param(2) {
            w.step();
            k += 1;
        }
        w.probe();
        w.finish();
    }
    end();
}
fn big() {
    crate::big::ops(ORDER)
}
fn wide() {
    crate::wide::wide(ORDER)
}
fn deep() {
    crate::wide::deep(ORDER)
}

fn huge() {
    crate::huge::huge(crate::huge::ORDER)
}
crate::harnesses! {
    c01_big => big,
    c01_huge => huge,
    c01_history => history,
    c01_wide => wide,
    c01_deep => deep,
    c01_probe => probe,
}
