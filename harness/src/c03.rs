use crate::model::*;
use crate::rt::*;
use crate::world::*;

/// params: nodes in the tree (up to), nodes in the forest (up to), operations
fn history() {
    begin();
    let mut w = World::new(param(0), param(1), st(pick(3)), LINKS);
    w.verify();
    let mut k = 0;
    while k < param(2) {
        w.step();
        w.verify();
        k += 1;
    }
    cover("history complete");
}
/// params: nodes in the tree (up to), nodes in the forest (up to), operations, size of operands
fn probe() {
    begin();
    {
        let mut w = World::new(param(0), param(1), st(pick(3)), LINKS);
        w.verify();
        let mut k = 0;
        while k < param(2) {
            w.step();
            k += 1;
        }
        w.probe();
        w.finish();
    }
    end();
}
fn big() {
    crate::big::ops(LINKS)
}
fn wide() {
    crate::wide::wide(LINKS)
}
fn deep() {
    crate::wide::deep(LINKS)
}

fn huge() {
    crate::huge::huge(crate::huge::LINKS)
}
crate::harnesses! {
    c03_big => big,
    c03_huge => huge,
    c03_history => history,
    c03_wide => wide,
    c03_deep => deep,
    c03_probe => probe,
}
