use crate::rt::*;
use crate::tuples::*;
/// params: 0 tree shapes, 1 tree arities, 2 forest shapes, 3 forest arities, 4 large trees, 5 large forests
fn visits() {
    cases(&Visits, param(0))
}
crate::harnesses! { c06_visits => visits }
