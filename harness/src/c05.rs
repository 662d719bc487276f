use crate::rt::*;
use crate::tuples::*;
/// params: 0 tree shapes, 1 tree arities, 2 forest shapes, 3 forest arities, 4 large trees, 5 large forests
fn build() {
    cases(&Build, param(0))
}
crate::harnesses! { c05_build => build }
