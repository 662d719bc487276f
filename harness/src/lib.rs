#![allow(dead_code, unused_imports)]
pub mod rt;
pub mod model;
pub mod world;
pub mod wide;
pub mod huge;
pub mod big;
pub mod types;
pub mod walks;
pub mod rcworld;
#[cfg(any(feature = "c05", feature = "c06", feature = "c28"))]
pub mod tuples;
#[cfg(any(feature = "c05", feature = "c06", feature = "c28"))]
pub mod tuples_gen;

/// Declares the harness entry points of a module and, natively, a table of them.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() { $body() })*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

macro_rules! props {
    ($($m:ident $f:literal)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        #[cfg(feature = "native")]
        pub fn tables() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
            #[allow(unused_mut)]
            let mut v: Vec<&'static [(&'static str, extern "C-unwind" fn())]> = vec![];
            $(#[cfg(feature = $f)] v.push($m::TABLE);)*
            v
        }
    };
}
props! {
    c01 "c01"
    c02 "c02"
    c03 "c03"
    c04 "c04"
    c05 "c05"
    c06 "c06"
    c07 "c07"
    c08 "c08"
    c09 "c09"
    c10 "c10"
    c11 "c11"
    c12 "c12"
    c13 "c13"
    c14 "c14"
    c15 "c15"
    c17 "c17"
    c16 "c16"
    c18 "c18"
    c20 "c20"
    c21 "c21"
    c22 "c22"
    c23 "c23"
    c24 "c24"
    c25 "c25"
    c26 "c26"
    c27 "c27"
    c28 "c28"
}
