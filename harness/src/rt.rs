//! Harness runtime.  Under symbolic execution every `__sym_*` call is
//! interpreted by the engine; with feature `native` the same harness runs on the
//! real machine, reading the inputs the solver produced.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C-unwind" {
        pub fn __sym_any(width: u32) -> u64;
        pub fn __sym_choose(n: u32) -> u32;
        pub fn __sym_assume(c: bool);
        pub fn __sym_assert(c: bool, p: *const u8, n: usize);
        pub fn __sym_assert_eq(a: u64, b: u64, p: *const u8, n: usize);
        pub fn __sym_observe(v: u64);
        pub fn __sym_cover(p: *const u8, n: usize);
        pub fn __sym_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
        pub fn __sym_live() -> u64;
        pub fn __sym_concrete(v: u64) -> u64;
        pub fn __sym_param(i: u32) -> u64;
        pub fn __sym_spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8);
        pub fn __sym_join();
    }
    pub unsafe fn par(fa: extern "C-unwind" fn(*mut u8), da: *mut u8, fb: extern "C-unwind" fn(*mut u8), db: *mut u8) {
        __sym_spawn(fb, db);
        fa(da);
        __sym_join();
    }
}
#[cfg(feature = "native")]
pub mod imp {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub static mut INPUTS: Vec<(u32, u64)> = Vec::new();
    pub static mut PARAMS: Vec<u64> = Vec::new();
    pub static mut POS: usize = 0;
    pub static mut OBS: Vec<u64> = Vec::new();
    pub static mut FAIL: Option<String> = None;
    pub static LIVE: AtomicU64 = AtomicU64::new(0);
    pub struct Stop; // panic payload that ends a run early
    #[allow(static_mut_refs)]
    fn take(w: u32) -> u64 {
        unsafe {
            let p = POS;
            POS += 1;
            match INPUTS.get(p) {
                Some((iw, v)) => {
                    if *iw != w {
                        println!("NATIVE-DIVERGED: input {} has width {}, expected {}", p, iw, w);
                        std::process::exit(21);
                    }
                    *v
                }
                None => 0, // beyond the recorded prefix: unconstrained
            }
        }
    }
    pub unsafe fn __sym_any(w: u32) -> u64 {
        take(w)
    }
    pub unsafe fn __sym_choose(n: u32) -> u32 {
        let v = take(if n > 255 { 16 } else { 8 }) as u32;
        if v >= n {
            println!("NATIVE-DIVERGED: choice {} of {}", v, n);
            std::process::exit(21);
        }
        v
    }
    pub unsafe fn __sym_assume(c: bool) {
        if !c {
            println!("NATIVE-ASSUME-FALSE");
            std::process::exit(20);
        }
    }
    pub unsafe fn __sym_assert(c: bool, p: *const u8, n: usize) {
        if !c {
            let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
            println!("NATIVE-VIOLATION: assertion: {}", s);
            std::process::exit(10);
        }
    }
    pub unsafe fn __sym_assert_eq(a: u64, b: u64, p: *const u8, n: usize) {
        if a != b {
            let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
            println!("NATIVE-VIOLATION: assertion: {} ({} instead of {})", s, a, b);
            std::process::exit(10);
        }
    }
    #[allow(static_mut_refs)]
    pub unsafe fn __sym_observe(v: u64) {
        OBS.push(v);
    }
    pub unsafe fn __sym_cover(_: *const u8, _: usize) {}

    // ---- two threads: in turn, interleaved by single-stepping, or for real
    type F = extern "C-unwind" fn(*mut u8);
    pub static IN_ALLOC: AtomicU64 = AtomicU64::new(0);
    static mut ACTIVE: bool = false;
    static mut STEPS: u64 = 0;
    static mut SECOND: Option<(F, *mut u8)> = None;
    extern "C" {
        fn fork() -> i32;
        fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
        fn alarm(s: u32) -> u32;
        fn sigaction(n: i32, a: *const SigAction, o: *mut SigAction) -> i32;
        static __executable_start: u8;
        static etext: u8;
    }
    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    /// after every instruction of the first thread: what if the second ran here?
    #[allow(static_mut_refs)]
    unsafe extern "C" fn trap(_: i32, _: *mut u8, ctx: *mut u8) {
        let fl = ctx.add(40 + 8 * 17) as *mut u64;
        if !ACTIVE {
            *fl &= !0x100;
            return;
        }
        let rip = *(ctx.add(40 + 8 * 16) as *const u64);
        STEPS += 1;
        if STEPS > 2_000_000 {
            ACTIVE = false;
            *fl &= !0x100;
            return;
        }
        let (lo, hi) = (&raw const __executable_start as u64, &raw const etext as u64);
        if IN_ALLOC.load(Relaxed) > 0 || rip < lo || rip >= hi {
            return;
        }
        let p = fork();
        if p == 0 {
            ACTIVE = false;
            *fl &= !0x100;
            alarm(5);
            let (f, d) = SECOND.take().unwrap();
            f(d);
            return;
        }
        let mut st = 0;
        waitpid(p, &mut st, 0);
        if st != 0 {
            ACTIVE = false;
            *fl &= !0x100;
            println!("NATIVE-VIOLATION: fails (status {:#x}) if the second thread runs after step {} of the first", st, STEPS);
            std::process::exit(10);
        }
    }
    #[allow(static_mut_refs)]
    unsafe fn stepped(fa: F, da: *mut u8, fb: F, db: *mut u8) {
        SECOND = Some((fb, db));
        STEPS = 0;
        let a = SigAction { handler: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(5, &a, std::ptr::null_mut());
        ACTIVE = true;
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        fa(da);
        ACTIVE = false;
        if let Some((f, d)) = SECOND.take() {
            f(d)
        }
    }
    unsafe fn threads(fa: F, da: *mut u8, fb: F, db: *mut u8, b_first: bool) {
        let (d, ms) = (db as usize, std::time::Duration::from_millis(80));
        let h = std::thread::spawn(move || {
            if !b_first {
                std::thread::sleep(ms)
            }
            fb(d as *mut u8)
        });
        if b_first {
            std::thread::sleep(ms)
        }
        fa(da);
        h.join().unwrap();
    }
    pub unsafe fn par(fa: F, da: *mut u8, fb: F, db: *mut u8) {
        match std::env::var("PAR_MODE").as_deref() {
            Ok("reversed") => {
                fb(db);
                fa(da)
            }
            Ok("stepped") => stepped(fa, da, fb, db),
            Ok("stepped-reversed") => stepped(fb, db, fa, da),
            Ok("threads") => threads(fa, da, fb, db, false),
            Ok("threads-reversed") => threads(fa, da, fb, db, true),
            _ => {
                fa(da);
                fb(db)
            }
        }
    }
    pub unsafe fn __sym_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
        let q = d as usize;
        let live = LIVE.load(Relaxed);
        let r = std::panic::catch_unwind(move || f(q as *mut u8)).is_err();
        let _ = live;
        r as u32
    }
    pub unsafe fn __sym_live() -> u64 {
        LIVE.load(Relaxed)
    }
    pub unsafe fn __sym_concrete(v: u64) -> u64 {
        v
    }
    #[allow(static_mut_refs)]
    pub unsafe fn __sym_param(i: u32) -> u64 {
        PARAMS.get(i as usize).copied().unwrap_or(0)
    }
}

pub fn any8() -> u8 {
    unsafe { imp::__sym_any(8) as u8 }
}
pub fn any32() -> u32 {
    unsafe { imp::__sym_any(32) as u32 }
}
pub fn any64() -> u64 {
    unsafe { imp::__sym_any(64) }
}
pub fn any_bool() -> bool {
    unsafe { imp::__sym_any(1) == 1 }
}
/// an unknown in 0..n
pub fn choose(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    unsafe { imp::__sym_choose(n as u32) as usize }
}
/// an unknown in 0..n on which the path is split right away
pub fn pick(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    unsafe { imp::__sym_concrete(imp::__sym_choose(n as u32) as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { imp::__sym_assume(c) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { imp::__sym_assert(c, msg.as_ptr(), msg.len()) }
}
/// `a` (from the code under test) must equal `b` (from the model)
pub fn check_eq(a: u64, b: u64, msg: &'static str) {
    unsafe { imp::__sym_assert_eq(a, b, msg.as_ptr(), msg.len()) }
}
pub fn observe(v: u64) {
    unsafe { imp::__sym_observe(v) }
}
pub fn cover(msg: &'static str) {
    unsafe { imp::__sym_cover(msg.as_ptr(), msg.len()) }
}
/// number of live heap allocations
pub fn live() -> u64 {
    unsafe { imp::__sym_live() }
}
pub fn param(i: u32) -> usize {
    unsafe { imp::__sym_param(i) as usize }
}
/// run `f`; true if it panicked
pub fn catch<F: FnOnce()>(f: F) -> bool {
    extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<F>)).take().unwrap() };
        f()
    }
    let mut o = Some(f);
    unsafe { imp::__sym_catch(tramp::<F>, &mut o as *mut Option<F> as *mut u8) != 0 }
}
/// run two threads, the first one on this stack; what the closures share lies on the heap
/// (that the compiler lets the closures be sent is for c21_whose to say)
pub fn par<A: FnOnce(), B: FnOnce()>(a: A, b: B) {
    extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<F>)).take().unwrap() };
        f()
    }
    let (mut a, mut b) = (Box::new(Some(a)), Box::new(Some(b)));
    unsafe { imp::par(tramp::<A>, &mut *a as *mut Option<A> as *mut u8, tramp::<B>, &mut *b as *mut Option<B> as *mut u8) }
}
/// a position in 0..n: every one if n is at most 64, or if all are asked for
/// (parameter 7); else the ends, the middle and the edges of small integer types
pub fn pos(n: usize) -> usize {
    if n <= 64 || param(7) == 1 {
        return pick(n);
    }
    let l = [0, 1, n / 2, 127, 128, 255, 256, n - 2, n - 1];
    let k = l[pick(9)];
    if k < n {
        k
    } else {
        n - 1
    }
}
