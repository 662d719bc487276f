//! Native runner: replays recorded inputs against the real build.
//! usage: replay HARNESS[:params] FILE   (FILE: one run per line, `w:v,w:v,...`)
use harness::rt::imp;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering::Relaxed;

/// Counts live blocks and checks that every block is released once, with the
/// layout it was requested with.
struct Check;
const MAGIC: u64 = 0x5afe_a110_c8ed_b10c;
const DEAD: u64 = 0xdead_a110_c8ed_b10c;
unsafe fn pad(l: &Layout) -> usize {
    l.align().max(32)
}
fn die(msg: &str) -> ! {
    // no allocation here
    unsafe {
        extern "C" {
            fn write(fd: i32, p: *const u8, n: usize) -> isize;
            fn _exit(c: i32) -> !;
        }
        write(1, msg.as_ptr(), msg.len());
        _exit(10)
    }
}
unsafe impl GlobalAlloc for Check {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        imp::IN_ALLOC.fetch_add(1, Relaxed);
        let p = pad(&l);
        let b = System.alloc(Layout::from_size_align_unchecked(l.size() + p, l.align().max(16)));
        if b.is_null() {
            return b;
        }
        let u = b.add(p);
        let h = u.sub(24) as *mut u64;
        *h = MAGIC;
        *h.add(1) = l.size() as u64;
        *h.add(2) = l.align() as u64;
        imp::LIVE.fetch_add(1, Relaxed);
        imp::IN_ALLOC.fetch_sub(1, Relaxed);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        imp::IN_ALLOC.fetch_add(1, Relaxed);
        let h = u.sub(24) as *mut u64;
        if *h == DEAD {
            die("NATIVE-VIOLATION: double free\n");
        }
        if *h != MAGIC {
            die("NATIVE-VIOLATION: free of a pointer that was not allocated\n");
        }
        if *h.add(1) != l.size() as u64 || *h.add(2) != l.align() as u64 {
            die("NATIVE-VIOLATION: free with a different layout\n");
        }
        *h = DEAD;
        imp::LIVE.fetch_sub(1, Relaxed);
        let p = pad(&l);
        System.dealloc(u.sub(p), Layout::from_size_align_unchecked(l.size() + p, l.align().max(16)));
        imp::IN_ALLOC.fetch_sub(1, Relaxed);
    }
}
#[global_allocator]
static A: Check = Check;

#[allow(static_mut_refs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut it = a[1].splitn(2, ':');
    let name = it.next().unwrap().to_string();
    let params: Vec<u64> = it.next().map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let file = std::fs::read_to_string(&a[2]).unwrap();
    let mut f = None;
    for t in harness::tables() {
        for (n, g) in t.iter() {
            if *n == name {
                f = Some(*g);
            }
        }
    }
    let f = f.expect("unknown harness");
    let verbose = a.len() > 3;
    if !verbose {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for line in file.lines() {
        // entries of width 2 are scheduling decisions: not inputs of the harness
        let inputs: Vec<(u32, u64)> = line
            .split(',')
            .map(|s| s.trim())
            .filter(|s| !s.is_empty())
            .map(|s| {
                let mut p = s.split(':');
                (p.next().unwrap().parse().unwrap(), p.next().unwrap().parse().unwrap())
            })
            .filter(|(w, _): &(u32, u64)| *w != 2)
            .collect();
        unsafe {
            imp::INPUTS = inputs;
            imp::PARAMS = params.clone();
            imp::POS = 0;
            imp::OBS = Vec::with_capacity(4096);
        }
        // one warm-up catch so that the panic machinery's own allocations do not count
        let _ = std::panic::catch_unwind(|| panic!("warm-up"));
        let r = std::panic::catch_unwind(|| f());
        if r.is_err() {
            println!("NATIVE-VIOLATION: unexpected panic");
            std::process::exit(10);
        }
        unsafe {
            let o: Vec<String> = imp::OBS.iter().map(|x| x.to_string()).collect();
            println!("OBS {}", o.join(","));
        }
    }
    println!("NATIVE-OK");
}
