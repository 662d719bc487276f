//! Symbolic executor.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::val::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub base: u32,
    pub blk: u32,
    pub pc: u32,
    pub prev: u32,
    pub smark: u32,
    pub catch: bool,
}

#[derive(Clone)]
pub struct HSlot {
    pub obj: Option<Arc<Obj>>,
    pub size: u64,
    pub align: u64,
}
#[derive(Clone, Copy)]
pub struct SObj {
    pub id: u32,
    pub off: u32,
    pub size: u32,
}

/// registers and stack of a thread that is not running
#[derive(Clone)]
pub struct Ctx {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub stack: Bytes,
    pub sobjs: Vec<SObj>,
    pub next_sid: u32,
}
/// Two threads between a spawn and its join.  The running one has its context in
/// `State`.  Clocks are vector clocks over the two threads.
#[derive(Clone)]
pub struct Conc {
    pub cur: usize,
    pub other: Option<Ctx>, // None once the second thread has ended
    pub waits: bool,        // the first thread is at the join
    pub skip: [bool; 2],    // do not ask again about the atomic access it was switched away at
    pub vc: [[u32; 2]; 2],
    pub acq: [[u32; 2]; 2],
    pub rel: [[u32; 2]; 2],
    pub loc: BTreeMap<u64, [u32; 2]>,
    /// per object and byte: when each thread last wrote, read, wrote atomically, read atomically
    pub sh: BTreeMap<u64, Arc<Vec<[[u32; 4]; 2]>>>,
    pub tls: BTreeMap<u64, u64>,
    pub obs: Vec<Val>,
    pub atomic: bool,
    pub switches: u32,
}
pub const SPAWN_SID: u32 = 1 << 27;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub heap: Vec<HSlot>,
    pub live: u64,
    pub stack: Bytes,
    pub sobjs: Vec<SObj>,
    pub next_sid: u32,
    pub globs: BTreeMap<u32, Arc<Obj>>,
    pub cons: Vec<T>,
    pub model: Vec<u64>,
    pub vw: Vec<u32>,
    pub obs: Vec<Val>,
    pub covers: Vec<u64>,
    pub steps: u64,
    pub panics: u32,
    pub depth: u32,
    pub panic_at: String,
    pub conc: Option<Box<Conc>>,
}

pub enum Stop {
    Done,
    Infeasible,
    Viol(String),
    Unsup(String),
    Limit(String),
    Unknown(String),
    Forked, // state requeued
}
type X<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub inputs: Vec<(u32, u64)>,
    pub stack: Vec<String>,
    pub kind: &'static str,
}
#[derive(Clone, Debug)]
pub struct PathSample {
    pub inputs: Vec<(u32, u64)>,
    pub obs: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sp {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    Panic,
    Abort,
    Any,
    Choose,
    Assume,
    Assert,
    AssertEq,
    Observe,
    Cover,
    Catch,
    Live,
    Concrete,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memset,
    Random,
    Zero,
    Written,
    Spawn,
    Join,
    Name, // current symbolic bound parameter
}

pub struct Limits {
    pub steps: u64,
    pub depth: usize,
    pub wall: Duration,
    pub max_viol: usize,
    pub samples: usize,
}

pub struct Shared<'a> {
    pub m: &'a Module,
    pub sp: Vec<Sp>,
    pub cache: &'a Cache,
    pub lim: Limits,
    pub params: Vec<u64>,
    pub q: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicU64,
    pub nworkers: u64,
    pub stop: AtomicBool,
    pub paths: AtomicU64,
    pub forks: AtomicU64,
    pub steps: AtomicU64,
    pub infeasible: AtomicU64,
    pub asserts: AtomicU64,
    pub asserts_sym: AtomicU64,
    pub viols: Mutex<Vec<Violation>>,
    pub errors: Mutex<Vec<Violation>>,
    pub samples: Mutex<Vec<PathSample>>,
    pub covers: Mutex<std::collections::HashMap<String, u64>>,
    pub used: Vec<AtomicU8>,
    pub t0: Instant,
    pub timed_out: AtomicBool,
    pub hungry: AtomicBool,
    pub seed: u64,
    pub max_depth: AtomicU64,
    pub max_steps: AtomicU64,
    pub max_vars: AtomicU64,
}

pub fn special(name: &str) -> Sp {
    match name {
        "__sym_any" => return Sp::Any,
        "__sym_choose" => return Sp::Choose,
        "__sym_assume" => return Sp::Assume,
        "__sym_assert" => return Sp::Assert,
        "__sym_assert_eq" => return Sp::AssertEq,
        "__sym_observe" => return Sp::Observe,
        "__sym_cover" => return Sp::Cover,
        "__sym_catch" => return Sp::Catch,
        "__sym_live" => return Sp::Live,
        "__sym_concrete" => return Sp::Concrete,
        "__sym_param" => return Sp::Name,
        "__sym_spawn" => return Sp::Spawn,
        "__sym_join" => return Sp::Join,
        "memcmp" => return Sp::Memcmp,
        "bcmp" => return Sp::Bcmp,
        "strlen" => return Sp::Strlen,
        "memcpy" | "memmove" => return Sp::Memcpy,
        "memset" => return Sp::Memset,
        // seeds of hash maps are fixed; destructors of thread locals do not run; output is dropped
        "getrandom" => return Sp::Random,
        "__cxa_thread_atexit_impl" => return Sp::Zero,
        "write" => return Sp::Written,
        "abort" => return Sp::Abort,
        _ => {}
    }
    if name.contains("7___rustc") {
        if name.ends_with("12___rust_alloc") {
            return Sp::Alloc;
        }
        if name.ends_with("14___rust_dealloc") {
            return Sp::Dealloc;
        }
        if name.ends_with("14___rust_realloc") {
            return Sp::Realloc;
        }
        if name.ends_with("19___rust_alloc_zeroed") {
            return Sp::AllocZ;
        }
        if name.contains("___rust_no_alloc_shim") {
            return Sp::Nop;
        }
    }
    if name.starts_with("_RNvNtCs") && name.contains("_4core9panicking") {
        if name.ends_with("9panic_fmt") {
            return Sp::Panic;
        }
        if name.ends_with("18panic_nounwind_fmt")
            || name.ends_with("14panic_nounwind")
            || name.ends_with("26panic_nounwind_nobacktrace")
            || name.ends_with("19panic_cannot_unwind")
            || name.ends_with("16panic_in_cleanup")
        {
            return Sp::Abort;
        }
    }
    if (name.starts_with("_RINv") || name.starts_with("_RNv")) && name.contains("3std9panicking") && !name.contains("NCI") {
        if name.contains("9panicking11begin_panic") || name.contains("9panicking15panic_with_hook") || name.contains("9panicking9panic_any") {
            return Sp::Panic;
        }
    }
    if name.contains("3std7process5abort") || name.contains("18handle_alloc_error") {
        return Sp::Abort;
    }
    Sp::None
}

enum Place {
    Heap(usize, usize),
    Stack(usize, usize),
    Glob(u32, usize),
    None, // zero-sized access
}

pub struct Worker<'a> {
    pub sh: &'a Shared<'a>,
    pub slv: Solver<'a>,
    pub local: Vec<State>,
    pub rng: u64,
}

fn demangle(n: &str) -> String {
    // enough of a readable name: keep the identifier pieces of a v0 symbol
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' || b[i] == b'C' {
            // disambiguators / backrefs: skip to '_'
            if b[i] == b'C' {
                i += 1;
                continue;
            }
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl State {
    pub fn new(f: &'static Func) -> State {
        let mut s = State {
            frames: vec![],
            regs: vec![Val::U; f.nregs as usize],
            heap: vec![],
            live: 0,
            stack: Bytes::default(),
            sobjs: vec![],
            next_sid: 1,
            globs: BTreeMap::new(),
            cons: vec![],
            model: vec![],
            vw: vec![],
            obs: vec![],
            covers: vec![],
            steps: 0,
            panics: 0,
            depth: 0,
            panic_at: String::new(),
            conc: None,
        };
        s.frames.push(Frame { f, base: 0, blk: 0, pc: 0, prev: 0, smark: 0, catch: false });
        s
    }
    fn inputs(&self) -> Vec<(u32, u64)> {
        self.vw.iter().zip(self.model.iter()).map(|(w, v)| (*w, *v)).collect()
    }
    fn backtrace(&self) -> Vec<String> {
        self.frames.iter().rev().take(24).map(|f| demangle(&f.f.name)).collect()
    }
    fn alloc(&mut self, size: u64, align: u64, zero: bool) -> u64 {
        let id = self.heap.len() as u64;
        let mut o = Obj::new(size, align);
        if zero {
            o.b.t.fill(TC);
        }
        self.heap.push(HSlot { obj: Some(Arc::new(o)), size, align });
        self.live += 1;
        HEAP_BASE + (id << SLOT_BITS) + SLOT_OFF
    }
    fn pop_stack(&mut self, mark: u32) {
        if self.sobjs.len() > mark as usize {
            let off = self.sobjs[mark as usize].off as usize;
            if !self.stack.s.is_empty() && self.stack.t[off..].iter().any(|t| *t == TS) {
                let _ = self.stack.s.split_off(&(off as u32));
            } else if !self.stack.s.is_empty() {
                let _ = self.stack.s.split_off(&(off as u32));
            }
            self.stack.c.truncate(off);
            self.stack.t.truncate(off);
            self.sobjs.truncate(mark as usize);
        }
    }
}

macro_rules! viol { ($($a:tt)*) => { return Err(Stop::Viol(format!($($a)*))) } }

impl<'a> Worker<'a> {
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---------- solver interface ----------
    /// constraints of the path that share variables (transitively) with `q`
    fn slice(&self, st: &State, q: &T) -> Vec<T> {
        let mut vars = q.vars;
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![q.clone()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && c.vars & vars != 0 {
                    used[i] = true;
                    vars |= c.vars;
                    out.push(c.clone());
                    ch = true;
                }
            }
            if !ch {
                return out;
            }
        }
    }
    /// feasibility of the path together with `q`; a model of all variables if so
    fn feasible(&mut self, st: &State, q: &T) -> X<Option<Vec<u64>>> {
        if let Some(c) = q.c() {
            return Ok(if c == 1 { Some(st.model.clone()) } else { None });
        }
        if eval(q, &st.model) == 1 {
            self.sh.cache.stats.model_hits.fetch_add(1, Relaxed);
            return Ok(Some(st.model.clone()));
        }
        let cs = self.slice(st, q);
        match self.slv.check(&cs, &st.vw) {
            Ans::Sat(m) => {
                let mut r = st.model.clone();
                for (i, v) in m.iter() {
                    r[*i as usize] = *v;
                }
                Ok(Some(r))
            }
            Ans::Unsat => Ok(None),
            Ans::Unknown => Err(Stop::Unknown("solver returned unknown".into())),
        }
    }
    fn add(&self, st: &mut State, c: T) {
        if c.c() == Some(1) {
            return;
        }
        st.cons.push(c);
    }
    fn push(&mut self, st: State) {
        self.sh.forks.fetch_add(1, Relaxed);
        self.local.push(st);
        if self.sh.hungry.load(Relaxed) && self.local.len() > 1 {
            let k = self.local.len() / 2;
            let give: Vec<State> = self.local.drain(..k.max(1)).collect();
            let mut q = self.sh.q.lock().unwrap();
            q.extend(give);
            self.sh.hungry.store(false, Relaxed);
            self.sh.cv.notify_all();
        }
    }

    /// make a value concrete; other feasible values are explored by forks that
    /// re-execute the current instruction
    fn concrete(&mut self, st: &mut State, v: &Val, w: u32, what: &str) -> X<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(t) => {
                let c = eval(t, &st.model);
                let eq = t_cmp(Pred::Eq, t, &konst(c, t.w));
                let ne = t_not(&eq);
                if let Some(m) = self.feasible(st, &ne)? {
                    let mut o = st.clone();
                    o.model = m;
                    self.add(&mut o, ne);
                    self.push(o);
                }
                self.add(st, eq);
                Ok(c as u64)
            }
            _ => {
                let _ = w;
                viol!("use of an uninitialised value as {}", what)
            }
        }
    }

    // ---------- memory ----------
    fn place(&self, st: &mut State, a: u64, n: u64, write: bool) -> X<Place> {
        let p = self.locate(st, a, n, write)?;
        if st.conc.is_some() {
            self.access(st, &p, n, write)?;
        }
        Ok(p)
    }
    /// a memory access by one of two threads: is it ordered with those of the other?
    fn access(&self, st: &mut State, p: &Place, n: u64, write: bool) -> X<()> {
        let (key, off, size) = match p {
            Place::Heap(i, o) => (HEAP_BASE + ((*i as u64) << SLOT_BITS), *o, st.heap[*i].size),
            Place::Glob(i, o) => {
                let g = self.sh.m.global(*i).map_err(Stop::Unsup)?;
                if g.konst {
                    return Ok(());
                }
                (GLOB_BASE + ((*i as u64) << SLOT_BITS), *o, g.size)
            }
            _ => return Ok(()),
        };
        let c = st.conc.as_mut().unwrap();
        let (t, o) = (c.cur, 1 - c.cur);
        let seen = c.vc[t][o];
        let now = c.vc[t][t];
        let kind = if write { 0 } else { 1 } + if c.atomic { 2 } else { 0 };
        let sh = c.sh.entry(key).or_insert_with(|| Arc::new(vec![[[0; 4]; 2]; size as usize]));
        let sh = Arc::make_mut(sh);
        // the accesses this one must be ordered after
        let bad: &[usize] = match kind {
            0 => &[0, 1, 2, 3],
            1 => &[0, 2],
            2 => &[0, 1],
            _ => &[0],
        };
        for b in off..off + n as usize {
            for k in bad {
                if sh[b][o][*k] > seen {
                    let name = ["write", "read", "atomic write", "atomic read"];
                    viol!("data race: {} of {} bytes at offset {} of a {}-byte {} is not ordered after the other thread's {}", name[kind], n, off, size,
                        if let Place::Heap(..) = p { "allocation" } else { "static" }, name[*k]);
                }
            }
            sh[b][t][kind] = now;
        }
        Ok(())
    }
    /// an atomic access is about to happen: the other thread may run first
    fn sched(&mut self, st: &mut State) -> X<bool> {
        let c = match st.conc.as_mut() {
            Some(c) => c,
            None => return Ok(false),
        };
        if c.skip[c.cur] {
            c.skip[c.cur] = false;
            return Ok(false);
        }
        if c.waits || c.other.is_none() {
            return Ok(false);
        }
        let cur = c.cur;
        let t = self.newvar(st, 2);
        let mut o = st.clone();
        self.add(&mut o, t_cmp(Pred::Eq, &t, &konst(1, 2)));
        *o.model.last_mut().unwrap() = 1;
        {
            let c = o.conc.as_mut().unwrap();
            c.skip[cur] = true;
            c.switches += 1;
        }
        Self::swap(&mut o);
        self.push(o);
        self.add(st, t_cmp(Pred::Eq, &t, &konst(0, 2)));
        Ok(false)
    }
    /// exchange the running thread and the other one
    fn swap(st: &mut State) {
        let c = st.conc.as_mut().unwrap();
        let mut x = c.other.take().unwrap();
        std::mem::swap(&mut x.frames, &mut st.frames);
        std::mem::swap(&mut x.regs, &mut st.regs);
        std::mem::swap(&mut x.stack, &mut st.stack);
        std::mem::swap(&mut x.sobjs, &mut st.sobjs);
        std::mem::swap(&mut x.next_sid, &mut st.next_sid);
        c.other = Some(x);
        c.cur = 1 - c.cur;
    }
    /// clocks of an atomic access: `r` it reads, `w` it writes, `rmw` both in one
    fn sync(st: &mut State, a: u64, ord: u8, r: bool, w: bool) {
        let c = match st.conc.as_mut() {
            Some(c) => c,
            None => return,
        };
        let t = c.cur;
        let join = |x: &mut [u32; 2], y: [u32; 2]| {
            x[0] = x[0].max(y[0]);
            x[1] = x[1].max(y[1]);
        };
        let old = c.loc.get(&a).copied().unwrap_or([0, 0]);
        if r {
            if ord & 2 != 0 {
                join(&mut c.vc[t], old);
            }
            join(&mut c.acq[t], old);
        }
        if w {
            // what a release sequence headed here carries
            let mut v = if r { old } else { [0, 0] };
            let rel = if ord & 4 != 0 { c.vc[t] } else { c.rel[t] };
            join(&mut v, rel);
            c.loc.insert(a, v);
            if ord & 4 != 0 {
                c.vc[t][t] += 1;
            }
        }
    }
    fn atomically(&self, st: &mut State, on: bool) -> X<()> {
        if let Some(c) = st.conc.as_mut() {
            c.atomic = on;
        }
        Ok(())
    }
    fn fence(st: &mut State, ord: u8) {
        if let Some(c) = st.conc.as_mut() {
            let t = c.cur;
            if ord & 2 != 0 {
                let a = c.acq[t];
                c.vc[t][0] = c.vc[t][0].max(a[0]);
                c.vc[t][1] = c.vc[t][1].max(a[1]);
            }
            if ord & 4 != 0 {
                c.rel[t] = c.vc[t];
                c.vc[t][t] += 1;
            }
        }
    }
    fn locate(&self, st: &State, a: u64, n: u64, write: bool) -> X<Place> {
        if n == 0 {
            return Ok(Place::None);
        }
        let verb = if write { "write" } else { "read" };
        if a >= STACK_BASE && a < STACK_END {
            let id = ((a - STACK_BASE) >> SLOT_BITS) as u32;
            let off = ((a - STACK_BASE) & ((1 << SLOT_BITS) - 1)) as i64 - SLOT_OFF as i64;
            let so = &st.sobjs;
            // binary search by id (ids increase along the stack)
            let k = so.partition_point(|o| o.id < id);
            if k >= so.len() || so[k].id != id {
                if let Some(Conc { other: Some(x), .. }) = st.conc.as_deref() {
                    if x.sobjs.iter().any(|o| o.id == id) {
                        return Err(Stop::Unsup("a thread uses the stack of another".into()));
                    }
                }
                viol!("{} through a dangling pointer to a dead stack slot", verb);
            }
            if off < 0 || off as u64 + n > so[k].size as u64 {
                viol!("out-of-bounds {} of {} bytes at offset {} of a {}-byte stack object", verb, n, off, so[k].size);
            }
            return Ok(Place::Stack(k, off as usize));
        }
        if a >= HEAP_BASE && a < STACK_BASE {
            let id = ((a - HEAP_BASE) >> SLOT_BITS) as usize;
            let off = ((a - HEAP_BASE) & ((1 << SLOT_BITS) - 1)) as i64 - SLOT_OFF as i64;
            if id >= st.heap.len() {
                viol!("{} through a wild pointer {:#x}", verb, a);
            }
            let s = &st.heap[id];
            if s.obj.is_none() {
                viol!("use after free: {} of {} bytes at offset {} of a freed {}-byte allocation", verb, n, off, s.size);
            }
            if off < 0 || off as u64 + n > s.size {
                viol!("out-of-bounds {} of {} bytes at offset {} of a {}-byte heap allocation", verb, n, off, s.size);
            }
            return Ok(Place::Heap(id, off as usize));
        }
        if a >= GLOB_BASE && a < HEAP_BASE {
            let id = ((a - GLOB_BASE) >> SLOT_BITS) as u32;
            let off = ((a - GLOB_BASE) & ((1 << SLOT_BITS) - 1)) as i64 - SLOT_OFF as i64;
            if id as usize >= self.sh.m.globs.len() {
                viol!("{} through a wild pointer {:#x}", verb, a);
            }
            let g = self.sh.m.global(id).map_err(Stop::Unsup)?;
            if off < 0 || off as u64 + n > g.size {
                viol!("out-of-bounds {} of {} bytes at offset {} of a {}-byte static", verb, n, off, g.size);
            }
            if write && g.konst {
                viol!("write to a constant");
            }
            return Ok(Place::Glob(id, off as usize));
        }
        if a < 0x1000 {
            viol!("null-pointer {} (address {:#x})", verb, a);
        }
        viol!("{} through a wild pointer {:#x}", verb, a)
    }
    fn bytes<'s>(&self, st: &'s State, p: &Place) -> X<(std::borrow::Cow<'s, Bytes>, usize)> {
        use std::borrow::Cow;
        Ok(match p {
            Place::Heap(i, o) => (Cow::Borrowed(&st.heap[*i].obj.as_ref().unwrap().b), *o),
            Place::Stack(k, o) => (Cow::Borrowed(&st.stack), st.sobjs[*k].off as usize + *o),
            Place::Glob(i, o) => {
                if let Some(g) = st.globs.get(i) {
                    (Cow::Borrowed(&g.b), *o)
                } else {
                    (Cow::Owned(self.sh.m.global(*i).map_err(Stop::Unsup)?.b.clone()), *o)
                }
            }
            Place::None => (Cow::Owned(Bytes::default()), 0),
        })
    }
    fn bytes_mut<'s>(&self, st: &'s mut State, p: &Place) -> X<(&'s mut Bytes, usize)> {
        Ok(match p {
            Place::Heap(i, o) => (&mut Arc::make_mut(st.heap[*i].obj.as_mut().unwrap()).b, *o),
            Place::Stack(k, o) => {
                let off = st.sobjs[*k].off as usize + *o;
                (&mut st.stack, off)
            }
            Place::Glob(i, o) => {
                if !st.globs.contains_key(i) {
                    let g = self.sh.m.global(*i).map_err(Stop::Unsup)?;
                    st.globs.insert(*i, g);
                }
                (&mut Arc::make_mut(st.globs.get_mut(i).unwrap()).b, *o)
            }
            Place::None => unreachable!(),
        })
    }
    fn load(&mut self, st: &mut State, a: u64, sh: &Sh, n: u64) -> X<Val> {
        let p = self.place(st, a, n, false)?;
        match &p {
            Place::None => Ok(zero_sh(sh)),
            Place::Stack(k, o) => Ok(st.stack.load_sh(st.sobjs[*k].off as usize + *o, sh)),
            Place::Heap(i, o) => Ok(st.heap[*i].obj.as_ref().unwrap().b.load_sh(*o, sh)),
            Place::Glob(i, o) => {
                if let Some(g) = st.globs.get(i) {
                    Ok(g.b.load_sh(*o, sh))
                } else {
                    Ok(self.sh.m.global(*i).map_err(Stop::Unsup)?.b.load_sh(*o, sh))
                }
            }
        }
    }
    fn store(&mut self, st: &mut State, a: u64, sh: &Sh, n: u64, v: &Val) -> X<()> {
        let p = self.place(st, a, n, true)?;
        if let Place::None = p {
            return Ok(());
        }
        let (b, o) = self.bytes_mut(st, &p)?;
        b.store_sh(o, sh, v);
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let ps = self.place(st, s, n, false)?;
        let pd = self.place(st, d, n, true)?;
        let n = n as usize;
        let (c, t, sy) = {
            let (b, o) = self.bytes(st, &ps)?;
            let sy: Vec<(u32, (T, u8))> = if b.s.is_empty() {
                vec![]
            } else {
                b.s.range(o as u32..(o + n) as u32).map(|(k, v)| (*k - o as u32, v.clone())).collect()
            };
            (b.c[o..o + n].to_vec(), b.t[o..o + n].to_vec(), sy)
        };
        let (b, o) = self.bytes_mut(st, &pd)?;
        b.c[o..o + n].copy_from_slice(&c);
        b.t[o..o + n].copy_from_slice(&t);
        for (k, v) in sy {
            if t[k as usize] == TS {
                b.s.insert(k + o as u32, v);
            }
        }
        Ok(())
    }
    fn get_bytes(&mut self, st: &mut State, a: u64, n: u64) -> X<Vec<BV>> {
        let p = self.place(st, a, n, false)?;
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.bytes(st, &p)?;
        Ok((o..o + n as usize).map(|i| b.get(i)).collect())
    }
    fn cstr(&mut self, st: &mut State, a: u64, n: u64) -> X<String> {
        let v = self.get_bytes(st, a, n)?;
        Ok(v.iter().map(|b| if let BV::C(c) = b { *c as char } else { '?' }).collect())
    }
    fn dealloc(&mut self, st: &mut State, a: u64, size: u64, align: u64) -> X<()> {
        if a < HEAP_BASE || a >= STACK_BASE {
            viol!("deallocation of a pointer that was not allocated ({:#x})", a);
        }
        let id = ((a - HEAP_BASE) >> SLOT_BITS) as usize;
        let off = ((a - HEAP_BASE) & ((1 << SLOT_BITS) - 1)) as i64 - SLOT_OFF as i64;
        if id >= st.heap.len() {
            viol!("deallocation of a wild pointer");
        }
        let s = &mut st.heap[id];
        if s.obj.is_none() {
            viol!("double free of a {}-byte allocation", s.size);
        }
        if off != 0 {
            viol!("deallocation of an interior pointer (offset {})", off);
        }
        if s.size != size || s.align != align {
            viol!("deallocation with layout size {} align {} of an allocation with size {} align {}", size, align, s.size, s.align);
        }
        if st.conc.is_some() {
            self.access(st, &Place::Heap(id, 0), size, true)?;
        }
        let s = &mut st.heap[id];
        s.obj = None;
        st.live -= 1;
        Ok(())
    }

    // ---------- control ----------
    fn jump(&self, st: &mut State, blk: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.blk;
        f.prev = from;
        f.blk = blk;
        f.pc = 0;
        let fun = f.f;
        let base = f.base as usize;
        let phis = &fun.blocks[blk as usize].phis;
        if !phis.is_empty() {
            let mut vals: Vec<Val> = Vec::with_capacity(phis.len());
            for (_, inc) in phis {
                let (_, op) = inc.iter().find(|(l, _)| *l == from).expect("phi edge");
                vals.push(match op {
                    Op::R(r) => st.regs[base + *r as usize].clone(),
                    Op::C(v) => v.clone(),
                });
            }
            for ((d, _), v) in phis.iter().zip(vals) {
                st.regs[base + *d as usize] = v;
            }
        }
    }
    fn enter(&mut self, st: &mut State, id: u32, args: Vec<Val>, catch: bool) -> X<()> {
        let f = self.sh.m.func(id).map_err(Stop::Unsup)?;
        self.sh.used[id as usize].store(1, Relaxed);
        if st.frames.len() >= self.sh.lim.depth {
            return Err(Stop::Limit(format!("call depth limit {} reached", self.sh.lim.depth)));
        }
        let base = st.regs.len();
        st.regs.resize(base + f.nregs as usize, Val::U);
        for (i, a) in args.into_iter().enumerate() {
            if (i as u32) < f.nparams {
                st.regs[base + i] = a;
            }
        }
        st.frames.push(Frame { f, base: base as u32, blk: 0, pc: 0, prev: 0, smark: st.sobjs.len() as u32, catch });
        Ok(())
    }
    fn cur_call(st: &State) -> &'static CallI {
        let fr = st.frames.last().unwrap();
        match &fr.f.blocks[fr.blk as usize].insts[fr.pc as usize] {
            Inst::Call(c) => c,
            _ => panic!("not at a call"),
        }
    }
    /// finish the call instruction the top frame is at
    fn finish_call(&self, st: &mut State, v: Val) {
        let c = Self::cur_call(st);
        if c.dst != u32::MAX {
            let b = st.frames.last().unwrap().base;
            st.regs[(b + c.dst) as usize] = v;
        }
        match c.invoke {
            Some((n, _)) => self.jump(st, n),
            None => st.frames.last_mut().unwrap().pc += 1,
        }
    }
    fn leave(&self, st: &mut State) -> Frame {
        let fr = st.frames.pop().unwrap();
        st.regs.truncate(fr.base as usize);
        st.pop_stack(fr.smark);
        fr
    }
    fn ret(&mut self, st: &mut State, v: Val) -> X<()> {
        let fr = self.leave(st);
        if st.frames.is_empty() {
            if let Some(c) = st.conc.as_ref() {
                if c.cur == 0 {
                    return Err(Stop::Unsup("a thread is not joined".into()));
                }
                Self::swap(st);
                let c = st.conc.as_mut().unwrap();
                c.other = None;
                return Ok(());
            }
            return Err(Stop::Done);
        }
        let v = if fr.catch { Val::I(0) } else { v };
        self.finish_call(st, v);
        Ok(())
    }
    /// unwind from the instruction the top frame is at (a call), or past it
    fn unwind(&mut self, st: &mut State) -> X<()> {
        loop {
            let fr = st.frames.last().unwrap();
            if let Inst::Call(c) = &fr.f.blocks[fr.blk as usize].insts[fr.pc as usize] {
                if let Some((_, u)) = c.invoke {
                    self.jump(st, u);
                    return Ok(());
                }
            }
            let fr = self.leave(st);
            if st.frames.is_empty() {
                return Err(Stop::Viol(format!("unexpected panic at {}", st.panic_at)));
            }
            if fr.catch {
                self.finish_call(st, Val::I(1));
                return Ok(());
            }
        }
    }

    fn v(&self, st: &State, op: &Op) -> Val {
        match op {
            Op::R(r) => st.regs[(st.frames.last().unwrap().base + *r) as usize].clone(),
            Op::C(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, dst: u32, v: Val) {
        let b = st.frames.last().unwrap().base;
        st.regs[(b + dst) as usize] = v;
    }

    /// branch on a symbolic condition: continue on one side, fork the other
    fn branch(&mut self, st: &mut State, c: &T, tb: u32, fb: u32) -> X<()> {
        let nc = t_not(c);
        let cur = eval(c, &st.model) == 1;
        let (here, there, hb, ob) = if cur { (c.clone(), nc, tb, fb) } else { (nc, c.clone(), fb, tb) };
        if let Some(m) = self.feasible(st, &there)? {
            let mut o = st.clone();
            o.model = m;
            o.depth += 1;
            self.add(&mut o, there);
            self.jump(&mut o, ob);
            self.push(o);
            st.depth += 1;
            self.add(st, here);
        }
        self.jump(st, hb);
        Ok(())
    }

    pub fn run(&mut self, mut st: State) {
        let r = loop {
            match self.block(&mut st) {
                Ok(()) => {}
                Err(e) => break e,
            }
            if self.sh.stop.load(Relaxed) {
                return;
            }
        };
        let sh = self.sh;
        sh.max_steps.fetch_max(st.steps, Relaxed);
        sh.max_depth.fetch_max(st.cons.len() as u64, Relaxed);
        sh.max_vars.fetch_max(st.vw.len() as u64, Relaxed);
        let mk = |st: &State, msg: String, kind: &'static str| Violation { msg, inputs: st.inputs(), stack: st.backtrace(), kind };
        match r {
            Stop::Done => {
                let n = sh.paths.fetch_add(1, Relaxed);
                let k = sh.lim.samples as u64;
                let pick = if n < k / 4 { Some(n as usize) } else if self.rnd() % (n + 1) < k { Some((self.rnd() % k) as usize) } else { None };
                if let (Some(p), true) = (pick, k > 0) {
                    let s = PathSample {
                        inputs: st.inputs(),
                        obs: st.obs.iter().map(|v| match v {
                            Val::I(x) => *x,
                            Val::S(t) => eval(t, &st.model) as u64,
                            _ => 0,
                        }).collect(),
                    };
                    let mut g = sh.samples.lock().unwrap();
                    if g.len() < k as usize {
                        g.push(s);
                    } else {
                        g[p] = s;
                    }
                }
            }
            Stop::Infeasible => {
                sh.infeasible.fetch_add(1, Relaxed);
            }
            Stop::Viol(m) => {
                let mut g = sh.viols.lock().unwrap();
                if !g.iter().any(|v| v.msg == m && v.stack == st.backtrace()) {
                    g.push(mk(&st, m, "violation"));
                    if g.len() >= sh.lim.max_viol {
                        sh.stop.store(true, Relaxed);
                        sh.cv.notify_all();
                    }
                }
            }
            Stop::Limit(m) => {
                let mut g = sh.viols.lock().unwrap();
                g.push(mk(&st, m, "limit"));
                if g.len() >= sh.lim.max_viol {
                    sh.stop.store(true, Relaxed);
                    sh.cv.notify_all();
                }
            }
            Stop::Unsup(m) => {
                let mut g = sh.errors.lock().unwrap();
                if g.len() < 5 {
                    g.push(mk(&st, m, "unsupported"));
                }
                sh.stop.store(true, Relaxed);
                sh.cv.notify_all();
            }
            Stop::Unknown(m) => {
                let mut g = sh.errors.lock().unwrap();
                if g.len() < 5 {
                    g.push(mk(&st, m, "unknown"));
                }
                sh.stop.store(true, Relaxed);
                sh.cv.notify_all();
            }
            Stop::Forked => {}
        }
        if sh.t0.elapsed() > sh.lim.wall {
            sh.timed_out.store(true, Relaxed);
            sh.stop.store(true, Relaxed);
            sh.cv.notify_all();
        }
    }

    /// run until control leaves the current basic block
    fn block(&mut self, st: &mut State) -> X<()> {
        let mut n = 0u64;
        let r = loop {
            n += 1;
            match self.step(st) {
                Ok(false) => {
                    if n > 4096 {
                        break Ok(());
                    }
                }
                Ok(true) => {
                    if n > 256 {
                        break Ok(());
                    }
                }
                Err(e) => break Err(e),
            }
        };
        st.steps += n;
        self.sh.steps.fetch_add(n, Relaxed);
        if r.is_ok() && st.steps > self.sh.lim.steps {
            return Err(Stop::Limit(format!("step limit {} reached", self.sh.lim.steps)));
        }
        r
    }

    fn addr(&mut self, st: &mut State, op: &Op, what: &str) -> X<u64> {
        match op {
            Op::R(r) => {
                let b = st.frames.last().unwrap().base;
                if let Val::I(x) = &st.regs[(b + *r) as usize] {
                    return Ok(*x);
                }
                let v = st.regs[(b + *r) as usize].clone();
                self.concrete(st, &v, 64, what)
            }
            Op::C(v) => self.concrete(st, v, 64, what),
        }
    }

    /// returns true after a control transfer
    fn step(&mut self, st: &mut State) -> X<bool> {
        let (f, blk, pc) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk, fr.pc)
        };
        let inst = match f.blocks[blk as usize].insts.get(pc as usize) {
            Some(i) => i,
            None => return Err(Stop::Unsup(format!("fell off block in {}", f.name))),
        };
        macro_rules! next {
            () => {{
                st.frames.last_mut().unwrap().pc += 1;
                return Ok(false);
            }};
        }
        match inst {
            Inst::Load { dst, sh, p, align, sz, ord } => {
                let a = self.addr(st, p, "a load address")?;
                if a % *align != 0 && *sz > 0 {
                    viol!("misaligned load: address {:#x}, alignment {}", a, align);
                }
                if *ord != 0 && st.conc.is_some() {
                    self.sched(st)?;
                    self.atomically(st, true)?;
                    let v = self.load(st, a, sh, *sz)?;
                    self.atomically(st, false)?;
                    Self::sync(st, a, *ord, true, false);
                    self.set(st, *dst, v);
                    next!()
                }
                let v = self.load(st, a, sh, *sz)?;
                self.set(st, *dst, v);
                next!()
            }
            Inst::Store { sh, v, p, align, sz, ord } => {
                let a = self.addr(st, p, "a store address")?;
                if a % *align != 0 && *sz > 0 {
                    viol!("misaligned store: address {:#x}, alignment {}", a, align);
                }
                let v = self.v(st, v);
                if *ord != 0 && st.conc.is_some() {
                    self.sched(st)?;
                    self.atomically(st, true)?;
                    self.store(st, a, sh, *sz, &v)?;
                    self.atomically(st, false)?;
                    Self::sync(st, a, *ord, false, true);
                    next!()
                }
                self.store(st, a, sh, *sz, &v)?;
                next!()
            }
            Inst::Gep { dst, base, off, idx } => {
                let mut b = self.v(st, base);
                if *off != 0 {
                    b = bin(Bin::Add, 64, &b, &Val::I(*off as u64));
                }
                for (op, scale, w) in idx {
                    let i = self.v(st, op);
                    let i = match i {
                        Val::I(x) => Val::I(sx(x as u128, *w) as u64),
                        Val::S(t) => {
                            if t.w < 64 {
                                Val::term(t_sx(&t, 64))
                            } else {
                                Val::S(t)
                            }
                        }
                        o => o,
                    };
                    let m = bin(Bin::Mul, 64, &i, &Val::I(*scale));
                    b = bin(Bin::Add, 64, &b, &m);
                }
                self.set(st, *dst, b);
                next!()
            }
            Inst::Br(b) => {
                self.jump(st, *b);
                Ok(true)
            }
            Inst::CondBr(c, a, b) => {
                match self.v(st, c) {
                    Val::I(x) => self.jump(st, if x & 1 == 1 { *a } else { *b }),
                    Val::S(t) => self.branch(st, &t, *a, *b)?,
                    _ => viol!("branch on an uninitialised value"),
                }
                Ok(true)
            }
            Inst::Bin { op, w, n, dst, a, b, nuw, nsw } => {
                let (x, y) = (self.v(st, a), self.v(st, b));
                let r = if *n == 0 {
                    if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                        // division by zero is undefined behaviour at IR level
                        match &y {
                            Val::S(t) => {
                                let z = t_cmp(Pred::Eq, t, &konst(0, t.w));
                                if let Some(m) = self.feasible(st, &z)? {
                                    st.model = m;
                                    viol!("division by zero");
                                }
                            }
                            Val::I(0) => viol!("division by zero"),
                            Val::W(z) if **z == 0 => viol!("division by zero"),
                            _ => {}
                        }
                    }
                    let r = bin(*op, *w, &x, &y);
                    if (*nuw || *nsw) && *w <= 64 {
                        if let (Val::I(p), Val::I(q)) = (&x, &y) {
                            if overflow(*op, *w, *p, *q, *nuw, *nsw) {
                                Val::U
                            } else {
                                r
                            }
                        } else {
                            r
                        }
                    } else {
                        r
                    }
                } else {
                    lanes2(*n, &x, &y, |p, q| bin(*op, *w, p, q))
                };
                self.set(st, *dst, r);
                next!()
            }
            Inst::Icmp { p, w, n, dst, a, b } => {
                let (x, y) = (self.v(st, a), self.v(st, b));
                let r = if *n == 0 { cmp(*p, *w, &x, &y) } else { lanes2(*n, &x, &y, |q, r| cmp(*p, *w, q, r)) };
                self.set(st, *dst, r);
                next!()
            }
            Inst::Cast { c, from, to, n, dst, a } => {
                let x = self.v(st, a);
                let r = if *n == 0 { cast(*c, *from, *to, &x) } else { lanes1(*n, &x, |p| cast(*c, *from, *to, p)) };
                self.set(st, *dst, r);
                next!()
            }
            Inst::Alloca { dst, size, align: _, n } => {
                let k = self.addr(st, n, "an alloca count")?;
                let sz = size * k;
                if sz >= (1 << SLOT_BITS) - 2 * SLOT_OFF {
                    return Err(Stop::Unsup(format!("alloca of {} bytes", sz)));
                }
                let id = st.next_sid;
                st.next_sid += 1;
                if id >= 1 << 28 {
                    return Err(Stop::Limit("too many stack objects".into()));
                }
                let off = st.stack.c.len();
                st.stack.c.resize(off + sz as usize, 0);
                st.stack.t.resize(off + sz as usize, TU);
                st.sobjs.push(SObj { id, off: off as u32, size: sz as u32 });
                self.set(st, *dst, Val::I(STACK_BASE + ((id as u64) << SLOT_BITS) + SLOT_OFF));
                next!()
            }
            Inst::Select { dst, w, n, vc, c, a, b } => {
                let (c, x, y) = (self.v(st, c), self.v(st, a), self.v(st, b));
                let r = if *vc {
                    match (&c, &x, &y) {
                        (Val::A(cs), Val::A(xs), Val::A(ys)) => {
                            Val::A(Arc::new((0..*n as usize).map(|i| select(*w, &cs[i], &xs[i], &ys[i])).collect::<Option<Vec<_>>>().unwrap_or_default()))
                        }
                        _ => Val::U,
                    }
                } else {
                    match select(*w, &c, &x, &y) {
                        Some(v) => v,
                        None => {
                            // symbolic choice between non-scalars: split the path
                            let k = self.concrete(st, &c, 1, "a select condition")?;
                            if k == 1 {
                                x
                            } else {
                                y
                            }
                        }
                    }
                };
                self.set(st, *dst, r);
                next!()
            }
            Inst::Call(c) => self.call(st, c),
            Inst::Switch { w, v, def, cases } => {
                match self.v(st, v) {
                    Val::I(x) => {
                        let t = cases.iter().find(|(c, _)| *c == x as u128).map(|(_, b)| *b).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::W(x) => {
                        let t = cases.iter().find(|(c, _)| *c == *x).map(|(_, b)| *b).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::S(t) => {
                        // one fork per feasible target value, plus the default
                        let cur = eval(&t, &st.model);
                        let mut here: Option<(T, u32)> = None;
                        let mut neg: Vec<T> = vec![];
                        let mut others: Vec<(T, u32, Vec<u64>)> = vec![];
                        for (k, b) in cases {
                            let eq = t_cmp(Pred::Eq, &t, &konst(*k, *w));
                            neg.push(t_not(&eq));
                            if *k == cur {
                                here = Some((eq, *b));
                            } else if let Some(m) = self.feasible(st, &eq)? {
                                others.push((eq, *b, m));
                            }
                        }
                        let d = neg.iter().skip(1).fold(neg[0].clone(), |a, b| t_bin(Bin::And, &a, b));
                        if here.is_none() {
                            here = Some((d, *def));
                        } else if let Some(m) = self.feasible(st, &d)? {
                            others.push((d, *def, m));
                        }
                        let (c, b) = here.unwrap();
                        let forked = !others.is_empty();
                        for (c, b, m) in others.into_iter().rev() {
                            let mut o = st.clone();
                            o.model = m;
                            o.depth += 1;
                            self.add(&mut o, c);
                            self.jump(&mut o, b);
                            self.push(o);
                        }
                        if forked {
                            st.depth += 1;
                            self.add(st, c);
                        }
                        self.jump(st, b);
                    }
                    _ => viol!("switch on an uninitialised value"),
                }
                Ok(true)
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some(o) => self.v(st, o),
                    None => Val::U,
                };
                self.ret(st, v)?;
                Ok(true)
            }
            Inst::Unreachable => viol!("reached unreachable code"),
            Inst::Resume(_) => {
                self.leave_unwind(st)?;
                Ok(true)
            }
            Inst::Landing { dst, cleanup, catches } => {
                let sel = if *catches { 1 } else { 0 };
                let _ = cleanup;
                self.set(st, *dst, Val::A(Arc::new(vec![Val::I(0x10), Val::I(sel)])));
                next!()
            }
            Inst::Extract { dst, a, path } => {
                let mut v = self.v(st, a);
                for k in path {
                    v = match &v {
                        Val::A(x) => x[*k as usize].clone(),
                        _ => Val::U,
                    };
                }
                self.set(st, *dst, v);
                next!()
            }
            Inst::Insert { dst, a, v, path, n } => {
                let base = self.v(st, a);
                let v = self.v(st, v);
                fn ins(b: &Val, path: &[u32], v: Val, n: usize) -> Val {
                    if path.is_empty() {
                        return v;
                    }
                    let mut xs = match b {
                        Val::A(x) => (**x).clone(),
                        _ => vec![Val::U; n.max(path[0] as usize + 1)],
                    };
                    let k = path[0] as usize;
                    xs[k] = ins(&xs[k].clone(), &path[1..], v, 0);
                    Val::A(Arc::new(xs))
                }
                let r = ins(&base, path, v, *n as usize);
                self.set(st, *dst, r);
                next!()
            }
            Inst::Freeze { dst, a } => {
                let v = match self.v(st, a) {
                    Val::U => Val::I(0),
                    x => x,
                };
                self.set(st, *dst, v);
                next!()
            }
            Inst::Fence(ord) => {
                Self::fence(st, *ord);
                next!()
            }
            Inst::Rmw { dst, op, w, p, v, ord } => {
                let a = self.addr(st, p, "an atomic address")?;
                self.sched(st)?;
                self.atomically(st, true)?;
                let n = (*w as u64) / 8;
                let old = self.load(st, a, &Sh::S(*w), n)?;
                let v = self.v(st, v);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => bin(Bin::Add, *w, &old, &v),
                    "sub" => bin(Bin::Sub, *w, &old, &v),
                    "and" => bin(Bin::And, *w, &old, &v),
                    "or" => bin(Bin::Or, *w, &old, &v),
                    "xor" => bin(Bin::Xor, *w, &old, &v),
                    "umax" | "umin" | "max" | "min" => {
                        let p = match op.as_str() {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = cmp(p, *w, &old, &v);
                        select(*w, &c, &old, &v).unwrap_or(Val::U)
                    }
                    x => return Err(Stop::Unsup(format!("atomicrmw {}", x))),
                };
                self.store(st, a, &Sh::S(*w), n, &new)?;
                self.atomically(st, false)?;
                Self::sync(st, a, *ord, true, true);
                self.set(st, *dst, old);
                next!()
            }
            Inst::CmpXchg { dst, w, p, c, v, ord, ford } => {
                let a = self.addr(st, p, "an atomic address")?;
                let n = (*w as u64) / 8;
                // whether it succeeds is decided after the switch, by the value then found
                if st.conc.is_some() {
                    self.sched(st)?;
                    self.atomically(st, true)?;
                }
                let old = self.load(st, a, &Sh::S(*w), n)?;
                let (c, v) = (self.v(st, c), self.v(st, v));
                let eq = cmp(Pred::Eq, *w, &old, &c);
                if let (Val::S(_), true) = (&eq, st.conc.is_some()) {
                    return Err(Stop::Unsup("symbolic cmpxchg between threads".into()));
                }
                let k = self.concrete(st, &eq, 1, "a cmpxchg comparison")?;
                if k == 1 {
                    self.store(st, a, &Sh::S(*w), n, &v)?;
                }
                if st.conc.is_some() {
                    self.atomically(st, false)?;
                    Self::sync(st, a, if k == 1 { *ord } else { *ford }, true, k == 1);
                }
                self.set(st, *dst, Val::A(Arc::new(vec![old, Val::I(k)])));
                next!()
            }
            Inst::ExtElem { dst, a, i } => {
                let k = self.addr(st, i, "a lane index")? as usize;
                let v = match self.v(st, a) {
                    Val::A(x) => x.get(k).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                };
                self.set(st, *dst, v);
                next!()
            }
            Inst::InsElem { dst, a, v, i, n } => {
                let k = self.addr(st, i, "a lane index")? as usize;
                let mut xs = match self.v(st, a) {
                    Val::A(x) => (*x).clone(),
                    _ => vec![Val::U; *n as usize],
                };
                if k < xs.len() {
                    xs[k] = self.v(st, v);
                }
                self.set(st, *dst, Val::A(Arc::new(xs)));
                next!()
            }
            Inst::Shuffle { dst, a, b, mask, n } => {
                let (x, y) = (self.v(st, a), self.v(st, b));
                let get = |k: i64| -> Val {
                    if k < 0 {
                        return Val::U;
                    }
                    let (s, i) = if (k as u32) < *n { (&x, k as usize) } else { (&y, (k as u32 - *n) as usize) };
                    match s {
                        Val::A(v) => v[i].clone(),
                        _ => Val::U,
                    }
                };
                let r = Val::A(Arc::new(mask.iter().map(|k| get(*k)).collect()));
                self.set(st, *dst, r);
                next!()
            }
            Inst::BitcastV { dst, a, fw, fn_, tw, tn } => {
                let v = self.v(st, a);
                // through a bit string
                let bits = |v: &Val| -> Option<T> {
                    match v {
                        Val::A(xs) => {
                            let mut acc: Option<T> = None;
                            for x in xs.iter() {
                                let t = x.to_term(*fw)?;
                                acc = Some(match acc {
                                    None => t,
                                    Some(l) => {
                                        if l.w + t.w > 128 {
                                            return None;
                                        }
                                        t_cat(&t, &l)
                                    }
                                });
                            }
                            acc
                        }
                        v => v.to_term(*fw * (*fn_).max(1)),
                    }
                };
                let r = match bits(&v) {
                    Some(t) => {
                        if *tn == 0 {
                            Val::term(t)
                        } else {
                            Val::A(Arc::new((0..*tn).map(|i| Val::term(t_ext(&t, i * tw, *tw))).collect()))
                        }
                    }
                    None => return Err(Stop::Unsup("vector bitcast".into())),
                };
                self.set(st, *dst, r);
                next!()
            }
            Inst::Unsupported(s) => Err(Stop::Unsup(format!("{} in {}", s, f.name))),
        }
    }

    fn leave_unwind(&mut self, st: &mut State) -> X<()> {
        let fr = self.leave(st);
        if st.frames.is_empty() {
            return Err(Stop::Viol(format!("unexpected panic at {}", st.panic_at)));
        }
        if fr.catch {
            self.finish_call(st, Val::I(1));
            return Ok(());
        }
        self.unwind(st)
    }

    fn start_panic(&mut self, st: &mut State, loc: &Val) -> X<bool> {
        st.panics += 1;
        let mut at = String::from("?");
        if let Val::I(a) = loc {
            let s64 = Sh::S(64);
            let s32 = Sh::S(32);
            if let (Ok(Val::I(p)), Ok(Val::I(n)), Ok(Val::I(l)), Ok(Val::I(c))) =
                (self.load(st, *a, &s64, 8), self.load(st, *a + 8, &s64, 8), self.load(st, *a + 16, &s32, 4), self.load(st, *a + 20, &s32, 4))
            {
                if n < 400 {
                    if let Ok(s) = self.cstr(st, p, n) {
                        at = format!("{}:{}:{}", s, l, c);
                    }
                }
            }
        }
        st.panic_at = at;
        self.unwind(st)?;
        Ok(true)
    }

    fn newvar(&mut self, st: &mut State, w: u32) -> T {
        let i = st.vw.len() as u32;
        st.vw.push(w);
        st.model.push(0);
        var(i, w)
    }

    fn call(&mut self, st: &mut State, c: &'static CallI) -> X<bool> {
        let fid = match &c.callee {
            Callee::Intr(n) => return self.intrinsic(st, c, n),
            Callee::Fn(i) => *i,
            Callee::Ind(op) => {
                let a = self.addr(st, op, "a function pointer")?;
                if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= self.sh.m.fns.len() as u64 || (a - FUNC_BASE) % 16 != 0 {
                    viol!("call through an invalid function pointer {:#x}", a);
                }
                ((a - FUNC_BASE) / 16) as u32
            }
        };
        let sp = self.sh.sp[fid as usize];
        if sp == Sp::None {
            let args: Vec<Val> = c.args.iter().map(|a| self.v(st, a)).collect();
            self.enter(st, fid, args, false)?;
            return Ok(true);
        }
        macro_rules! done {
            ($v:expr) => {{
                let v = $v;
                self.finish_call(st, v);
                return Ok(true);
            }};
        }
        let arg = |w: &Worker, st: &State, i: usize| w.v(st, &c.args[i]);
        match sp {
            Sp::None => unreachable!(),
            Sp::Nop => done!(Val::U),
            Sp::Alloc | Sp::AllocZ => {
                let (s, a) = (arg(self, st, 0), arg(self, st, 1));
                let s = self.concrete(st, &s, 64, "an allocation size")?;
                let a = self.concrete(st, &a, 64, "an allocation alignment")?;
                if s >= (1 << SLOT_BITS) - 2 * SLOT_OFF || a > SLOT_OFF {
                    return Err(Stop::Unsup(format!("allocation of {} bytes align {}", s, a)));
                }
                if s == 0 {
                    viol!("zero-size allocation request");
                }
                let p = st.alloc(s, a, sp == Sp::AllocZ);
                done!(Val::I(p))
            }
            Sp::Dealloc => {
                let (p, s, a) = (arg(self, st, 0), arg(self, st, 1), arg(self, st, 2));
                let p = self.concrete(st, &p, 64, "a freed pointer")?;
                let s = self.concrete(st, &s, 64, "a freed size")?;
                let a = self.concrete(st, &a, 64, "a freed alignment")?;
                self.dealloc(st, p, s, a)?;
                done!(Val::U)
            }
            Sp::Realloc => {
                let (p, s, a, n) = (arg(self, st, 0), arg(self, st, 1), arg(self, st, 2), arg(self, st, 3));
                let p = self.concrete(st, &p, 64, "a pointer")?;
                let s = self.concrete(st, &s, 64, "a size")?;
                let a = self.concrete(st, &a, 64, "an alignment")?;
                let n = self.concrete(st, &n, 64, "a size")?;
                if n >= (1 << SLOT_BITS) - 2 * SLOT_OFF {
                    return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
                }
                let q = st.alloc(n, a, false);
                self.memcpy(st, q, p, s.min(n))?;
                self.dealloc(st, p, s, a)?;
                done!(Val::I(q))
            }
            Sp::Panic => {
                let l = self.v(st, c.args.last().unwrap());
                self.start_panic(st, &l)
            }
            Sp::Abort => {
                let n = demangle(&self.sh.m.fns[fid as usize].name);
                let mut extra = String::new();
                if n.ends_with("panic_nounwind") {
                    if let (Val::I(p), Val::I(l)) = (arg(self, st, 0), arg(self, st, 1)) {
                        if l < 400 {
                            extra = self.cstr(st, p, l)?;
                        }
                    }
                }
                if n.contains("panic_in_cleanup") || n.contains("panic_cannot_unwind") {
                    extra = format!("while unwinding from a panic at {}", st.panic_at);
                }
                viol!("abort: {} {}", n, extra)
            }
            Sp::Any => {
                if st.conc.is_some() {
                    return Err(Stop::Unsup("an input drawn while two threads run".into()));
                }
                let w = arg(self, st, 0).as_u64().unwrap_or(64) as u32;
                let t = self.newvar(st, w);
                done!(Val::term(t_zx(&t, 64)))
            }
            Sp::Choose => {
                // a fresh 8-bit unknown below n
                let n = arg(self, st, 0);
                if st.conc.is_some() {
                    return Err(Stop::Unsup("an input drawn while two threads run".into()));
                }
                let n = self.concrete(st, &n, 32, "a choice bound")?;
                if n == 0 || n > 65535 {
                    return Err(Stop::Unsup(format!("choose({})", n)));
                }
                let w = if n > 255 { 16 } else { 8 };
                let t = self.newvar(st, w);
                let c = t_cmp(Pred::Ult, &t, &konst(n as u128, w));
                self.add(st, c);
                done!(Val::term(t_zx(&t, 32)))
            }
            Sp::Assume => match arg(self, st, 0) {
                Val::I(x) => {
                    if x & 1 == 0 {
                        return Err(Stop::Infeasible);
                    }
                    done!(Val::U)
                }
                Val::S(t) => {
                    match self.feasible(st, &t)? {
                        Some(m) => {
                            st.model = m;
                            self.add(st, t);
                        }
                        None => return Err(Stop::Infeasible),
                    }
                    done!(Val::U)
                }
                _ => viol!("assume on an uninitialised value"),
            },
            Sp::Assert => {
                self.sh.asserts.fetch_add(1, Relaxed);
                let (p, n) = (arg(self, st, 1).as_u64().unwrap_or(0), arg(self, st, 2).as_u64().unwrap_or(0));
                match arg(self, st, 0) {
                    Val::I(x) => {
                        if x & 1 == 0 {
                            let m = self.cstr(st, p, n)?;
                            viol!("assertion: {}", m);
                        }
                    }
                    Val::S(t) => {
                        self.sh.asserts_sym.fetch_add(1, Relaxed);
                        let nt = t_not(&t);
                        if let Some(m) = self.feasible(st, &nt)? {
                            let msg = self.cstr(st, p, n)?;
                            st.model = m;
                            viol!("assertion: {}", msg);
                        }
                    }
                    _ => {
                        let m = self.cstr(st, p, n)?;
                        viol!("assertion on an uninitialised value: {}", m);
                    }
                }
                done!(Val::U)
            }
            Sp::AssertEq => {
                self.sh.asserts.fetch_add(1, Relaxed);
                let (p, n) = (arg(self, st, 2).as_u64().unwrap_or(0), arg(self, st, 3).as_u64().unwrap_or(0));
                let (a, b) = (arg(self, st, 0), arg(self, st, 1));
                match (&a, &b) {
                    (Val::I(x), Val::I(y)) => {
                        if x != y {
                            let m = self.cstr(st, p, n)?;
                            viol!("assertion: {} ({} instead of {})", m, x, y);
                        }
                    }
                    (Val::I(_) | Val::S(_), Val::I(_) | Val::S(_)) => {
                        self.sh.asserts_sym.fetch_add(1, Relaxed);
                        let tm = |v: &Val| match v {
                            Val::I(x) => konst(*x as u128, 64),
                            Val::S(t) => t.clone(),
                            _ => unreachable!(),
                        };
                        let ne = t_not(&t_cmp(Pred::Eq, &tm(&a), &tm(&b)));
                        if let Some(m) = self.feasible(st, &ne)? {
                            let msg = self.cstr(st, p, n)?;
                            st.model = m;
                            viol!("assertion: {}", msg);
                        }
                    }
                    _ => {
                        let m = self.cstr(st, p, n)?;
                        viol!("assertion on an uninitialised value: {}", m);
                    }
                }
                done!(Val::U)
            }
            Sp::Observe => {
                let v = arg(self, st, 0);
                if let Val::U | Val::P(_) = v {
                    viol!("observed value is uninitialised");
                }
                match st.conc.as_mut() {
                    Some(c) if c.cur == 1 => c.obs.push(v),
                    _ => st.obs.push(v),
                }
                done!(Val::U)
            }
            Sp::Cover => {
                let (p, n) = (arg(self, st, 0).as_u64().unwrap_or(0), arg(self, st, 1).as_u64().unwrap_or(0));
                if !st.covers.contains(&p) {
                    st.covers.push(p);
                    let s = self.cstr(st, p, n)?;
                    *self.sh.covers.lock().unwrap().entry(s).or_insert(0) += 1;
                }
                done!(Val::U)
            }
            Sp::Catch => {
                let a = self.addr(st, &c.args[0], "a function pointer")?;
                if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= self.sh.m.fns.len() as u64 {
                    viol!("call through an invalid function pointer");
                }
                let d = arg(self, st, 1);
                self.enter(st, ((a - FUNC_BASE) / 16) as u32, vec![d], true)?;
                Ok(true)
            }
            Sp::Spawn => {
                let f = self.addr(st, &c.args[0], "a function pointer")?;
                if f < FUNC_BASE || (f - FUNC_BASE) / 16 >= self.sh.m.fns.len() as u64 {
                    viol!("call through an invalid function pointer");
                }
                if st.conc.is_some() {
                    return Err(Stop::Unsup("more than two threads".into()));
                }
                let d = arg(self, st, 1);
                st.conc = Some(Box::new(Conc {
                    cur: 0,
                    other: Some(Ctx { frames: vec![], regs: vec![], stack: Bytes::default(), sobjs: vec![], next_sid: SPAWN_SID }),
                    waits: false,
                    skip: [false; 2],
                    vc: [[2, 0], [1, 1]],
                    acq: [[0; 2]; 2],
                    rel: [[0; 2]; 2],
                    loc: BTreeMap::new(),
                    sh: BTreeMap::new(),
                    tls: BTreeMap::new(),
                    obs: vec![],
                    atomic: false,
                    switches: 0,
                }));
                self.finish_call(st, Val::U);
                Self::swap(st);
                self.enter(st, ((f - FUNC_BASE) / 16) as u32, vec![d], false)?;
                Self::swap(st);
                Ok(true)
            }
            Sp::Join => {
                let cc = st.conc.as_mut().unwrap();
                if cc.other.is_some() {
                    // the other one runs to its end, then this call is looked at again
                    cc.waits = true;
                    Self::swap(st);
                    return Ok(true);
                }
                let cc = st.conc.take().unwrap();
                st.obs.extend(cc.obs);
                done!(Val::U)
            }
            Sp::Live => done!(Val::I(st.live)),
            Sp::Name => {
                let i = arg(self, st, 0).as_u64().unwrap_or(0) as usize;
                done!(Val::I(self.sh.params.get(i).copied().unwrap_or(0)))
            }
            Sp::Concrete => {
                let v = arg(self, st, 0);
                let x = self.concrete(st, &v, 64, "a value")?;
                done!(Val::I(x))
            }
            Sp::Memcmp | Sp::Bcmp => {
                let (p, q, n) = (arg(self, st, 0), arg(self, st, 1), arg(self, st, 2));
                let n = self.concrete(st, &n, 64, "a length")?;
                let p = self.concrete(st, &p, 64, "an address")?;
                let q = self.concrete(st, &q, 64, "an address")?;
                let x = self.get_bytes(st, p, n)?;
                let y = self.get_bytes(st, q, n)?;
                let mut r = konst(0, 32);
                for i in (0..n as usize).rev() {
                    let (a, b) = match (byte_term(&x[i]), byte_term(&y[i])) {
                        (Some(a), Some(b)) => (a, b),
                        _ => viol!("comparison of uninitialised bytes"),
                    };
                    let eq = t_cmp(Pred::Eq, &a, &b);
                    let d = if sp == Sp::Bcmp { konst(1, 32) } else { t_ite(&t_cmp(Pred::Ult, &a, &b), &konst(u32::MAX as u128, 32), &konst(1, 32)) };
                    r = t_ite(&eq, &r, &d);
                }
                done!(Val::term(r))
            }
            Sp::Strlen => {
                let p = self.addr(st, &c.args[0], "an address")?;
                let mut n = 0;
                loop {
                    match self.load(st, p + n, &Sh::S(8), 1)? {
                        Val::I(0) => break,
                        Val::I(_) => n += 1,
                        _ => return Err(Stop::Unsup("strlen of symbolic bytes".into())),
                    }
                }
                done!(Val::I(n))
            }
            Sp::Memcpy => {
                let d = self.addr(st, &c.args[0], "an address")?;
                let s = self.addr(st, &c.args[1], "an address")?;
                let n = self.addr(st, &c.args[2], "a length")?;
                self.memcpy(st, d, s, n)?;
                done!(Val::I(d))
            }
            Sp::Random => {
                let d = self.addr(st, &c.args[0], "an address")?;
                let n = self.addr(st, &c.args[1], "a length")?;
                for i in 0..n {
                    self.store(st, d + i, &Sh::S(8), 1, &Val::I(0))?;
                }
                done!(Val::I(n))
            }
            Sp::Zero => done!(Val::I(0)),
            Sp::Written => done!(arg(self, st, 2)),
            Sp::Memset => {
                let d = self.addr(st, &c.args[0], "an address")?;
                let n = self.addr(st, &c.args[2], "a length")?;
                let v = cast(Cast::Trunc, 32, 8, &arg(self, st, 1));
                for i in 0..n {
                    self.store(st, d + i, &Sh::S(8), 1, &v)?;
                }
                done!(Val::I(d))
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, c: &'static CallI, n: &str) -> X<bool> {
        macro_rules! done {
            ($v:expr) => {{
                let v = $v;
                self.finish_call(st, v);
                return Ok(c.invoke.is_some());
            }};
        }
        let rest = n.strip_prefix("llvm.").unwrap_or(n);
        let a = |w: &Worker, st: &State, i: usize| w.v(st, &c.args[i]);
        let w = c.argw.first().copied().unwrap_or(0);
        if rest.starts_with("lifetime") || rest.starts_with("dbg") || rest.starts_with("prefetch") || rest == "donothing" || rest.starts_with("experimental") {
            done!(Val::U)
        }
        if rest.starts_with("memcpy") || rest.starts_with("memmove") {
            let n = self.addr(st, &c.args[2], "a copy length")?;
            let d = self.addr(st, &c.args[0], "a copy destination")?;
            let s = self.addr(st, &c.args[1], "a copy source")?;
            if rest.starts_with("memcpy") && n > 0 && d != s && d < s.wrapping_add(n) && s < d.wrapping_add(n) {
                viol!("overlapping copy_nonoverlapping");
            }
            self.memcpy(st, d, s, n)?;
            done!(Val::U)
        }
        if rest.starts_with("memset") {
            let n = self.addr(st, &c.args[2], "a fill length")?;
            let d = self.addr(st, &c.args[0], "a fill destination")?;
            let v = a(self, st, 1);
            let p = self.place(st, d, n, true)?;
            if let Place::None = p {
            } else {
                let (b, o) = self.bytes_mut(st, &p)?;
                for i in 0..n as usize {
                    b.store(o + i, 8, &v);
                }
            }
            done!(Val::U)
        }
        if rest.starts_with("assume") {
            match a(self, st, 0) {
                Val::I(x) => {
                    if x & 1 == 0 {
                        viol!("undefined behaviour: an assumption made by the code is false");
                    }
                }
                Val::S(t) => {
                    let nt = t_not(&t);
                    if let Some(m) = self.feasible(st, &nt)? {
                        st.model = m;
                        viol!("undefined behaviour: an assumption made by the code is false");
                    }
                }
                _ => {}
            }
            done!(Val::U)
        }
        if rest.starts_with("threadlocal.address") {
            let g = a(self, st, 0);
            if let (Some(c1), Val::I(g)) = (st.conc.as_ref(), &g) {
                if c1.cur == 1 {
                    // the second thread has thread locals of its own, as they were initially
                    let q = match c1.tls.get(g) {
                        Some(q) => *q,
                        None => {
                            let o = self.sh.m.global(((*g - GLOB_BASE) >> SLOT_BITS) as u32).map_err(Stop::Unsup)?;
                            let q = st.alloc(o.size, o.align.max(16), false);
                            st.live -= 1;
                            let id = ((q - HEAP_BASE) >> SLOT_BITS) as usize;
                            let mut ob = Obj::new(o.size, o.align);
                            ob.b = o.b.clone();
                            st.heap[id].obj = Some(Arc::new(ob));
                            st.conc.as_mut().unwrap().tls.insert(*g, q);
                            q
                        }
                    };
                    done!(Val::I(q))
                }
            }
            done!(g)
        }
        if rest.starts_with("expect") || rest.starts_with("launder") || rest.starts_with("ptrmask") && false {
            done!(a(self, st, 0))
        }
        if rest.starts_with("trap") || rest.starts_with("debugtrap") || rest.starts_with("ubsantrap") {
            viol!("abort: trap");
        }
        if rest.starts_with("is.constant") {
            done!(Val::I(0))
        }
        let bits = c.ret_bits;
        // vector operands are handled lane-wise
        macro_rules! lw2 {
            ($f:expr) => {{
                let (x, y) = (a(self, st, 0), a(self, st, 1));
                let r = match (&x, &y) {
                    (Val::A(p), Val::A(_)) => lanes2(p.len() as u32, &x, &y, $f),
                    _ => $f(&x, &y),
                };
                done!(r)
            }};
        }
        for (nm, p) in [("umin.", Pred::Ult), ("umax.", Pred::Ugt), ("smin.", Pred::Slt), ("smax.", Pred::Sgt)] {
            if rest.starts_with(nm) {
                lw2!(|x: &Val, y: &Val| select(w, &cmp(p, w, x, y), x, y).unwrap_or(Val::U))
            }
        }
        if rest.contains(".with.overflow.") {
            let (x, y) = (a(self, st, 0), a(self, st, 1));
            let op = match &rest[1..4] {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                _ => Bin::Mul,
            };
            let signed = rest.starts_with('s');
            let r = bin(op, w, &x, &y);
            let o = match (x.as_u128(), y.as_u128()) {
                (Some(p), Some(q)) if w <= 64 => Val::I(overflow(op, w, p as u64, q as u64, !signed, signed) as u64),
                (Some(p), Some(q)) if w == 128 => {
                    let o = match (op, signed) {
                        (Bin::Add, false) => p.overflowing_add(q).1,
                        (Bin::Sub, false) => p.overflowing_sub(q).1,
                        (_, false) => p.overflowing_mul(q).1,
                        (Bin::Add, true) => (p as i128).overflowing_add(q as i128).1,
                        (Bin::Sub, true) => (p as i128).overflowing_sub(q as i128).1,
                        (_, true) => (p as i128).overflowing_mul(q as i128).1,
                    };
                    Val::I(o as u64)
                }
                _ => match (x.to_term(w), y.to_term(w)) {
                    (Some(p), Some(q)) => {
                        let w2 = if op == Bin::Mul { w * 2 } else { w + 1 };
                        if w2 > 128 {
                            return Err(Stop::Unsup("wide overflow check".into()));
                        }
                        let (p2, q2) = if signed { (t_sx(&p, w2), t_sx(&q, w2)) } else { (t_zx(&p, w2), t_zx(&q, w2)) };
                        let full = t_bin(op, &p2, &q2);
                        let lo = t_ext(&full, 0, w);
                        let back = if signed { t_sx(&lo, w2) } else { t_zx(&lo, w2) };
                        Val::term(t_not(&t_cmp(Pred::Eq, &full, &back)))
                    }
                    _ => Val::U,
                },
            };
            done!(Val::A(Arc::new(vec![r, o])))
        }
        if rest.starts_with("uadd.sat") || rest.starts_with("usub.sat") {
            let add = rest.starts_with("uadd");
            lw2!(|x: &Val, y: &Val| {
                if add {
                    let s = bin(Bin::Add, w, x, y);
                    let o = cmp(Pred::Ult, w, &s, x);
                    select(w, &o, &Val::int(u128::MAX, w), &s).unwrap_or(Val::U)
                } else {
                    let s = bin(Bin::Sub, w, x, y);
                    let o = cmp(Pred::Ult, w, x, y);
                    select(w, &o, &Val::int(0, w), &s).unwrap_or(Val::U)
                }
            })
        }
        if rest.starts_with("ucmp.") || rest.starts_with("scmp.") {
            let (lt, gt) = if rest.starts_with('u') { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            lw2!(|x: &Val, y: &Val| {
                let l = cmp(lt, w, x, y);
                let g = cmp(gt, w, x, y);
                let i = select(bits, &g, &Val::int(1, bits), &Val::int(0, bits)).unwrap_or(Val::U);
                select(bits, &l, &Val::int(u128::MAX, bits), &i).unwrap_or(Val::U)
            })
        }
        if rest.starts_with("fshl.") || rest.starts_with("fshr.") {
            let (x, y, s) = (a(self, st, 0), a(self, st, 1), a(self, st, 2));
            let s = match s.as_u128() {
                Some(s) => (s % w as u128) as u32,
                None => self.concrete(st, &s, w, "a rotate amount")? as u32 % w,
            };
            let left = rest.starts_with("fshl");
            let sl = if left { s } else { (w - s) % w };
            let r = if s == 0 {
                if left {
                    x
                } else {
                    y
                }
            } else {
                let h = bin(Bin::Shl, w, &x, &Val::int(sl as u128, w));
                let l = bin(Bin::LShr, w, &y, &Val::int((w - sl) as u128, w));
                bin(Bin::Or, w, &h, &l)
            };
            done!(r)
        }
        if rest.starts_with("bswap.") {
            let x = a(self, st, 0);
            let mut b = to_bytes(&x, w);
            b.reverse();
            done!(from_bytes(&b, w))
        }
        if rest.starts_with("ctpop.") || rest.starts_with("ctlz.") || rest.starts_with("cttz.") || rest.starts_with("abs.") || rest.starts_with("bitreverse.") {
            let x = a(self, st, 0);
            let x = match &x {
                Val::S(_) => Val::I(self.concrete(st, &x, w, "a bit count operand")?),
                _ => x,
            };
            let f = |x: &Val| -> Val {
                let v = match x.as_u128() {
                    Some(v) => v,
                    None => return Val::U,
                };
                let r = if rest.starts_with("ctpop") {
                    v.count_ones() as u128
                } else if rest.starts_with("ctlz") {
                    (v.leading_zeros() as i64 - (128 - w as i64)) as u128
                } else if rest.starts_with("cttz") {
                    (v.trailing_zeros().min(w)) as u128
                } else if rest.starts_with("abs") {
                    sx(v, w).unsigned_abs()
                } else {
                    v.reverse_bits() >> (128 - w)
                };
                Val::int(r, w)
            };
            let r = match &x {
                Val::A(xs) => Val::A(Arc::new(xs.iter().map(f).collect())),
                _ => f(&x),
            };
            done!(r)
        }
        if rest.starts_with("vector.reduce.") {
            let x = a(self, st, 0);
            let op = match rest["vector.reduce.".len()..].split('.').next().unwrap() {
                "or" => Bin::Or,
                "and" => Bin::And,
                "add" => Bin::Add,
                "xor" => Bin::Xor,
                o => return Err(Stop::Unsup(format!("vector.reduce.{}", o))),
            };
            if let Val::A(xs) = &x {
                let mut r = xs[0].clone();
                for y in &xs[1..] {
                    r = bin(op, w, &r, y);
                }
                done!(r)
            }
            done!(Val::U)
        }
        if n == "asm" && c.dst == u32::MAX {
            done!(Val::U)
        }
        Err(Stop::Unsup(format!("intrinsic {}", n)))
    }

    pub fn work(&mut self) {
        loop {
            if self.sh.stop.load(Relaxed) {
                return;
            }
            if let Some(s) = self.local.pop() {
                self.run(s);
                continue;
            }
            let mut q = self.sh.q.lock().unwrap();
            if let Some(s) = q.pop() {
                drop(q);
                self.run(s);
                continue;
            }
            self.sh.idle.fetch_add(1, Relaxed);
            self.sh.hungry.store(true, Relaxed);
            loop {
                if self.sh.stop.load(Relaxed) {
                    self.sh.cv.notify_all();
                    return;
                }
                if self.sh.idle.load(Relaxed) == self.sh.nworkers {
                    self.sh.stop.store(true, Relaxed);
                    self.sh.cv.notify_all();
                    return;
                }
                if let Some(s) = q.pop() {
                    self.sh.idle.fetch_sub(1, Relaxed);
                    if q.is_empty() && self.sh.idle.load(Relaxed) > 0 {
                        self.sh.hungry.store(true, Relaxed);
                    }
                    drop(q);
                    self.run(s);
                    break;
                }
                self.sh.hungry.store(true, Relaxed);
                let (g, _) = self.sh.cv.wait_timeout(q, Duration::from_millis(5)).unwrap();
                q = g;
                if self.sh.t0.elapsed() > self.sh.lim.wall {
                    self.sh.timed_out.store(true, Relaxed);
                    self.sh.stop.store(true, Relaxed);
                }
            }
        }
    }
}

fn zero_sh(sh: &Sh) -> Val {
    match sh {
        Sh::S(w) => Val::int(0, *w),
        Sh::A(v) => Val::A(Arc::new(v.iter().map(|(_, s)| zero_sh(s)).collect())),
    }
}
fn lanes2(n: u32, x: &Val, y: &Val, f: impl Fn(&Val, &Val) -> Val) -> Val {
    let u = Val::U;
    let g = |v: &Val, i: usize| -> Val {
        match v {
            Val::A(a) => a[i].clone(),
            _ => u.clone(),
        }
    };
    Val::A(Arc::new((0..n as usize).map(|i| f(&g(x, i), &g(y, i))).collect()))
}
fn lanes1(n: u32, x: &Val, f: impl Fn(&Val) -> Val) -> Val {
    match x {
        Val::A(a) => Val::A(Arc::new(a.iter().map(f).collect())),
        _ => Val::A(Arc::new(vec![Val::U; n as usize])),
    }
}
fn cast(c: Cast, from: u32, to: u32, x: &Val) -> Val {
    match x {
        Val::I(v) => match c {
            Cast::Sext => Val::int(sx(*v as u128, from) as u128, to),
            _ => Val::int(*v as u128, to),
        },
        Val::W(v) => match c {
            Cast::Sext => Val::int(sx(**v, from) as u128, to),
            _ => Val::int(**v, to),
        },
        Val::S(t) => Val::term(match c {
            Cast::Zext => t_zx(t, to),
            Cast::Sext => t_sx(t, to),
            Cast::Trunc => t_ext(t, 0, to),
            Cast::Nop => t.clone(),
        }),
        Val::P(b) => match c {
            Cast::Trunc => from_bytes_prefix(b, to),
            Cast::Nop => x.clone(),
            _ => Val::U,
        },
        _ => Val::U,
    }
}
fn from_bytes_prefix(b: &[BV], w: u32) -> Val {
    let n = ((w + 7) / 8) as usize;
    from_bytes(&b[..n.min(b.len())], w)
}
fn select(w: u32, c: &Val, x: &Val, y: &Val) -> Option<Val> {
    match c {
        Val::I(k) => Some(if k & 1 == 1 { x.clone() } else { y.clone() }),
        Val::S(t) => match (x.to_term(w), y.to_term(w)) {
            (Some(a), Some(b)) => Some(Val::term(t_ite(t, &a, &b))),
            _ => None,
        },
        _ => Some(Val::U),
    }
}
fn overflow(op: Bin, w: u32, a: u64, b: u64, nuw: bool, nsw: bool) -> bool {
    let (ua, ub) = (a as u128, b as u128);
    let (sa, sb) = (sx(ua, w), sx(ub, w));
    let mu = mask(w);
    let (smin, smax) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
    match op {
        Bin::Add => (nuw && ua + ub > mu) || (nsw && !(smin..=smax).contains(&(sa + sb))),
        Bin::Sub => (nuw && ua < ub) || (nsw && !(smin..=smax).contains(&(sa - sb))),
        Bin::Mul => (nuw && ua * ub > mu) || (nsw && !(smin..=smax).contains(&(sa * sb))),
        Bin::Shl => {
            if b >= w as u64 {
                return true;
            }
            let r = (ua << ub) & mu;
            (nuw && (r >> ub) != ua) || (nsw && (sx(r, w) >> ub) != sa)
        }
        _ => false,
    }
}
