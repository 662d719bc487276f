//! LLVM IR (textual) -> executable form.  Parsing is lazy: only functions that
//! are actually reached by symbolic execution are ever decoded.
use crate::val::Val;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const FUNC_BASE: u64 = 0x0000_0010_0000_0000;
pub const GLOB_BASE: u64 = 0x0000_1000_0000_0000;
pub const HEAP_BASE: u64 = 0x0000_3000_0000_0000;
pub const STACK_BASE: u64 = 0x0100_0000_0000_0000;
pub const STACK_END: u64 = 0x0110_0000_0000_0000;
pub const SLOT_BITS: u32 = 24;
pub const SLOT_OFF: u64 = 0x1000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(b) => {
                let a = self.align();
                let bytes = ((*b as u64) + 7) / 8;
                (bytes + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(b) => (*b as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !*packed {
                        let a = f.align();
                        al = al.max(a);
                        off = (off + a - 1) / a * a;
                    }
                    off += f.size();
                }
                (off + al - 1) / al * al
            }
        }
    }
    /// number of bytes a load/store of this scalar touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(b) => ((*b as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(b) => {
                let bytes = ((*b as u64) + 7) / 8;
                bytes.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(b) => (*b as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn elem(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (off, f.clone());
                    }
                    off += f.size();
                }
                panic!("field index")
            }
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(f, _) => f.len() as u64,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr => 64,
            Ty::Float(b) => *b,
            _ => 0,
        }
    }
}

/// shape of a loaded/stored value
#[derive(Clone, Debug)]
pub enum Sh {
    S(u32), // scalar of that many bits
    A(Arc<Vec<(u64, Sh)>>),
}
pub fn shape(t: &Ty) -> Sh {
    if t.is_agg() {
        let mut v = vec![];
        for i in 0..t.count() {
            let (o, e) = t.elem(i);
            v.push((o, shape(&e)));
        }
        Sh::A(Arc::new(v))
    } else {
        Sh::S(t.bits())
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Nop,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Intr(Arc<str>),
    Ind(Op),
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: u32, // u32::MAX if none
    pub ret_bits: u32,
    pub callee: Callee,
    pub args: Vec<Op>,
    pub argw: Vec<u32>,
    pub invoke: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, n: u32, dst: u32, a: Op, b: Op, nuw: bool, nsw: bool },
    Icmp { p: Pred, w: u32, n: u32, dst: u32, a: Op, b: Op },
    Cast { c: Cast, from: u32, to: u32, n: u32, dst: u32, a: Op },
    Load { dst: u32, sh: Sh, p: Op, align: u64, sz: u64, ord: u8 },
    Store { sh: Sh, v: Op, p: Op, align: u64, sz: u64, ord: u8 },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, u64, u32)> },
    Alloca { dst: u32, size: u64, align: u64, n: Op },
    Select { dst: u32, w: u32, n: u32, vc: bool, c: Op, a: Op, b: Op },
    Call(Box<CallI>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { w: u32, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Resume(Op),
    Landing { dst: u32, cleanup: bool, catches: bool },
    Extract { dst: u32, a: Op, path: Vec<u32> },
    Insert { dst: u32, a: Op, v: Op, path: Vec<u32>, n: u32 },
    Freeze { dst: u32, a: Op },
    Fence(u8),
    Rmw { dst: u32, op: String, w: u32, p: Op, v: Op, ord: u8 },
    CmpXchg { dst: u32, w: u32, p: Op, c: Op, v: Op, ord: u8, ford: u8 },
    ExtElem { dst: u32, a: Op, i: Op },
    InsElem { dst: u32, a: Op, v: Op, i: Op, n: u32 },
    Shuffle { dst: u32, a: Op, b: Op, mask: Vec<i64>, n: u32 },
    BitcastV { dst: u32, a: Op, fw: u32, fn_: u32, tw: u32, tn: u32 },
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FnEnt {
    pub name: String,
    pub text: Option<(usize, usize)>,
    pub body: OnceLock<&'static Func>,
}
pub struct GlobEnt {
    pub name: String,
    pub text: (usize, usize),
    pub init: OnceLock<Arc<crate::mem::Obj>>,
}

pub struct Module {
    pub src: String,
    pub fns: Vec<FnEnt>,
    pub fn_ix: HashMap<String, u32>,
    pub globs: Vec<GlobEnt>,
    pub glob_ix: HashMap<String, u32>,
    pub types: HashMap<String, (usize, usize)>,
    pub ty_cache: Mutex<HashMap<String, Ty>>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Loc(String),
    Glob(String),
    Int(i128),
    Fl(String),
    Str(Vec<u8>),
    P(u8),
    Meta,
    Attr,
}

fn unquote(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            out.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            out.push(b'\\');
            i += 2;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unquote(&b[i + 2..j])).into_owned();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                v.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(unquote(&b[i + 2..j])));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Id(s[i + 1..j].to_string()));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j])) {
                    j += 1;
                }
                v.push(Tok::Meta);
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                v.push(Tok::Attr);
                i = j;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e'))) {
                    j += 1;
                }
                let t = &s[i..j];
                match t.parse::<i128>() {
                    Ok(n) => v.push(Tok::Int(n)),
                    Err(_) => match t.parse::<u128>() {
                        Ok(n) => v.push(Tok::Int(n as i128)),
                        Err(_) => v.push(Tok::Fl(t.to_string())),
                    },
                }
                i = j;
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                v.push(Tok::Id(s[i..j].to_string()));
                i = j;
            }
            b';' => break,
            _ => {
                v.push(Tok::P(c));
                i += 1;
            }
        }
    }
    v
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a Module,
    regs: Option<&'a mut HashMap<String, u32>>,
}
type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: u8) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c as char, self.peek()))
        }
    }
    fn exp_id(&mut self, s: &str) -> R<()> {
        if self.eat_id(s) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", s, self.peek()))
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Id(s) => {
                if s == "void" {
                    Ty::Void
                } else if s == "ptr" {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                } else if s == "half" || s == "bfloat" {
                    Ty::Float(16)
                } else if s == "float" {
                    Ty::Float(32)
                } else if s == "double" {
                    Ty::Float(64)
                } else if s == "fp128" {
                    Ty::Float(128)
                } else if s == "metadata" || s == "label" || s == "token" {
                    Ty::Other
                } else if s.starts_with('i') && s[1..].parse::<u32>().is_ok() {
                    Ty::Int(s[1..].parse().unwrap())
                } else {
                    return Err(format!("type {}", s));
                }
            }
            Tok::Loc(n) => self.m.named_ty(&n)?,
            Tok::P(b'[') => {
                let n = self.int()?;
                self.exp_id("x")?;
                let t = self.ty()?;
                self.exp_p(b']')?;
                Ty::Arr(n as u64, Arc::new(t))
            }
            Tok::P(b'<') => {
                if self.is_p(b'{') {
                    self.i += 1;
                    let f = self.fields()?;
                    self.exp_p(b'>')?;
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = self.int()?;
                    self.exp_id("x")?;
                    let t = self.ty()?;
                    self.exp_p(b'>')?;
                    Ty::Vec(n as u64, Arc::new(t))
                }
            }
            Tok::P(b'{') => Ty::Struct(Arc::new(self.fields()?), false),
            x => return Err(format!("type tok {:?}", x)),
        };
        Ok(t)
    }
    fn fields(&mut self) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat_p(b'}') {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat_p(b'}') {
                return Ok(f);
            }
            self.exp_p(b',')?;
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Int(n) => Ok(n),
            x => Err(format!("int expected, got {:?}", x)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().expect("no regs");
        let k = r.len() as u32;
        *r.entry(n.to_string()).or_insert(k)
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => match s.as_str() {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "ptrtoaddr" | "bitcast" | "none" | "trunc" | "sub" | "add" | "xor" | "asm" => return Ok(()),
                    "align" => {
                        self.i += 1;
                        if self.is_p(b'(') {
                            self.skip_parens()?;
                        } else {
                            self.i += 1;
                        }
                    }
                    _ => {
                        self.i += 1;
                        if self.is_p(b'(') {
                            self.skip_parens()?;
                        }
                    }
                },
                Some(Tok::Attr) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
    fn val(&mut self, t: &Ty) -> R<Op> {
        if let Some(Tok::Loc(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            let r = self.reg(&n);
            return Ok(Op::R(r));
        }
        Ok(Op::C(self.cval(t)?))
    }
    fn tyval(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn cval(&mut self, t: &Ty) -> R<Val> {
        match self.next()? {
            Tok::Int(n) => Ok(Val::int(n as u128, t.bits())),
            Tok::Fl(s) => {
                // floating constants: only the hexadecimal and simple forms for double
                if t == &Ty::Float(64) || t == &Ty::Float(32) {
                    let d = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).map(f64::from_bits).map_err(|_| "float")?
                    } else {
                        s.parse::<f64>().map_err(|_| "float")?
                    };
                    return Ok(if t == &Ty::Float(64) { Val::I(d.to_bits()) } else { Val::I((d as f32).to_bits() as u64) });
                }
                Ok(Val::U)
            }
            Tok::Str(b) => Ok(Val::A(Arc::new(b.into_iter().map(|x| Val::I(x as u64)).collect()))),
            Tok::Glob(n) => Ok(Val::I(self.m.addr_of(&n).ok_or_else(|| format!("unknown global {}", n))?)),
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Val::I(1)),
                "false" => Ok(Val::I(0)),
                "null" | "none" => Ok(Val::I(0)),
                "undef" | "poison" => Ok(undef(t)),
                "zeroinitializer" => Ok(zero(t)),
                "splat" => {
                    self.exp_p(b'(')?;
                    let et = self.ty()?;
                    let v = self.cval(&et)?;
                    self.exp_p(b')')?;
                    Ok(Val::A(Arc::new(vec![v; t.count() as usize])))
                }
                "getelementptr" => {
                    while let Some(Tok::Id(s)) = self.peek() {
                        if s == "inbounds" || s == "nuw" || s == "nusw" {
                            self.i += 1;
                        } else if s == "inrange" {
                            self.i += 1;
                            self.skip_parens()?;
                        } else {
                            break;
                        }
                    }
                    self.exp_p(b'(')?;
                    let t0 = self.ty()?;
                    self.exp_p(b',')?;
                    let bt = self.ty()?;
                    let b = self.cval(&bt)?;
                    let mut addr = b.as_u64().ok_or("gep base")?;
                    let mut first = true;
                    let mut cur = t0;
                    while self.eat_p(b',') {
                        let it = self.ty()?;
                        let iv = self.cval(&it)?;
                        let i = crate::val::sx(iv.as_u128().ok_or("gep idx")?, it.bits()) as i64;
                        if first {
                            addr = addr.wrapping_add((i as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else if let Ty::Struct(..) = cur {
                            let (o, e) = cur.elem(i as u64);
                            addr = addr.wrapping_add(o);
                            cur = e;
                        } else {
                            let e = cur.elem(0).1;
                            addr = addr.wrapping_add((i as u64).wrapping_mul(e.size()));
                            cur = e;
                        }
                    }
                    self.exp_p(b')')?;
                    Ok(Val::I(addr))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    self.exp_p(b'(')?;
                    let ft = self.ty()?;
                    let v = self.cval(&ft)?;
                    self.exp_id("to")?;
                    let tt = self.ty()?;
                    self.exp_p(b')')?;
                    Ok(Val::int(v.as_u128().ok_or("const cast")?, tt.bits()))
                }
                "sub" | "add" | "xor" => {
                    while self.eat_id("nuw") || self.eat_id("nsw") {}
                    self.exp_p(b'(')?;
                    let ft = self.ty()?;
                    let a = self.cval(&ft)?.as_u128().ok_or("ce")?;
                    self.exp_p(b',')?;
                    let ft2 = self.ty()?;
                    let b = self.cval(&ft2)?.as_u128().ok_or("ce")?;
                    self.exp_p(b')')?;
                    let r = match s.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        _ => a ^ b,
                    };
                    Ok(Val::int(r, ft.bits()))
                }
                x => Err(format!("const {}", x)),
            },
            Tok::P(b'{') => self.caggr(b'}'),
            Tok::P(b'[') => self.caggr(b']'),
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let v = self.caggr(b'}')?;
                    self.exp_p(b'>')?;
                    Ok(v)
                } else {
                    self.caggr(b'>')
                }
            }
            x => Err(format!("const tok {:?}", x)),
        }
    }
    fn caggr(&mut self, end: u8) -> R<Val> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(Val::A(Arc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.cval(&t)?);
            if self.eat_p(end) {
                return Ok(Val::A(Arc::new(v)));
            }
            self.exp_p(b',')?;
        }
    }
}

pub fn undef(t: &Ty) -> Val {
    if t.is_agg() {
        Val::A(Arc::new((0..t.count()).map(|i| undef(&t.elem(i).1)).collect()))
    } else {
        Val::U
    }
}
pub fn zero(t: &Ty) -> Val {
    if t.is_agg() {
        Val::A(Arc::new((0..t.count()).map(|i| zero(&t.elem(i).1)).collect()))
    } else {
        Val::int(0, t.bits())
    }
}

fn sym_name(line: &str, at: usize) -> String {
    // name after '@' at position
    let b = line.as_bytes();
    if b[at + 1] == b'"' {
        let mut j = at + 2;
        while b[j] != b'"' {
            j += 1;
        }
        String::from_utf8_lossy(&unquote(&b[at + 2..j])).into_owned()
    } else {
        let mut j = at + 1;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) {
            j += 1;
        }
        line[at + 1..j].to_string()
    }
}

impl Module {
    pub fn load(src: String) -> Module {
        let mut fns = vec![];
        let mut fn_ix = HashMap::new();
        let mut globs = vec![];
        let mut glob_ix = HashMap::new();
        let mut types = HashMap::new();
        let mut aliases = HashMap::new();
        let mut pos = 0;
        let b = src.as_bytes();
        while pos < b.len() {
            let e = src[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &src[pos..e];
            if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let name = sym_name(line, at);
                let end = src[pos..].find("\n}").map(|x| pos + x + 1).unwrap();
                fn_ix.insert(name.clone(), fns.len() as u32);
                fns.push(FnEnt { name, text: Some((pos, end)), body: OnceLock::new() });
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let name = sym_name(line, at);
                fn_ix.insert(name.clone(), fns.len() as u32);
                fns.push(FnEnt { name, text: None, body: OnceLock::new() });
            } else if line.starts_with('@') {
                let name = sym_name(line, 0);
                if let Some(a) = line.find(" alias ") {
                    if let Some(at) = line[a..].rfind('@') {
                        aliases.insert(name, sym_name(line, a + at));
                    }
                } else {
                    glob_ix.insert(name.clone(), globs.len() as u32);
                    globs.push(GlobEnt { name, text: (pos, e), init: OnceLock::new() });
                }
            } else if line.starts_with('%') {
                if let Some(q) = line.find(" = type ") {
                    let nm = if line.as_bytes()[1] == b'"' {
                        String::from_utf8_lossy(&unquote(&line.as_bytes()[2..q - 1])).into_owned()
                    } else {
                        line[1..q].to_string()
                    };
                    types.insert(nm, (pos + q + 8, e));
                }
            }
            pos = e + 1;
        }
        Module { src, fns, fn_ix, globs, glob_ix, types, ty_cache: Mutex::new(HashMap::new()), aliases }
    }

    fn named_ty(&self, n: &str) -> R<Ty> {
        if let Some(t) = self.ty_cache.lock().unwrap().get(n) {
            return Ok(t.clone());
        }
        let (a, b) = *self.types.get(n).ok_or_else(|| format!("type name {}", n))?;
        let toks = lex(&self.src[a..b]);
        if toks.first() == Some(&Tok::Id("opaque".into())) {
            return Ok(Ty::Other);
        }
        let mut p = P { t: toks, i: 0, m: self, regs: None };
        let t = p.ty()?;
        self.ty_cache.lock().unwrap().insert(n.to_string(), t.clone());
        Ok(t)
    }

    pub fn addr_of(&self, n: &str) -> Option<u64> {
        if let Some(a) = self.aliases.get(n) {
            return self.addr_of(a);
        }
        if let Some(i) = self.fn_ix.get(n) {
            return Some(FUNC_BASE + (*i as u64) * 16);
        }
        self.glob_ix.get(n).map(|i| GLOB_BASE + ((*i as u64) << SLOT_BITS) + SLOT_OFF)
    }

    /// initial contents of a global
    pub fn global(&self, ix: u32) -> R<Arc<crate::mem::Obj>> {
        let g = &self.globs[ix as usize];
        if let Some(o) = g.init.get() {
            return Ok(o.clone());
        }
        let line = &self.src[g.text.0..g.text.1];
        let toks = lex(line);
        let mut p = P { t: toks, i: 0, m: self, regs: None };
        p.next()?; // name
        p.exp_p(b'=')?;
        let mut ext = false;
        let konst;
        loop {
            match p.next()? {
                Tok::Id(s) if s == "constant" => {
                    konst = true;
                    break;
                }
                Tok::Id(s) if s == "global" => {
                    konst = false;
                    break;
                }
                Tok::Id(s) => {
                    if s == "external" || s == "extern_weak" {
                        ext = true
                    }
                    if p.is_p(b'(') {
                        p.skip_parens()?;
                    }
                }
                x => return Err(format!("global {}: {:?}", g.name, x)),
            }
        }
        let t = p.ty()?;
        let mut o = crate::mem::Obj::new(t.size(), 16);
        o.konst = konst;
        if !ext {
            let v = p.cval(&t).map_err(|e| format!("global {}: {}", g.name, e))?;
            o.init(&t, &v, 0);
        }
        let _ = g.init.set(Arc::new(o));
        Ok(g.init.get().unwrap().clone())
    }

    pub fn func(&self, id: u32) -> R<&'static Func> {
        let e = &self.fns[id as usize];
        if let Some(f) = e.body.get() {
            return Ok(f);
        }
        let (a, b) = e.text.ok_or_else(|| format!("function {} has no body", e.name))?;
        let f = parse_fn(self, id, &self.src[a..b]).map_err(|x| format!("{}: {}", e.name, x))?;
        let f: &'static Func = Box::leak(Box::new(f));
        let _ = e.body.set(f);
        Ok(e.body.get().unwrap())
    }
}

fn parse_fn(m: &Module, id: u32, text: &str) -> R<Func> {
    // logical lines
    let mut logical: Vec<(bool, String)> = vec![]; // (is_label, text)
    let mut lines = text.lines();
    let head = lines.next().unwrap().to_string();
    for l in lines {
        let bs = l.as_bytes();
        if bs.is_empty() || bs[0] == b';' || l == "}" {
            continue;
        }
        if bs[0] != b' ' {
            let name = if bs[0] == b'"' {
                let e = l[1..].find('"').unwrap();
                String::from_utf8_lossy(&unquote(&bs[1..e + 1])).into_owned()
            } else {
                l[..l.find(':').ok_or("label")?].to_string()
            };
            logical.push((true, name));
        } else if l.starts_with("    ") || l.starts_with("  ]") {
            if let Some(last) = logical.last_mut() {
                last.1.push(' ');
                last.1.push_str(l.trim());
            }
        } else {
            let t = l.trim();
            if t.starts_with('#') || t.starts_with(';') {
                continue; // debug records
            }
            logical.push((false, t.to_string()));
        }
    }
    let mut regs: HashMap<String, u32> = HashMap::new();
    // parameters
    let at = head.find('@').unwrap();
    let nm = sym_name(&head, at);
    let skip = at + 1 + nm.len() + if head.as_bytes()[at + 1] == b'"' { 2 } else { 0 };
    let mut p = P { t: lex(&head[skip..]), i: 0, m, regs: Some(&mut regs) };
    p.exp_p(b'(')?;
    let mut nparams = 0;
    let mut numbered = 0;
    if !p.eat_p(b')') {
        loop {
            if p.eat_p(b'.') {
                while p.eat_p(b'.') {}
            } else {
                p.ty()?;
                p.skip_attrs()?;
                if let Some(Tok::Loc(n)) = p.peek() {
                    let n = n.clone();
                    p.i += 1;
                    if n.parse::<u32>().is_ok() {
                        numbered += 1;
                    }
                    p.reg(&n);
                } else {
                    p.reg(&format!("$anon{}", nparams));
                    numbered += 1;
                }
                nparams += 1;
            }
            if p.eat_p(b')') {
                break;
            }
            p.exp_p(b',')?;
        }
    }
    // block names
    let mut bix: HashMap<String, u32> = HashMap::new();
    let mut order = vec![];
    if logical.first().map(|l| !l.0).unwrap_or(true) {
        bix.insert(numbered.to_string(), 0);
        order.push(numbered.to_string());
    }
    for (lab, n) in &logical {
        if *lab {
            bix.insert(n.clone(), order.len() as u32);
            order.push(n.clone());
        }
    }
    let mut blocks: Vec<Block> = order.iter().map(|_| Block::default()).collect();
    let mut cur = 0usize;
    let mut firstlab = logical.first().map(|l| l.0).unwrap_or(false);
    for (lab, l) in &logical {
        if *lab {
            if firstlab {
                firstlab = false;
                cur = 0;
            } else {
                cur += 1;
            }
            debug_assert_eq!(bix[l] as usize, cur);
            continue;
        }
        let mut toks = lex(l);
        let has_md = l.contains("metadata ");
        // cut trailing metadata
        if !has_md {
            for k in 1..toks.len() {
                if toks[k] == Tok::Meta && toks[k - 1] == Tok::P(b',') {
                    toks.truncate(k - 1);
                    break;
                }
            }
        }
        let mut p = P { t: toks, i: 0, m, regs: Some(&mut regs) };
        match parse_inst(&mut p, &bix, &mut blocks[cur]) {
            Ok(Some(i)) => blocks[cur].insts.push(i),
            Ok(None) => {}
            Err(e) => {
                blocks[cur].insts.push(Inst::Unsupported(format!("{} in `{}`", e, l)));
            }
        }
    }
    let nregs = regs.len() as u32;
    Ok(Func { id, name: nm, nparams, nregs, blocks })
}

fn vdim(t: &Ty) -> (u32, u32) {
    // (element width, lanes; 0 = scalar)
    match t {
        Ty::Vec(n, e) => (e.bits(), *n as u32),
        _ => (t.bits(), 0),
    }
}

fn parse_inst(p: &mut P, bix: &HashMap<String, u32>, blk: &mut Block) -> R<Option<Inst>> {
    let mut dst = u32::MAX;
    if let (Some(Tok::Loc(n)), Some(Tok::P(b'='))) = (p.t.get(0).cloned(), p.t.get(1)) {
        dst = p.reg(&n);
        p.i = 2;
    }
    let opn = match p.next()? {
        Tok::Id(s) => s,
        x => return Err(format!("inst {:?}", x)),
    };
    let label = |p: &mut P| -> R<u32> {
        p.exp_id("label")?;
        match p.next()? {
            Tok::Loc(n) => bix.get(&n).copied().ok_or_else(|| format!("label {}", n)),
            x => Err(format!("label {:?}", x)),
        }
    };
    let bin = |s: &str| -> Option<Bin> {
        Some(match s {
            "add" => Bin::Add,
            "sub" => Bin::Sub,
            "mul" => Bin::Mul,
            "udiv" => Bin::UDiv,
            "sdiv" => Bin::SDiv,
            "urem" => Bin::URem,
            "srem" => Bin::SRem,
            "shl" => Bin::Shl,
            "lshr" => Bin::LShr,
            "ashr" => Bin::AShr,
            "and" => Bin::And,
            "or" => Bin::Or,
            "xor" => Bin::Xor,
            _ => return None,
        })
    };
    if let Some(op) = bin(&opn) {
        let (mut nuw, mut nsw) = (false, false);
        loop {
            if p.eat_id("nuw") {
                nuw = true
            } else if p.eat_id("nsw") {
                nsw = true
            } else if p.eat_id("exact") || p.eat_id("disjoint") {
            } else {
                break;
            }
        }
        let t = p.ty()?;
        let a = p.val(&t)?;
        p.exp_p(b',')?;
        let b = p.val(&t)?;
        let (w, n) = vdim(&t);
        return Ok(Some(Inst::Bin { op, w, n, dst, a, b, nuw, nsw }));
    }
    Ok(Some(match opn.as_str() {
        "icmp" => {
            p.eat_id("samesign");
            let pr = match p.next()? {
                Tok::Id(s) => match s.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("icmp {}", x)),
                },
                _ => return Err("icmp".into()),
            };
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(b',')?;
            let b = p.val(&t)?;
            let (w, n) = vdim(&t);
            Inst::Icmp { p: pr, w, n, dst, a, b }
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" => {
            while p.eat_id("nneg") || p.eat_id("nuw") || p.eat_id("nsw") {}
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_id("to")?;
            let t2 = p.ty()?;
            let (fw, fn_) = vdim(&t);
            let (tw, tn) = vdim(&t2);
            if opn == "bitcast" {
                if fn_ == tn && fw == tw {
                    return Ok(Some(Inst::Freeze { dst, a }));
                }
                return Ok(Some(Inst::BitcastV { dst, a, fw, fn_, tw, tn }));
            }
            let c = match opn.as_str() {
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "trunc" => Cast::Trunc,
                _ => {
                    if fw < tw {
                        Cast::Zext
                    } else if fw > tw {
                        Cast::Trunc
                    } else {
                        Cast::Nop
                    }
                }
            };
            Inst::Cast { c, from: fw, to: tw, n: fn_, dst, a }
        }
        "freeze" => {
            let (_, a) = p.tyval()?;
            Inst::Freeze { dst, a }
        }
        "load" => {
            let mut ord = p.eat_id("atomic") as u8;
            p.eat_id("volatile");
            let t = p.ty()?;
            p.exp_p(b',')?;
            let (_, a) = p.tyval()?;
            let mut align = 1;
            while let Some(t) = p.peek() {
                if *t == Tok::Id("align".into()) {
                    p.i += 1;
                    align = p.int()? as u64;
                } else {
                    ord |= order(t);
                    p.i += 1;
                }
            }
            if matches!(t, Ty::Vec(_, ref e) if e.bits() % 8 != 0) {
                return Err("vector of sub-byte lanes".into());
            }
            Inst::Load { dst, sh: shape(&t), p: a, align, sz: if t.is_agg() { t.size() } else { t.store_size() }, ord }
        }
        "store" => {
            let mut ord = p.eat_id("atomic") as u8;
            p.eat_id("volatile");
            let (t, v) = p.tyval()?;
            p.exp_p(b',')?;
            let (_, a) = p.tyval()?;
            let mut align = 1;
            while let Some(t) = p.peek() {
                if *t == Tok::Id("align".into()) {
                    p.i += 1;
                    align = p.int()? as u64;
                } else {
                    ord |= order(t);
                    p.i += 1;
                }
            }
            if matches!(t, Ty::Vec(_, ref e) if e.bits() % 8 != 0) {
                return Err("vector of sub-byte lanes".into());
            }
            Inst::Store { sh: shape(&t), v, p: a, align, sz: if t.is_agg() { t.size() } else { t.store_size() }, ord }
        }
        "getelementptr" => {
            while p.eat_id("inbounds") || p.eat_id("nuw") || p.eat_id("nusw") {}
            let t0 = p.ty()?;
            p.exp_p(b',')?;
            let (bt, base) = p.tyval()?;
            if bt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut off: i64 = 0;
            let mut idx = vec![];
            let mut cur = t0;
            let mut first = true;
            while p.eat_p(b',') {
                let (it, iv) = p.tyval()?;
                if it.is_agg() {
                    return Err("vector gep".into());
                }
                let scale;
                if first {
                    scale = cur.size();
                    first = false;
                } else if let Ty::Struct(..) = cur {
                    let k = match &iv {
                        Op::C(v) => v.as_u64().ok_or("gep field")?,
                        _ => return Err("gep field".into()),
                    };
                    let (o, e) = cur.elem(k);
                    off = off.wrapping_add(o as i64);
                    cur = e;
                    continue;
                } else {
                    let e = cur.elem(0).1;
                    scale = e.size();
                    cur = e;
                }
                match &iv {
                    Op::C(v) => {
                        let k = crate::val::sx(v.as_u128().ok_or("gep const")?, it.bits()) as i64;
                        off = off.wrapping_add(k.wrapping_mul(scale as i64));
                    }
                    _ => idx.push((iv, scale, it.bits())),
                }
            }
            Inst::Gep { dst, base, off, idx }
        }
        "alloca" => {
            p.eat_id("inalloca");
            let t = p.ty()?;
            let mut n = Op::C(Val::I(1));
            let mut align = t.align();
            while p.eat_p(b',') {
                if p.eat_id("align") {
                    align = p.int()? as u64;
                } else {
                    n = p.tyval()?.1;
                }
            }
            Inst::Alloca { dst, size: t.size(), align, n }
        }
        "select" => {
            let (ct, c) = p.tyval()?;
            p.exp_p(b',')?;
            let (t, a) = p.tyval()?;
            p.exp_p(b',')?;
            let (_, b) = p.tyval()?;
            let (w, n) = vdim(&t);
            Inst::Select { dst, w, n, vc: ct.is_agg(), c, a, b }
        }
        "phi" => {
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.exp_p(b'[')?;
                let x = p.val(&t)?;
                p.exp_p(b',')?;
                let l = match p.next()? {
                    Tok::Loc(n) => *bix.get(&n).ok_or_else(|| format!("phi label {}", n))?,
                    x => return Err(format!("phi {:?}", x)),
                };
                p.exp_p(b']')?;
                v.push((l, x));
                if !p.eat_p(b',') {
                    break;
                }
            }
            blk.phis.push((dst, v));
            return Ok(None);
        }
        "br" => {
            if p.is_id("label") {
                Inst::Br(label(p)?)
            } else {
                let (_, c) = p.tyval()?;
                p.exp_p(b',')?;
                let a = label(p)?;
                p.exp_p(b',')?;
                let b = label(p)?;
                Inst::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (t, v) = p.tyval()?;
            p.exp_p(b',')?;
            let def = label(p)?;
            p.exp_p(b'[')?;
            let mut cases = vec![];
            while !p.eat_p(b']') {
                let ct = p.ty()?;
                let c = p.cval(&ct)?.as_u128().ok_or("case")?;
                p.exp_p(b',')?;
                cases.push((c, label(p)?));
            }
            Inst::Switch { w: t.bits(), v, def, cases }
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                Inst::Ret(None)
            } else {
                let v = p.val(&t)?;
                Inst::Ret(Some(v))
            }
        }
        "unreachable" => Inst::Unreachable,
        "resume" => Inst::Resume(p.tyval()?.1),
        "landingpad" => {
            p.ty()?;
            let mut cleanup = false;
            let mut catches = false;
            for t in &p.t[p.i..] {
                if let Tok::Id(s) = t {
                    if s == "cleanup" {
                        cleanup = true
                    }
                    if s == "catch" || s == "filter" {
                        catches = true
                    }
                }
            }
            Inst::Landing { dst, cleanup, catches }
        }
        "extractvalue" => {
            let (_, a) = p.tyval()?;
            let mut path = vec![];
            while p.eat_p(b',') {
                path.push(p.int()? as u32);
            }
            Inst::Extract { dst, a, path }
        }
        "insertvalue" => {
            let (t, a) = p.tyval()?;
            p.exp_p(b',')?;
            let (_, v) = p.tyval()?;
            let mut path = vec![];
            while p.eat_p(b',') {
                path.push(p.int()? as u32);
            }
            Inst::Insert { dst, a, v, path, n: t.count() as u32 }
        }
        "fence" => {
            let mut ord = 1;
            while let Some(t) = p.peek() {
                ord |= order(t);
                p.i += 1;
            }
            Inst::Fence(ord)
        }
        "atomicrmw" => {
            p.eat_id("volatile");
            let op = match p.next()? {
                Tok::Id(s) => s,
                x => return Err(format!("rmw {:?}", x)),
            };
            let (_, a) = p.tyval()?;
            p.exp_p(b',')?;
            let (t, v) = p.tyval2()?;
            let mut ord = 1;
            while let Some(t) = p.peek() {
                ord |= order(t);
                p.i += 1;
            }
            Inst::Rmw { dst, op, w: t.bits(), p: a, v, ord }
        }
        "cmpxchg" => {
            p.eat_id("weak");
            p.eat_id("volatile");
            let (_, a) = p.tyval()?;
            p.exp_p(b',')?;
            let (t, c) = p.tyval2()?;
            p.exp_p(b',')?;
            let (_, v) = p.tyval2()?;
            let mut ords = vec![];
            while let Some(t) = p.peek() {
                if ORDERS.iter().any(|o| *t == Tok::Id((*o).into())) {
                    ords.push(order(t) | 1);
                }
                p.i += 1;
            }
            Inst::CmpXchg { dst, w: t.bits(), p: a, c, v, ord: ords.first().copied().unwrap_or(7), ford: ords.get(1).copied().unwrap_or(7) }
        }
        "extractelement" => {
            let (_, a) = p.tyval()?;
            p.exp_p(b',')?;
            let (_, i) = p.tyval()?;
            Inst::ExtElem { dst, a, i }
        }
        "insertelement" => {
            let (t, a) = p.tyval()?;
            p.exp_p(b',')?;
            let (_, v) = p.tyval()?;
            p.exp_p(b',')?;
            let (_, i) = p.tyval()?;
            Inst::InsElem { dst, a, v, i, n: t.count() as u32 }
        }
        "shufflevector" => {
            let (t, a) = p.tyval()?;
            p.exp_p(b',')?;
            let (_, b) = p.tyval()?;
            p.exp_p(b',')?;
            let (_, m) = p.tyval()?;
            let mask = match m {
                Op::C(Val::A(v)) => v.iter().map(|x| x.as_u64().map(|y| y as i64).unwrap_or(-1)).collect(),
                _ => return Err("shuffle mask".into()),
            };
            Inst::Shuffle { dst, a, b, mask, n: t.count() as u32 }
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let is_inv = opn == "invoke";
            if opn != "call" && !is_inv {
                p.exp_id("call")?;
            }
            // no-op intrinsics that take metadata
            for t in &p.t[p.i..] {
                if let Tok::Glob(g) = t {
                    if g.starts_with("llvm.experimental.noalias") || g.starts_with("llvm.dbg") {
                        return Ok(None);
                    }
                }
            }
            // attributes & cc before the return type
            loop {
                match p.peek() {
                    Some(Tok::Id(s)) => {
                        let isty = matches!(s.as_str(), "void" | "ptr" | "half" | "float" | "double" | "fp128")
                            || (s.starts_with('i') && s[1..].parse::<u32>().is_ok());
                        if isty {
                            break;
                        }
                        if s == "align" || s == "cc" {
                            p.i += 2;
                        } else {
                            p.i += 1;
                            if p.is_p(b'(') {
                                p.skip_parens()?;
                            }
                        }
                    }
                    _ => break,
                }
            }
            let rt = p.ty()?;
            if p.is_p(b'(') {
                p.skip_parens()?;
            }
            let callee = match p.next()? {
                Tok::Glob(n) => {
                    let n = p.m.aliases.get(&n).cloned().unwrap_or(n);
                    if n.starts_with("llvm.") {
                        Callee::Intr(Arc::from(n.as_str()))
                    } else {
                        Callee::Fn(*p.m.fn_ix.get(&n).ok_or_else(|| format!("callee {}", n))?)
                    }
                }
                Tok::Loc(n) => Callee::Ind(Op::R(p.reg(&n))),
                Tok::Id(s) if s == "asm" => Callee::Intr(Arc::from("asm")),
                x => return Err(format!("callee {:?}", x)),
            };
            if let Callee::Intr(s) = &callee {
                if &**s == "asm" {
                    while !p.is_p(b'(') {
                        p.i += 1;
                    }
                }
            }
            p.exp_p(b'(')?;
            let mut args = vec![];
            let mut argw = vec![];
            if !p.eat_p(b')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Other {
                        return Err("metadata arg".into());
                    }
                    p.skip_attrs()?;
                    args.push(p.val(&t)?);
                    argw.push(vdim(&t).0);
                    if p.eat_p(b')') {
                        break;
                    }
                    p.exp_p(b',')?;
                }
            }
            let mut invoke = None;
            if is_inv {
                while !p.is_id("to") {
                    p.next()?;
                }
                p.exp_id("to")?;
                let a = label(p)?;
                p.exp_id("unwind")?;
                let b = label(p)?;
                invoke = Some((a, b));
            }
            let ret_bits = if rt.is_agg() { vdim(&rt).0 } else { rt.bits() };
            Inst::Call(Box::new(CallI { dst, ret_bits, callee, args, argw, invoke }))
        }
        x => return Err(format!("opcode {}", x)),
    }))
}
impl<'a> P<'a> {
    fn tyval2(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
}

const ORDERS: [&str; 6] = ["unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"];
/// the ordering a token names: 2 acquire, 4 release
fn order(t: &Tok) -> u8 {
    match t {
        Tok::Id(s) => match s.as_str() {
            "acquire" => 2,
            "release" => 4,
            "acq_rel" | "seq_cst" => 6,
            _ => 0,
        },
        _ => 0,
    }
}
