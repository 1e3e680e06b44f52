//! Textual LLVM IR: module index, lazy per-function decoding.
use crate::expr::{B, mask};
use crate::val::V;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    /// label, metadata, token, target ext and other first-class oddities
    Other,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    /// fields, packed
    St(Rc<[Ty]>, bool),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let bits = n * t.bits();
                bits.div_ceil(8).next_power_of_two().max(1)
            }
            Ty::St(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs.iter() {
                    let a = if *packed { 1 } else { f.align() };
                    al = al.max(a);
                    o = o.div_ceil(a) * a + f.size();
                }
                o.div_ceil(al) * al
            }
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            t => t.size() * 8,
        }
    }
    pub fn store_bytes(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(n, t) => (n * t.bits()).div_ceil(8),
            t => t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Void | Ty::Other => 1,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().min(16),
            Ty::St(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::St(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    o = o.div_ceil(a) * a;
                    if k as u64 == i { return o; }
                    o += f.size();
                }
                panic!("field {i}")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn elem(&self, i: u64) -> &Ty {
        match self {
            Ty::St(fs, _) => &fs[i as usize],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {self:?}"),
        }
    }
    /// scalar width in bits (ptr 64, floats by size)
    pub fn w(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {self:?}"),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum O {
    R(u32),
    I(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, Bit, PtrInt }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(O),
    Intr(Rc<str>),
    Asm(Rc<str>),
}

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Box<[(Ty, O)]>,
    pub ret: Ty,
    pub dst: u32,
    /// invoke: the normal edge
    pub normal: Option<u32>,
    pub intr: Cell<u32>,
}

#[derive(Debug)]
pub enum Op {
    Bin(B, Ty, O, O, u32),
    FBin(u8, Ty, O, O, u32),
    FNeg(Ty, O, u32),
    Icmp(Pred, Ty, O, O, u32),
    Fcmp(Rc<str>, Ty, O, O, u32),
    Load(Ty, O, u32, bool),
    Store(Ty, O, O, bool),
    Gep(O, i64, Box<[(O, u32, u64)]>, u32),
    Cast(Cast, Ty, O, Ty, u32),
    Select(Ty, O, Ty, O, O, u32),
    Call(Box<CallI>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, Box<[(u128, u32)]>, u32),
    Ret(Option<O>),
    Unreachable,
    Alloca(u64, O, u64, u32),
    /// static slot of the frame object
    Slot(u64, u32),
    ExtractV(O, Box<[u32]>, u32),
    InsertV(Ty, O, O, Box<[u32]>, u32),
    ExtractE(O, O, u32),
    InsertE(Ty, O, O, O, u32),
    Shuffle(Ty, O, O, Box<[u32]>, u32),
    Rmw(Rmw, Ty, O, O, u32),
    CmpXchg(Ty, O, O, O, u32),
    Fence,
    Copy(O, u32),
    Landing,
}

#[derive(Debug)]
pub struct Inst {
    pub op: Op,
    pub dbg: u32,
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32,
    pub copies: Box<[(u32, O)]>,
}

pub struct Func {
    pub name: Rc<str>,
    pub nregs: u32,
    pub frame: u64,
    pub params: Vec<u32>,
    pub vararg: bool,
    pub blocks: Vec<Vec<Inst>>,
    pub edges: Vec<Edge>,
    pub consts: Vec<V>,
    /// blocks entered at least once, by this process
    pub hit: RefCell<Vec<bool>>,
}

pub struct FuncEntry {
    pub name: Rc<str>,
    /// byte range of the definition in the text (0,0: declaration)
    pub def: (usize, usize),
    pub weak: bool,
    pub body: RefCell<Option<Rc<Func>>>,
    /// index of the built-in model + 1
    pub ext: Cell<u32>,
}

pub struct Global {
    pub name: Rc<str>,
    pub text: (usize, usize),
    pub tls: bool,
    pub is_const: bool,
    pub external: bool,
    pub alias: bool,
    pub init: RefCell<Option<Rc<Vec<u8>>>>,
}

pub struct Module {
    pub text: &'static [u8],
    pub funcs: Vec<FuncEntry>,
    pub globals: Vec<Global>,
    pub by_name: HashMap<&'static str, Sym>,
    pub named_tys: RefCell<HashMap<String, Rc<Ty>>>,
    pub ty_text: HashMap<String, usize>,
}

#[derive(Clone, Copy, Debug)]
pub enum Sym { F(u32), G(u32) }

pub const OBJ_SHIFT: u32 = 32;

impl Module {
    pub fn func_addr(&self, f: u32) -> u64 { ((f as u64) << OBJ_SHIFT) | 0x8000_0000_0000_0000u64 >> 1 }
    pub fn global_addr(&self, g: u32) -> u64 { (g as u64 + 1) << OBJ_SHIFT }
    pub fn addr_func(&self, a: u64) -> Option<u32> {
        if a >> 62 == 1 && a & 0xffff_ffff == 0 {
            let f = ((a & !(1 << 62)) >> OBJ_SHIFT) as u32;
            if (f as usize) < self.funcs.len() { return Some(f); }
        }
        None
    }

    /// All the files as one module; a definition anywhere serves declarations everywhere.
    pub fn load(paths: &[String]) -> Module {
        let mut text = vec![];
        for p in paths { text.extend(std::fs::read(p).expect("reading IR")); text.push(b'\n'); }
        let text: &'static [u8] = Box::leak(text.into_boxed_slice());
        let mut m = Module { text, funcs: vec![], globals: vec![], by_name: HashMap::new(), named_tys: Default::default(), ty_text: HashMap::new() };
        let mut i = 0;
        let n = text.len();
        while i < n {
            let e = memchr(b'\n', text, i);
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                let name = sym_name(line);
                // body ends at a line that is "}"
                let mut j = e + 1;
                loop {
                    let k = memchr(b'\n', text, j);
                    if &text[j..k] == b"}" { j = k; break; }
                    j = k + 1;
                }
                m.add_func(name, (i, j), false);
                i = j + 1;
                continue;
            } else if line.starts_with(b"declare ") {
                let name = sym_name(line);
                if !name.starts_with("llvm.") {
                    let weak = line.starts_with(b"declare extern_weak");
                    m.add_func(name, (0, 0), weak);
                }
            } else if line.starts_with(b"@") {
                let (name, after) = at_name(line);
                let rest = &line[after..];
                let rs = std::str::from_utf8(rest).unwrap_or("");
                let head = &rs[..rs.len().min(200)];
                let g = Global {
                    name: name.into(),
                    text: (i + after, e),
                    tls: head.contains("thread_local"),
                    is_const: head.contains(" constant "),
                    external: head.contains("= external ") || head.contains("= extern_weak "),
                    alias: head.contains(" alias "),
                    init: RefCell::new(None),
                };
                let id = m.globals.len() as u32;
                m.by_name.insert(name, Sym::G(id));
                m.globals.push(g);
            } else if line.starts_with(b"%") && line.windows(7).any(|w| w == b"= type ") {
                let s = std::str::from_utf8(line).unwrap();
                let k = s.find(" = type ").unwrap();
                m.ty_text.insert(s[1..k].trim_matches('"').to_string(), i + k + 8);
            }
            i = e + 1;
        }
        m
    }
    fn add_func(&mut self, name: &'static str, def: (usize, usize), weak: bool) {
        if let Some(Sym::F(f)) = self.by_name.get(name) {
            if def != (0, 0) { self.funcs[*f as usize].def = def; }
            return;
        }
        let id = self.funcs.len() as u32;
        self.by_name.insert(name, Sym::F(id));
        self.funcs.push(FuncEntry { name: name.into(), def, weak, body: RefCell::new(None), ext: Cell::new(0) });
    }
    pub fn find_func(&self, n: &str) -> Option<u32> {
        match self.by_name.get(n) { Some(Sym::F(f)) => Some(*f), _ => None }
    }
    pub fn func(&self, f: u32) -> Rc<Func> {
        if let Some(b) = &*self.funcs[f as usize].body.borrow() { return b.clone(); }
        let (a, b) = self.funcs[f as usize].def;
        let mut p = Parser::new(self, a, b);
        let fun = Rc::new(p.function());
        *self.funcs[f as usize].body.borrow_mut() = Some(fun.clone());
        fun
    }
    pub fn global_init(&self, g: u32) -> Rc<Vec<u8>> {
        if let Some(b) = &*self.globals[g as usize].init.borrow() { return b.clone(); }
        let (a, b) = self.globals[g as usize].text;
        let mut p = Parser::new(self, a, b);
        let v = Rc::new(p.global());
        *self.globals[g as usize].init.borrow_mut() = Some(v.clone());
        v
    }
}

fn memchr(c: u8, t: &[u8], from: usize) -> usize {
    unsafe {
        let p = libc::memchr(t.as_ptr().add(from) as _, c as i32, t.len() - from);
        if p.is_null() { t.len() } else { p as usize - t.as_ptr() as usize }
    }
}

fn at_name(line: &'static [u8]) -> (&'static str, usize) {
    // line starts with @
    if line[1] == b'"' {
        let e = memchr(b'"', line, 2);
        (std::str::from_utf8(&line[2..e]).unwrap(), e + 1)
    } else {
        let mut e = 1;
        while e < line.len() && (line[e].is_ascii_alphanumeric() || matches!(line[e], b'.' | b'_' | b'$' | b'-')) { e += 1; }
        (std::str::from_utf8(&line[1..e]).unwrap(), e)
    }
}
fn sym_name(line: &'static [u8]) -> &'static str {
    let mut i = 0;
    let mut q = false;
    while i < line.len() {
        match line[i] {
            b'"' => q = !q,
            b'@' if !q => return at_name(&line[i..]).0,
            _ => {}
        }
        i += 1;
    }
    panic!("no name in {}", String::from_utf8_lossy(line))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    Id(&'a str),
    Num(&'a str),
    /// %name
    L(&'a str),
    /// @name
    G(&'a str),
    /// c"..."
    CStr(&'a [u8]),
    Str(&'a [u8]),
    /// !name or !N
    Meta(&'a str),
    Attr(u32),
    Label(&'a str),
    P(u8),
    Eof,
}

pub struct Parser<'m> {
    m: &'m Module,
    t: &'static [u8],
    i: usize,
    end: usize,
    tok: T<'static>,
    tok_start: usize,
    prev_end: usize,
    consts: Vec<V>,
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
    edges: Vec<Edge>,
    cur_block: u32,
}

fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-') }

pub fn const_ok(s: &str) -> bool {
    matches!(s, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat"
        | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "mul" | "and" | "shl" | "zext" | "sext" | "asm" | "ptrtoaddr" | "dso_local_equivalent" | "blockaddress")
}

impl<'m> Parser<'m> {
    fn new(m: &'m Module, a: usize, b: usize) -> Self {
        let mut p = Parser {
            m, t: m.text, i: a, end: b, tok: T::Eof, tok_start: a, prev_end: a,
            consts: vec![], regs: HashMap::new(), labels: HashMap::new(), edges: vec![], cur_block: 0,
        };
        p.next();
        p
    }
    fn s(&self, a: usize, b: usize) -> &'static str { unsafe { std::str::from_utf8_unchecked(&self.t[a..b]) } }
    fn fail(&self, what: &str) -> ! {
        let a = self.tok_start.saturating_sub(300);
        let b = (self.tok_start + 200).min(self.t.len());
        eprintln!("IR parse: {what} at token {:?}\n{}<<HERE>>{}", self.tok, String::from_utf8_lossy(&self.t[a..self.tok_start]), String::from_utf8_lossy(&self.t[self.tok_start..b]));
        std::process::exit(4)
    }
    fn next(&mut self) -> T<'static> {
        let r = self.tok;
        self.prev_end = self.i;
        self.lex();
        r
    }
    fn lex(&mut self) {
        let t = self.t;
        loop {
            while self.i < self.end && t[self.i].is_ascii_whitespace() { self.i += 1; }
            if self.i < self.end && t[self.i] == b';' { self.i = memchr(b'\n', t, self.i); continue; }
            if self.i < self.end && t[self.i] == b'#' && t[self.i..].starts_with(b"#dbg_") { self.i = memchr(b'\n', t, self.i); continue; }
            break;
        }
        self.tok_start = self.i;
        if self.i >= self.end { self.tok = T::Eof; return; }
        let c = t[self.i];
        let st = self.i;
        self.tok = match c {
            b'%' | b'@' => {
                let name;
                if t[self.i + 1] == b'"' {
                    let e = memchr(b'"', t, self.i + 2);
                    name = self.s(self.i + 2, e);
                    self.i = e + 1;
                } else {
                    let mut e = self.i + 1;
                    while e < self.end && idc(t[e]) { e += 1; }
                    name = self.s(self.i + 1, e);
                    self.i = e;
                }
                if c == b'%' { T::L(name) } else { T::G(name) }
            }
            b'!' => {
                let mut e = self.i + 1;
                while e < self.end && idc(t[e]) { e += 1; }
                let n = self.s(self.i + 1, e);
                self.i = e;
                T::Meta(n)
            }
            b'#' => {
                let mut e = self.i + 1;
                while e < self.end && t[e].is_ascii_digit() { e += 1; }
                self.i = e;
                T::Attr(0)
            }
            b'"' => {
                let e = memchr(b'"', t, self.i + 1);
                self.i = e + 1;
                T::Str(&t[st + 1..e])
            }
            b'c' if t[self.i + 1] == b'"' => {
                let e = memchr(b'"', t, self.i + 2);
                self.i = e + 1;
                T::CStr(&t[st + 2..e])
            }
            b'.' if t[self.i..].starts_with(b"...") => { self.i += 3; T::P(b'.') }
            b'0'..=b'9' | b'-' | b'+' => {
                let mut e = self.i + 1;
                while e < self.end && (idc(t[e]) || t[e] == b'+') { e += 1; }
                let s = self.s(self.i, e);
                if s.len() > 1 && (c == b'-' || c == b'+') && s.as_bytes()[1].is_ascii_alphabetic() { self.i = st + 1; self.tok = T::P(c); return; }
                self.i = e;
                if e < self.end && t[e] == b':' && c.is_ascii_digit() { self.i += 1; T::Label(s) } else { T::Num(s) }
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' | b'.' => {
                let mut e = self.i + 1;
                while e < self.end && idc(t[e]) { e += 1; }
                let s = self.s(self.i, e);
                self.i = e;
                if e < self.end && t[e] == b':' && is_label(&t[e + 1..self.end]) { self.i += 1; T::Label(s) } else { T::Id(s) }
            }
            _ => { self.i += 1; T::P(c) }
        };
    }
    fn is_p(&self, c: u8) -> bool { self.tok == T::P(c) }
    fn is_id(&self, s: &str) -> bool { matches!(self.tok, T::Id(x) if x == s) }
    fn eat(&mut self, c: u8) -> bool { if self.is_p(c) { self.next(); true } else { false } }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.next(); true } else { false } }
    fn want(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected {}", c as char)) } }
    fn skip_parens(&mut self) {
        self.want(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::Eof => self.fail("eof in parens"),
                _ => {}
            }
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() { T::Num(s) => s.parse().unwrap_or_else(|_| self.fail("number")), _ => self.fail("number expected") }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let r = match self.tok {
            T::Id(s) => {
                let b = s.as_bytes();
                if b[0] == b'i' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit()) {
                    let w = s[1..].parse().unwrap();
                    self.next();
                    Ty::Int(w)
                } else {
                    match s {
                        "ptr" => {
                            self.next();
                            if self.is_id("addrspace") { self.next(); self.skip_parens(); }
                            Ty::Ptr
                        }
                        "void" => { self.next(); Ty::Void }
                        "float" => { self.next(); Ty::F32 }
                        "double" => { self.next(); Ty::F64 }
                        "label" | "metadata" | "token" => { self.next(); Ty::Other }
                        _ => return None,
                    }
                }
            }
            T::P(b'[') => {
                self.next();
                let n = self.num();
                if !self.eat_id("x") { self.fail("x") }
                let t = self.ty();
                self.want(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'{') => { self.next(); let f = self.tys(b'}'); Ty::St(f.into(), false) }
            T::P(b'<') => {
                self.next();
                if self.eat(b'{') {
                    let f = self.tys(b'}');
                    self.want(b'>');
                    Ty::St(f.into(), true)
                } else {
                    let n = self.num();
                    if !self.eat_id("x") { self.fail("x") }
                    let t = self.ty();
                    self.want(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::L(n) if self.m.ty_text.contains_key(n) => {
                let cached = self.m.named_tys.borrow().get(n).cloned();
                self.next();
                match cached {
                    Some(t) => (*t).clone(),
                    None => {
                        let at = self.m.ty_text[n];
                        let mut p = Parser::new(self.m, at, self.t.len());
                        let t = if p.is_id("opaque") { Ty::Other } else { p.ty() };
                        self.m.named_tys.borrow_mut().insert(n.to_string(), Rc::new(t.clone()));
                        t
                    }
                }
            }
            _ => return None,
        };
        Some(r)
    }
    fn ty(&mut self) -> Ty { self.try_ty().unwrap_or_else(|| self.fail("type expected")) }
    fn tys(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(close) { return v; }
        loop {
            v.push(self.ty());
            if self.eat(close) { return v; }
            self.want(b',');
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.tok {
                T::Id(s) if !const_ok(s) => {
                    self.next();
                    if s == "align" {
                        if self.is_p(b'(') { self.skip_parens() } else { self.num(); }
                    } else if self.is_p(b'(') { self.skip_parens(); }
                }
                T::Attr(_) | T::Str(_) => { self.next(); if self.eat(b'=') { self.next(); } }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn konst(&mut self, v: V) -> O {
        if let V::I(x) = v { return O::I(x); }
        self.consts.push(v);
        O::K(self.consts.len() as u32 - 1)
    }
    /// operand of the given type
    fn val(&mut self, ty: &Ty) -> O {
        if let T::L(n) = self.tok { self.next(); return O::R(self.reg(n)); }
        let v = self.cval(ty);
        self.konst(v)
    }
    fn tval(&mut self) -> (Ty, O) {
        let t = self.ty();
        self.skip_attrs();
        if t == Ty::Other {
            // metadata operand
            loop {
                match self.tok {
                    T::P(b',') | T::P(b')') | T::Eof => break,
                    T::P(b'(') => self.skip_parens(),
                    _ => { self.next(); if self.is_p(b'(') { self.skip_parens() } }
                }
            }
            return (t, O::I(0));
        }
        let v = self.val(&t);
        (t, v)
    }
    pub fn sym_addr(&mut self, n: &str) -> u64 {
        match self.m.by_name.get(n) {
            Some(Sym::F(f)) => {
                let fe = &self.m.funcs[*f as usize];
                if fe.def == (0, 0) && fe.weak && !crate::ext::has_model(n) { 0 } else { self.m.func_addr(*f) }
            }
            Some(Sym::G(g)) => {
                let gl = &self.m.globals[*g as usize];
                if gl.alias {
                    // = ... alias ty, ptr @target
                    let (a, b) = gl.text;
                    let s = self.s(a, b);
                    let k = s.rfind('@').unwrap();
                    let (tn, _) = at_name(&self.t[a + k..b]);
                    return self.sym_addr(tn);
                }
                if gl.external && self.s(gl.text.0, gl.text.1).contains("extern_weak") && !crate::ext::has_model(n) { return 0; }
                if gl.external && crate::ext::has_model(n) { /* function referenced as data */ }
                self.m.global_addr(*g)
            }
            None => self.fail(&format!("unknown symbol {n}")),
        }
    }
    fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Int(w) if *w > 64 => V::w(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(vec![Self::zero(t); *n as usize].into()),
            Ty::St(f, _) => V::A(f.iter().map(Self::zero).collect::<Vec<_>>().into()),
            _ => V::I(0),
        }
    }
    fn int_const(s: &str, w: u32) -> V {
        let v: u128 = if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) { u128::from_str_radix(h, 16).unwrap() }
        else if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 } else { s.parse::<u128>().unwrap() };
        V::int(v & mask(w), w)
    }
    /// constant of the given type
    fn cval(&mut self, ty: &Ty) -> V {
        match self.tok {
            T::Num(s) => {
                self.next();
                match ty {
                    Ty::Int(w) => Self::int_const(s, *w),
                    Ty::F64 => V::I(if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() }),
                    Ty::F32 => {
                        let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse::<f64>().unwrap() };
                        V::I((d as f32).to_bits() as u64)
                    }
                    _ => self.fail("number of odd type"),
                }
            }
            T::G(n) => { self.next(); V::I(self.sym_addr(n)) }
            T::CStr(b) => {
                self.next();
                V::A(unescape(b).into_iter().map(|b| V::I(b as u64)).collect::<Vec<_>>().into())
            }
            T::P(b'[') | T::P(b'{') => {
                let close = if self.is_p(b'[') { b']' } else { b'}' };
                self.next();
                let v = self.celems(close);
                V::A(v.into())
            }
            T::P(b'<') => {
                self.next();
                if self.eat(b'{') {
                    let v = self.celems(b'}');
                    self.want(b'>');
                    V::A(v.into())
                } else {
                    let v = self.celems(b'>');
                    V::A(v.into())
                }
            }
            T::Id(s) => match s {
                "true" => { self.next(); V::I(1) }
                "false" => { self.next(); V::I(0) }
                "null" | "none" => { self.next(); V::I(0) }
                "undef" | "poison" | "zeroinitializer" => { self.next(); Self::zero(ty) }
                "splat" => {
                    self.next();
                    self.want(b'(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.want(b')');
                    let n = match ty { Ty::Vec(n, _) | Ty::Arr(n, _) => *n, _ => self.fail("splat") };
                    V::A(vec![v; n as usize].into())
                }
                "getelementptr" => {
                    self.next();
                    while matches!(self.tok, T::Id("inbounds" | "nuw" | "nusw" | "inrange")) {
                        self.next();
                        if self.is_p(b'(') && self.t[self.prev_end - 1] != b' ' && self.s(self.prev_end.saturating_sub(7), self.prev_end).ends_with("inrange") { self.skip_parens(); }
                    }
                    self.want(b'(');
                    let t = self.ty();
                    self.want(b',');
                    let pt = self.ty();
                    let base = self.cval(&pt).i();
                    let mut off = 0i64;
                    let mut first = true;
                    let mut cur = t;
                    while self.eat(b',') {
                        let it = self.ty();
                        let iv = self.cval(&it).i();
                        let iv = crate::expr::sext(iv as u128, it.w()) as i64;
                        if first { off += iv * cur.size() as i64; first = false; } else {
                            off += cur.field_off(iv as u64) as i64;
                            cur = cur.elem(iv as u64).clone();
                        }
                    }
                    self.want(b')');
                    V::I(base.wrapping_add(off as u64))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                    self.next();
                    self.want(b'(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    if !self.eat_id("to") { self.fail("to") }
                    let t2 = self.ty();
                    self.want(b')');
                    match (&v, &t2) { (V::I(x), Ty::Int(w)) => V::int(*x as u128 & mask(*w), *w), _ => v }
                }
                "add" | "sub" | "xor" | "mul" | "and" | "shl" => {
                    self.next();
                    while matches!(self.tok, T::Id("nuw" | "nsw")) { self.next(); }
                    self.want(b'(');
                    let t = self.ty();
                    let a = self.cval(&t).i();
                    self.want(b',');
                    let t = self.ty();
                    let b = self.cval(&t).i();
                    self.want(b')');
                    let r = match s { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "mul" => a.wrapping_mul(b), "and" => a & b, _ => a << b };
                    V::int(r as u128 & mask(t.w()), t.w())
                }
                h if h.starts_with("f0x") => { let v = u128::from_str_radix(&h[3..], 16).unwrap(); self.next(); V::int(v, ty.w()) }
                _ => self.fail("constant"),
            },
            T::P(b'+') | T::P(b'-') => {
                let neg = self.is_p(b'-');
                self.next();
                let T::Id(s) = self.tok else { self.fail("constant") };
                self.next();
                let d = match s { "inf" => f64::INFINITY, "qnan" => f64::NAN, _ => self.fail("float constant") };
                let d = if neg { -d } else { d };
                V::I(if *ty == Ty::F32 { (d as f32).to_bits() as u64 } else { d.to_bits() })
            }
            _ => self.fail("constant"),
        }
    }
    fn celems(&mut self, close: u8) -> Vec<V> {
        let mut v = vec![];
        if self.eat(close) { return v; }
        loop {
            let t = self.ty();
            v.push(self.cval(&t));
            if self.eat(close) { return v; }
            self.want(b',');
        }
    }
    fn global(&mut self) -> Vec<u8> {
        // = [linkage...] (global|constant) ty init, ...
        self.want(b'=');
        loop {
            match self.next() {
                T::Id("global") | T::Id("constant") => break,
                T::Eof => self.fail("global"),
                T::Id("alias") => self.fail("alias deref"),
                _ => {}
            }
        }
        let t = self.ty();
        let mut out = vec![0u8; t.size() as usize];
        if matches!(self.tok, T::Eof | T::P(b',')) { return out; }
        if let (T::CStr(b), Ty::Arr(..)) = (self.tok, &t) {
            return unescape(b);
        }
        let v = self.cval(&t);
        put_const(&v, &t, &mut out);
        out
    }

    fn label_ref(&mut self) -> u32 {
        if !self.eat_id("label") { self.fail("label") }
        match self.next() { T::L(n) => self.label(n), _ => self.fail("label name") }
    }
    fn label(&mut self, n: &'static str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn edge(&mut self, to: u32) -> u32 {
        self.edges.push(Edge { to: to | (self.cur_block << 16), copies: Box::new([]) });
        self.edges.len() as u32 - 1
    }

    fn function(&mut self) -> Func {
        // define ... @name(params) attrs {
        let name;
        loop {
            match self.next() {
                T::G(n) => { name = n; break; }
                T::Eof => self.fail("define"),
                _ => {}
            }
        }
        self.want(b'(');
        let mut params = vec![];
        let mut vararg = false;
        let mut k = 0;
        while !self.eat(b')') {
            if self.eat(b'.') { vararg = true; continue; }
            let _t = self.ty();
            self.skip_attrs();
            if let T::L(n) = self.tok { self.next(); params.push(self.reg(n)); } else {
                let s: &'static str = Box::leak(k.to_string().into_boxed_str());
                params.push(self.reg(s));
            }
            k += 1;
            self.eat(b',');
        }
        while !self.is_p(b'{') { if self.tok == T::Eof { self.fail("body") } self.next(); }
        self.next();
        // entry label: explicit or implicit
        let mut blocks: Vec<Option<Vec<Inst>>> = vec![];
        let mut phis: Vec<(u32, u32, Vec<(u32, O)>)> = vec![];
        let entry = match self.tok { T::Label(n) => { self.next(); n.trim_matches('"') } _ => "\u{1}entry" };
        // an unnamed entry block takes the number after the parameters
        let mut cur = self.label(entry);
        if entry == "\u{1}entry" {
            let s: &'static str = Box::leak(k.to_string().into_boxed_str());
            self.labels.insert(s, cur);
        }
        let mut next_label_id;
        self.cur_block = cur;
        let mut insts = vec![];
        loop {
            match self.tok {
                T::P(b'}') | T::Eof => break,
                T::Label(n) => {
                    self.next();
                    let id = self.label(n);
                    while blocks.len() <= cur as usize { blocks.push(None); }
                    blocks[cur as usize] = Some(std::mem::take(&mut insts));
                    cur = id;
                    self.cur_block = cur;
                }
                T::Str(n) => {
                    // quoted label
                    self.next();
                    self.want(b':');
                    let n = std::str::from_utf8(n).unwrap();
                    let id = self.label(n);
                    while blocks.len() <= cur as usize { blocks.push(None); }
                    blocks[cur as usize] = Some(std::mem::take(&mut insts));
                    cur = id;
                    self.cur_block = cur;
                }
                _ => self.inst(&mut insts, &mut phis),
            }
        }
        next_label_id = cur;
        let _ = &mut next_label_id;
        while blocks.len() <= cur as usize { blocks.push(None); }
        blocks[cur as usize] = Some(insts);
        // phi copies onto edges
        let mut by_block: HashMap<u32, Vec<usize>> = HashMap::new();
        for (i, p) in phis.iter().enumerate() { by_block.entry(p.0).or_default().push(i); }
        for e in self.edges.iter_mut() {
            let from = e.to >> 16;
            let to = e.to & 0xffff;
            e.to = to;
            if let Some(ps) = by_block.get(&to) {
                let mut c = vec![];
                for &i in ps {
                    let (_, dst, inc) = &phis[i];
                    let v = inc.iter().find(|(b, _)| *b == from).map(|(_, o)| *o);
                    match v { Some(o) => c.push((*dst, o)), None => { eprintln!("phi lacks edge in {name}"); std::process::exit(4) } }
                }
                e.copies = c.into();
            }
        }
        let nb = blocks.len();
        let mut frame = 0u64;
        for b in blocks.iter_mut().flatten() {
            for i in b.iter_mut() {
                if let Op::Alloca(sz, O::I(n), al, d) = i.op {
                    let al = al.max(1);
                    frame = frame.div_ceil(al) * al;
                    i.op = Op::Slot(frame, d);
                    frame += (sz * n).max(1);
                }
            }
        }
        if self.labels.len() >= 65536 { self.fail("too many blocks") }
        Func {
            name: name.into(),
            nregs: self.regs.len() as u32,
            frame,
            params,
            vararg,
            blocks: blocks.into_iter().map(|b| b.unwrap_or_default()).collect(),
            edges: std::mem::take(&mut self.edges),
            consts: std::mem::take(&mut self.consts),
            hit: RefCell::new(vec![false; nb]),
        }
    }

    fn tail(&mut self) -> u32 {
        // , align N, !meta !N ..., attribute groups
        let mut dbg = 0;
        loop {
            if self.is_p(b',') {
                self.next();
                match self.tok {
                    T::Id("align") => { self.next(); self.num(); }
                    T::Meta(k) => {
                        self.next();
                        match self.tok {
                            T::Meta(n) => {
                                if k == "dbg" { dbg = n.parse().unwrap_or(0); }
                                self.next();
                                if n.is_empty() && self.is_p(b'{') { self.skip_braces(); }
                                else if self.is_p(b'(') { self.skip_parens(); }
                            }
                            _ => self.fail("metadata"),
                        }
                    }
                    _ => self.fail("tail"),
                }
            } else if let T::Attr(_) = self.tok { self.next(); } else { return dbg; }
        }
    }
    fn skip_braces(&mut self) {
        self.want(b'{');
        let mut d = 1;
        while d > 0 {
            match self.next() { T::P(b'{') => d += 1, T::P(b'}') => d -= 1, T::Eof => self.fail("braces"), _ => {} }
        }
    }
    fn ordering(&mut self) {
        if self.eat_id("syncscope") { self.skip_parens(); }
        while matches!(self.tok, T::Id("monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered" | "relaxed")) { self.next(); }
    }

    fn inst(&mut self, out: &mut Vec<Inst>, phis: &mut Vec<(u32, u32, Vec<(u32, O)>)>) {
        let mut dst = u32::MAX;
        if let T::L(n) = self.tok {
            self.next();
            self.want(b'=');
            dst = self.reg(n);
        }
        let kw = match self.next() { T::Id(s) => s, _ => self.fail("instruction") };
        let bop = |s: &str| Some(match s {
            "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem,
            "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "and" => B::And, "or" => B::Or, "xor" => B::Xor,
            _ => return None,
        });
        if let Some(b) = bop(kw) {
            while matches!(self.tok, T::Id("nuw" | "nsw" | "exact" | "disjoint")) { self.next(); }
            let t = self.ty();
            let x = self.val(&t);
            self.want(b',');
            let y = self.val(&t);
            let dbg = self.tail();
            out.push(Inst { op: Op::Bin(b, t, x, y, dst), dbg });
            return;
        }
        let fmf = |p: &mut Self| while matches!(p.tok, T::Id("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast")) { p.next(); };
        let op = match kw {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                fmf(self);
                let t = self.ty();
                let x = self.val(&t);
                self.want(b',');
                let y = self.val(&t);
                Op::FBin(kw.as_bytes()[1], t, x, y, dst).fix(kw)
            }
            "fneg" => { fmf(self); let t = self.ty(); let x = self.val(&t); Op::FNeg(t, x, dst) }
            "icmp" => {
                self.eat_id("samesign");
                let p = match self.next() {
                    T::Id(s) => match s { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.fail("pred") },
                    _ => self.fail("pred"),
                };
                let t = self.ty();
                let x = self.val(&t);
                self.want(b',');
                let y = self.val(&t);
                Op::Icmp(p, t, x, y, dst)
            }
            "fcmp" => {
                fmf(self);
                let p = match self.next() { T::Id(s) => s, _ => self.fail("pred") };
                let t = self.ty();
                let x = self.val(&t);
                self.want(b',');
                let y = self.val(&t);
                Op::Fcmp(p.into(), t, x, y, dst)
            }
            "load" => {
                let at = self.eat_id("atomic");
                self.eat_id("volatile");
                let t = self.ty();
                self.want(b',');
                let (_, p) = self.tval();
                self.ordering();
                Op::Load(t, p, dst, at)
            }
            "store" => {
                let at = self.eat_id("atomic");
                self.eat_id("volatile");
                let (t, v) = self.tval();
                self.want(b',');
                let (_, p) = self.tval();
                self.ordering();
                Op::Store(t, v, p, at)
            }
            "getelementptr" => {
                while matches!(self.tok, T::Id("inbounds" | "nuw" | "nusw")) { self.next(); }
                let t = self.ty();
                self.want(b',');
                let (_, base) = self.tval();
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = t;
                let mut first = true;
                while self.is_p(b',') {
                    // metadata tail?
                    let save = (self.i, self.tok, self.tok_start, self.prev_end);
                    self.next();
                    if matches!(self.tok, T::Meta(_)) { (self.i, self.tok, self.tok_start, self.prev_end) = save; break; }
                    let (it, iv) = self.tval();
                    let scale;
                    if first { scale = cur.size(); } else if let Ty::St(..) = cur {
                        let k = match iv { O::I(k) => k, _ => self.fail("struct index") };
                        off += cur.field_off(k) as i64;
                        cur = cur.elem(k).clone();
                        continue;
                    } else { scale = cur.elem(0).size(); cur = cur.elem(0).clone(); }
                    first = false;
                    match iv {
                        O::I(k) => off = off.wrapping_add((crate::expr::sext(k as u128, it.w()) as i64).wrapping_mul(scale as i64)),
                        o => dynv.push((o, it.w(), scale)),
                    }
                }
                Op::Gep(base, off, dynv.into(), dst)
            }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(self.tok, T::Id("nuw" | "nsw" | "nneg")) { self.next(); }
                fmf(self);
                let (t, v) = self.tval();
                if !self.eat_id("to") { self.fail("to") }
                let t2 = self.ty();
                let c = match kw {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "bitcast" => Cast::Bit, _ => Cast::PtrInt,
                };
                Op::Cast(c, t, v, t2, dst)
            }
            "select" => {
                fmf(self);
                let (ct, c) = self.tval();
                self.want(b',');
                let (t, a) = self.tval();
                self.want(b',');
                let (_, b) = self.tval();
                Op::Select(ct, c, t, a, b, dst)
            }
            "phi" => {
                fmf(self);
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.want(b'[');
                    let v = self.val(&t);
                    self.want(b',');
                    let l = match self.next() { T::L(n) => self.label(n), _ => self.fail("phi label") };
                    self.want(b']');
                    inc.push((l, v));
                    if !self.is_p(b',') { break; }
                    let save = (self.i, self.tok, self.tok_start, self.prev_end);
                    self.next();
                    if matches!(self.tok, T::Meta(_)) { (self.i, self.tok, self.tok_start, self.prev_end) = save; break; }
                }
                self.tail();
                phis.push((self.cur_block, dst, inc));
                return;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if kw != "call" && kw != "invoke" { self.next(); }
                fmf(self);
                // cc and return attributes
                let ret;
                loop {
                    match self.tok {
                        T::Id(s) => {
                            if let Some(t) = self.try_ty() { ret = t; break; }
                            self.next();
                            let _ = s;
                            if s == "align" { self.num(); }
                            else if s == "cc" { }
                            else if self.is_p(b'(') { self.skip_parens(); }
                        }
                        T::Num(_) | T::Attr(_) => { self.next(); }
                        _ => { ret = self.ty(); break; }
                    }
                }
                if self.is_p(b'(') { self.skip_parens(); } // function type
                let callee = match self.tok {
                    T::G(n) => {
                        self.next();
                        if n.starts_with("llvm.") { Callee::Intr(n.into()) }
                        else {
                            match self.m.by_name.get(n) {
                                Some(Sym::F(f)) => Callee::F(*f),
                                _ => { let a = self.sym_addr(n); Callee::Ind(O::I(a)) }
                            }
                        }
                    }
                    T::L(n) => { self.next(); Callee::Ind(O::R(self.reg(n))) }
                    T::Id("asm") => {
                        self.next();
                        while matches!(self.tok, T::Id(_)) { self.next(); }
                        let s = match self.next() { T::Str(b) => String::from_utf8_lossy(b).into_owned(), _ => self.fail("asm") };
                        self.want(b',');
                        self.next();
                        Callee::Asm(s.into())
                    }
                    _ => { let v = self.cval(&Ty::Ptr).i(); Callee::Ind(O::I(v)) }
                };
                self.want(b'(');
                let mut args = vec![];
                while !self.eat(b')') {
                    args.push(self.tval());
                    self.eat(b',');
                }
                while let T::Attr(_) = self.tok { self.next(); }
                if self.is_p(b'[') {
                    let mut d = 0;
                    loop { match self.next() { T::P(b'[') => d += 1, T::P(b']') => { d -= 1; if d == 0 { break; } } T::Eof => self.fail("bundle"), _ => {} } }
                }
                let mut normal = None;
                if kw == "invoke" {
                    if !self.eat_id("to") { self.fail("to") }
                    let l = self.label_ref();
                    if !self.eat_id("unwind") { self.fail("unwind") }
                    let _u = self.label_ref();
                    normal = Some(self.edge(l));
                    let _ = self.edge(_u);
                }
                Op::Call(Box::new(CallI { callee, args: args.into(), ret, dst, normal, intr: Cell::new(0) }))
            }
            "br" => {
                if self.is_id("label") {
                    let l = self.label_ref();
                    Op::Br(self.edge(l))
                } else {
                    let (_, c) = self.tval();
                    self.want(b',');
                    let a = self.label_ref();
                    self.want(b',');
                    let b = self.label_ref();
                    let ea = self.edge(a);
                    let eb = self.edge(b);
                    Op::CondBr(c, ea, eb)
                }
            }
            "switch" => {
                let (t, v) = self.tval();
                self.want(b',');
                let d = self.label_ref();
                let d = self.edge(d);
                self.want(b'[');
                let mut cs = vec![];
                while !self.eat(b']') {
                    let ct = self.ty();
                    let c = self.cval(&ct).u128();
                    self.want(b',');
                    let l = self.label_ref();
                    let e = self.edge(l);
                    cs.push((c, e));
                }
                cs.sort_by_key(|c| c.0);
                Op::Switch(t.w(), v, cs.into(), d)
            }
            "ret" => {
                if self.eat_id("void") { Op::Ret(None) } else { let (_, v) = self.tval(); Op::Ret(Some(v)) }
            }
            "unreachable" => Op::Unreachable,
            "alloca" => {
                self.eat_id("inalloca");
                let t = self.ty();
                let mut n = O::I(1);
                let mut al = t.align();
                while self.is_p(b',') {
                    let save = (self.i, self.tok, self.tok_start, self.prev_end);
                    self.next();
                    if self.eat_id("align") { al = self.num(); }
                    else if matches!(self.tok, T::Meta(_)) { (self.i, self.tok, self.tok_start, self.prev_end) = save; break; }
                    else { n = self.tval().1; }
                }
                Op::Alloca(t.size(), n, al, dst)
            }
            "extractvalue" => {
                let (_, v) = self.tval();
                let ix = self.idxs();
                Op::ExtractV(v, ix, dst)
            }
            "insertvalue" => {
                let (t, v) = self.tval();
                self.want(b',');
                let (_, e) = self.tval();
                let ix = self.idxs();
                Op::InsertV(t, v, e, ix, dst)
            }
            "extractelement" => {
                let (_, v) = self.tval();
                self.want(b',');
                let (_, i) = self.tval();
                Op::ExtractE(v, i, dst)
            }
            "insertelement" => {
                let (t, v) = self.tval();
                self.want(b',');
                let (_, e) = self.tval();
                self.want(b',');
                let (_, i) = self.tval();
                Op::InsertE(t, v, e, i, dst)
            }
            "shufflevector" => {
                let (t, a) = self.tval();
                self.want(b',');
                let (_, b) = self.tval();
                self.want(b',');
                let mt = self.ty();
                // mask may hold poison
                let n = match mt { Ty::Vec(n, _) => n, _ => self.fail("mask") };
                let mv = self.cval(&mt);
                let mut ix = vec![];
                for k in 0..n { ix.push(match &mv { V::A(v) => v[k as usize].i() as u32, _ => 0 }); }
                Op::Shuffle(t, a, b, ix.into(), dst)
            }
            "atomicrmw" => {
                self.eat_id("volatile");
                let r = match self.next() {
                    T::Id(s) => match s { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => self.fail("rmw") },
                    _ => self.fail("rmw"),
                };
                let (_, p) = self.tval();
                self.want(b',');
                let (t, v) = self.tval();
                self.ordering();
                Op::Rmw(r, t, p, v, dst)
            }
            "cmpxchg" => {
                self.eat_id("weak");
                self.eat_id("volatile");
                let (_, p) = self.tval();
                self.want(b',');
                let (t, c) = self.tval();
                self.want(b',');
                let (_, n) = self.tval();
                self.ordering();
                Op::CmpXchg(t, p, c, n, dst)
            }
            "fence" => { self.ordering(); Op::Fence }
            "freeze" => { let (_, v) = self.tval(); Op::Copy(v, dst) }
            "landingpad" => {
                let _ = self.ty();
                while matches!(self.tok, T::Id("cleanup" | "catch" | "filter")) {
                    if self.eat_id("cleanup") { continue; }
                    self.next();
                    self.tval();
                }
                Op::Landing
            }
            "resume" => { self.tval(); Op::Landing }
            "va_arg" => self.fail("va_arg"),
            _ => self.fail("unknown instruction"),
        };
        let dbg = self.tail();
        out.push(Inst { op, dbg });
    }
    fn idxs(&mut self) -> Box<[u32]> {
        let mut ix = vec![];
        while self.is_p(b',') {
            let save = (self.i, self.tok, self.tok_start, self.prev_end);
            self.next();
            if matches!(self.tok, T::Meta(_)) { (self.i, self.tok, self.tok_start, self.prev_end) = save; break; }
            ix.push(self.num() as u32);
        }
        ix.into()
    }
}

impl Op {
    fn fix(self, kw: &str) -> Op {
        match self {
            Op::FBin(_, t, a, b, d) => Op::FBin(match kw { "fadd" => b'+', "fsub" => b'-', "fmul" => b'*', "fdiv" => b'/', _ => b'%' }, t, a, b, d),
            o => o,
        }
    }
}

pub fn unescape(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b.get(i + 1) == Some(&b'\\') { v.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            v.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else { v.push(b[i]); i += 1; }
    }
    v
}

pub fn put_const(v: &V, t: &Ty, out: &mut [u8]) {
    match (v, t) {
        (V::I(x), _) => {
            let n = t.store_bytes() as usize;
            out[..n.min(8)].copy_from_slice(&x.to_le_bytes()[..n.min(8)]);
        }
        (V::W(x), _) => {
            let n = t.store_bytes() as usize;
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (V::A(vs), Ty::St(..) | Ty::Arr(..) | Ty::Vec(..)) => {
            for (i, x) in vs.iter().enumerate() {
                let et = t.elem(i as u64);
                let o = t.field_off(i as u64) as usize;
                put_const(x, et, &mut out[o..]);
            }
        }
        _ => panic!("const {v:?} of {t:?}"),
    }
}

/// What follows a label's colon: the end of the line or a comment.
fn is_label(t: &[u8]) -> bool {
    match t.iter().find(|c| **c != b' ') { None => true, Some(c) => matches!(c, b'\n' | b';') }
}
