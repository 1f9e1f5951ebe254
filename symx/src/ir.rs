//! Parser for textual LLVM IR and translation into a flat instruction stream.
//!
//! Aggregates and vectors are flattened: a value of type `{ i64, ptr }` occupies two register slots.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64 + 7) / 8).next_power_of_two()).min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let s = (*w as u64 + 7) / 8; let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k as u64 == i { return o; }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Struct(f, _) => f[i as usize].clone(),
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn count(&self) -> u64 {
        match self { Ty::Arr(n, _) | Ty::Vec(n, _) => *n, Ty::Struct(f, _) => f.len() as u64, _ => 1 }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..)) }
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 }
    }
    /// scalar leaves with bit width and byte offset
    pub fn leaves(&self) -> Vec<(u32, u64)> {
        let mut v = Vec::new();
        self.leaves_at(0, &mut v);
        v
    }
    fn leaves_at(&self, off: u64, out: &mut Vec<(u32, u64)>) {
        match self {
            Ty::Void => {}
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => for i in 0..self.count() {
                self.elem(i).leaves_at(off + self.field_offset(i), out);
            },
            t => out.push((t.bits(), off)),
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Void => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(),
            _ => 1,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd { S(u32), K(u64), W(u128) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { ZExt, SExt, Trunc }

#[derive(Clone, Debug)]
pub struct Edge { pub block: u32, pub pc: u32, pub copies: Rc<Vec<(u32, Opd)>> }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ext(Rc<str>), Ptr(Opd), Asm }

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64 },
    Load { dst: u32, leaves: Rc<Vec<(u32, u64)>>, ptr: Opd },
    Store { vals: Rc<Vec<(Opd, u32, u64)>>, ptr: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Rc<Vec<(Opd, u32, i64)>> },
    Bin { op: BinOp, w: u32, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: u32, to: u32, dst: u32, a: Opd },
    Select { dst: u32, c: Opd, w: u32, a: Opd, b: Opd },
    Copy { dst: u32, a: Opd },
    Repack { dst: u32, to: Rc<Vec<u32>>, src: Rc<Vec<(Opd, u32)>> },
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch { v: Opd, w: u32, cases: Rc<Vec<(u128, Edge)>>, default: Edge },
    Call { dst: u32, ret: Rc<Vec<(u32, u64)>>, callee: Callee, args: Rc<Vec<(Opd, u32)>>, then: Option<Edge> },
    AtomicRmw { dst: u32, op: Rc<str>, w: u32, ptr: Opd, v: Opd },
    CmpXchg { dst: u32, w: u32, ptr: Opd, cmp: Opd, new: Opd },
    Ret(Rc<Vec<Opd>>),
    Unreachable,
    Unsupported(Rc<str>),
}

pub struct Func {
    pub name: Rc<str>,
    pub args: Vec<(u32, u32)>, // slot, bits (flattened)
    pub nslots: u32,
    pub code: Vec<Inst>,
    /// per block: entered by some path, and the debug locations of its instructions
    pub seen: Vec<std::cell::Cell<bool>>,
    pub dbg: Vec<Vec<u32>>,
}

pub struct Global { pub constant: bool, pub data: Vec<u8> }

pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub global_ids: HashMap<&'static str, usize>,
    pub func_ids: HashMap<&'static str, usize>,
    pub func_src: Vec<(&'static str, &'static str)>, // name, text of the definition
    pub decls: HashMap<&'static str, u32>,
    pub decl_names: Vec<&'static str>,
}

pub const FUNC_BASE: u64 = 0x4000_0000_0000_0000;
pub const EXT_BASE: u64 = 0x5000_0000_0000_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000_0000_0000;
pub const STACK_BASE: u64 = 0x2000_0000_0000_0000;
pub const HEAP_BASE: u64 = 0x3000_0000_0000_0000;
/// Offset of an object within its address slot.
pub const SKEW: u64 = 0x10000;
pub fn addr_of(base: u64, id: u64) -> u64 { base | (id << 32) | SKEW }

enum PV {
    Local(&'static str),
    Global(&'static str),
    Int(u128),
    Zero,
    Agg(Vec<(Ty, PV)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, PV)>),
    Gep(Box<PV>, i64),
    Bin(char, Box<PV>, Box<PV>),
}

pub struct P<'m> { pub s: &'static [u8], pub i: usize, pub m: &'m Module }

fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'m> P<'m> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; }
    }
    fn rest(&self) -> &'static str { unsafe { std::str::from_utf8_unchecked(&self.s[self.i..]) } }
    fn fail<T>(&self, what: &str) -> T {
        let line = unsafe { std::str::from_utf8_unchecked(self.s) };
        panic!("IR parse: expected {what} at {:.60?} in {:.400}", self.rest(), line)
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            let last = b[b.len() - 1];
            if isid(last) && self.i + b.len() < self.s.len() && isid(self.s[self.i + b.len()]) { return false; }
            self.i += b.len();
            true
        } else { false }
    }
    fn expect(&mut self, t: &str) { if !self.eat(t) { self.fail::<()>(t) } }
    fn word(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && isid(self.s[self.i]) { self.i += 1; }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    /// name after a sigil, possibly quoted
    fn name(&mut self) -> &'static str {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) };
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && isid(self.s[self.i]) { self.i += 1; }
            unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
        }
    }
    fn num(&mut self) -> u64 {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
        if st == self.i { self.fail::<()>("number"); }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }.parse().unwrap()
    }
    fn skip_group(&mut self) {
        // at an opening bracket: skip to its match
        let mut depth = 0;
        loop {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => depth += 1,
                b')' | b']' | b'}' => depth -= 1,
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
            if depth == 0 { return; }
        }
    }
    fn ty_opt(&mut self) -> Option<Ty> {
        let c = self.peek();
        let save = self.i;
        Some(match c {
            b'[' => {
                self.i += 1;
                let n = self.num();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list("}");
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list("}");
                    self.expect(">");
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.m.types.get(n) { Some(t) => t.clone(), None => { self.i = save; return None; } }
            }
            b'i' if self.i + 1 < self.s.len() && self.s[self.i + 1].is_ascii_digit() => {
                self.i += 1;
                Ty::Int(self.num() as u32)
            }
            _ => match self.word() {
                "ptr" => { if self.eat("addrspace") { self.skip_ws_group(); } Ty::Ptr }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                _ => { self.i = save; return None; }
            },
        })
    }
    fn skip_ws_group(&mut self) { self.ws(); self.skip_group(); }
    fn ty(&mut self) -> Ty { match self.ty_opt() { Some(t) => t, None => self.fail("type") } }
    fn ty_list(&mut self, end: &str) -> Vec<Ty> {
        let mut v = Vec::new();
        if self.eat(end) { return v; }
        loop {
            v.push(self.ty());
            if self.eat(end) { return v; }
            self.expect(",");
        }
    }
    fn cstring(&mut self) -> Vec<u8> {
        // at the opening quote
        self.i += 1;
        let mut v = Vec::new();
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                v.push(b'\\');
                self.i += 2;
            } else if self.s[self.i] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                v.push(h(self.s[self.i + 1]) * 16 + h(self.s[self.i + 2]));
                self.i += 3;
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            self.ws();
            let save = self.i;
            if self.i < self.s.len() && self.s[self.i] == b'#' {
                self.i += 1; self.num(); continue;
            }
            if self.i < self.s.len() && self.s[self.i] == b'"' {
                self.name();
                if self.i < self.s.len() && self.s[self.i] == b'=' { self.i += 1; self.name(); }
                continue;
            }
            let w = self.word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "inreg"
                | "returned" | "nocapture" | "immarg" | "allocptr" | "allocalign" | "dead_on_unwind" | "writable" | "dead_on_return" | "nest"
                | "swiftself" | "swifterror" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "ccc" | "fastcc" | "coldcc"
                | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "noinline" | "tailcc" | "noext" => {
                    // dead_on_return may carry an argument
                    if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_group(); }
                }
                "align" => { self.ws(); if self.s[self.i] == b'(' { self.skip_group(); } else { self.num(); } }
                "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "sret" | "byval" | "initializes" | "nofpclass" | "elementtype" | "preallocated" | "inalloca" | "addrspace" => self.skip_ws_group(),
                _ => { self.i = save; return; }
            }
        }
    }
    fn int_mask(v: i128, w: u32) -> u128 { if w >= 128 { v as u128 } else { (v as u128) & ((1u128 << w) - 1) } }
    fn val(&mut self, ty: &Ty) -> PV {
        self.attrs();
        match self.peek() {
            b'%' => { self.i += 1; PV::Local(self.name()) }
            b'@' => { self.i += 1; PV::Global(self.name()) }
            b'{' => { self.i += 1; PV::Agg(self.tv_list("}")) }
            b'[' => { self.i += 1; PV::Agg(self.tv_list("]")) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let l = self.tv_list("}");
                    self.expect(">");
                    PV::Agg(l)
                } else { PV::Agg(self.tv_list(">")) }
            }
            b'c' if self.s[self.i + 1] == b'"' => { self.i += 1; PV::Bytes(self.cstring()) }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (isid(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1; }
                let t = unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) };
                match ty {
                    Ty::F64 | Ty::F32 => {
                        let bits = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { t.parse::<f64>().unwrap().to_bits() };
                        PV::Int(if *ty == Ty::F32 { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 })
                    }
                    _ => {
                        let v: i128 = t.parse().or_else(|_| t.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| self.fail("integer"));
                        PV::Int(Self::int_mask(v, ty.bits()))
                    }
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "null" | "zeroinitializer" | "undef" | "poison" | "none" | "false" => PV::Zero,
                    "true" => PV::Int(1),
                    "splat" => { self.expect("("); let t = self.ty(); let v = self.val(&t); self.expect(")"); PV::Splat(Box::new((t, v))) }
                    "getelementptr" => {
                        loop { let s = self.i; match self.word() { "inbounds" | "nuw" | "nusw" => { if self.peek() == b'(' && self.s[self.i] == b'(' { break; } } "inrange" => self.skip_ws_group(), _ => { self.i = s; break; } } }
                        self.expect("(");
                        let t = self.ty();
                        self.expect(",");
                        let bt = self.ty();
                        let b = self.val(&bt);
                        let mut off = 0i64;
                        let mut cur = t.clone();
                        let mut first = true;
                        while self.eat(",") {
                            self.eat("inrange");
                            let it = self.ty();
                            let v = match self.val(&it) { PV::Int(v) => v as i64, PV::Zero => 0, _ => self.fail("constant index") };
                            if first { off += v * t.size() as i64; first = false; } else { off += cur.field_offset(v as u64) as i64; cur = cur.elem(v as u64); }
                        }
                        self.expect(")");
                        PV::Gep(Box::new(b), off)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.val(&t);
                        self.expect("to");
                        self.ty();
                        self.expect(")");
                        v
                    }
                    "sub" | "add" | "xor" | "mul" => {
                        while matches!({ let s = self.i; let w = self.word(); self.i = s; w }, "nuw" | "nsw") { self.word(); }
                        self.expect("(");
                        let t = self.ty();
                        let a = self.val(&t);
                        self.expect(",");
                        let t2 = self.ty();
                        let b = self.val(&t2);
                        self.expect(")");
                        PV::Bin(w.as_bytes()[0] as char, Box::new(a), Box::new(b))
                    }
                    _ => self.fail("value"),
                }
            }
        }
    }
    fn tv_list(&mut self, end: &str) -> Vec<(Ty, PV)> {
        let mut v = Vec::new();
        if self.eat(end) { return v; }
        loop {
            let t = self.ty();
            let x = self.val(&t);
            v.push((t, x));
            if self.eat(end) { return v; }
            self.expect(",");
        }
    }
}

impl Module {
    fn symbol(&self, n: &str) -> u64 {
        if let Some(&i) = self.func_ids.get(n) { return FUNC_BASE + (i as u64) * 16; }
        if let Some(&i) = self.global_ids.get(n) { return addr_of(GLOBAL_BASE, i as u64); }
        if let Some(&i) = self.decls.get(n) { return EXT_BASE + (i as u64) * 16; }
        panic!("unknown symbol @{n}")
    }
    fn scalar(&self, pv: &PV) -> u128 {
        match pv {
            PV::Int(v) => *v,
            PV::Zero => 0,
            PV::Global(n) => self.symbol(n) as u128,
            PV::Gep(b, o) => (self.scalar(b) as u64).wrapping_add(*o as u64) as u128,
            PV::Bin(c, a, b) => {
                let (a, b) = (self.scalar(a) as u64, self.scalar(b) as u64);
                (match c { 's' => a.wrapping_sub(b), 'a' => a.wrapping_add(b), 'm' => a.wrapping_mul(b), _ => a ^ b }) as u128
            }
            _ => panic!("not a scalar constant"),
        }
    }
    fn const_leaves(&self, ty: &Ty, pv: &PV, out: &mut Vec<u128>) {
        match pv {
            PV::Zero if ty.is_agg() => for _ in 0..ty.nleaves() { out.push(0) },
            PV::Agg(l) => for (t, v) in l { self.const_leaves(t, v, out) },
            PV::Bytes(b) => for x in b { out.push(*x as u128) },
            PV::Splat(b) => for _ in 0..ty.count() { self.const_leaves(&b.0, &b.1, out) },
            v => out.push(self.scalar(v)),
        }
    }
    pub fn load(text: &'static str) -> Module {
        let mut m = Module {
            types: HashMap::new(), globals: Vec::new(), global_ids: HashMap::new(), func_ids: HashMap::new(),
            func_src: Vec::new(), decls: HashMap::new(), decl_names: Vec::new(),
        };
        let mut glines: Vec<&'static str> = Vec::new();
        let mut tlines: Vec<&'static str> = Vec::new();
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = b[i..].iter().position(|&c| c == b'\n').map_or(b.len(), |p| i + p);
            let line = &text[i..e];
            if line.starts_with('@') {
                glines.push(line);
            } else if line.starts_with('%') {
                tlines.push(line);
            } else if line.starts_with("define ") {
                let end = e + text[e..].find("\n}").expect("end of function") + 2;
                let src = &text[i..end];
                let name = Self::symbol_in(line);
                m.func_ids.insert(name, m.func_src.len());
                m.func_src.push((name, src));
                i = end;
                continue;
            } else if line.starts_with("declare ") {
                let name = Self::symbol_in(line);
                m.decls.insert(name, m.decl_names.len() as u32);
                m.decl_names.push(name);
            }
            i = e + 1;
        }
        // named types may refer to each other: iterate until all resolve
        let mut pending = tlines;
        while !pending.is_empty() {
            let n = pending.len();
            let mut next = Vec::new();
            for l in pending {
                let mut p = P { s: l.as_bytes(), i: 1, m: &m };
                let name = p.name().to_string();
                p.expect("=");
                p.expect("type");
                if p.eat("opaque") { m.types.insert(name, Ty::Other); continue; }
                match p.ty_opt() { Some(t) => { m.types.insert(name, t); } None => next.push(l) }
            }
            if next.len() == n { panic!("unresolved types") }
            pending = next;
        }
        for (k, l) in glines.iter().enumerate() {
            let mut p = P { s: l.as_bytes(), i: 1, m: &m };
            let name = p.name();
            m.global_ids.insert(name, k);
        }
        // aliases are not expected; initialisers need all symbols known
        let mut globals = Vec::new();
        for l in &glines {
            let mut p = P { s: l.as_bytes(), i: 1, m: &m };
            p.name();
            p.expect("=");
            let mut constant = false;
            let mut external = false;
            loop {
                let w = p.word();
                match w {
                    "constant" => { constant = true; break; }
                    "global" => break,
                    "external" | "extern_weak" => external = true,
                    "thread_local" => { if p.peek() == b'(' { p.skip_group() } }
                    "addrspace" => p.skip_ws_group(),
                    "" => p.fail("global"),
                    _ => {}
                }
            }
            let ty = p.ty();
            let mut data = vec![0u8; ty.size() as usize];
            if !external {
                let pv = p.val(&ty);
                if !matches!(pv, PV::Zero) {
                    let mut out = Vec::new();
                    m.const_leaves(&ty, &pv, &mut out);
                    for ((w, off), v) in ty.leaves().into_iter().zip(out) {
                        let n = ((w + 7) / 8) as usize;
                        data[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
                    }
                }
            }
            globals.push(Global { constant, data });
        }
        m.globals = globals;
        m
    }
    fn symbol_in(line: &'static str) -> &'static str {
        let i = line.find('@').expect("symbol");
        let b = line.as_bytes();
        if b[i + 1] == b'"' {
            let e = line[i + 2..].find('"').unwrap();
            &line[i + 2..i + 2 + e]
        } else {
            let mut e = i + 1;
            while e < b.len() && isid(b[e]) { e += 1; }
            &line[i + 1..e]
        }
    }
    pub fn compile(&self, fid: usize) -> Func {
        let (name, src) = self.func_src[fid];
        FnBuilder { m: self, slots: HashMap::new(), nslots: 0, code: Vec::new(), phis: Vec::new(), blocks: Vec::new(), block_ids: HashMap::new() }.build(name, src)
    }
}

struct FnBuilder<'m> {
    m: &'m Module,
    slots: HashMap<&'static str, u32>,
    nslots: u32,
    code: Vec<Inst>,
    phis: Vec<Vec<(u32, usize, Vec<(&'static str, Vec<Opd>)>)>>,
    blocks: Vec<u32>,
    block_ids: HashMap<&'static str, u32>,
}

impl<'m> FnBuilder<'m> {
    fn slot(&mut self, name: &'static str, n: usize) -> u32 {
        if let Some(&s) = self.slots.get(name) { return s; }
        let s = self.nslots;
        self.nslots += n.max(1) as u32;
        self.slots.insert(name, s);
        s
    }
    fn temp(&mut self, n: usize) -> u32 { let s = self.nslots; self.nslots += n.max(1) as u32; s }
    fn opds(&mut self, ty: &Ty, pv: &PV) -> Vec<Opd> {
        match pv {
            PV::Local(n) => {
                let k = ty.nleaves();
                let s = self.slot(n, k);
                (0..k as u32).map(|i| Opd::S(s + i)).collect()
            }
            PV::Agg(l) => l.iter().flat_map(|(t, v)| self.opds(t, v)).collect(),
            v => {
                let mut out = Vec::new();
                self.m.const_leaves(ty, v, &mut out);
                out.into_iter().map(|x| if x >> 64 == 0 { Opd::K(x as u64) } else { Opd::W(x) }).collect()
            }
        }
    }
    fn opd(&mut self, ty: &Ty, pv: &PV) -> Opd { self.opds(ty, pv)[0] }
    fn block(&mut self, n: &'static str) -> u32 {
        let k = self.block_ids.len() as u32;
        *self.block_ids.entry(n).or_insert(k)
    }
    fn edge(&mut self, n: &'static str) -> Edge { let b = self.block(n); Edge { block: b, pc: 0, copies: Rc::new(Vec::new()) } }
    fn label(&mut self, p: &mut P<'m>) -> Edge {
        p.expect("label");
        p.ws();
        p.i += 1;
        let n = p.name();
        self.edge(n)
    }
    fn build(mut self, name: &'static str, src: &'static str) -> Func {
        let eol = src.find('\n').unwrap();
        let head = &src[..eol];
        let m = self.m;
        let mut p = P { s: head.as_bytes(), i: head.find('@').unwrap() + 1, m };
        p.name();
        p.expect("(");
        let mut args = Vec::new();
        let mut unnamed = 0u32;
        if !p.eat(")") {
            loop {
                if p.eat("...") { p.expect(")"); break; }
                let t = p.ty();
                p.attrs();
                let n: &'static str = if p.peek() == b'%' { p.i += 1; p.name() } else { "" };
                if n.is_empty() || n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                let lv = t.leaves();
                let s = if n.is_empty() { self.temp(lv.len()) } else { self.slot(n, lv.len()) };
                for (i, (w, _)) in lv.iter().enumerate() { args.push((s + i as u32, *w)); }
                if p.eat(")") { break; }
                p.expect(",");
            }
        }
        let body = &src[eol + 1..src.len() - 1];
        let mut lines = body.split('\n').peekable();
        let mut cur: Option<u32> = None;
        let mut preds: Vec<u32> = Vec::new(); // block of each code position's terminator, filled later
        let mut pc_block: Vec<u32> = Vec::new();
        let mut dbg: Vec<Vec<u32>> = Vec::new();
        let start_block = |me: &mut Self, n: &'static str| -> u32 {
            let b = me.block(n);
            while me.blocks.len() <= b as usize { me.blocks.push(u32::MAX); me.phis.push(Vec::new()); }
            me.blocks[b as usize] = me.code.len() as u32;
            b
        };
        while let Some(line) = lines.next() {
            let t = line.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') { continue; }
            if !line.starts_with(' ') && !line.starts_with('\t') {
                // label
                let n: &'static str = if t.starts_with('"') { let e = t[1..].find('"').unwrap(); &t[1..1 + e] } else { &t[..t.find(':').expect("label")] };
                cur = Some(start_block(&mut self, n));
                continue;
            }
            if cur.is_none() {
                let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                cur = Some(start_block(&mut self, n));
            }
            // gather continuation lines
            let begin = line.as_ptr() as usize - src.as_ptr() as usize;
            let mut end = begin + line.len();
            if t.starts_with("switch") || t.contains(" switch ") {
                if t.ends_with('[') {
                    for l in lines.by_ref() { end = l.as_ptr() as usize - src.as_ptr() as usize + l.len(); if l.trim_start().starts_with(']') { break; } }
                }
            }
            while let Some(l) = lines.peek() {
                let lt = l.trim_start();
                if (lt.starts_with("to label") || lt == "cleanup" || lt.starts_with("catch ") || lt.starts_with("filter ")) && l.starts_with("          ") {
                    end = l.as_ptr() as usize - src.as_ptr() as usize + l.len();
                    lines.next();
                } else { break; }
            }
            let stmt = &src[begin..end];
            if let Some(at) = stmt.rfind("!dbg !") {
                let id = stmt[at + 6..].bytes().take_while(u8::is_ascii_digit).fold(0u32, |n, c| n * 10 + (c - b'0') as u32);
                let b = cur.unwrap() as usize;
                while dbg.len() <= b { dbg.push(Vec::new()); }
                dbg[b].push(id);
            }
            let before = self.code.len();
            self.inst(stmt, cur.unwrap());
            for _ in before..self.code.len() { pc_block.push(cur.unwrap()); }
        }
        let _ = &mut preds;
        // resolve edges
        while self.blocks.len() < self.block_ids.len() { self.blocks.push(u32::MAX); self.phis.push(Vec::new()); }
        let names: HashMap<u32, &'static str> = self.block_ids.iter().map(|(n, b)| (*b, *n)).collect();
        let blocks = std::mem::take(&mut self.blocks);
        let phis = std::mem::take(&mut self.phis);
        let fix = |e: &mut Edge, from: u32| {
            e.pc = blocks[e.block as usize];
            let from = names[&from];
            let mut c = Vec::new();
            for (dst, n, inc) in &phis[e.block as usize] {
                let (_, ops) = inc.iter().find(|(l, _)| *l == from).expect("phi edge");
                for i in 0..*n { c.push((dst + i as u32, ops[i])); }
            }
            e.copies = Rc::new(c);
        };
        for (pc, inst) in self.code.iter_mut().enumerate() {
            let from = pc_block[pc];
            match inst {
                Inst::Br(e) => fix(e, from),
                Inst::CondBr(_, a, b) => { fix(a, from); fix(b, from) }
                Inst::Switch { cases, default, .. } => {
                    fix(default, from);
                    let mut v = (**cases).clone();
                    for (_, e) in &mut v { fix(e, from) }
                    *cases = Rc::new(v);
                }
                Inst::Call { then: Some(e), .. } => fix(e, from),
                _ => {}
            }
        }
        let seen: Vec<_> = (0..blocks.len()).map(|_| std::cell::Cell::new(false)).collect();
        if let Some(&b) = pc_block.first() { seen[b as usize].set(true); }
        dbg.resize(blocks.len(), Vec::new());
        Func { name: name.into(), args, nslots: self.nslots, code: self.code, seen, dbg }
    }
    fn inst(&mut self, stmt: &'static str, cur: u32) {
        let m = self.m;
        let mut p = P { s: stmt.as_bytes(), i: 0, m };
        let p = &mut p;
        let mut res: Option<&'static str> = None;
        if p.peek() == b'%' {
            p.i += 1;
            res = Some(p.name());
            p.expect("=");
        }
        let mut op = p.word();
        if op == "tail" || op == "musttail" || op == "notail" { op = p.word(); }
        let skip_flags = |p: &mut P<'m>, fl: &[&str]| loop {
            p.ws();
            let s = p.i;
            let w = p.word();
            if !fl.contains(&w) || w.is_empty() { p.i = s; break; }
        };
        match op {
            "alloca" => {
                let t = p.ty();
                let mut n = 1;
                if p.eat(",") {
                    if !p.eat("align") { let it = p.ty(); if let PV::Int(k) = p.val(&it) { n = k as u64 } }
                }
                let dst = self.slot(res.unwrap(), 1);
                self.code.push(Inst::Alloca { dst, size: t.size() * n });
            }
            "load" => {
                skip_flags(p, &["atomic", "volatile"]);
                let t = p.ty();
                p.expect(",");
                let pt = p.ty();
                let v = p.val(&pt);
                let ptr = self.opd(&pt, &v);
                let lv = t.leaves();
                let dst = self.slot(res.unwrap(), lv.len());
                if let Ty::Vec(n, e) = &t {
                    if e.bits() % 8 != 0 { let _ = n; self.code.push(Inst::Unsupported("load of bit vector".into())); return; }
                }
                self.code.push(Inst::Load { dst, leaves: Rc::new(lv), ptr });
            }
            "store" => {
                skip_flags(p, &["atomic", "volatile"]);
                let t = p.ty();
                let v = p.val(&t);
                p.expect(",");
                let pt = p.ty();
                let pv = p.val(&pt);
                let ptr = self.opd(&pt, &pv);
                let vals = self.opds(&t, &v).into_iter().zip(t.leaves()).map(|(o, (w, off))| (o, w, off)).collect();
                self.code.push(Inst::Store { vals: Rc::new(vals), ptr });
            }
            "getelementptr" => {
                skip_flags(p, &["inbounds", "nuw", "nusw"]);
                let t = p.ty();
                p.expect(",");
                let bt = p.ty();
                let b = p.val(&bt);
                let base = self.opd(&bt, &b);
                let mut off = 0i64;
                let mut idx = Vec::new();
                let mut cur_t = t.clone();
                let mut first = true;
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    let it = p.ty();
                    let v = p.val(&it);
                    let scale = if first { t.size() } else if let Ty::Struct(..) = cur_t { 0 } else { cur_t.elem(0).size() };
                    match self.opd(&it, &v) {
                        Opd::K(k) => {
                            let w = it.bits();
                            let k = if w < 64 { ((k << (64 - w)) as i64) >> (64 - w) } else { k as i64 };
                            if first { off += k * t.size() as i64; } else { off += cur_t.field_offset(k as u64) as i64; }
                            if !first { cur_t = cur_t.elem(k as u64); }
                        }
                        o => {
                            idx.push((o, it.bits(), scale as i64));
                            if !first { cur_t = cur_t.elem(0); }
                        }
                    }
                    first = false;
                }
                let dst = self.slot(res.unwrap(), 1);
                self.code.push(Inst::Gep { dst, base, off, idx: Rc::new(idx) });
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                skip_flags(p, &["nuw", "nsw", "exact", "disjoint"]);
                let t = p.ty();
                let a = p.val(&t);
                p.expect(",");
                let b = p.val(&t);
                let (a, b) = (self.opds(&t, &a), self.opds(&t, &b));
                let w = t.leaves()[0].0;
                let dst = self.slot(res.unwrap(), a.len());
                let bop = match op {
                    "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                    "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor,
                };
                for (i, (a, b)) in a.into_iter().zip(b).enumerate() { self.code.push(Inst::Bin { op: bop, w, dst: dst + i as u32, a, b }); }
            }
            "icmp" => {
                skip_flags(p, &["samesign"]);
                let pr = match p.word() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                    "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => p.fail("predicate"),
                };
                let t = p.ty();
                let a = p.val(&t);
                p.expect(",");
                let b = p.val(&t);
                let (a, b) = (self.opds(&t, &a), self.opds(&t, &b));
                let w = t.leaves()[0].0;
                let dst = self.slot(res.unwrap(), a.len());
                for (i, (a, b)) in a.into_iter().zip(b).enumerate() { self.code.push(Inst::Icmp { p: pr, w, dst: dst + i as u32, a, b }); }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                skip_flags(p, &["nneg", "nuw", "nsw"]);
                let t = p.ty();
                let v = p.val(&t);
                p.expect("to");
                let to = p.ty();
                let a = self.opds(&t, &v);
                let dst = self.slot(res.unwrap(), to.nleaves());
                if op == "bitcast" {
                    let src: Vec<(Opd, u32)> = a.into_iter().zip(t.leaves()).map(|(o, (w, _))| (o, w)).collect();
                    let tl: Vec<u32> = to.leaves().into_iter().map(|(w, _)| w).collect();
                    self.code.push(Inst::Repack { dst, to: Rc::new(tl), src: Rc::new(src) });
                    return;
                }
                let (fw, tw) = (t.leaves()[0].0, to.leaves()[0].0);
                let k = match op { "sext" => Cast::SExt, "trunc" => Cast::Trunc, _ => if tw < fw { Cast::Trunc } else { Cast::ZExt } };
                for (i, a) in a.into_iter().enumerate() { self.code.push(Inst::Cast { k, from: fw, to: tw, dst: dst + i as u32, a }); }
            }
            "freeze" => {
                let t = p.ty();
                let v = p.val(&t);
                let a = self.opds(&t, &v);
                let dst = self.slot(res.unwrap(), a.len());
                for (i, a) in a.into_iter().enumerate() { self.code.push(Inst::Copy { dst: dst + i as u32, a }); }
            }
            "select" => {
                skip_flags(p, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let ct = p.ty();
                let c = p.val(&ct);
                p.expect(",");
                let t = p.ty();
                let a = p.val(&t);
                p.expect(",");
                let t2 = p.ty();
                let b = p.val(&t2);
                let c = self.opds(&ct, &c);
                let (a, b) = (self.opds(&t, &a), self.opds(&t, &b));
                let lv = t.leaves();
                let dst = self.slot(res.unwrap(), a.len());
                for (i, (a, b)) in a.into_iter().zip(b).enumerate() {
                    self.code.push(Inst::Select { dst: dst + i as u32, c: c[if c.len() == 1 { 0 } else { i }], w: lv[i].0, a, b });
                }
            }
            "phi" => {
                skip_flags(p, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = p.ty();
                let n = t.nleaves();
                let dst = self.slot(res.unwrap(), n);
                let mut inc = Vec::new();
                loop {
                    p.expect("[");
                    let v = p.val(&t);
                    p.expect(",");
                    p.ws();
                    p.i += 1;
                    let l = p.name();
                    p.expect("]");
                    inc.push((l, self.opds(&t, &v)));
                    if !p.eat(",") || p.peek() == b'!' { break; }
                }
                self.phis[cur as usize].push((dst, n, inc));
            }
            "br" => {
                if p.peek() == b'l' { let e = self.label(p); self.code.push(Inst::Br(e)); return; }
                let t = p.ty();
                let v = p.val(&t);
                p.expect(",");
                let a = self.label(p);
                p.expect(",");
                let b = self.label(p);
                let c = self.opd(&t, &v);
                self.code.push(Inst::CondBr(c, a, b));
            }
            "switch" => {
                let t = p.ty();
                let v = p.val(&t);
                p.expect(",");
                let default = self.label(p);
                p.expect("[");
                let mut cases = Vec::new();
                while !p.eat("]") {
                    let ct = p.ty();
                    let k = match p.val(&ct) { PV::Int(k) => k, PV::Zero => 0, _ => p.fail("case") };
                    p.expect(",");
                    cases.push((k, self.label(p)));
                }
                let v = self.opd(&t, &v);
                self.code.push(Inst::Switch { v, w: t.bits(), cases: Rc::new(cases), default });
            }
            "call" | "invoke" => {
                p.attrs();
                let rt = p.ty();
                p.ws();
                if p.peek() == b'(' { p.skip_group(); }
                let callee;
                if p.eat("asm") {
                    loop { p.ws(); if p.s[p.i] == b'(' { break; } if p.s[p.i] == b'"' { p.name(); } else { p.i += 1; } }
                    callee = Callee::Asm;
                } else {
                    match p.val(&Ty::Ptr) {
                        PV::Global(n) => callee = match m.func_ids.get(n) { Some(&f) => Callee::Func(f as u32), None => Callee::Ext(n.into()) },
                        v => { let o = self.opd(&Ty::Ptr, &v); callee = Callee::Ptr(o) }
                    }
                }
                p.expect("(");
                let mut args = Vec::new();
                if !p.eat(")") {
                    loop {
                        let t = p.ty();
                        if t == Ty::Other {
                            // metadata argument
                            loop { let c = p.peek(); if c == b',' || c == b')' { break; } if c == b'(' { p.skip_group(); } else { p.i += 1; } }
                        } else {
                            let v = p.val(&t);
                            for (o, (w, _)) in self.opds(&t, &v).into_iter().zip(t.leaves()) { args.push((o, w)); }
                        }
                        if p.eat(")") { break; }
                        p.expect(",");
                    }
                }
                let mut then = None;
                if op == "invoke" {
                    let k = stmt[p.i..].find("to label").expect("invoke target") + p.i;
                    p.i = k + 2;
                    then = Some(self.label(p));
                }
                let ret = rt.leaves();
                let dst = match res { Some(r) => self.slot(r, ret.len()), None => self.temp(ret.len()) };
                if let Callee::Ext(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.prefetch") || &**n == "llvm.assume" { return; }
                }
                self.code.push(Inst::Call { dst, ret: Rc::new(ret), callee, args: Rc::new(args), then });
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void { self.code.push(Inst::Ret(Rc::new(Vec::new()))); return; }
                let v = p.val(&t);
                let o = self.opds(&t, &v);
                self.code.push(Inst::Ret(Rc::new(o)));
            }
            "unreachable" => self.code.push(Inst::Unreachable),
            "extractvalue" => {
                let t = p.ty();
                let v = p.val(&t);
                let all = self.opds(&t, &v);
                let (mut off, mut ct) = (0usize, t);
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    let k = p.num();
                    for i in 0..k { off += ct.elem(i).nleaves(); }
                    ct = ct.elem(k);
                }
                let n = ct.nleaves();
                let dst = self.slot(res.unwrap(), n);
                for i in 0..n { self.code.push(Inst::Copy { dst: dst + i as u32, a: all[off + i] }); }
            }
            "insertvalue" => {
                let t = p.ty();
                let v = p.val(&t);
                let mut all = self.opds(&t, &v);
                p.expect(",");
                let et = p.ty();
                let e = p.val(&et);
                let eo = self.opds(&et, &e);
                let (mut off, mut ct) = (0usize, t.clone());
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    let k = p.num();
                    for i in 0..k { off += ct.elem(i).nleaves(); }
                    ct = ct.elem(k);
                }
                for (i, o) in eo.into_iter().enumerate() { all[off + i] = o; }
                let dst = self.slot(res.unwrap(), all.len());
                for (i, a) in all.into_iter().enumerate() { self.code.push(Inst::Copy { dst: dst + i as u32, a }); }
            }
            "insertelement" => {
                let t = p.ty();
                let v = p.val(&t);
                p.expect(",");
                let et = p.ty();
                let e = p.val(&et);
                p.expect(",");
                let it = p.ty();
                let i = p.val(&it);
                let mut all = self.opds(&t, &v);
                let eo = self.opd(&et, &e);
                let dst = self.slot(res.unwrap(), all.len());
                match self.opd(&it, &i) {
                    Opd::K(k) => { all[k as usize] = eo; for (i, a) in all.into_iter().enumerate() { self.code.push(Inst::Copy { dst: dst + i as u32, a }); } }
                    _ => self.code.push(Inst::Unsupported("insertelement index".into())),
                }
            }
            "extractelement" => {
                let t = p.ty();
                let v = p.val(&t);
                p.expect(",");
                let it = p.ty();
                let i = p.val(&it);
                let all = self.opds(&t, &v);
                let dst = self.slot(res.unwrap(), 1);
                match self.opd(&it, &i) {
                    Opd::K(k) => self.code.push(Inst::Copy { dst, a: all[k as usize] }),
                    _ => self.code.push(Inst::Unsupported("extractelement index".into())),
                }
            }
            "shufflevector" => {
                let t = p.ty();
                let a = p.val(&t);
                p.expect(",");
                let t2 = p.ty();
                let b = p.val(&t2);
                p.expect(",");
                let mt = p.ty();
                let mv = p.val(&mt);
                let mut all = self.opds(&t, &a);
                all.extend(self.opds(&t2, &b));
                let mut mask = Vec::new();
                m.const_leaves(&mt, &mv, &mut mask);
                let dst = self.slot(res.unwrap(), mask.len());
                for (i, k) in mask.into_iter().enumerate() { self.code.push(Inst::Copy { dst: dst + i as u32, a: all[k as usize] }); }
            }
            "atomicrmw" => {
                skip_flags(p, &["volatile"]);
                let o = p.word();
                let pt = p.ty();
                let pv = p.val(&pt);
                p.expect(",");
                let t = p.ty();
                let v = p.val(&t);
                let (ptr, v) = (self.opd(&pt, &pv), self.opd(&t, &v));
                let dst = self.slot(res.unwrap_or("!rmw"), 1);
                self.code.push(Inst::AtomicRmw { dst, op: o.into(), w: t.bits(), ptr, v });
            }
            "cmpxchg" => {
                skip_flags(p, &["weak", "volatile"]);
                let pt = p.ty();
                let pv = p.val(&pt);
                p.expect(",");
                let t = p.ty();
                let c = p.val(&t);
                p.expect(",");
                let t2 = p.ty();
                let n = p.val(&t2);
                let (ptr, cmp, new) = (self.opd(&pt, &pv), self.opd(&t, &c), self.opd(&t, &n));
                let dst = self.slot(res.unwrap_or("!cx"), 2);
                self.code.push(Inst::CmpXchg { dst, w: t.bits(), ptr, cmp, new });
            }
            "fence" => {}
            "landingpad" => {
                let t = p.ty();
                self.slot(res.unwrap(), t.nleaves());
                self.code.push(Inst::Unsupported("landingpad".into()));
            }
            "resume" => self.code.push(Inst::Unsupported("resume".into())),
            other => {
                if let Some(r) = res { self.slot(r, 1); }
                self.code.push(Inst::Unsupported(other.into()));
            }
        }
    }
}
