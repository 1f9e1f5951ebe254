//! Minimal binding to libz3: decides conjunctions of bit-vector terms.

use crate::expr::{Arena, Id, Op};
use crate::ir::{BinOp, Pred};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

pub enum Verdict { Sat(HashMap<u16, u8>), Unsat, Unknown }
pub type Dom = [u64; 4];
pub fn has(d: &Dom, v: usize) -> bool { d[v >> 6] >> (v & 63) & 1 == 1 }

pub struct Z3 {
    c: P,
    s: P,
    terms: HashMap<Id, P>,
    since: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u64,
    timeout_ms: u32,
}

impl Z3 {
    pub fn new() -> Z3 {
        let mut z = Z3 { c: std::ptr::null_mut(), s: std::ptr::null_mut(), terms: HashMap::new(), since: 0, queries: 0, sat: 0, unsat: 0, unknown: 0, nanos: 0, timeout_ms: 60_000 };
        z.open();
        z
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            self.s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
        self.terms.clear();
        self.since = 0;
    }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as c_uint)) } else {
                let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w as c_uint - 64));
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    fn var(&self, k: u16) -> P { unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, k as c_int), Z3_mk_bv_sort(self.c, 8)) } }
    fn flag(&self, b: P) -> P { unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) } }
    fn bool(&self, t: P) -> P { unsafe { Z3_mk_eq(self.c, t, self.num(1, 1)) } }
    fn term(&mut self, ar: &Arena, root: Id) -> P {
        let mut todo = vec![root];
        while let Some(&t) = todo.last() {
            if self.terms.contains_key(&t) { todo.pop(); continue; }
            let n = ar.nodes[t as usize];
            let kids: Vec<Id> = match n.op {
                Op::Const | Op::Var => vec![],
                Op::Bin(_) | Op::Cmp(_) | Op::Concat => vec![n.a, n.b],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a],
            };
            let before = todo.len();
            for k in &kids { if !self.terms.contains_key(k) { todo.push(*k) } }
            if todo.len() != before { continue; }
            let k: Vec<P> = kids.iter().map(|k| self.terms[k]).collect();
            let c = self.c;
            let kw = |i: usize| ar.w(kids[i]);
            let r = unsafe {
                match n.op {
                    Op::Const => self.num(ar.value(t).unwrap(), n.w),
                    Op::Var => self.var(n.a as u16),
                    Op::Bin(o) => (match o {
                        BinOp::Add => Z3_mk_bvadd, BinOp::Sub => Z3_mk_bvsub, BinOp::Mul => Z3_mk_bvmul, BinOp::UDiv => Z3_mk_bvudiv,
                        BinOp::SDiv => Z3_mk_bvsdiv, BinOp::URem => Z3_mk_bvurem, BinOp::SRem => Z3_mk_bvsrem, BinOp::Shl => Z3_mk_bvshl,
                        BinOp::LShr => Z3_mk_bvlshr, BinOp::AShr => Z3_mk_bvashr, BinOp::And => Z3_mk_bvand, BinOp::Or => Z3_mk_bvor,
                        BinOp::Xor => Z3_mk_bvxor,
                    })(c, k[0], k[1]),
                    Op::Cmp(p) => {
                        let b = match p {
                            Pred::Eq => Z3_mk_eq(c, k[0], k[1]),
                            Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, k[0], k[1])),
                            Pred::Ult => Z3_mk_bvult(c, k[0], k[1]),
                            Pred::Ule => Z3_mk_bvule(c, k[0], k[1]),
                            Pred::Ugt => Z3_mk_bvult(c, k[1], k[0]),
                            Pred::Uge => Z3_mk_bvule(c, k[1], k[0]),
                            Pred::Slt => Z3_mk_bvslt(c, k[0], k[1]),
                            Pred::Sle => Z3_mk_bvsle(c, k[0], k[1]),
                            Pred::Sgt => Z3_mk_bvslt(c, k[1], k[0]),
                            Pred::Sge => Z3_mk_bvsle(c, k[1], k[0]),
                        };
                        self.flag(b)
                    }
                    Op::ZExt => Z3_mk_zero_ext(c, (n.w - kw(0)) as c_uint, k[0]),
                    Op::SExt => Z3_mk_sign_ext(c, (n.w - kw(0)) as c_uint, k[0]),
                    Op::Extract => Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, k[0]),
                    Op::Concat => Z3_mk_concat(c, k[0], k[1]),
                    Op::Ite => Z3_mk_ite(c, self.bool(k[0]), k[1], k[2]),
                    Op::Table => {
                        let t = &ar.tables[n.b as usize];
                        let iw = kw(0);
                        let mut r = self.num(0, n.w);
                        let mut end = t.len();
                        while end > 0 {
                            let mut st = end - 1;
                            while st > 0 && t[st - 1] == t[end - 1] { st -= 1; }
                            if iw < 64 && (end - 1) as u64 >= 1u64 << iw { end = st; continue; }
                            let le = Z3_mk_bvule(c, k[0], self.num(end as u128 - 1, iw));
                            r = Z3_mk_ite(c, le, self.num(t[end - 1] as u128, n.w), r);
                            end = st;
                        }
                        r
                    }
                    Op::Ctpop => {
                        let mut r = self.num(0, n.w);
                        for i in 0..n.w as u32 {
                            let mut b = Z3_mk_extract(c, i, i, k[0]);
                            if n.w > 1 { b = Z3_mk_zero_ext(c, n.w as c_uint - 1, b) }
                            r = Z3_mk_bvadd(c, r, b);
                        }
                        r
                    }
                    Op::Ctlz | Op::Cttz => {
                        let mut r = self.num(n.w as u128, n.w);
                        let w = n.w as u32;
                        for i in 0..w {
                            let bit = if n.op == Op::Ctlz { i } else { w - 1 - i };
                            let v = if n.op == Op::Ctlz { w - 1 - i } else { w - 1 - i };
                            let b = self.bool(Z3_mk_extract(c, bit, bit, k[0]));
                            r = Z3_mk_ite(c, b, self.num(v as u128, n.w), r);
                        }
                        r
                    }
                    Op::Bswap => {
                        let mut r = Z3_mk_extract(c, 7, 0, k[0]);
                        for i in 1..n.w as u32 / 8 { r = Z3_mk_concat(c, r, Z3_mk_extract(c, 8 * i + 7, 8 * i, k[0])); }
                        r
                    }
                    Op::Bitrev => {
                        let mut r = Z3_mk_extract(c, 0, 0, k[0]);
                        for i in 1..n.w as u32 { r = Z3_mk_concat(c, r, Z3_mk_extract(c, i, i, k[0])); }
                        r
                    }
                }
            };
            self.terms.insert(t, r);
            todo.pop();
        }
        self.terms[&root]
    }
    fn domain(&self, k: u16, d: &Dom) -> Option<P> {
        if d.iter().all(|x| *x == u64::MAX) { return None; }
        let v = self.var(k);
        let n: u32 = d.iter().map(|x| x.count_ones()).sum();
        let flip = n > 128;
        let mut parts = Vec::new();
        unsafe {
            let mut i = 0;
            while i < 256 {
                if has(d, i) != flip {
                    let st = i;
                    while i < 256 && has(d, i) != flip { i += 1; }
                    let (a, b) = (self.num(st as u128, 8), self.num(i as u128 - 1, 8));
                    parts.push(if st == i - 1 { Z3_mk_eq(self.c, v, a) } else {
                        Z3_mk_and(self.c, 2, [Z3_mk_bvule(self.c, a, v), Z3_mk_bvule(self.c, v, b)].as_ptr())
                    });
                } else { i += 1; }
            }
            let r = Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr());
            Some(if flip { Z3_mk_not(self.c, r) } else { r })
        }
    }
    /// is the conjunction of `conds` (1-bit terms, with the wanted truth value) satisfiable within the domains?
    pub fn check(&mut self, ar: &Arena, conds: &[(Id, bool)], doms: &[(u16, Dom)], want_model: bool) -> Verdict {
        let t0 = Instant::now();
        if self.since > 20_000 {
            unsafe { Z3_solver_dec_ref(self.c, self.s); Z3_del_context(self.c); }
            self.open();
        }
        self.since += 1;
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (t, want) in conds {
                let b = self.term(ar, *t);
                let b = self.bool(b);
                Z3_solver_assert(self.c, self.s, if *want { b } else { Z3_mk_not(self.c, b) });
            }
            for (k, d) in doms { if let Some(p) = self.domain(*k, d) { Z3_solver_assert(self.c, self.s, p) } }
            let v = match Z3_solver_check(self.c, self.s) {
                1 => {
                    self.sat += 1;
                    let mut out = HashMap::new();
                    if want_model {
                        let m = Z3_solver_get_model(self.c, self.s);
                        Z3_model_inc_ref(self.c, m);
                        for (k, _) in doms {
                            let mut v: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(self.c, m, self.var(*k), true, &mut v) && Z3_get_numeral_uint64(self.c, v, &mut u) { out.insert(*k, u as u8); }
                        }
                        Z3_model_dec_ref(self.c, m);
                    }
                    Verdict::Sat(out)
                }
                -1 => { self.unsat += 1; Verdict::Unsat }
                _ => { self.unknown += 1; Verdict::Unknown }
            };
            Z3_solver_pop(self.c, self.s, 1);
            v
        };
        self.nanos += t0.elapsed().as_nanos() as u64;
        r
    }
}
