//! Hash-consed bit-vector terms over symbolic bytes.

use crate::ir::{BinOp, Pred};
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Bin(BinOp),
    Cmp(Pred),
    ZExt,
    SExt,
    Extract,
    Concat,
    Ite,
    Table,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u8, pub a: u32, pub b: u32, pub c: u32 }

#[derive(Clone)]
pub enum Sup { None, One(u16), Many(Rc<[u16]>) }

pub type Tab = Rc<[u64; 256]>;

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<Sup>,
    ids: HashMap<Node, Id>,
    pub consts: Vec<u128>,
    const_ids: HashMap<(u128, u8), Id>,
    pub tables: Vec<Rc<Vec<u64>>>,
    table_ids: HashMap<Rc<Vec<u64>>, u32>,
    tabs: HashMap<Id, Tab>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    now: u32,
}

pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u8) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w as u32)) as i128) >> (128 - w as u32) } }

pub fn bin(op: BinOp, w: u8, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(m & match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => { if b == 0 { return None } a / b }
        BinOp::URem => { if b == 0 { return None } a % b }
        BinOp::SDiv => { if b == 0 { return None } sext(a, w).wrapping_div(sext(b, w)) as u128 }
        BinOp::SRem => { if b == 0 { return None } sext(a, w).wrapping_rem(sext(b, w)) as u128 }
        BinOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => { let s = sext(a, w); (if b >= w as u128 { s >> 127 } else { s >> b }) as u128 }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    })
}
pub fn cmp(p: Pred, w: u8, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
    }
}
fn negate(p: Pred) -> Pred {
    match p {
        Pred::Eq => Pred::Ne, Pred::Ne => Pred::Eq, Pred::Ult => Pred::Uge, Pred::Uge => Pred::Ult, Pred::Ule => Pred::Ugt,
        Pred::Ugt => Pred::Ule, Pred::Slt => Pred::Sge, Pred::Sge => Pred::Slt, Pred::Sle => Pred::Sgt, Pred::Sgt => Pred::Sle,
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena::default();
        // id 0 is reserved ("concrete byte" in memory)
        a.nodes.push(Node { op: Op::Const, w: 1, a: u32::MAX, b: 0, c: 0 });
        a.sup.push(Sup::None);
        a
    }
    pub fn w(&self, i: Id) -> u8 { self.nodes[i as usize].w }
    pub fn konst(&mut self, v: u128, w: u8) -> Id {
        let v = v & mask(w);
        if let Some(&i) = self.const_ids.get(&(v, w)) { return i; }
        let k = self.consts.len() as u32;
        self.consts.push(v);
        let i = self.nodes.len() as Id;
        self.nodes.push(Node { op: Op::Const, w, a: k, b: 0, c: 0 });
        self.sup.push(Sup::None);
        self.const_ids.insert((v, w), i);
        i
    }
    pub fn value(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    pub fn var(&mut self, k: u16) -> Id { self.intern(Node { op: Op::Var, w: 8, a: k as u32, b: 0, c: 0 }) }
    fn kids(&self, n: &Node) -> [Option<Id>; 3] {
        match n.op {
            Op::Const | Op::Var => [None, None, None],
            Op::Bin(_) | Op::Cmp(_) | Op::Concat => [Some(n.a), Some(n.b), None],
            Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
            _ => [Some(n.a), None, None],
        }
    }
    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.ids.get(&n) { return i; }
        let mut s = Sup::None;
        if n.op == Op::Var { s = Sup::One(n.a as u16) }
        for k in self.kids(&n).into_iter().flatten() {
            s = match (s, &self.sup[k as usize]) {
                (Sup::None, t) => t.clone(),
                (s, Sup::None) => s,
                (Sup::One(a), Sup::One(b)) if a == *b => Sup::One(a),
                (s, t) => {
                    let mut v: Vec<u16> = Vec::new();
                    for x in [&s, t] { match x { Sup::None => {} Sup::One(a) => v.push(*a), Sup::Many(l) => v.extend(l.iter()) } }
                    v.sort_unstable();
                    v.dedup();
                    if v.len() == 1 { Sup::One(v[0]) } else { Sup::Many(v.into()) }
                }
            };
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n);
        self.sup.push(s);
        self.ids.insert(n, i);
        i
    }
    pub fn support(&self, i: Id) -> Vec<u16> {
        match &self.sup[i as usize] { Sup::None => vec![], Sup::One(v) => vec![*v], Sup::Many(l) => l.to_vec() }
    }
    pub fn bin(&mut self, op: BinOp, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (ka, kb) = (self.value(a), self.value(b));
        if let (Some(x), Some(y)) = (ka, kb) { if let Some(r) = bin(op, w, x, y) { return self.konst(r, w); } }
        let full = mask(w);
        match op {
            BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor if ka.is_some() && kb.is_none() => return self.bin(op, b, a),
            _ => {}
        }
        if let Some(k) = kb {
            match op {
                BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if k == 0 => return a,
                BinOp::Mul if k == 1 => return a,
                BinOp::Mul if k.is_power_of_two() => { let c = self.konst(k.trailing_zeros() as u128, w); return self.bin(BinOp::Shl, a, c); }
                BinOp::UDiv if k.is_power_of_two() => { let c = self.konst(k.trailing_zeros() as u128, w); return self.bin(BinOp::LShr, a, c); }
                BinOp::URem if k.is_power_of_two() => { let c = self.konst(k - 1, w); return self.bin(BinOp::And, a, c); }
                BinOp::UDiv if k == 1 => return a,
                BinOp::Mul | BinOp::And if k == 0 => return b,
                BinOp::And if k == full => return a,
                BinOp::Or if k == full => return b,
                BinOp::And if (k & (k + 1)) == 0 => {
                    let n = k.trailing_ones() as u8;
                    let e = self.extract(a, 0, n);
                    return self.zext(e, w);
                }
                BinOp::And if { let s = k >> k.trailing_zeros(); s & (s + 1) == 0 } => {
                    // contiguous run of ones
                    let lo = k.trailing_zeros() as u8;
                    let n = (k >> lo).trailing_ones() as u8;
                    let e = self.extract(a, lo, n);
                    let z = self.konst(0, lo);
                    let c = self.concat(e, z);
                    return self.zext(c, w);
                }
                BinOp::Xor if w == 1 => {
                    let n = self.nodes[a as usize];
                    if let Op::Cmp(p) = n.op { return self.intern(Node { op: Op::Cmp(negate(p)), ..n }); }
                }
                BinOp::Shl => {
                    if k >= w as u128 { return self.konst(0, w); }
                    let e = self.extract(a, 0, w - k as u8);
                    let z = self.konst(0, k as u8);
                    return self.concat(e, z);
                }
                BinOp::LShr => {
                    if k >= w as u128 { return self.konst(0, w); }
                    let e = self.extract(a, k as u8, w - k as u8);
                    return self.zext(e, w);
                }
                BinOp::Add => {
                    let n = self.nodes[a as usize];
                    if n.op == Op::Bin(BinOp::Add) {
                        if let Some(k2) = self.value(n.b) { let c = self.konst(k.wrapping_add(k2), w); return self.bin(BinOp::Add, n.a, c); }
                    }
                }
                BinOp::Sub => { let c = self.konst((k as i128).wrapping_neg() as u128, w); return self.bin(BinOp::Add, a, c); }
                _ => {}
            }
        }
        if a == b {
            match op {
                BinOp::Sub | BinOp::Xor => return self.konst(0, w),
                BinOp::And | BinOp::Or => return a,
                _ => {}
            }
        }
        if op == BinOp::Or { if let Some(r) = self.merge(a, b) { return r; } }
        let (a, b) = match op {
            BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor if kb.is_none() && b < a => (b, a),
            _ => (a, b),
        };
        self.intern(Node { op: Op::Bin(op), w, a, b, c: 0 })
    }
    /// low-to-high slices; None = zeros
    fn slices(&self, i: Id, out: &mut Vec<(Option<Id>, u8)>) {
        let n = self.nodes[i as usize];
        match n.op {
            Op::Concat => { self.slices(n.b, out); self.slices(n.a, out); }
            Op::ZExt => { self.slices(n.a, out); out.push((None, n.w - self.w(n.a))); }
            Op::Const if self.consts[n.a as usize] == 0 => out.push((None, n.w)),
            _ => out.push((Some(i), n.w)),
        }
    }
    fn merge(&mut self, a: Id, b: Id) -> Option<Id> {
        let (mut x, mut y) = (Vec::new(), Vec::new());
        self.slices(a, &mut x);
        self.slices(b, &mut y);
        if x.len() == 1 && y.len() == 1 { return None; }
        let mut out: Vec<(Option<Id>, u8)> = Vec::new();
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u8, 0u8);
        while i < x.len() && j < y.len() {
            let n = (x[i].1 - oi).min(y[j].1 - oj);
            let piece = match (x[i].0, y[j].0) {
                (Some(_), Some(_)) => return None,
                (Some(e), None) => Some(self.extract(e, oi, n)),
                (None, Some(e)) => Some(self.extract(e, oj, n)),
                (None, None) => None,
            };
            out.push((piece, n));
            oi += n;
            oj += n;
            if oi == x[i].1 { i += 1; oi = 0; }
            if oj == y[j].1 { j += 1; oj = 0; }
        }
        let mut r: Option<Id> = None;
        for (p, n) in out {
            let e = match p { Some(e) => e, None => self.konst(0, n) };
            r = Some(match r { None => e, Some(lo) => self.concat(e, lo) });
        }
        r
    }
    pub fn not(&mut self, a: Id) -> Id { let k = self.konst(1, 1); self.bin(BinOp::Xor, a, k) }
    pub fn and(&mut self, a: Id, b: Id) -> Id { self.bin(BinOp::And, a, b) }
    pub fn or(&mut self, a: Id, b: Id) -> Id { self.bin(BinOp::Or, a, b) }
    pub fn cmp(&mut self, p: Pred, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.value(a), self.value(b)) { return self.konst(cmp(p, w, x, y) as u128, 1); }
        if a == b { return self.konst(cmp(p, 8, 0, 0) as u128, 1); }
        if self.value(a).is_some() {
            let q = match p {
                Pred::Eq => Pred::Eq, Pred::Ne => Pred::Ne, Pred::Ult => Pred::Ugt, Pred::Ugt => Pred::Ult, Pred::Ule => Pred::Uge,
                Pred::Uge => Pred::Ule, Pred::Slt => Pred::Sgt, Pred::Sgt => Pred::Slt, Pred::Sle => Pred::Sge, Pred::Sge => Pred::Sle,
            };
            return self.cmp(q, b, a);
        }
        if let Some(k) = self.value(b) {
            let n = self.nodes[a as usize];
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                let small = k <= mask(iw);
                match p {
                    Pred::Eq | Pred::Ne | Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge => {
                        if small { let c = self.konst(k, iw); return self.cmp(p, n.a, c); }
                        return self.konst(matches!(p, Pred::Ne | Pred::Ult | Pred::Ule) as u128, 1);
                    }
                    _ => {}
                }
            }
            if w == 1 {
                match (p, k) {
                    (Pred::Eq, 1) | (Pred::Ne, 0) => return a,
                    (Pred::Eq, 0) | (Pred::Ne, 1) => return self.not(a),
                    _ => {}
                }
            }
            if n.op == Op::Ite && matches!(p, Pred::Eq | Pred::Ne) {
                if let (Some(x), Some(y)) = (self.value(n.b), self.value(n.c)) {
                    let (x, y) = (cmp(p, w, x, k), cmp(p, w, y, k));
                    return match (x, y) { (true, false) => n.a, (false, true) => self.not(n.a), (v, _) => self.konst(v as u128, 1) };
                }
            }
            if n.op == Op::Concat && p == Pred::Eq {
                // split into independent parts
                let lw = self.w(n.b);
                let (hi, lo) = (self.konst(k >> lw, w - lw), self.konst(k, lw));
                let h = self.cmp(Pred::Eq, n.a, hi);
                let l = self.cmp(Pred::Eq, n.b, lo);
                return self.and(h, l);
            }
            if n.op == Op::Concat && p == Pred::Ne { let e = self.cmp(Pred::Eq, a, b); return self.not(e); }
        }
        self.intern(Node { op: Op::Cmp(p), w: 1, a, b, c: 0 })
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let n = self.nodes[a as usize];
        if n.w == w { return a; }
        if let Some(k) = self.value(a) { return self.konst(k, w); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let n = self.nodes[a as usize];
        if n.w == w { return a; }
        if let Some(k) = self.value(a) { return self.konst(sext(k, n.w) as u128, w); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let n = self.nodes[a as usize];
        if lo == 0 && n.w == w { return a; }
        if let Some(k) = self.value(a) { return self.konst(k >> lo, w); }
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b as u8, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } }
            Op::Bin(o @ (BinOp::And | BinOp::Or | BinOp::Xor)) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(o, x, y);
            }
            Op::Bin(o @ (BinOp::Add | BinOp::Sub | BinOp::Mul)) if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(o, x, y);
            }
            Op::Ite => {
                if self.value(n.b).is_some() || self.value(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
    }
    /// a is the high part
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if nb.w == 0 { return a; }
        if na.w == 0 { return b; }
        let w = na.w + nb.w;
        let (ka, kb) = (self.value(a), self.value(b));
        if let (Some(x), Some(y)) = (ka, kb) { return self.konst(x << nb.w | y, w); }
        if ka == Some(0) { return self.zext(b, w); }
        // adjacent slices of one term
        let part = |me: &Arena, i: Id, n: &Node| if n.op == Op::Extract { (n.a, n.b as u8) } else { let _ = me; (i, 0) };
        let (pa, pb) = (part(self, a, &na), part(self, b, &nb));
        if pa.0 == pb.0 && pb.1 + nb.w == pa.1 { return self.extract(pa.0, pb.1, w); }
        if na.op == Op::ZExt {
            let inner = na.a;
            let c = self.concat(inner, b);
            return self.zext(c, w);
        }
        // right-associate so adjacency is found
        if nb.op == Op::Concat {
            let nba = self.nodes[nb.a as usize];
            let pc = part(self, nb.a, &nba);
            if pa.0 == pc.0 && pc.1 + nba.w == pa.1 {
                let h = self.extract(pa.0, pc.1, na.w + nba.w);
                return self.concat(h, nb.b);
            }
        }
        self.intern(Node { op: Op::Concat, w, a, b, c: 0 })
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.value(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        if self.w(a) == 1 {
            match (self.value(a), self.value(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        let w = self.w(a);
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b })
    }
    pub fn unop(&mut self, op: Op, a: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.value(a) { let r = Self::un(op, w, k); return self.konst(r, w); }
        self.intern(Node { op, w, a, b: 0, c: 0 })
    }
    pub fn un(op: Op, w: u8, k: u128) -> u128 {
        match op {
            Op::Ctpop => k.count_ones() as u128,
            Op::Ctlz => (k.leading_zeros() - (128 - w as u32)) as u128,
            Op::Cttz => if k == 0 { w as u128 } else { k.trailing_zeros() as u128 },
            Op::Bswap => k.swap_bytes() >> (128 - w as u32),
            Op::Bitrev => k.reverse_bits() >> (128 - w as u32),
            _ => unreachable!(),
        }
    }
    /// contents[idx], idx any width; out of range never happens on feasible values
    pub fn table(&mut self, idx: Id, contents: Vec<u64>, w: u8) -> Id {
        // every feasible index is within the table, so the bits above its size carry no information
        let bits = (usize::BITS - (contents.len() - 1).leading_zeros()).max(1) as u8;
        let idx = if self.w(idx) > bits { self.extract(idx, 0, bits) } else { idx };
        let c = Rc::new(contents);
        let t = match self.table_ids.get(&c) {
            Some(&t) => t,
            None => { let t = self.tables.len() as u32; self.tables.push(c.clone()); self.table_ids.insert(c, t); t }
        };
        self.intern(Node { op: Op::Table, w, a: idx, b: t, c: 0 })
    }
    fn apply(&self, n: &Node, f: impl Fn(Id) -> u128) -> u128 {
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => unreachable!(),
            Op::Bin(o) => bin(o, n.w, f(n.a), f(n.b)).unwrap_or_else(|| match o { BinOp::UDiv => mask(n.w), BinOp::SDiv => if sext(f(n.a), n.w) < 0 { 1 } else { mask(n.w) }, _ => f(n.a) }),
            Op::Cmp(p) => cmp(p, self.w(n.a), f(n.a), f(n.b)) as u128,
            Op::ZExt => f(n.a),
            Op::SExt => sext(f(n.a), self.w(n.a)) as u128 & mask(n.w),
            Op::Extract => (f(n.a) >> n.b) & mask(n.w),
            Op::Concat => f(n.a) << self.w(n.b) | f(n.b),
            Op::Ite => if f(n.a) == 1 { f(n.b) } else { f(n.c) },
            Op::Table => { let t = &self.tables[n.b as usize]; let i = f(n.a); if i < t.len() as u128 { t[i as usize] as u128 } else { 0 } }
            o => Self::un(o, n.w, f(n.a)),
        }
    }
    /// value under a full assignment
    pub fn eval(&mut self, i: Id, asg: &dyn Fn(u16) -> u8) -> u128 {
        if let Some(k) = self.value(i) { return k; }
        self.now += 1;
        self.stamp.resize(self.nodes.len(), 0);
        self.memo.resize(self.nodes.len(), 0);
        let now = self.now;
        let mut todo = vec![i];
        while let Some(&t) = todo.last() {
            if self.stamp[t as usize] == now { todo.pop(); continue; }
            let n = self.nodes[t as usize];
            let r = if n.op == Op::Var { asg(n.a as u16) as u128 } else {
                let before = todo.len();
                for k in self.kids(&n).into_iter().flatten() { if self.stamp[k as usize] != now { todo.push(k) } }
                if todo.len() != before { continue; }
                self.apply(&n, |k| self.memo[k as usize])
            };
            self.memo[t as usize] = r;
            self.stamp[t as usize] = now;
            todo.pop();
        }
        self.memo[i as usize]
    }
    /// values of a term over one symbolic byte (or none), for each value of the byte; terms wider than
    /// 64 bits are refused
    pub fn tab(&mut self, i: Id) -> Option<Tab> {
        if let Some(t) = self.tabs.get(&i) { return Some(t.clone()); }
        if self.tabs.len() > 60_000 { self.tabs.clear(); }
        let mut todo = vec![i];
        while let Some(&t) = todo.last() {
            if self.tabs.contains_key(&t) { todo.pop(); continue; }
            let n = self.nodes[t as usize];
            if n.w > 64 { return None; }
            let mut out = [0u64; 256];
            match n.op {
                Op::Const => out = [self.consts[n.a as usize] as u64; 256],
                Op::Var => for k in 0..256 { out[k] = k as u64 },
                _ => {
                    let before = todo.len();
                    let kids = self.kids(&n);
                    for k in kids.into_iter().flatten() { if !self.tabs.contains_key(&k) { todo.push(k) } }
                    if todo.len() != before { continue; }
                    let g = |k: Option<Id>| k.map(|k| self.tabs[&k].clone());
                    let ts = [g(kids[0]), g(kids[1]), g(kids[2])];
                    for v in 0..256 {
                        out[v] = self.apply(&n, |k| {
                            for (j, kid) in kids.iter().enumerate() { if *kid == Some(k) { return ts[j].as_ref().unwrap()[v] as u128; } }
                            unreachable!()
                        }) as u64;
                    }
                }
            }
            self.tabs.insert(t, Rc::new(out));
            todo.pop();
        }
        Some(self.tabs[&i].clone())
    }
}
