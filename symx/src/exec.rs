//! Forking symbolic executor over the instruction stream of `ir`.

use crate::expr::{self, mask, Arena, Id, Op, Sup};
use crate::ir::*;
use crate::z3::{has, Dom, Verdict, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, Debug)]
pub enum V { C(u64), E(Id) }

#[derive(Clone)]
pub struct Obj { data: Vec<u8>, sym: Vec<Id> }
impl Obj {
    fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: Vec::new() } }
}

#[derive(Clone)]
struct Frame { func: Rc<Func>, pc: u32, base: u32, sbase: u32 }

/// One recorded decision; enough to steer another run of the same entry to the same place.
#[derive(Clone, Debug)]
pub enum Choice { Dom(u16, Dom), Cond(bool), Val(u128) }
pub struct TraceNode { c: Choice, prev: Option<Rc<TraceNode>> }

#[derive(Clone)]
pub struct State {
    regs: Vec<V>,
    frames: Vec<Frame>,
    stack: Vec<Rc<Obj>>,
    heap: Vec<Option<Rc<Obj>>>,
    globals: BTreeMap<u32, Rc<Obj>>,
    doms: Vec<Dom>,
    in_multi: Vec<bool>,
    multi: Vec<(Id, bool)>,
    known: Vec<(Id, bool)>,
    values: Vec<(Id, u128)>,
    model: Vec<u8>,
    model_ok: bool,
    trace: Option<Rc<TraceNode>>,
    depth: u32,
    replay: Rc<Vec<Choice>>,
    replay_at: usize,
    steps: u64,
    expect_panic: bool,
    /// pthread thread-specific values, by key
    tsd: Vec<V>,
}

pub struct Found { pub kind: String, pub what: String, pub stack: Vec<String>, pub input: Vec<u8> }

pub enum Stop { Done, Assumed, Bad(&'static str, String), Incomplete(String) }
type Res<T> = Result<T, Stop>;

/// State shared by the worker threads.
pub struct Shared {
    pub queue: Mutex<Vec<Vec<Choice>>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
    pub threads: usize,
    pub found: Mutex<Vec<Found>>,
    pub incomplete: Mutex<Vec<String>>,
    pub start: Instant,
    pub limit_s: u64,
    pub max_steps: u64,
    pub max_found: usize,
    pub paths: AtomicU64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub assumed: u64, pub steps: u64, pub forks: u64, pub confirmed: u64, pub decided_by_table: u64, pub multi_queries: u64,
    pub cache_hits: u64, pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub nanos: u64, pub max_vars: usize, pub terms: u64,
    pub funcs: HashSet<String>, pub dbg: std::collections::BTreeSet<u32>, pub reached: BTreeMap<u64, u64>, pub exts: HashSet<String>, pub samples: Vec<Vec<u8>>,
}

pub struct Exec<'a> {
    m: &'a Module,
    funcs: HashMap<u32, Rc<Func>>,
    ar: Arena,
    z3: Z3,
    work: Vec<State>,
    confirmed: HashSet<(Id, Dom)>,
    multi_cache: HashMap<(Id, Vec<(Id, bool)>, Vec<(u16, Dom)>), (bool, bool)>,
    pub st: Stats,
    sh: &'a Shared,
    scratch: Vec<V>,
    pub profile: Option<HashMap<(String, u32), u64>>,
}

fn count(d: &Dom) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
fn first(d: &Dom) -> u8 { for i in 0..4 { if d[i] != 0 { return (i * 64) as u8 + d[i].trailing_zeros() as u8; } } 0 }
fn put(d: &mut Dom, v: usize) { d[v >> 6] |= 1 << (v & 63) }
fn values(d: &Dom) -> impl Iterator<Item = usize> + '_ { (0..256).filter(move |v| has(d, *v)) }
fn mask64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, sh: &'a Shared) -> Exec<'a> {
        Exec {
            m, funcs: HashMap::new(), ar: Arena::new(), z3: Z3::new(), work: Vec::new(), confirmed: HashSet::new(), multi_cache: HashMap::new(),
            st: Stats::default(), sh, scratch: Vec::new(),
            profile: std::env::var_os("SYMX_PROFILE").map(|_| HashMap::new()),
        }
    }
    fn func(&mut self, f: u32) -> Rc<Func> {
        if let Some(x) = self.funcs.get(&f) { return x.clone(); }
        let x = Rc::new(self.m.compile(f as usize));
        self.funcs.insert(f, x.clone());
        x
    }
    fn initial(&mut self, entry: u32, replay: Vec<Choice>) -> State {
        let f = self.func(entry);
        let mut trace = None;
        for c in &replay { trace = Some(Rc::new(TraceNode { c: c.clone(), prev: trace })); }
        State {
            regs: vec![V::C(0); f.nslots as usize], frames: vec![Frame { func: f, pc: 0, base: 0, sbase: 0 }], stack: Vec::new(), heap: Vec::new(),
            globals: BTreeMap::new(), doms: Vec::new(), in_multi: Vec::new(), multi: Vec::new(), known: Vec::new(), values: Vec::new(),
            model: Vec::new(), model_ok: true, trace, depth: replay.len() as u32, replay: Rc::new(replay), replay_at: 0, steps: 0, expect_panic: false, tsd: Vec::new(),
        }
    }
    pub fn run(&mut self, entry: u32) {
        loop {
            // take work: own stack first, then the shared queue
            let mut s = match self.work.pop() {
                Some(s) => s,
                None => {
                    let mut q = self.sh.queue.lock().unwrap();
                    let t = loop {
                        if self.sh.stop.load(Ordering::Relaxed) { break None; }
                        if let Some(t) = q.pop() { break Some(t); }
                        let idle = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                        if idle == self.sh.threads {
                            self.sh.stop.store(true, Ordering::SeqCst);
                            self.sh.cv.notify_all();
                            break None;
                        }
                        q = self.sh.cv.wait(q).unwrap();
                        if self.sh.stop.load(Ordering::Relaxed) { break None; }
                        self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                    };
                    drop(q);
                    match t { Some(t) => self.initial(entry, t), None => break }
                }
            };
            // share: give away the oldest pending states when somebody is waiting
            if self.work.len() > 1 && self.sh.idle.load(Ordering::Relaxed) > 0 {
                let mut q = self.sh.queue.lock().unwrap();
                if q.len() < self.sh.threads {
                    let n = (self.work.len() / 2).min(4).max(1);
                    for g in self.work.drain(..n) {
                        if g.replay_at < g.replay.len() { unreachable!() }
                        let mut v = Vec::new();
                        let mut t = g.trace.clone();
                        while let Some(x) = t { v.push(x.c.clone()); t = x.prev.clone(); }
                        v.reverse();
                        q.push(v);
                    }
                    self.sh.cv.notify_all();
                }
            }
            let before = s.steps;
            let r = self.path(&mut s);
            self.st.steps += s.steps - before;
            self.st.max_vars = self.st.max_vars.max(s.doms.len());
            // a panic the harness asked for ends the path as it should
            let r = match r {
                Stop::Bad("panic", _) if s.expect_panic => {
                    *self.st.reached.entry(1).or_default() += 1;
                    Stop::Done
                }
                r => r,
            };
            match r {
                Stop::Done => {
                    self.st.paths += 1;
                    if self.st.paths.is_power_of_two() && self.model(&mut s).is_ok() { self.st.samples.push(s.model.clone()); }
                    self.sh.paths.fetch_add(1, Ordering::Relaxed); }
                Stop::Assumed => self.st.assumed += 1,
                Stop::Bad(kind, what) => {
                    let input = match self.model(&mut s) { Ok(()) => s.model.clone(), Err(_) => s.model.clone() };
                    let stack = s.frames.iter().rev().take(12).map(|f| f.func.name.to_string()).collect();
                    let mut f = self.sh.found.lock().unwrap();
                    f.push(Found { kind: kind.into(), what, stack, input });
                    if f.len() >= self.sh.max_found { self.halt(); }
                }
                Stop::Incomplete(w) => {
                    let w = format!("{w} [in {}]", s.frames.iter().rev().take(6).map(|f| f.func.name.to_string()).collect::<Vec<_>>().join(" < "));
                    self.sh.incomplete.lock().unwrap().push(w);
                    self.halt();
                }
            }
            if self.sh.stop.load(Ordering::Relaxed) { break; }
            if self.sh.start.elapsed().as_secs() >= self.sh.limit_s {
                self.sh.incomplete.lock().unwrap().push("time limit".into());
                self.halt();
                break;
            }
        }
        if let Some(p) = &self.profile {
            let mut v: Vec<_> = p.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.into_iter().take(25) { eprintln!("{n:9} {}:{}", k.0, k.1); }
        }
        for f in self.funcs.values() {
            self.st.funcs.insert(f.name.to_string());
            for (seen, ids) in f.seen.iter().zip(&f.dbg) { if seen.get() { self.st.dbg.extend(ids); } }
        }
        self.st.queries = self.z3.queries;
        self.st.sat = self.z3.sat;
        self.st.unsat = self.z3.unsat;
        self.st.unknown = self.z3.unknown;
        self.st.nanos = self.z3.nanos;
        self.st.terms = self.ar.nodes.len() as u64;
    }
    fn halt(&self) {
        let _q = self.sh.queue.lock().unwrap();
        self.sh.stop.store(true, Ordering::SeqCst);
        self.sh.cv.notify_all();
    }
    fn path(&mut self, s: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            if let Err(e) = self.step(s) { return e; }
            s.steps += 1;
            tick += 1;
            if tick & 0xfffff == 0 {
                if self.sh.stop.load(Ordering::Relaxed) { return Stop::Assumed; }
                if self.sh.start.elapsed().as_secs() >= self.sh.limit_s { return Stop::Incomplete("time limit".into()); }
            }
            if s.steps > self.sh.max_steps { return Stop::Bad("hang", format!("path exceeds {} instructions", self.sh.max_steps)); }
        }
    }

    // ---- constraints -------------------------------------------------------------------------

    fn note(&self, s: &mut State, c: Choice) {
        s.trace = Some(Rc::new(TraceNode { c, prev: s.trace.take() }));
        s.depth += 1;
    }
    fn replayed(&self, s: &mut State) -> Option<Choice> {
        if s.replay_at < s.replay.len() { s.replay_at += 1; Some(s.replay[s.replay_at - 1].clone()) } else { None }
    }
    fn restrict(&self, s: &mut State, v: u16, d: Dom) {
        s.doms[v as usize] = d;
        if !has(&d, s.model[v as usize] as usize) {
            if s.in_multi[v as usize] { s.model_ok = false } else { s.model[v as usize] = first(&d) }
        }
    }
    /// the part of the domain of the (single) byte of `t` where it equals 1 / 0
    fn split(&mut self, d: &Dom, t: Id) -> Option<(Dom, Dom)> {
        let tab = self.ar.tab(t)?;
        let (mut y, mut n) = ([0; 4], [0; 4]);
        for v in values(d) { if tab[v] == 1 { put(&mut y, v) } else { put(&mut n, v) } }
        Some((y, n))
    }
    fn assert(&mut self, s: &mut State, t: Id, truth: bool) {
        s.known.push((t, truth));
        let n = self.ar.nodes[t as usize];
        match n.op {
            Op::Bin(BinOp::And) if truth => { self.assert(s, n.a, true); self.assert(s, n.b, true); return; }
            Op::Bin(BinOp::Or) if !truth => { self.assert(s, n.a, false); self.assert(s, n.b, false); return; }
            Op::Bin(BinOp::Xor) if self.ar.value(n.b) == Some(1) => { self.assert(s, n.a, !truth); return; }
            _ => {}
        }
        match self.ar.sup[t as usize].clone() {
            Sup::None => {}
            Sup::One(v) => {
                let d = s.doms[v as usize];
                if let Some((y, no)) = self.split(&d, t) { self.restrict(s, v, if truth { y } else { no }); return; }
                s.in_multi[v as usize] = true;
                s.multi.push((t, truth));
            }
            Sup::Many(l) => { for v in l.iter() { s.in_multi[*v as usize] = true; } s.multi.push((t, truth)); }
        }
    }
    /// constraints connected with the given bytes, and all bytes involved
    fn slice(&self, s: &State, vars: &[u16]) -> (Vec<(Id, bool)>, Vec<(u16, Dom)>) {
        let mut seen = vec![false; s.doms.len()];
        for v in vars { seen[*v as usize] = true; }
        let mut used = vec![false; s.multi.len()];
        loop {
            let mut changed = false;
            for (i, (t, _)) in s.multi.iter().enumerate() {
                if used[i] { continue; }
                let sup = self.ar.support(*t);
                if sup.iter().any(|v| seen[*v as usize]) {
                    used[i] = true;
                    changed = true;
                    for v in sup { seen[v as usize] = true; }
                }
            }
            if !changed { break; }
        }
        let c = s.multi.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        let d = (0..s.doms.len()).filter(|v| seen[*v]).map(|v| (v as u16, s.doms[v])).collect();
        (c, d)
    }
    /// make `s.model` a satisfying assignment
    fn model(&mut self, s: &mut State) -> Res<()> {
        if s.model_ok { return Ok(()); }
        let vars: Vec<u16> = (0..s.doms.len() as u16).collect();
        let (c, d) = self.slice(s, &vars);
        match self.z3.check(&self.ar, &c, &d, true) {
            Verdict::Sat(m) => { for (k, v) in m { s.model[k as usize] = v; } s.model_ok = true; Ok(()) }
            Verdict::Unsat => Err(Stop::Assumed),
            Verdict::Unknown => Err(Stop::Incomplete("solver gave no answer".into())),
        }
    }
    fn confirm(&mut self, t: Id, truth: bool, v: u16, d: Dom) -> Res<()> {
        self.st.decided_by_table += 1;
        if !self.confirmed.insert((t, d)) { self.st.cache_hits += 1; return Ok(()); }
        self.st.confirmed += 1;
        match self.z3.check(&self.ar, &[(t, !truth)], &[(v, d)], false) {
            Verdict::Unsat => Ok(()),
            Verdict::Sat(_) => Err(Stop::Incomplete("internal: solver disagrees with the value table".into())),
            Verdict::Unknown => Err(Stop::Incomplete("solver gave no answer".into())),
        }
    }
    /// feasibility of t / not t
    fn feasible(&mut self, s: &mut State, t: Id) -> Res<(bool, bool)> {
        let sup = self.ar.support(t);
        let (c, d) = self.slice(s, &sup);
        let key = (t, c, d);
        if let Some(r) = self.multi_cache.get(&key) { self.st.cache_hits += 1; return Ok(*r); }
        self.st.multi_queries += 1;
        self.model(s)?;
        let m = s.model.clone();
        let now = self.ar.eval(t, &|v| m[v as usize]) == 1;
        let mut q = key.1.clone();
        q.push((t, !now));
        let other = match self.z3.check(&self.ar, &q, &key.2, false) {
            Verdict::Sat(_) => true,
            Verdict::Unsat => false,
            Verdict::Unknown => return Err(Stop::Incomplete("solver gave no answer".into())),
        };
        let r = if now { (true, other) } else { (other, true) };
        if self.multi_cache.len() > 400_000 { self.multi_cache.clear(); }
        self.multi_cache.insert(key, r);
        Ok(r)
    }
    fn apply(&mut self, s: &mut State, t: Id, c: &Choice) {
        match c {
            Choice::Dom(v, d) => self.restrict(s, *v, *d),
            Choice::Cond(b) => { self.assert(s, t, *b); s.model_ok = false; }
            Choice::Val(_) => unreachable!(),
        }
    }
    pub fn show(&self, t: Id, depth: u32) -> String {
        let n = self.ar.nodes[t as usize];
        if let Some(k) = self.ar.value(t) { return format!("{k}:{}", n.w); }
        if n.op == Op::Var { return format!("v{}", n.a); }
        if depth == 0 { return format!("#{t}"); }
        let d = depth - 1;
        match n.op {
            Op::Bin(_) | Op::Cmp(_) | Op::Concat => format!("{:?}({}, {})", n.op, self.show(n.a, d), self.show(n.b, d)),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d), n.b, n.w),
            o => format!("{o:?}({})", self.show(n.a, d)),
        }
    }
    fn fork(&mut self, s: &mut State, t: Id, mut cs: Vec<Choice>) {
        self.st.forks += 1;
        if self.profile.is_some() {
            let f = s.frames.last().unwrap();
            let k = (format!("{} {}", f.func.name, self.show(t, 4)), f.pc);
            *self.profile.as_mut().unwrap().entry(k).or_default() += 1;
        }
        let last = cs.pop().unwrap();
        for c in cs {
            let mut o = s.clone();
            self.note(&mut o, c.clone());
            self.apply(&mut o, t, &c);
            self.work.push(o);
        }
        self.note(s, last.clone());
        self.apply(s, t, &last);
    }
    fn decide(&mut self, s: &mut State, t: Id) -> Res<bool> {
        if let Some(k) = self.ar.value(t) { return Ok(k == 1); }
        if let Some((_, b)) = s.known.iter().rev().find(|(x, _)| *x == t) { return Ok(*b); }
        if let Sup::One(v) = self.ar.sup[t as usize] {
            let d = s.doms[v as usize];
            if let Some((y, n)) = self.split(&d, t) {
                if count(&n) == 0 { self.confirm(t, true, v, d)?; return Ok(true); }
                if count(&y) == 0 { self.confirm(t, false, v, d)?; return Ok(false); }
                if let Some(Choice::Dom(v2, d2)) = if s.in_multi[v as usize] { None } else { self.replayed(s) } {
                    debug_assert_eq!(v, v2);
                    self.restrict(s, v2, d2);
                    return self.decide(s, t);
                }
                if !s.in_multi[v as usize] {
                    self.fork(s, t, vec![Choice::Dom(v, n), Choice::Dom(v, y)]);
                    return Ok(true);
                }
            }
        }
        // several bytes involved
        if let Some(c) = self.pending_choice(s, t) { return Ok(c); }
        let (y, n) = self.feasible(s, t)?;
        match (y, n) {
            (true, false) => Ok(true),
            (false, true) => Ok(false),
            (false, false) => Err(Stop::Assumed),
            (true, true) => {
                self.fork(s, t, vec![Choice::Cond(false), Choice::Cond(true)]);
                Ok(true)
            }
        }
    }
    /// During replay the recorded decision can only be used where a decision was recorded, so the
    /// feasibility question has to be asked again; the recorded choice then picks the side.
    fn pending_choice(&mut self, s: &mut State, t: Id) -> Option<bool> {
        if s.replay_at >= s.replay.len() { return None; }
        match self.feasible(s, t) {
            Ok((true, true)) => match self.replayed(s) {
                Some(Choice::Cond(b)) => { self.assert(s, t, b); s.model_ok = false; Some(b) }
                _ => None,
            },
            Ok((true, false)) => Some(true),
            Ok((false, true)) => Some(false),
            _ => None,
        }
    }
    fn concretize(&mut self, s: &mut State, v: V) -> Res<u128> {
        let t = match v { V::C(k) => return Ok(k as u128), V::E(t) => t };
        if let Some(k) = self.ar.value(t) { return Ok(k); }
        if let Some((_, k)) = s.values.iter().rev().find(|(x, _)| *x == t) { return Ok(*k); }
        if let Sup::One(v) = self.ar.sup[t as usize] {
            if let Some(tab) = self.ar.tab(t) {
                let d = s.doms[v as usize];
                let mut groups: BTreeMap<u64, Dom> = BTreeMap::new();
                for x in values(&d) { put(groups.entry(tab[x]).or_insert([0; 4]), x); }
                if groups.len() == 1 { return Ok(*groups.keys().next().unwrap() as u128); }
                if !s.in_multi[v as usize] {
                    if let Some(Choice::Dom(v2, d2)) = self.replayed(s) {
                        self.restrict(s, v2, d2);
                        return self.concretize(s, V::E(t));
                    }
                    let cs: Vec<Choice> = groups.values().map(|g| Choice::Dom(v, *g)).collect();
                    let k = *groups.keys().last().unwrap();
                    self.fork(s, t, cs);
                    return Ok(k as u128);
                }
            }
        }
        // choose the value of a model; the rest of the values go to a sibling
        let w = self.ar.w(t);
        loop {
            let k = if s.replay_at < s.replay.len() {
                match self.replayed(s) { Some(Choice::Val(k)) => k, _ => return Err(Stop::Incomplete("internal: replay mismatch".into())) }
            } else {
                self.model(s)?;
                let m = s.model.clone();
                let k = self.ar.eval(t, &|v| m[v as usize]);
                self.note(s, Choice::Val(k));
                k
            };
            let kc = self.ar.konst(k, w);
            let eq = self.ar.cmp(Pred::Eq, t, kc);
            if self.decide(s, eq)? { s.values.push((t, k)); return Ok(k); }
        }
    }
    /// restrict to executions where t holds
    fn assume(&mut self, s: &mut State, t: Id) -> Res<()> {
        if let Some(k) = self.ar.value(t) { return if k == 1 { Ok(()) } else { Err(Stop::Assumed) }; }
        if let Sup::One(v) = self.ar.sup[t as usize] {
            let d = s.doms[v as usize];
            if let Some((y, n)) = self.split(&d, t) {
                if count(&n) == 0 { return Ok(()); }
                if count(&y) == 0 { return Err(Stop::Assumed); }
                self.restrict(s, v, y);
                if s.in_multi[v as usize] { s.model_ok = false; self.model(s)?; }
                return Ok(());
            }
        }
        self.assert(s, t, true);
        s.model_ok = false;
        self.model(s)
    }

    // ---- values ------------------------------------------------------------------------------

    fn fix(&mut self, s: &State, v: V) -> V {
        if let V::E(t) = v {
            if let Sup::One(x) = self.ar.sup[t as usize] {
                let d = &s.doms[x as usize];
                if count(d) == 1 && self.ar.w(t) <= 64 {
                    let b = first(d) as usize;
                    let small = self.ar.nodes[t as usize].op == Op::Var;
                    return V::C(if small { b as u64 } else { match self.ar.tab(t) { Some(tab) => tab[b], None => return v } });
                }
            }
        }
        v
    }
    #[inline]
    fn rd(&mut self, s: &State, base: u32, o: Opd) -> V {
        match o {
            Opd::K(k) => V::C(k),
            Opd::W(k) => V::E(self.ar.konst(k, 128)),
            Opd::S(i) => match s.regs[(base + i) as usize] { V::C(k) => V::C(k), v => self.fix(s, v) },
        }
    }
    fn id(&mut self, v: V, w: u32) -> Id { match v { V::C(k) => self.ar.konst(k as u128, w as u8), V::E(t) => t } }
    fn val(&self, t: Id) -> V { if self.ar.w(t) <= 64 { if let Some(k) = self.ar.value(t) { return V::C(k as u64); } } V::E(t) }

    // ---- memory ------------------------------------------------------------------------------

    fn with<T>(&self, s: &State, a: u64, n: u64, f: impl FnOnce(&[u8], &[Id], usize) -> T) -> Res<T> {
        let id = ((a & !(0xf << 60)) >> 32) as usize;
        let off = (a & 0xffff_ffff) as i64 - SKEW as i64;
        let bad = |why: &str| Err(Stop::Bad("memory", format!("{why} at {a:#x} ({n} bytes)")));
        let go = |data: &[u8], sym: &[Id], f: Box<dyn FnOnce(&[u8], &[Id], usize) -> T + '_>| -> Res<T> {
            if off < 0 || off as u64 + n > data.len() as u64 { return Err(Stop::Bad("memory", format!("out of bounds access at offset {off} ({n} bytes) of an object of {} bytes", data.len()))); }
            Ok(f(data, sym, off as usize))
        };
        let f = Box::new(f);
        match a & (0xf << 60) {
            GLOBAL_BASE => {
                if let Some(o) = s.globals.get(&(id as u32)) { return go(&o.data, &o.sym, f); }
                match self.m.globals.get(id) { Some(g) => go(&g.data, &[], f), None => bad("bad global") }
            }
            STACK_BASE => match s.stack.get(id) { Some(o) => go(&o.data, &o.sym, f), None => bad("dangling stack access") },
            HEAP_BASE => match s.heap.get(id) { Some(Some(o)) => go(&o.data, &o.sym, f), _ => bad("dangling heap access") },
            _ => bad("wild access"),
        }
    }
    fn with_mut(&mut self, s: &mut State, a: u64, n: u64, need_sym: bool, f: impl FnOnce(&mut Obj, usize)) -> Res<()> {
        let id = ((a & !(0xf << 60)) >> 32) as usize;
        let off = (a & 0xffff_ffff) as i64 - SKEW as i64;
        let o = match a & (0xf << 60) {
            GLOBAL_BASE if id < self.m.globals.len() => {
                if self.m.globals[id].constant { return Err(Stop::Bad("memory", "write to constant".into())); }
                let g = &self.m.globals[id];
                s.globals.entry(id as u32).or_insert_with(|| Rc::new(Obj { data: g.data.clone(), sym: Vec::new() }))
            }
            STACK_BASE if id < s.stack.len() => &mut s.stack[id],
            HEAP_BASE if id < s.heap.len() && s.heap[id].is_some() => s.heap[id].as_mut().unwrap(),
            _ => return Err(Stop::Bad("memory", format!("wild or dangling write at {a:#x} ({n} bytes)"))),
        };
        if off < 0 || off as u64 + n > o.data.len() as u64 {
            return Err(Stop::Bad("memory", format!("out of bounds write at offset {off} ({n} bytes) of an object of {} bytes", o.data.len())));
        }
        let o = Rc::make_mut(o);
        if need_sym && o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
        f(o, off as usize);
        Ok(())
    }
    fn load(&mut self, s: &State, a: u64, w: u32) -> Res<V> {
        let n = (w as u64 + 7) / 8;
        enum R { Conc(u128), Sym([Id; 16], [u8; 16]) }
        let r = self.with(s, a, n, |d, y, o| {
            let n = n as usize;
            if y.is_empty() || y[o..o + n].iter().all(|x| *x == 0) {
                let mut k = 0u128;
                for i in (0..n).rev() { k = k << 8 | d[o + i] as u128; }
                R::Conc(k)
            } else {
                let (mut a, mut b) = ([0; 16], [0; 16]);
                a[..n].copy_from_slice(&y[o..o + n]);
                b[..n].copy_from_slice(&d[o..o + n]);
                R::Sym(a, b)
            }
        })?;
        Ok(match r {
            R::Conc(k) => if w <= 64 { V::C(k as u64 & mask64(w)) } else { V::E(self.ar.konst(k, w as u8)) },
            R::Sym(y, d) => {
                let mut t: Option<Id> = None;
                for i in 0..n as usize {
                    let b = match y[i] {
                        0 => self.ar.konst(d[i] as u128, 8),
                        e => match self.fix(s, V::E(e)) { V::C(k) => self.ar.konst(k as u128, 8), V::E(e) => e },
                    };
                    t = Some(match t { None => b, Some(lo) => self.ar.concat(b, lo) });
                }
                let mut t = t.unwrap();
                if w as u64 != 8 * n { t = self.ar.extract(t, 0, w as u8); }
                self.val(t)
            }
        })
    }
    fn load_at(&mut self, s: &mut State, p: V, leaves: &[(u32, u64)], out: &mut Vec<V>) -> Res<()> {
        let t = match p { V::C(a) => { for (w, o) in leaves { let v = self.load(s, a.wrapping_add(*o), *w)?; out.push(v); } return Ok(()); } V::E(t) => t };
        if let Sup::One(x) = self.ar.sup[t as usize] {
            if let Some(tab) = self.ar.tab(t) {
                let d = s.doms[x as usize];
                let mut addrs: Vec<u64> = values(&d).map(|v| tab[v]).collect();
                addrs.sort_unstable();
                addrs.dedup();
                if addrs.len() == 1 { return self.load_at(s, V::C(addrs[0]), leaves, out); }
                let (lo, hi) = (addrs[0], addrs[addrs.len() - 1]);
                let mut res = Vec::new();
                let mut ok = true;
                let tz = addrs.iter().map(|a| (a - lo).trailing_zeros()).min().unwrap().min(6);
                // a table over the whole object, so that it does not depend on the path
                let start = (lo & !0xffff_ffff | SKEW) + (lo & ((1 << tz) - 1));
                let n = self.with(s, lo, 1, |d, _, _| d.len() as u64 + (1 << tz) - 1).unwrap_or(0) >> tz;
                'l: for (w, o) in leaves {
                    if *w > 64 { ok = false; break; }
                    for a in &addrs { if !matches!(self.load(s, a.wrapping_add(*o), *w), Ok(V::C(_))) { ok = false; break 'l; } }
                    if lo >> 32 == hi >> 32 && n <= 4096 {
                        let mut c = vec![0u64; n as usize];
                        for k in 0..n {
                            if let Ok(V::C(x)) = self.load(s, (start + (k << tz)).wrapping_add(*o), *w) { c[k as usize] = x; }
                        }
                        let base = self.ar.konst(start as u128, 64);
                        let idx = self.ar.bin(BinOp::Sub, t, base);
                        let sh = self.ar.konst(tz as u128, 64);
                        let idx = self.ar.bin(BinOp::LShr, idx, sh);
                        let e = self.ar.table(idx, c, *w as u8);
                        res.push(V::E(e));
                    } else {
                        let mut c = vec![0u64; 256];
                        for v in values(&d) {
                            match self.load(s, tab[v].wrapping_add(*o), *w) { Ok(V::C(k)) => c[v] = k, _ => { ok = false; break 'l; } }
                        }
                        let idx = self.ar.var(x);
                        let e = self.ar.table(idx, c, *w as u8);
                        res.push(V::E(e));
                    }
                }
                if ok { out.extend(res); return Ok(()); }
            }
        }
        let a = self.concretize(s, p)? as u64;
        self.load_at(s, V::C(a), leaves, out)
    }
    fn store(&mut self, s: &mut State, a: u64, w: u32, v: V) -> Res<()> {
        let n = (w as u64 + 7) / 8;
        match v {
            V::C(k) => self.with_mut(s, a, n, false, |o, off| {
                o.data[off..off + n as usize].copy_from_slice(&((k & mask64(w)) as u128).to_le_bytes()[..n as usize]);
                if !o.sym.is_empty() { o.sym[off..off + n as usize].fill(0); }
            }),
            V::E(t) => {
                let mut t = t;
                if w as u64 != 8 * n { t = self.ar.zext(t, 8 * n as u8); }
                let mut e = [0; 16];
                let mut c = [0u8; 16];
                for i in 0..n as usize {
                    let b = self.ar.extract(t, 8 * i as u8, 8);
                    match self.ar.value(b) { Some(k) => c[i] = k as u8, None => e[i] = b }
                }
                self.with_mut(s, a, n, true, |o, off| {
                    o.data[off..off + n as usize].copy_from_slice(&c[..n as usize]);
                    o.sym[off..off + n as usize].copy_from_slice(&e[..n as usize]);
                })
            }
        }
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> Res<()> {
        if n == 0 { return Ok(()); }
        let n = n as usize;
        let (d, y) = self.with(s, src, n as u64, |d, y, o| (d[o..o + n].to_vec(), if y.is_empty() { Vec::new() } else { y[o..o + n].to_vec() }))?;
        let sym = y.iter().any(|x| *x != 0);
        self.with_mut(s, dst, n as u64, sym, |o, off| {
            o.data[off..off + n].copy_from_slice(&d);
            if sym { o.sym[off..off + n].copy_from_slice(&y) } else if !o.sym.is_empty() { o.sym[off..off + n].fill(0) }
        })
    }
    fn bytes(&mut self, s: &State, a: u64, n: u64) -> Res<Vec<V>> {
        if n == 0 { return Ok(Vec::new()); }
        let r = self.with(s, a, n, |d, y, o| (0..n as usize).map(|i| if !y.is_empty() && y[o + i] != 0 { V::E(y[o + i]) } else { V::C(d[o + i] as u64) }).collect::<Vec<_>>())?;
        Ok(r.into_iter().map(|v| self.fix(s, v)).collect())
    }
    fn string(&mut self, s: &State, a: u64, n: u64) -> String {
        match self.bytes(s, a, n.min(400)) {
            Ok(v) => String::from_utf8_lossy(&v.iter().map(|b| match b { V::C(k) => *k as u8, V::E(t) => { let m = s.model.clone(); self.ar.eval(*t, &|v| m[v as usize]) as u8 } }).collect::<Vec<_>>()).into_owned(),
            Err(_) => String::new(),
        }
    }
    fn alloc(&mut self, s: &mut State, n: u64) -> u64 {
        s.heap.push(Some(Rc::new(Obj::new(n as usize))));
        addr_of(HEAP_BASE, s.heap.len() as u64 - 1)
    }

    // ---- instructions ------------------------------------------------------------------------

    fn goto(&mut self, s: &mut State, e: &Edge) {
        let base = s.frames.last().unwrap().base;
        match e.copies.len() {
            0 => {}
            1 => { let (d, o) = e.copies[0]; let v = self.rd(s, base, o); s.regs[(base + d) as usize] = v; }
            _ => {
                let mut sc = std::mem::take(&mut self.scratch);
                sc.clear();
                for (_, o) in e.copies.iter() { let v = self.rd(s, base, *o); sc.push(v); }
                for ((d, _), v) in e.copies.iter().zip(&sc) { s.regs[(base + d) as usize] = *v; }
                self.scratch = sc;
            }
        }
        let f = s.frames.last_mut().unwrap();
        f.func.seen[e.block as usize].set(true);
        f.pc = e.pc;
    }
    fn binop(&mut self, op: BinOp, w: u32, a: V, b: V) -> Res<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                return match expr::bin(op, w as u8, x as u128, y as u128) { Some(r) => Ok(V::C(r as u64)), None => Err(Stop::Bad("undefined", "division by zero".into())) };
            }
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ar.bin(op, x, y);
        Ok(self.val(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { return V::C(expr::cmp(p, w as u8, x as u128, y as u128) as u64); }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ar.cmp(p, x, y);
        self.val(r)
    }
    fn cast(&mut self, k: Cast, from: u32, to: u32, a: V) -> V {
        if from == to { return a; }
        if let V::C(x) = a {
            if to <= 64 {
                return V::C(match k { Cast::ZExt => x, Cast::Trunc => x & mask64(to), Cast::SExt => (expr::sext(x as u128, from as u8) as u64) & mask64(to) });
            }
        }
        let x = self.id(a, from);
        let r = match k { Cast::ZExt => self.ar.zext(x, to as u8), Cast::SExt => self.ar.sext(x, to as u8), Cast::Trunc => self.ar.extract(x, 0, to as u8) };
        self.val(r)
    }
    fn step(&mut self, s: &mut State) -> Res<()> {
        let fr = s.frames.last().unwrap();
        let base = fr.base;
        let func = fr.func.clone();
        let inst = &func.code[fr.pc as usize];
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; s.regs[(base + $d) as usize] = v; }} }
        match inst {
            Inst::Alloca { dst, size } => {
                let id = s.stack.len() as u64;
                s.stack.push(Rc::new(Obj::new(*size as usize)));
                set!(*dst, V::C(addr_of(STACK_BASE, id)));
            }
            Inst::Load { dst, leaves, ptr } => {
                let p = self.rd(s, base, *ptr);
                if let (V::C(a), 1) = (p, leaves.len()) {
                    let v = self.load(s, a.wrapping_add(leaves[0].1), leaves[0].0)?;
                    set!(*dst, v);
                } else {
                    let mut out = Vec::new();
                    self.load_at(s, p, leaves, &mut out)?;
                    for (i, v) in out.into_iter().enumerate() { set!(*dst + i as u32, v); }
                }
            }
            Inst::Store { vals, ptr } => {
                let p = self.rd(s, base, *ptr);
                let a = self.concretize(s, p)? as u64;
                for (o, w, off) in vals.iter() {
                    let v = self.rd(s, base, *o);
                    self.store(s, a.wrapping_add(*off), *w, v)?;
                }
            }
            Inst::Gep { dst, base: b, off, idx } => {
                let mut acc = self.rd(s, base, *b);
                if *off != 0 { acc = self.binop(BinOp::Add, 64, acc, V::C(*off as u64))?; }
                for (o, w, scale) in idx.iter() {
                    let i = self.rd(s, base, *o);
                    let i = self.cast(Cast::SExt, *w, 64, i);
                    let i = self.binop(BinOp::Mul, 64, i, V::C(*scale as u64))?;
                    acc = self.binop(BinOp::Add, 64, acc, i)?;
                }
                set!(*dst, acc);
            }
            Inst::Bin { op, w, dst, a, b } => {
                let (a, b) = (self.rd(s, base, *a), self.rd(s, base, *b));
                if let (V::E(t), BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) = (b, op) {
                    let z = self.ar.konst(0, *w as u8);
                    let c = self.ar.cmp(Pred::Eq, t, z);
                    if self.decide(s, c)? { return Err(Stop::Bad("undefined", "division by zero".into())); }
                }
                let v = self.binop(*op, *w, a, b)?;
                set!(*dst, v);
            }
            Inst::Icmp { p, w, dst, a, b } => {
                let (a, b) = (self.rd(s, base, *a), self.rd(s, base, *b));
                let v = self.icmp(*p, *w, a, b);
                set!(*dst, v);
            }
            Inst::Cast { k, from, to, dst, a } => {
                let a = self.rd(s, base, *a);
                let v = self.cast(*k, *from, *to, a);
                set!(*dst, v);
            }
            Inst::Select { dst, c, w, a, b } => {
                let c = self.rd(s, base, *c);
                let (a, b) = (self.rd(s, base, *a), self.rd(s, base, *b));
                let v = match c {
                    V::C(k) => if k & 1 == 1 { a } else { b },
                    V::E(t) => { let (x, y) = (self.id(a, *w), self.id(b, *w)); let r = self.ar.ite(t, x, y); self.val(r) }
                };
                set!(*dst, v);
            }
            Inst::Copy { dst, a } => { let v = self.rd(s, base, *a); set!(*dst, v); }
            Inst::Repack { dst, to, src } => {
                // concatenate all source lanes (lane 0 lowest), then slice
                let total: u32 = src.iter().map(|x| x.1).sum();
                let (dst, to, src) = (*dst, to.clone(), src.clone());
                if total <= 128 {
                    let mut t: Option<Id> = None;
                    for (o, w) in src.iter() {
                        let v = self.rd(s, base, *o);
                        let v = self.id(v, *w);
                        t = Some(match t { None => v, Some(lo) => self.ar.concat(v, lo) });
                    }
                    let t = t.unwrap();
                    let mut lo = 0;
                    for (i, w) in to.iter().enumerate() {
                        let e = self.ar.extract(t, lo as u8, *w as u8);
                        lo += w;
                        let v = self.val(e);
                        set!(dst + i as u32, v);
                    }
                } else if to.len() == src.len() {
                    for (i, (o, _)) in src.iter().enumerate() { let v = self.rd(s, base, *o); set!(dst + i as u32, v); }
                } else { return Err(Stop::Incomplete("wide vector bitcast".into())); }
            }
            Inst::Br(e) => { self.goto(s, e); return Ok(()); }
            Inst::CondBr(c, a, b) => {
                let c = self.rd(s, base, *c);
                let k = match c { V::C(k) => k & 1 == 1, V::E(t) => self.decide(s, t)? };
                self.goto(s, if k { a } else { b });
                return Ok(());
            }
            Inst::Switch { v, w, cases, default } => {
                let v = self.rd(s, base, *v);
                let e = match v {
                    V::C(k) => cases.iter().find(|c| c.0 == k as u128).map_or(default, |c| &c.1),
                    V::E(t) => self.switch(s, t, *w, cases, default)?,
                };
                self.goto(s, e);
                return Ok(());
            }
            Inst::Call { .. } => return self.call(s, inst, base),
            Inst::AtomicRmw { dst, op, w, ptr, v } => {
                let p = self.rd(s, base, *ptr);
                let a = self.concretize(s, p)? as u64;
                let v = self.rd(s, base, *v);
                let old = self.load(s, a, *w)?;
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.binop(BinOp::Add, *w, old, v)?,
                    "sub" => self.binop(BinOp::Sub, *w, old, v)?,
                    "and" => self.binop(BinOp::And, *w, old, v)?,
                    "or" => self.binop(BinOp::Or, *w, old, v)?,
                    "xor" => self.binop(BinOp::Xor, *w, old, v)?,
                    o => return Err(Stop::Incomplete(format!("atomicrmw {o}"))),
                };
                self.store(s, a, *w, new)?;
                set!(*dst, old);
            }
            Inst::CmpXchg { dst, w, ptr, cmp, new } => {
                let p = self.rd(s, base, *ptr);
                let a = self.concretize(s, p)? as u64;
                let (c, n) = (self.rd(s, base, *cmp), self.rd(s, base, *new));
                let old = self.load(s, a, *w)?;
                let eq = self.icmp(Pred::Eq, *w, old, c);
                let k = match eq { V::C(k) => k == 1, V::E(t) => self.decide(s, t)? };
                if k { self.store(s, a, *w, n)?; }
                set!(*dst, old);
                set!(*dst + 1, V::C(k as u64));
            }
            Inst::Ret(vals) => {
                let out: Vec<V> = vals.iter().map(|o| self.rd(s, base, *o)).collect();
                let f = s.frames.pop().unwrap();
                s.stack.truncate(f.sbase as usize);
                s.regs.truncate(f.base as usize);
                let Some(caller) = s.frames.last() else { return Err(Stop::Done) };
                let (cf, cb) = (caller.func.clone(), caller.base);
                let Inst::Call { dst, then, .. } = &cf.code[caller.pc as usize] else { unreachable!() };
                for (i, v) in out.into_iter().enumerate() { s.regs[(cb + dst) as usize + i] = v; }
                match then { Some(e) => self.goto(s, e), None => s.frames.last_mut().unwrap().pc += 1 }
                return Ok(());
            }
            Inst::Unreachable => return Err(Stop::Bad("undefined", "unreachable code reached".into())),
            Inst::Unsupported(w) => return Err(Stop::Incomplete(format!("unsupported instruction {w}"))),
        }
        s.frames.last_mut().unwrap().pc += 1;
        Ok(())
    }
    fn switch<'b>(&mut self, s: &mut State, t: Id, w: u32, cases: &'b [(u128, Edge)], default: &'b Edge) -> Res<&'b Edge> {
        if let Sup::One(v) = self.ar.sup[t as usize] {
            if let (Some(tab), false) = (self.ar.tab(t), s.in_multi[v as usize]) {
                let d = s.doms[v as usize];
                let mut groups: BTreeMap<usize, Dom> = BTreeMap::new();
                for x in values(&d) {
                    let g = cases.iter().position(|c| c.0 == tab[x] as u128).unwrap_or(usize::MAX);
                    put(groups.entry(g).or_insert([0; 4]), x);
                }
                if groups.len() > 1 {
                    if let Some(Choice::Dom(v2, d2)) = self.replayed(s) {
                        self.restrict(s, v2, d2);
                        return self.switch(s, t, w, cases, default);
                    }
                    let cs: Vec<Choice> = groups.values().map(|g| Choice::Dom(v, *g)).collect();
                    let g = *groups.keys().last().unwrap();
                    self.fork(s, t, cs);
                    return Ok(if g == usize::MAX { default } else { &cases[g].1 });
                }
                let g = *groups.keys().next().unwrap();
                // the other targets are infeasible: have the solver say so
                let k = if g == usize::MAX {
                    let mut any = self.ar.konst(0, 1);
                    for c in cases { let kc = self.ar.konst(c.0, w as u8); let e = self.ar.cmp(Pred::Eq, t, kc); any = self.ar.or(any, e); }
                    self.ar.not(any)
                } else { let kc = self.ar.konst(cases[g].0, w as u8); self.ar.cmp(Pred::Eq, t, kc) };
                if self.ar.value(k).is_none() { self.confirm(k, true, v, d)?; }
                return Ok(if g == usize::MAX { default } else { &cases[g].1 });
            }
        }
        for c in cases {
            let k = self.ar.konst(c.0, w as u8);
            let e = self.ar.cmp(Pred::Eq, t, k);
            if self.decide(s, e)? { return Ok(&c.1); }
        }
        Ok(default)
    }
    fn finish_call(&mut self, s: &mut State, dst: u32, base: u32, out: &[V], then: &Option<Edge>) {
        for (i, v) in out.iter().enumerate() { s.regs[(base + dst) as usize + i] = *v; }
        match then { Some(e) => self.goto(s, e), None => s.frames.last_mut().unwrap().pc += 1 }
    }
    fn call(&mut self, s: &mut State, inst: &Inst, base: u32) -> Res<()> {
        let Inst::Call { dst, ret, callee, args, then } = inst else { unreachable!() };
        let fid = match callee {
            Callee::Func(f) => Ok(*f),
            Callee::Ext(n) => Err(n.clone()),
            Callee::Asm => { self.finish_call(s, *dst, base, &vec![V::C(0); ret.len()], then); return Ok(()); }
            Callee::Ptr(o) => {
                let p = self.rd(s, base, *o);
                let a = self.concretize(s, p)? as u64;
                match a & (0xf << 60) {
                    FUNC_BASE => Ok(((a & !(0xf << 60)) / 16) as u32),
                    EXT_BASE => Err(self.m.decl_names[((a & !(0xf << 60)) / 16) as usize].into()),
                    _ => return Err(Stop::Bad("memory", format!("call of a non-function {a:#x}"))),
                }
            }
        };
        match fid {
            Ok(f) => {
                let name = self.m.func_src[f as usize].0;
                if panics(name) { return Err(self.panicked(s, base, name, args)); }
                let f = self.func(f);
                let mut vals = std::mem::take(&mut self.scratch);
                vals.clear();
                for (o, _) in args.iter() { let v = self.rd(s, base, *o); vals.push(v); }
                let nb = s.regs.len() as u32;
                if s.frames.len() > 4000 { return Err(Stop::Bad("stack", "call depth exceeds 4000".into())); }
                s.regs.resize(nb as usize + f.nslots as usize, V::C(0));
                for ((slot, _), v) in f.args.iter().zip(&vals) { s.regs[(nb + slot) as usize] = *v; }
                self.scratch = vals;
                let sb = s.stack.len() as u32;
                s.frames.push(Frame { func: f, pc: 0, base: nb, sbase: sb });
                Ok(())
            }
            Err(n) => {
                let vals: Vec<V> = args.iter().map(|(o, _)| self.rd(s, base, *o)).collect();
                let w = args.first().map_or(0, |a| a.1);
                if panics(&n) { return Err(self.panicked(s, base, &n, args)); }
                let out = self.external(s, &n, &vals, w, ret)?;
                self.finish_call(s, *dst, base, &out, then);
                Ok(())
            }
        }
    }
    fn panicked(&mut self, s: &mut State, base: u32, name: &str, args: &[(Opd, u32)]) -> Stop {
        // the last argument is the caller's location
        let mut at = String::new();
        if let Err(e) = self.model(s) { return e; }
        if let Some((o, 64)) = args.last() {
            if let V::C(a) = self.rd(s, base, *o) {
                let g = |me: &mut Self, off: u64, w: u32| match me.load(s, a + off, w) { Ok(V::C(k)) => Some(k), _ => None };
                if let (Some(p), Some(n), Some(l)) = (g(self, 0, 64), g(self, 8, 64), g(self, 16, 32)) {
                    if n < 300 { at = format!(" at {}:{}", self.string(s, p, n), l); }
                }
            }
        }
        // a plain message is passed as the first two arguments
        let mut msg = String::new();
        if args.len() == 3 {
            if let (V::C(p), V::C(n)) = (self.rd(s, base, args[0].0), self.rd(s, base, args[1].0)) { if n < 300 { msg = format!(" {:?}", self.string(s, p, n)); } }
        }
        Stop::Bad("panic", format!("{name}{msg}{at}"))
    }
    fn external(&mut self, s: &mut State, n: &str, a: &[V], w: u32, ret: &[(u32, u64)]) -> Res<Vec<V>> {
        if !self.st.exts.contains(n) { self.st.exts.insert(n.to_string()); }
        let one = |v: V| Ok(vec![v]);
        match n {
            "symx_u8" => {
                let k = s.doms.len() as u16;
                s.doms.push([u64::MAX; 4]);
                s.in_multi.push(false);
                s.model.push(0);
                return one(V::E(self.ar.var(k)));
            }
            "symx_assume" => {
                match a[0] { V::C(0) => return Err(Stop::Assumed), V::C(_) => {} V::E(t) => { let t = if self.ar.w(t) == 1 { t } else { let z = self.ar.konst(0, self.ar.w(t)); self.ar.cmp(Pred::Ne, t, z) }; self.assume(s, t)? } }
                return Ok(vec![]);
            }
            // one path for each possible value
            "symx_concrete" => { let k = self.concretize(s, a[0])? as u64; return one(V::C(k)); }
            "symx_expect_panic" => {
                s.expect_panic = self.concretize(s, a[0])? as u64 & 1 == 1;
                return Ok(vec![]);
            }
            "symx_fail" => {
                let (p, l) = (self.concretize(s, a[0])? as u64, self.concretize(s, a[1])? as u64);
                self.model(s)?;
                let m = self.string(s, p, l);
                return Err(Stop::Bad("property", m));
            }
            "symx_reach" => {
                let k = self.concretize(s, a[0])? as u64;
                *self.st.reached.entry(k).or_default() += 1;
                return Ok(vec![]);
            }
            // number of values still possible (helps harnesses keep loops concrete)
            "malloc" => { let k = self.concretize(s, a[0])? as u64; return one(V::C(self.alloc(s, k))); }
            "calloc" => { let x = self.concretize(s, a[0])? as u64; let y = self.concretize(s, a[1])? as u64; return one(V::C(self.alloc(s, x * y))); }
            "posix_memalign" => {
                let p = self.concretize(s, a[0])? as u64;
                let k = self.concretize(s, a[2])? as u64;
                let r = self.alloc(s, k);
                self.store(s, p, 64, V::C(r))?;
                return one(V::C(0));
            }
            "realloc" => {
                let p = self.concretize(s, a[0])? as u64;
                let k = self.concretize(s, a[1])? as u64;
                let r = self.alloc(s, k);
                if p != 0 {
                    let id = ((p & !(0xf << 60)) >> 32) as usize;
                    let old = match s.heap.get(id) { Some(Some(o)) => o.data.len() as u64, _ => return Err(Stop::Bad("memory", "realloc of a dangling pointer".into())) };
                    self.copy(s, r, p, old.min(k))?;
                    s.heap[id] = None;
                }
                return one(V::C(r));
            }
            "free" => {
                let p = self.concretize(s, a[0])? as u64;
                if p != 0 {
                    let id = ((p & !(0xf << 60)) >> 32) as usize;
                    if p & (0xf << 60) != HEAP_BASE || !matches!(s.heap.get(id), Some(Some(_))) { return Err(Stop::Bad("memory", "double or bad free".into())); }
                    s.heap[id] = None;
                }
                return Ok(vec![]);
            }
            "bcmp" | "memcmp" => {
                let (p, q, l) = (self.concretize(s, a[0])? as u64, self.concretize(s, a[1])? as u64, self.concretize(s, a[2])? as u64);
                let (x, y) = (self.bytes(s, p, l)?, self.bytes(s, q, l)?);
                let mut acc: V = V::C(0);
                for (x, y) in x.into_iter().zip(y).rev() {
                    if let (V::C(x), V::C(y)) = (x, y) {
                        if x != y { acc = V::C(if x < y { 0xffff_ffff } else { 1 }); }
                        continue;
                    }
                    let (x, y) = (self.id(x, 8), self.id(y, 8));
                    let eq = self.ar.cmp(Pred::Eq, x, y);
                    let lt = self.ar.cmp(Pred::Ult, x, y);
                    let (m1, p1) = (self.ar.konst(0xffff_ffff, 32), self.ar.konst(1, 32));
                    let d = if n == "bcmp" { p1 } else { self.ar.ite(lt, m1, p1) };
                    let rest = self.id(acc, 32);
                    let r = self.ar.ite(eq, rest, d);
                    acc = self.val(r);
                }
                return one(acc);
            }
            "strlen" => {
                let p = self.concretize(s, a[0])? as u64;
                let mut k = 0;
                loop { match self.load(s, p + k, 8)? { V::C(0) => break, V::C(_) => k += 1, _ => return Err(Stop::Incomplete("strlen of symbolic text".into())) } }
                return one(V::C(k));
            }
            // fixed "random" bytes: hash seeds
            "getrandom" => {
                let (p, l) = (self.concretize(s, a[0])? as u64, self.concretize(s, a[1])? as u64);
                for k in 0..l { self.store(s, p + k, 8, V::C(k & 0xff))?; }
                return one(V::C(l));
            }
            "pthread_key_create" => {
                let p = self.concretize(s, a[0])? as u64;
                s.tsd.push(V::C(0));
                let k = s.tsd.len() as u64;
                self.store(s, p, 32, V::C(k))?;
                return one(V::C(0));
            }
            "pthread_setspecific" | "pthread_getspecific" => {
                let k = self.concretize(s, a[0])? as usize;
                if k == 0 || k > s.tsd.len() { return Err(Stop::Incomplete("unknown thread-specific key".into())); }
                if n == "pthread_getspecific" { return one(s.tsd[k - 1]); }
                s.tsd[k - 1] = a[1];
                return one(V::C(0));
            }
            "abort" | "llvm.trap" => return Err(Stop::Bad("panic", "abort".into())),
            "llvm.x86.sse2.pause" | "sched_yield" => return Ok(vec![V::C(0); ret.len()]),
            _ => {}
        }
        if let Some(i) = n.strip_prefix("llvm.") {
            let rw = ret.first().map_or(0, |r| r.0);
            let base = i.split('.').next().unwrap();
            match base {
                "memcpy" | "memmove" => {
                    let (d, p, l) = (self.concretize(s, a[0])? as u64, self.concretize(s, a[1])? as u64, self.concretize(s, a[2])? as u64);
                    self.copy(s, d, p, l)?;
                    return Ok(vec![]);
                }
                "memset" => {
                    let (d, l) = (self.concretize(s, a[0])? as u64, self.concretize(s, a[2])? as u64);
                    for k in 0..l { self.store(s, d + k, 8, a[1])?; }
                    return Ok(vec![]);
                }
                "umax" | "umin" | "smax" | "smin" => {
                    let p = match base { "umax" => Pred::Uge, "umin" => Pred::Ule, "smax" => Pred::Sge, _ => Pred::Sle };
                    let lanes = ret.len();
                    let mut out = Vec::new();
                    for k in 0..lanes {
                        let (x, y) = (a[k], a[lanes + k]);
                        let c = self.icmp(p, rw, x, y);
                        out.push(match c { V::C(1) => x, V::C(_) => y, V::E(t) => { let (x, y) = (self.id(x, rw), self.id(y, rw)); let r = self.ar.ite(t, x, y); self.val(r) } });
                    }
                    return Ok(out);
                }
                "abs" => {
                    let neg = self.binop(BinOp::Sub, w, V::C(0), a[0])?;
                    let c = self.icmp(Pred::Slt, w, a[0], V::C(0));
                    return one(match c { V::C(1) => neg, V::C(_) => a[0], V::E(t) => { let (x, y) = (self.id(neg, w), self.id(a[0], w)); let r = self.ar.ite(t, x, y); self.val(r) } });
                }
                "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                    let op = match base { "ctpop" => Op::Ctpop, "ctlz" => Op::Ctlz, "cttz" => Op::Cttz, "bswap" => Op::Bswap, _ => Op::Bitrev };
                    let mut out = Vec::new();
                    for k in 0..ret.len() {
                        let x = self.id(a[k], w);
                        let r = self.ar.unop(op, x);
                        out.push(self.val(r));
                    }
                    return Ok(out);
                }
                "fshl" | "fshr" => {
                    let sh = self.concretize(s, a[2])? % w as u128;
                    let (hi, lo) = (self.id(a[0], w), self.id(a[1], w));
                    let sh = if base == "fshl" { sh } else { (w as u128 - sh) % w as u128 };
                    let sh = sh as u8;
                    if sh == 0 { return one(if base == "fshl" { a[0] } else { a[1] }); }
                    let h = self.ar.extract(hi, 0, w as u8 - sh);
                    let l = self.ar.extract(lo, w as u8 - sh, sh);
                    let r = self.ar.concat(h, l);
                    return one(self.val(r));
                }
                "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                    let op = match &base[1..] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
                    let signed = base.starts_with('s');
                    let wide = if op == BinOp::Mul { 2 * w } else { w + 1 };
                    if wide > 128 { return Err(Stop::Incomplete(format!("wide {n}"))); }
                    let k = if signed { Cast::SExt } else { Cast::ZExt };
                    let (x, y) = (self.cast(k, w, wide, a[0]), self.cast(k, w, wide, a[1]));
                    let r = self.binop(op, wide, x, y)?;
                    let t = self.id(r, wide);
                    let low = self.ar.extract(t, 0, w as u8);
                    let back = if signed { self.ar.sext(low, wide as u8) } else { self.ar.zext(low, wide as u8) };
                    let over = self.ar.cmp(Pred::Ne, back, t);
                    if i.contains(".with.overflow") { return Ok(vec![self.val(low), self.val(over)]); }
                    if i.contains(".sat") && !signed {
                        let k = self.ar.konst(if op == BinOp::Sub { 0 } else { mask(w as u8) }, w as u8);
                        let r = self.ar.ite(over, k, low);
                        return one(self.val(r));
                    }
                }
                "ucmp" | "scmp" => {
                    let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                    let (l, g) = (self.icmp(lt, w, a[0], a[1]), self.icmp(gt, w, a[0], a[1]));
                    let (l, g) = (self.id(l, 1), self.id(g, 1));
                    let (m1, p1, z) = (self.ar.konst(mask(rw as u8), rw as u8), self.ar.konst(1, rw as u8), self.ar.konst(0, rw as u8));
                    let r = self.ar.ite(g, p1, z);
                    let r = self.ar.ite(l, m1, r);
                    return one(self.val(r));
                }
                "vector" if i.starts_with("vector.reduce.") => {
                    let op = i.split('.').nth(2).unwrap();
                    let mut acc = a[0];
                    for x in &a[1..] {
                        acc = match op {
                            "add" => self.binop(BinOp::Add, w, acc, *x)?,
                            "or" => self.binop(BinOp::Or, w, acc, *x)?,
                            "and" => self.binop(BinOp::And, w, acc, *x)?,
                            "xor" => self.binop(BinOp::Xor, w, acc, *x)?,
                            _ => return Err(Stop::Incomplete(format!("intrinsic {n}"))),
                        };
                    }
                    return one(acc);
                }
                "expect" | "launder" | "threadlocal" | "ssa" => return one(a[0]),
                "is" => return one(V::C(0)),
                "stacksave" => return Ok(vec![V::C(0); ret.len()]),
                "stackrestore" | "assume" | "lifetime" | "invariant" | "donothing" => return Ok(vec![]),
                _ => {}
            }
        }
        Err(Stop::Incomplete(format!("external function {n}")))
    }
}

/// functions that end in a Rust panic or an abort
fn panics(n: &str) -> bool {
    n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("begin_panic") || n.contains("handle_alloc_error") || n.contains("rust_abort")
}
