//! Path-based symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::smt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

const SYM: u64 = 1 << 63;
fn sb(n: Id, i: u64) -> u64 { SYM | (n as u64) << 16 | i }

const PG: usize = 128;
/// A memory object: copy-on-write pages of bytes, each byte a constant or a byte of a term
#[derive(Clone)]
pub struct Obj { len: usize, pages: Vec<Rc<[u64; PG]>>, alive: bool }
thread_local! { static ZERO: Rc<[u64; PG]> = Rc::new([0; PG]); }
impl Obj {
    fn new(len: usize) -> Obj { let z = ZERO.with(|z| z.clone()); Obj { len, pages: vec![z; (len + PG - 1) / PG], alive: true } }
    fn dead() -> Rc<Obj> { Rc::new(Obj { len: 0, pages: vec![], alive: false }) }
    fn read(&self, off: usize, n: usize) -> Vec<u64> {
        let mut r = Vec::with_capacity(n);
        let (mut o, e) = (off, off + n);
        while o < e { let (p, i) = (o / PG, o % PG); let k = (PG - i).min(e - o); r.extend_from_slice(&self.pages[p][i..i + k]); o += k; }
        r
    }
    fn write(&mut self, off: usize, b: &[u64]) {
        let (mut o, mut d) = (off, 0);
        while d < b.len() { let (p, i) = (o / PG, o % PG); let k = (PG - i).min(b.len() - d); Rc::make_mut(&mut self.pages[p])[i..i + k].copy_from_slice(&b[d..d + k]); o += k; d += k; }
    }
}

#[derive(Clone)]
struct Frame { f: Rc<Func>, block: u32, prev: u32, ip: u32, regs: Vec<V>, allocas: Vec<u32>, dst: u32 }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<Rc<Obj>>,
    gls: HashMap<u32, Rc<Obj>>,
    pc: Vec<Id>,
    pcset: Rc<HashSet<Id>>,
    known: Rc<HashMap<Id, u128>>,
    addrs: Rc<HashMap<Id, Rc<Vec<u64>>>>,
    model: Rc<Model>,
    inputs: Vec<(Id, u32)>,
    observed: Vec<u64>,
    noabort: bool,
    depth: u32,
    stuck: u32,
    reached: Vec<String>,
}

pub struct Violation { pub msg: String, pub input: String, pub kind: &'static str }
pub struct PathRec { pub outcome: String, pub input: String, pub hash: u64 }

#[derive(Default)]
pub struct Stats {
    pub paths: BTreeMap<String, u64>,
    pub forks: u64,
    pub instrs: u64,
    pub props: u64,
    pub props_trivial: u64, pub field_ops: u64, pub generic: u64,
    pub unknown: Vec<String>,
    pub errors: BTreeMap<String, u64>,
    pub reached: BTreeSet<String>,
    pub violations: Vec<Violation>,
    pub nviol: BTreeMap<String, u64>,
    pub recs: Vec<PathRec>,
    pub aborts: BTreeMap<String, u64>,
}

extern "C" { fn fork() -> i32; }
/// Processes that share the work (counters in shared memory)
pub struct Workers { pub free: *const AtomicUsize, pub next: *const AtomicUsize, pub kids: Vec<i32>, pub id: usize }
pub struct Cfg { pub max_paths: u64, pub deadline: Instant, pub max_instrs: u64, pub max_recs: usize, pub trace: bool, pub enum_limit: usize }

enum End { Done, Abort(String), Err(String), Pruned, Forked }
type R<T> = Result<T, End>;

pub struct Exec {
    pub m: Module,
    pub d: Dag,
    pub s: Solver,
    pub cfg: Cfg,
    pub st: Stats,
    pub work: Vec<State>,
    gbase: HashMap<u32, Rc<Obj>>,
    pub cov: HashSet<u32>,
    pub called: HashSet<u32>,
    pub workers: Option<Workers>,
    hashes: bool,
    /// arithmetic in the base field is done on polynomials; models with random field elements
    polys: bool,
    points: HashMap<usize, Rc<Model>>,
    pairs: HashMap<(Id, Id), Id>,
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

impl Exec {
    pub fn new(m: Module, s: Solver, cfg: Cfg) -> Self {
        Exec { m, d: Dag::default(), s, cfg, st: Stats::default(), work: vec![], gbase: HashMap::new(), cov: HashSet::new(), called: HashSet::new(), workers: None, hashes: false, polys: false, points: HashMap::new(), pairs: HashMap::new() }
    }
    pub fn start(&mut self, name: &str) -> Result<(), String> {
        if !self.m.has_body(name) { return Err(format!("no function {}", name)); }
        let id = self.m.fn_id(name);
        let f = self.m.func(&mut self.d, id).unwrap();
        let fr = Frame { regs: vec![V::C(0); f.nregs as usize], f, block: 0, prev: 0, ip: 0, allocas: vec![], dst: NODST };
        self.work.push(State { frames: vec![fr], objs: vec![], gls: HashMap::new(), pc: vec![], pcset: Rc::new(HashSet::new()), known: Rc::new(HashMap::new()), addrs: Rc::new(HashMap::new()), model: Rc::new(Model::new(HashMap::new())), inputs: vec![], observed: vec![], noabort: false, depth: 0, stuck: 0, reached: vec![] });
        Ok(())
    }
    fn id(&mut self, v: &V, w: u32) -> Id { match v { V::C(x) => self.d.cu(*x, w), V::N(i) => *i, V::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, i: Id) -> V { match self.d.cval(i) { Some(c) if self.d.w(i) <= 128 => V::C(to_u128(c)), _ => V::N(i) } }

    // ---------- memory
    fn obj<'a>(&'a mut self, s: &'a State, oid: u32) -> R<&'a Rc<Obj>> {
        if oid >= GL_BASE && oid < FN_BASE {
            if let Some(o) = s.gls.get(&oid) { return Ok(o); }
            if !self.gbase.contains_key(&oid) {
                if (oid - GL_BASE) as usize >= self.m.gl_names.len() { return Err(End::Err(format!("bad pointer, object {:x}", oid))); }
                let (t, v) = self.m.global_init(&mut self.d, oid);
                let mut o = Obj::new(size_of(&t) as usize);
                if let Some(v) = v { self.write_obj(&mut o, 0, &t, &v); }
                self.gbase.insert(oid, Rc::new(o));
            }
            return Ok(&self.gbase[&oid]);
        }
        if oid == 0 || oid as usize > s.objs.len() { return Err(End::Err(format!("bad pointer, object {:x}", oid))); }
        Ok(&s.objs[oid as usize - 1])
    }
    fn obj_mut<'a>(&'a mut self, s: &'a mut State, oid: u32) -> R<&'a mut Obj> {
        if oid >= GL_BASE && oid < FN_BASE {
            if !s.gls.contains_key(&oid) { let o = self.obj(s, oid)?.clone(); s.gls.insert(oid, o); }
            return Ok(Rc::make_mut(s.gls.get_mut(&oid).unwrap()));
        }
        if oid == 0 || oid as usize > s.objs.len() { return Err(End::Err(format!("bad pointer, object {:x}", oid))); }
        Ok(Rc::make_mut(&mut s.objs[oid as usize - 1]))
    }
    fn alloc(&mut self, s: &mut State, n: u64) -> R<u64> {
        if n > 1 << 28 { return Err(End::Err(format!("allocation of {} bytes", n))); }
        s.objs.push(Rc::new(Obj::new(n as usize)));
        Ok((s.objs.len() as u64) << 32)
    }
    fn check_range(o: &Obj, off: u64, n: u64, addr: u64) -> R<()> {
        if !o.alive { return Err(End::Err(format!("use after free at {:x}", addr))); }
        if off + n > o.len as u64 { return Err(End::Err(format!("access out of bounds: {:x}+{} of {}", addr, n, o.len))); }
        Ok(())
    }
    fn read_bytes(&mut self, s: &State, addr: u64, n: u64) -> R<Vec<u64>> {
        if n == 0 { return Ok(vec![]); }
        let o = self.obj(s, (addr >> 32) as u32)?;
        let off = addr & 0xffff_ffff;
        Self::check_range(o, off, n, addr)?;
        Ok(o.read(off as usize, n as usize))
    }
    fn write_bytes(&mut self, s: &mut State, addr: u64, b: &[u64]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let o = self.obj_mut(s, (addr >> 32) as u32)?;
        let off = addr & 0xffff_ffff;
        Self::check_range(o, off, b.len() as u64, addr)?;
        o.write(off as usize, b);
        Ok(())
    }
    /// value of width 8*len from memory bytes, least significant first
    fn assemble(&mut self, b: &[u64]) -> V {
        if b.iter().all(|x| x & SYM == 0) && b.len() <= 16 {
            let mut r = 0u128;
            for (i, x) in b.iter().enumerate() { r |= (*x as u128) << (8 * i); }
            return V::C(r);
        }
        let mut acc: Option<Id> = None;
        let mut i = 0;
        while i < b.len() {
            let p = if b[i] & SYM == 0 {
                let mut l = vec![0u64; 0];
                let st = i;
                while i < b.len() && b[i] & SYM == 0 { let k = i - st; if k % 8 == 0 { l.push(0); } *l.last_mut().unwrap() |= b[i] << (8 * (k % 8)); i += 1; }
                let w = 8 * (i - st) as u32;
                self.d.constant(l, w)
            } else {
                let n = (b[i] >> 16 & 0xffff_ffff) as Id;
                let k0 = b[i] & 0xffff;
                let st = i;
                while i < b.len() && b[i] == sb(n, k0 + (i - st) as u64) { i += 1; }
                self.d.extract(n, 8 * k0 as u32, 8 * (i - st) as u32)
            };
            acc = Some(match acc { None => p, Some(lo) => self.d.concat(p, lo) });
        }
        self.v(acc.unwrap())
    }
    fn disassemble(&mut self, v: &V, n: u64) -> Vec<u64> {
        match v {
            V::C(x) => (0..n).map(|i| if i < 16 { (x >> (8 * i) & 255) as u64 } else { 0 }).collect(),
            V::N(id) => {
                let conc = self.d.op(*id);
                if conc == Op::Concat || conc == Op::Const {
                    (0..n).map(|i| { let e = self.d.extract(*id, 8 * i as u32, 8); match self.d.cval(e) { Some(c) => c[0], None => sb(*id, i) } }).collect()
                } else { (0..n).map(|i| sb(*id, i)).collect() }
            }
            V::A(_) => unreachable!(),
        }
    }
    fn from_bytes(&mut self, t: &Ty, b: &[u64]) -> V {
        match t {
            Ty::Struct(f, _) => { let mut v = vec![]; for (i, x) in f.iter().enumerate() { let o = field_off(t, i) as usize; v.push(self.from_bytes(x, &b[o..o + store_size(x) as usize])); } V::A(Rc::new(v)) }
            Ty::Arr(n, e) | Ty::Vect(n, e) => { let z = size_of(e) as usize; let mut v = vec![]; for i in 0..*n as usize { v.push(self.from_bytes(e, &b[i * z..i * z + store_size(e) as usize])); } V::A(Rc::new(v)) }
            _ => {
                let w = width(t).unwrap();
                let v = self.assemble(b);
                if w % 8 == 0 { return v; }
                match v { V::C(x) => V::C(x & ((1u128 << w) - 1)), V::N(i) => { let e = self.d.extract(i, 0, w); self.v(e) } _ => unreachable!() }
            }
        }
    }
    fn to_bytes(&mut self, t: &Ty, v: &V, out: &mut [u64]) {
        match t {
            Ty::Struct(f, _) => { let V::A(x) = v else { panic!("aggregate expected") }; for (i, e) in f.iter().enumerate() { let o = field_off(t, i) as usize; let n = store_size(e) as usize; self.to_bytes(e, &x[i], &mut out[o..o + n]); } }
            Ty::Arr(_, e) | Ty::Vect(_, e) => { let V::A(x) = v else { panic!("aggregate expected") }; let z = size_of(e) as usize; let n = store_size(e) as usize; for (i, y) in x.iter().enumerate() { self.to_bytes(e, y, &mut out[i * z..i * z + n]); } }
            _ => {
                let w = width(t).unwrap();
                let n = ((w + 7) / 8) as u64;
                let v = match v { V::N(i) if w % 8 != 0 => { let z = self.d.zext(*i, 8 * n as u32); self.v(z) } v => v.clone() };
                let b = self.disassemble(&v, n);
                out[..n as usize].copy_from_slice(&b);
            }
        }
    }
    fn write_obj(&mut self, o: &mut Obj, off: usize, t: &Ty, v: &V) { let n = store_size(t) as usize; let mut b = o.read(off, n); self.to_bytes(t, v, &mut b); o.write(off, &b); }

    // ---------- path condition
    fn holds(&self, s: &State, c: Id) -> bool { let v = self.d.eval(c, &s.model); v[0] & 1 == 1 }
    fn add(&mut self, s: &mut State, c: Id) {
        if self.d.cval(c).is_some() || s.pcset.contains(&c) { return; }
        s.pc.push(c);
        self.learn(s, c);
    }
    fn learn(&mut self, s: &mut State, c: Id) {
        Rc::make_mut(&mut s.pcset).insert(c);
        let n = self.d.nodes[c as usize].clone();
        if n.op == Op::And { self.learn(s, n.a); self.learn(s, n.b); }
        if n.op == Op::Eq { if let Some(v) = self.d.cval(n.b) { if self.d.w(n.b) <= 128 { let v = to_u128(v); Rc::make_mut(&mut s.known).insert(n.a, v); } } }
        if n.op == Op::Not { let m = self.d.nodes[n.a as usize].clone(); if m.op == Op::Or { let (x, y) = (self.d.not(m.a), self.d.not(m.b)); self.learn(s, x); self.learn(s, y); } }
    }
    fn decided(&mut self, s: &State, c: Id) -> Option<bool> {
        if let Some(v) = self.d.cval(c) { return Some(v[0] & 1 == 1); }
        if s.pcset.contains(&c) { return Some(true); }
        let n = self.d.not(c);
        if s.pcset.contains(&n) { return Some(false); }
        let nd = self.d.nodes[c as usize].clone();
        if nd.op == Op::And { let (x, y) = (self.decided(s, nd.a), self.decided(s, nd.b)); if x == Some(false) || y == Some(false) { return Some(false); } if x == Some(true) && y == Some(true) { return Some(true); } }
        if nd.op == Op::Or { let (x, y) = (self.decided(s, nd.a), self.decided(s, nd.b)); if x == Some(true) || y == Some(true) { return Some(true); } if x == Some(false) && y == Some(false) { return Some(false); } }
        None
    }
    /// Different (state, block) pairs have different hashes, even without the three bits masked by the program
    fn collision_free(&mut self, s: &State, ex: &mut Vec<Id>) {
        if !self.hashes { return; }
        let (mut seen, mut ps) = (HashSet::new(), vec![]);
        for c in s.pc.iter().chain(ex.iter()) { self.d.products(*c, &mut seen, &mut ps); }
        ps.retain(|p| self.d.nodes[*p as usize].op == Op::Sha);
        for i in 0..ps.len() {
            for j in 0..i {
                let (p, q) = (ps[i], ps[j]);
                let ax = match self.pairs.get(&(p, q)) { Some(a) => *a, None => {
                    let (n, m) = (self.d.nodes[p as usize].clone(), self.d.nodes[q as usize].clone());
                    let (x, y) = (self.d.bin(Op::Eq, n.a, m.a), self.d.bin(Op::Eq, n.b, m.b));
                    let both = self.d.bin(Op::And, x, y);
                    let (l, h, l2, h2) = (self.d.extract(p, 0, 229), self.d.extract(p, 232, 24), self.d.extract(q, 0, 229), self.d.extract(q, 232, 24));
                    let (x, y) = (self.d.bin(Op::Eq, l, l2), self.d.bin(Op::Eq, h, h2));
                    let same = self.d.bin(Op::And, x, y);
                    let differ = self.d.not(same);
                    let a = self.d.bin(Op::Or, differ, both);
                    self.pairs.insert((p, q), a);
                    a
                } };
                ex.push(ax);
            }
        }
    }
    /// SHA-256's compression function: executed on concrete operands, a term of its own on symbolic ones
    fn compress(&mut self, s: &mut State, a: &[V]) -> R<Option<V>> {
        let k = self.concretize(s, &a[2])? as u64;
        let mut st = self.get_bytes(s, &a[0], 32)?;
        let blocks = self.get_bytes(s, &a[1], 64 * k)?;
        let conc = |b: &[u64]| b.iter().all(|x| *x < 256);
        if conc(&st) && conc(&blocks) { return Ok(None); }
        self.hashes = true;
        for b in blocks.chunks(64) {
            let (x, y) = (self.assemble(&st), self.assemble(b));
            let (x, y) = (self.id(&x, 256), self.id(&y, 512));
            let r = self.d.sha(x, y);
            let v = self.v(r);
            st = self.disassemble(&v, 32);
        }
        self.put_bytes(s, &a[0], &st)?;
        Ok(Some(V::C(0)))
    }
    /// Some(model) if satisfiable
    fn query(&mut self, s: &State, extra: &[Id]) -> R<Option<Model>> {
        let mut ex = extra.to_vec();
        self.collision_free(s, &mut ex);
        // the solver knows field products only by the instances it is given
        for _ in 0..40 {
            match self.s.check(&self.d, &s.pc, &ex) {
                Answer::Sat(m) => {
                    if s.pc.iter().chain(extra).all(|c| self.d.eval(*c, &m)[0] & 1 == 1) { return Ok(Some(m)); }
                    let (mut seen, mut ps) = (HashSet::new(), vec![]);
                    for c in s.pc.iter().chain(extra) { self.d.products(*c, &mut seen, &mut ps); }
                    if ps.is_empty() { return Err(End::Err("the solver's model does not satisfy the query".into())); }
                    for p in ps {
                        let n = self.d.nodes[p as usize].clone();
                        let (va, vb, vr) = (self.d.eval(n.a, &m), self.d.eval(n.b, &m), self.d.eval(p, &m));
                        let wb = self.d.w(n.b);
                        let (va, vb, vr) = (self.d.constant(va, 256), self.d.constant(vb, wb), self.d.constant(vr, 256));
                        let (ea, eb, er) = (self.d.bin(Op::Eq, n.a, va), self.d.bin(Op::Eq, n.b, vb), self.d.bin(Op::Eq, p, vr));
                        let both = self.d.bin(Op::And, ea, eb);
                        let no = self.d.not(both);
                        ex.push(self.d.bin(Op::Or, no, er));
                    }
                }
                Answer::Unsat => return Ok(None),
                Answer::Unknown(e) => { self.st.unknown.push(e.clone()); return Err(End::Err(format!("solver: {}", e.trim()))) }
            }
        }
        Err(End::Err("field products: no conclusive model".into()))
    }
    /// splits on `c`: returns the side this state continues on, pushing the other one if feasible
    fn branch(&mut self, s: &mut State, c: Id) -> R<(bool, Option<Rc<Model>>)> {
        if let Some(b) = self.decided(s, c) { return Ok((b, None)); }
        if self.polys && self.on_field(c) {
            // points in general position
            let k = s.inputs.len();
            if !self.points.contains_key(&k) { let m = self.general(s, 0); self.points.insert(k, Rc::new(m)); }
            let m = self.points[&k].clone();
            let side = self.d.eval(c, &m)[0] & 1 == 1;
            let this = if side { c } else { self.d.not(c) };
            self.learn(s, this);
            self.st.generic += 1;
            return Ok((side, None));
        }
        let side = self.holds(s, c);
        let nc = self.d.not(c);
        let (this, other) = if side { (c, nc) } else { (nc, c) };
        match self.query(s, &[other])? {
            None => { self.learn(s, this); Ok((side, None)) }
            Some(m) => { self.st.forks += 1; s.depth += 1; Ok((side, Some(Rc::new(m)))) }
        }
    }
    /// all feasible values of `i` (at most enum_limit)
    fn values(&mut self, s: &State, i: Id) -> R<Vec<u128>> {
        let w = self.d.w(i);
        let first = self.d.eval(i, &s.model);
        let mut out = vec![to_u128(&first)];
        let mut ex = vec![];
        loop {
            let c = self.d.cu(*out.last().unwrap(), w);
            let e = self.d.bin(Op::Eq, i, c);
            ex.push(self.d.not(e));
            match self.query(s, &ex)? { None => { out.sort(); return Ok(out) } Some(m) => out.push(to_u128(&self.d.eval(i, &m))) }
            if out.len() > self.cfg.enum_limit { return Err(End::Err(format!("more than {} values for a symbolic quantity", self.cfg.enum_limit))); }
        }
    }
    /// a concrete value of `v`, forking the path for each feasible one
    fn concretize(&mut self, s: &mut State, v: &V) -> R<u128> {
        let V::N(i) = v else { if let V::C(x) = v { return Ok(*x) } else { panic!() } };
        if let Some(x) = s.known.get(i) { return Ok(*x); }
        let w = self.d.w(*i);
        let vals = self.values(s, *i)?;
        if vals.len() > 1 { self.st.forks += vals.len() as u64 - 1; s.depth += 1; }
        let mine = to_u128(&self.d.eval(*i, &s.model));
        for x in &vals {
            if *x == mine { continue; }
            let c = self.d.cu(*x, w);
            let e = self.d.bin(Op::Eq, *i, c);
            let Some(m) = self.query(s, &[e])? else { continue };
            let mut t = s.clone();
            t.model = Rc::new(m);
            self.add(&mut t, e);
            Rc::make_mut(&mut t.known).insert(*i, *x);
            self.work.push(t);
        }
        let c = self.d.cu(mine, w);
        let e = self.d.bin(Op::Eq, *i, c);
        if vals.len() > 1 { self.add(s, e); }
        Rc::make_mut(&mut s.known).insert(*i, mine);
        Ok(mine)
    }
    /// feasible concrete addresses of a pointer with the condition of each
    fn addrs(&mut self, s: &mut State, p: &V) -> R<Vec<(u64, Option<Id>)>> {
        match p {
            V::C(a) => Ok(vec![(*a as u64, None)]),
            V::N(i) => {
                if let Some(x) = s.known.get(i) { return Ok(vec![(*x as u64, None)]); }
                let n = self.d.nodes[*i as usize].clone();
                let (base, k) = match (n.op, self.d.cval(n.b)) { (Op::Add, Some(c)) => (n.a, c[0]), _ => (*i, 0) };
                let vals = match s.addrs.get(&base) { Some(v) => v.clone(), None => {
                    let v: Vec<u64> = self.values(s, base)?.into_iter().map(|x| x as u64).collect();
                    let v = Rc::new(v);
                    Rc::make_mut(&mut s.addrs).insert(base, v.clone());
                    v
                } };
                let mut out = vec![];
                for x in vals.iter() { let c = self.d.cu(*x as u128, 64); let e = self.d.bin(Op::Eq, base, c); match self.decided(s, e) { Some(false) => {} Some(true) => return Ok(vec![(x.wrapping_add(k), None)]), None => out.push((x.wrapping_add(k), Some(e))) } }
                if out.len() == 1 { out[0].1 = None; }
                Ok(out)
            }
            V::A(_) => panic!(),
        }
    }
    fn load(&mut self, s: &mut State, t: &Ty, p: &V) -> R<V> {
        let n = store_size(t);
        let ads = self.addrs(s, p)?;
        if ads.len() == 1 { let b = self.read_bytes(s, ads[0].0, n)?; return Ok(self.from_bytes(t, &b)); }
        let b = self.read_multi(s, &ads, n)?;
        Ok(self.from_bytes(t, &b))
    }
    /// bytes at a symbolic address
    fn read_multi(&mut self, s: &mut State, ads: &[(u64, Option<Id>)], n: u64) -> R<Vec<u64>> {
        let mut acc: Option<Id> = None;
        for (a, c) in ads {
            let b = match self.read_bytes(s, *a, n) {
                Ok(b) => b,
                Err(e) => { // infeasible under the current path condition?
                    if self.query(s, &[c.unwrap()])?.is_none() { continue; }
                    return Err(e);
                }
            };
            let v = self.assemble(&b);
            let i = self.id(&v, 8 * n as u32);
            acc = Some(match acc { None => i, Some(r) => self.d.ite(c.unwrap(), i, r) });
        }
        let v = self.v(acc.expect("no address"));
        Ok(self.disassemble(&v, n))
    }
    fn store(&mut self, s: &mut State, t: &Ty, v: &V, p: &V) -> R<()> {
        let n = store_size(t);
        let ads = self.addrs(s, p)?;
        if ads.len() == 1 {
            let mut b = if matches!(t, Ty::Struct(..) | Ty::Arr(..)) { self.read_bytes(s, ads[0].0, n)? } else { vec![0; n as usize] };
            self.to_bytes(t, v, &mut b);
            return self.write_bytes(s, ads[0].0, &b);
        }
        let mut nb = vec![0; n as usize];
        self.to_bytes(t, v, &mut nb);
        self.write_multi(s, &ads, &nb)
    }
    fn write_multi(&mut self, s: &mut State, ads: &[(u64, Option<Id>)], nb: &[u64]) -> R<()> {
        let n = nb.len() as u64;
        let nv = self.assemble(nb);
        let ni = self.id(&nv, 8 * n as u32);
        for (a, c) in ads {
            let ob = match self.read_bytes(s, *a, n) {
                Ok(b) => b,
                Err(e) => { if self.query(s, &[c.unwrap()])?.is_none() { continue; } return Err(e); }
            };
            let ov = self.assemble(&ob);
            let oi = self.id(&ov, 8 * n as u32);
            let r = self.d.ite(c.unwrap(), ni, oi);
            let r = self.v(r);
            let b = self.disassemble(&r, n);
            self.write_bytes(s, *a, &b)?;
        }
        Ok(())
    }
    fn get_bytes(&mut self, s: &mut State, p: &V, n: u64) -> R<Vec<u64>> {
        if n == 0 { return Ok(vec![]); }
        let ads = self.addrs(s, p)?;
        if ads.len() == 1 { return self.read_bytes(s, ads[0].0, n); }
        // per chunk, to keep terms small
        let mut out = vec![];
        let mut o = 0;
        while o < n {
            let k = (n - o).min(32);
            let a: Vec<_> = ads.iter().map(|(x, c)| (x + o, *c)).collect();
            out.extend(self.read_multi(s, &a, k)?);
            o += k;
        }
        Ok(out)
    }
    fn put_bytes(&mut self, s: &mut State, p: &V, b: &[u64]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let ads = self.addrs(s, p)?;
        if ads.len() == 1 { return self.write_bytes(s, ads[0].0, b); }
        for (k, ch) in b.chunks(32).enumerate() {
            let a: Vec<_> = ads.iter().map(|(x, c)| (x + 32 * k as u64, *c)).collect();
            self.write_multi(s, &a, ch)?;
        }
        Ok(())
    }

    // ---------- operations
    fn get(&self, s: &State, o: &O) -> V {
        let v = match o { O::K(v) => v.clone(), O::R(r) => s.frames.last().unwrap().regs[*r as usize].clone() };
        if let V::N(i) = v { if let Some(x) = s.known.get(&i) { return V::C(*x); } }
        v
    }
    fn bin(&mut self, op: BOp, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::A(x), V::A(y)) = (a, b) { let mut r = vec![]; for (p, q) in x.iter().zip(y.iter()) { r.push(self.bin(op, w, p, q)?); } return Ok(V::A(Rc::new(r))); }
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 128 {
                let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
                let sx = |v: u128| -> i128 { if w == 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } };
                let r = match op {
                    BOp::Add => x.wrapping_add(y), BOp::Sub => x.wrapping_sub(y), BOp::Mul => x.wrapping_mul(y),
                    BOp::UDiv | BOp::URem | BOp::SDiv | BOp::SRem if y == 0 => return Err(End::Err("division by zero".into())),
                    BOp::UDiv => x / y, BOp::URem => x % y,
                    BOp::SDiv => sx(x).wrapping_div(sx(y)) as u128, BOp::SRem => sx(x).wrapping_rem(sx(y)) as u128,
                    BOp::Shl => if y >= w as u128 { 0 } else { x << y },
                    BOp::LShr => if y >= w as u128 { 0 } else { x >> y },
                    BOp::AShr => (sx(x) >> y.min(w as u128 - 1)) as u128,
                    BOp::And => x & y, BOp::Or => x | y, BOp::Xor => x ^ y,
                };
                return Ok(V::C(r & m));
            }
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = match op {
            BOp::Sub => self.d.sub(x, y),
            _ => {
                let o = match op { BOp::Add => Op::Add, BOp::Mul => Op::Mul, BOp::UDiv => Op::UDiv, BOp::SDiv => Op::SDiv, BOp::URem => Op::URem, BOp::SRem => Op::SRem, BOp::Shl => Op::Shl, BOp::LShr => Op::LShr, BOp::AShr => Op::AShr, BOp::And => Op::And, BOp::Or => Op::Or, BOp::Xor => Op::Xor, BOp::Sub => unreachable!() };
                self.d.bin(o, x, y)
            }
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::A(x), V::A(y)) = (a, b) { let r = x.iter().zip(y.iter()).map(|(p1, q)| self.icmp(p, w, p1, q)).collect(); return V::A(Rc::new(r)); }
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u128| -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } };
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx(x) > sx(y), Pred::Sge => sx(x) >= sx(y), Pred::Slt => sx(x) < sx(y), Pred::Sle => sx(x) <= sx(y) };
            return V::C(r as u128);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let (op, x, y, neg) = match p { Pred::Eq => (Op::Eq, x, y, false), Pred::Ne => (Op::Eq, x, y, true), Pred::Ugt => (Op::Ult, y, x, false), Pred::Uge => (Op::Ult, x, y, true), Pred::Ult => (Op::Ult, x, y, false), Pred::Ule => (Op::Ult, y, x, true), Pred::Sgt => (Op::Slt, y, x, false), Pred::Sge => (Op::Slt, x, y, true), Pred::Slt => (Op::Slt, x, y, false), Pred::Sle => (Op::Slt, y, x, true) };
        let r = self.d.bin(op, x, y);
        let r = if neg { self.d.not(r) } else { r };
        self.v(r)
    }
    fn select(&mut self, c: &V, a: &V, b: &V, t: &Ty) -> V {
        match c {
            V::C(x) => if *x & 1 == 1 { a.clone() } else { b.clone() },
            V::A(cs) => { let (V::A(x), V::A(y)) = (a, b) else { panic!() }; let et = field_ty(t, 0); let r = (0..cs.len()).map(|i| self.select(&cs[i], &x[i], &y[i], &et)).collect(); V::A(Rc::new(r)) }
            V::N(ci) => match (a, b) {
                (V::A(x), V::A(y)) => { let r = (0..x.len()).map(|i| { let et = field_ty(t, i); self.select(c, &x[i], &y[i], &et) }).collect(); V::A(Rc::new(r)) }
                _ => { let w = width(t).unwrap(); let (x, y) = (self.id(a, w), self.id(b, w)); let r = self.d.ite(*ci, x, y); self.v(r) }
            },
        }
    }
    fn cast(&mut self, k: Cast, sw: u32, dw: u32, a: &V) -> V {
        if let V::A(x) = a { let r = x.iter().map(|y| self.cast(k, sw, dw, y)).collect(); return V::A(Rc::new(r)); }
        if k == Cast::Same { return a.clone(); }
        if let V::C(x) = a { if dw <= 128 { return V::C(match k { Cast::Sext => to_u128(&bsext(&bv(*x, sw), sw, dw)), _ => to_u128(&bv(*x, dw)) }); } }
        let i = self.id(a, sw);
        let r = match k { Cast::Trunc => self.d.extract(i, 0, dw), Cast::Zext => self.d.zext(i, dw), _ => self.d.sext(i, dw) };
        self.v(r)
    }

    // ---------- results
    fn input_hex(&self, s: &State, m: &Model) -> String {
        let mut b: Vec<u8> = vec![];
        for (v, n) in &s.inputs { let x = m.vals.get(v).cloned().unwrap_or_else(|| vec![0; 64]); for k in 0..*n as usize { b.push((x.get(k / 8).copied().unwrap_or(0) >> (8 * (k % 8))) as u8); } }
        hex(&b)
    }
    fn violation(&mut self, s: &State, m: &Model, msg: String, kind: &'static str) {
        let c = self.st.nviol.entry(msg.clone()).or_insert(0);
        *c += 1;
        if *c <= 3 { let input = self.input_hex(s, m); self.st.violations.push(Violation { msg, input, kind }); }
    }
    fn record(&mut self, s: &State, outcome: &str) {
        *self.st.paths.entry(outcome.into()).or_insert(0) += 1;
        for r in &s.reached { self.st.reached.insert(r.clone()); }
        if self.st.recs.len() >= self.cfg.max_recs { return; }
        let mut h = 0xcbf29ce484222325u64;
        for b in &s.observed {
            let x = if b & SYM == 0 { *b as u8 } else { let n = (b >> 16 & 0xffff_ffff) as Id; let v = self.d.eval(n, &s.model); let k = (b & 0xffff) as usize; (v[k / 8] >> (8 * (k % 8))) as u8 };
            h = (h ^ x as u64).wrapping_mul(0x100000001b3);
        }
        let input = self.input_hex(s, &s.model);
        self.st.recs.push(PathRec { outcome: outcome.into(), input, hash: h });
    }
    pub fn backtrace(&self, s: &State) -> String { s.frames.iter().rev().take(6).map(|f| f.f.name.to_string()).collect::<Vec<_>>().join(" < ") }

    /// explores until the work list is empty, or has grown to `frontier`
    pub fn run(&mut self) {
        while let Some(s) = self.work.pop() {
            let n: u64 = self.st.paths.values().sum();
            if n >= self.cfg.max_paths { *self.st.errors.entry("path limit reached".into()).or_insert(0) += 1; return; }
            self.run_state(s);
            if Instant::now() > self.cfg.deadline { *self.st.errors.entry("time limit reached".into()).or_insert(0) += 1; return; }
        }
    }
    /// Hands the older half of the pending states to a new worker, if there is a free one. True in that worker
    fn share(&mut self) -> bool {
        let Some(w) = &self.workers else { return false };
        let (free, next) = (unsafe { &*w.free }, unsafe { &*w.next });
        if self.work.is_empty() || free.load(SeqCst) == 0 || free.fetch_update(SeqCst, SeqCst, |x| x.checked_sub(1)).is_err() { return false; }
        let id = next.fetch_add(1, SeqCst) + 1;
        let p = unsafe { fork() };
        if p < 0 { free.fetch_add(1, SeqCst); return false; }
        let k = (self.work.len() + 1) / 2;
        let w = self.workers.as_mut().unwrap();
        if p > 0 { self.work.drain(..k); w.kids.push(p); return false; }
        w.kids.clear();
        w.id = id;
        self.work.truncate(k);
        let (n, t, quick) = (self.s.name.clone(), self.s.timeout_ms, self.s.quick);
        std::mem::forget(std::mem::replace(&mut self.s, crate::smt::Solver::new(&n, t)));
        if quick { self.s.hurry(); }
        self.st = Stats::default();
        self.cov.clear();
        true
    }
    fn run_state(&mut self, mut s: State) {
        let mut ticks = 0u32;
        loop {
            ticks += 1;
            if ticks & 0xfff == 0 && (Instant::now() > self.cfg.deadline || self.st.instrs > self.cfg.max_instrs) {
                *self.st.errors.entry(format!("{} limit reached in {}", if self.st.instrs > self.cfg.max_instrs { "instruction" } else { "time" }, self.backtrace(&s))).or_insert(0) += 1;
                return;
            }
            let before = self.work.len();
            match self.step(&mut s) {
                Ok(()) => { if self.work.len() > before && self.share() { return; } }
                Err(End::Forked) => return,
                Err(End::Done) => return self.record(&s, "pass"),
                Err(End::Pruned) => { *self.st.paths.entry("assume".into()).or_insert(0) += 1; return; }
                Err(End::Abort(f)) => {
                    *self.st.aborts.entry(f.clone()).or_insert(0) += 1;
                    if s.noabort { let m = s.model.clone(); self.violation(&s, &m, "the operation completes without aborting".into(), "abort"); }
                    return self.record(&s, "abort");
                }
                Err(End::Err(e)) => {
                    let bt = self.backtrace(&s);
                    *self.st.errors.entry(format!("{} in {}", e, bt)).or_insert(0) += 1;
                    *self.st.paths.entry("error".into()).or_insert(0) += 1;
                    return;
                }
            }
        }
    }
    fn goto(&mut self, s: &mut State, b: u32) {
        let fr = s.frames.last_mut().unwrap();
        fr.prev = fr.block;
        fr.block = b;
        fr.ip = 0;
        let f = fr.f.clone();
        let prev = fr.prev;
        let phis = &f.blocks[b as usize].phis;
        if !phis.is_empty() {
            let vals: Vec<(u32, V)> = phis.iter().map(|(d, inc)| { let o = &inc.iter().find(|(p, _)| *p == prev).expect("phi").1; (*d, self.get(s, o)) }).collect();
            let fr = s.frames.last_mut().unwrap();
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
    }
    fn step(&mut self, s: &mut State) -> R<()> {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let blk = &f.blocks[fr.block as usize];
        self.st.instrs += 1;
        if (fr.ip as usize) < blk.ins.len() {
            let ins = &blk.ins[fr.ip as usize];
            if ins.dbg != 0 { self.cov.insert(ins.dbg); }
            let r = self.exec(s, &ins.i, ins.dst)?;
            if let Some(v) = r {
                let fr = s.frames.last_mut().unwrap();
                fr.ip += 1;
                if ins.dst != NODST { fr.regs[ins.dst as usize] = v; }
            }
            return Ok(());
        }
        match &blk.term {
            Term::Br(b) => { self.goto(s, *b); Ok(()) }
            Term::Cond(c, a, b) => {
                let v = self.get(s, c);
                match v {
                    V::C(x) => self.goto(s, if x & 1 == 1 { *a } else { *b }),
                    V::N(i) => {
                        let (side, other) = self.branch(s, i)?;
                        if let Some(m) = other {
                            let n = self.d.not(i);
                            let (this, oc) = if side { (i, n) } else { (n, i) };
                            let mut t = s.clone();
                            t.model = m;
                            self.add(&mut t, oc);
                            self.goto(&mut t, if side { *b } else { *a });
                            self.work.push(t);
                            self.add(s, this);
                        }
                        self.goto(s, if side { *a } else { *b });
                    }
                    _ => panic!(),
                }
                Ok(())
            }
            Term::Switch(w, o, def, cases) => {
                let v = self.get(s, o);
                match v {
                    V::C(x) => { let t = cases.iter().find(|(c, _)| *c == x).map_or(*def, |(_, b)| *b); self.goto(s, t); }
                    V::N(i) => {
                        // group the cases by target
                        let mut targets: Vec<(u32, Id)> = vec![];
                        let mut none = self.d.cu(1, 1);
                        for (c, b) in cases {
                            let k = self.d.cu(*c, *w);
                            let e = self.d.bin(Op::Eq, i, k);
                            let ne = self.d.not(e);
                            none = self.d.bin(Op::And, none, ne);
                            match targets.iter_mut().find(|(t, _)| t == b) { Some((_, x)) => *x = self.d.bin(Op::Or, *x, e), None => targets.push((*b, e)) }
                        }
                        match targets.iter_mut().find(|(t, _)| t == def) { Some((_, x)) => *x = self.d.bin(Op::Or, *x, none), None => targets.push((*def, none)) }
                        let mut mine = None;
                        let mut n = 0;
                        for (b, c) in targets {
                            match self.decided(s, c) { Some(false) => continue, Some(true) => { self.goto(s, b); return Ok(()); } None => {} }
                            if self.holds(s, c) { mine = Some((b, c)); continue; }
                            if let Some(m) = self.query(s, &[c])? {
                                let mut t = s.clone();
                                t.model = Rc::new(m);
                                t.depth += 1;
                                self.add(&mut t, c);
                                self.goto(&mut t, b);
                                self.work.push(t);
                                n += 1;
                            }
                        }
                        self.st.forks += n;
                        let (b, c) = mine.expect("switch model");
                        if n > 0 { self.add(s, c); } else { self.learn(s, c); }
                        self.goto(s, b);
                    }
                    _ => panic!(),
                }
                Ok(())
            }
            Term::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(s, o));
                let fr = s.frames.pop().unwrap();
                for a in &fr.allocas { s.objs[*a as usize - 1] = Obj::dead(); }
                match s.frames.last_mut() {
                    None => Err(End::Done),
                    Some(c) => { c.ip += 1; if fr.dst != NODST { c.regs[fr.dst as usize] = v.unwrap_or(V::C(0)); } Ok(()) }
                }
            }
            Term::Unreachable => Err(End::Err("unreachable executed".into())),
            Term::Bad(e) => Err(End::Err(e.clone())),
        }
    }
    /// None: control went elsewhere (call)
    fn exec(&mut self, s: &mut State, i: &I, dst: u32) -> R<Option<V>> {
        let v = match i {
            I::Bin(op, w, a, b) => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                if matches!(op, BOp::UDiv | BOp::SDiv | BOp::URem | BOp::SRem) { if let V::N(d) = y { let z = self.d.cu(0, *w); let e = self.d.bin(Op::Eq, d, z); if self.decided(s, e) != Some(false) && self.query(s, &[e])?.is_some() { return Err(End::Err("division by zero".into())); } } }
                self.bin(*op, *w, &x, &y)?
            }
            I::Icmp(p, w, a, b) => { let (x, y) = (self.get(s, a), self.get(s, b)); self.icmp(*p, *w, &x, &y) }
            I::Select(c, a, b, t) => {
                let (mut c, x, y) = (self.get(s, c), self.get(s, a), self.get(s, b));
                if let V::N(i) = c { if let Some(r) = self.decided(s, i) { c = V::C(r as u128); } }
                self.select(&c, &x, &y, t)
            }
            I::Load(t, p) => { let p = self.get(s, p); self.load(s, t, &p)? }
            I::Store(t, v, p) => { let (v, p) = (self.get(s, v), self.get(s, p)); self.store(s, t, &v, &p)?; V::C(0) }
            I::Alloca(n) => { let a = self.alloc(s, *n)?; let id = (a >> 32) as u32; s.frames.last_mut().unwrap().allocas.push(id); V::C(a as u128) }
            I::Gep(p, off, dynv) => {
                let mut a = self.get(s, p);
                let ix: Vec<V> = dynv.iter().map(|d| self.get(s, &d.0)).collect();
                let lanes = std::iter::once(&a).chain(&ix).find_map(|v| if let V::A(e) = v { Some(e.len()) } else { None });
                if let Some(n) = lanes {
                    let lane = |v: &V, k: usize| if let V::A(e) = v { e[k].clone() } else { v.clone() };
                    let mut r = vec![];
                    for k in 0..n {
                        let mut b = lane(&a, k);
                        for (v, (_, w, sc)) in ix.iter().zip(dynv) {
                            let x = self.cast(if *w < 64 { Cast::Sext } else if *w > 64 { Cast::Trunc } else { Cast::Same }, *w, 64, &lane(v, k));
                            let x = self.bin(BOp::Mul, 64, &x, &V::C(*sc as u128))?;
                            b = self.bin(BOp::Add, 64, &b, &x)?;
                        }
                        r.push(self.bin(BOp::Add, 64, &b, &V::C(*off as u128))?);
                    }
                    V::A(Rc::new(r))
                } else {
                for ((_, w, sc), x) in dynv.iter().zip(ix) {
                    let x = self.cast(if *w < 64 { Cast::Sext } else if *w > 64 { Cast::Trunc } else { Cast::Same }, *w, 64, &x);
                    let x = self.bin(BOp::Mul, 64, &x, &V::C(*sc as u128))?;
                    a = self.bin(BOp::Add, 64, &a, &x)?;
                }
                if *off != 0 { a = self.bin(BOp::Add, 64, &a, &V::C(*off as u128))?; }
                a
                }
            }
            I::Cast(k, sw, dw, a) => { let x = self.get(s, a); self.cast(*k, *sw, *dw, &x) }
            I::Bits(sw, _, dw, dn, a) => {
                let x = self.get(s, a);
                let one = |z: &mut Self, v: &V| z.id(v, *sw);
                let full = match &x { V::A(e) => { let mut r = one(self, &e[0]); for y in &e[1..] { let h = one(self, y); r = self.d.concat(h, r); } r } v => one(self, v) };
                if *dn == 0 { self.v(full) } else { let mut r = vec![]; for k in 0..*dn as u32 { let e = self.d.extract(full, k * dw, *dw); r.push(self.v(e)); } V::A(Rc::new(r)) }
            }
            I::Copy(a) => self.get(s, a),
            I::Extract(a, ix) => { let mut v = self.get(s, a); for k in ix { let V::A(x) = &v else { panic!() }; let y = x[*k].clone(); v = y; } v }
            I::Insert(a, v, ix) => {
                fn ins(v: &mut V, ix: &[usize], x: V) { if ix.is_empty() { *v = x; return; } let V::A(r) = v else { panic!() }; ins(&mut Rc::make_mut(r)[ix[0]], &ix[1..], x) }
                let mut r = self.get(s, a);
                let x = self.get(s, v);
                ins(&mut r, ix, x);
                r
            }
            I::ExtractElt(a, i) => { let v = self.get(s, a); let i = self.get(s, i); let i = self.concretize(s, &i)?; let V::A(x) = v else { panic!() }; x[i as usize].clone() }
            I::InsertElt(a, v, i) => { let r = self.get(s, a); let x = self.get(s, v); let i = self.get(s, i); let i = self.concretize(s, &i)?; let V::A(mut r) = r else { panic!() }; Rc::make_mut(&mut r)[i as usize] = x; V::A(r) }
            I::Shuffle(a, b, m, n) => { let (V::A(x), V::A(y)) = (self.get(s, a), self.get(s, b)) else { panic!() }; V::A(Rc::new(m.iter().map(|k| if (*k as u64) < *n { x[*k as usize].clone() } else { y[*k as usize - *n as usize].clone() }).collect())) }
            I::CmpXchg(t, p, a, b) => {
                let (p, a, b) = (self.get(s, p), self.get(s, a), self.get(s, b));
                let old = self.load(s, t, &p)?;
                let e = self.icmp(Pred::Eq, width(t).unwrap(), &old, &a);
                let n = self.select(&e, &b, &old, t);
                self.store(s, t, &n, &p)?;
                V::A(Rc::new(vec![old, e]))
            }
            I::Rmw(o, t, p, v) => {
                let (p, v) = (self.get(s, p), self.get(s, v));
                let w = width(t).unwrap();
                let old = self.load(s, t, &p)?;
                let n = match &**o { "xchg" => v, "add" => self.bin(BOp::Add, w, &old, &v)?, "sub" => self.bin(BOp::Sub, w, &old, &v)?, "and" => self.bin(BOp::And, w, &old, &v)?, "or" => self.bin(BOp::Or, w, &old, &v)?, "xor" => self.bin(BOp::Xor, w, &old, &v)?, o => return Err(End::Err(format!("atomicrmw {}", o))) };
                self.store(s, t, &n, &p)?;
                old
            }
            I::Flt(op, w, v) => {
                let mut f = vec![];
                for o in v { let x = self.get(s, o); let x = self.concretize(s, &x)?; f.push(flt(x, *w)); }
                let (a, b) = (f[0], f.get(1).copied().unwrap_or(0.0));
                let un = a.is_nan() || b.is_nan();
                let bit = |c: bool| V::C(c as u128);
                // (a double holds the exact result of one operation on two floats well enough to round it correctly)
                match &**op {
                    "fadd" => V::C(unflt(a + b, *w)), "fsub" => V::C(unflt(a - b, *w)), "fmul" => V::C(unflt(a * b, *w)), "fdiv" => V::C(unflt(a / b, *w)), "frem" => V::C(unflt(a % b, *w)), "fneg" => V::C(unflt(-a, *w)),
                    "false" => bit(false), "true" => bit(true), "ord" => bit(!un), "uno" => bit(un),
                    "oeq" => bit(a == b), "ogt" => bit(a > b), "oge" => bit(a >= b), "olt" => bit(a < b), "ole" => bit(a <= b), "one" => bit(!un && a != b),
                    "ueq" => bit(un || a == b), "ugt" => bit(un || a > b), "uge" => bit(un || a >= b), "ult" => bit(un || a < b), "ule" => bit(un || a <= b), "une" => bit(un || a != b),
                    o => return Err(End::Err(format!("float operation {}", o))),
                }
            }
            I::FCast(op, sw, dw, o) => { let x = self.get(s, o); let x = self.concretize(s, &x)?; V::C(fcast(op, *sw, *dw, x)) }
            I::Nop => V::C(0),
            I::Unsupported(t) => return Err(End::Err(format!("unsupported instruction {}", t))),
            I::Call { callee, args, ret, noreturn } => {
                let vals: Vec<V> = args.iter().map(|(_, o)| self.get(s, o)).collect();
                let name = match callee {
                    Callee::Name(n) => n.clone(),
                    Callee::Ptr(o) => {
                        let p = self.get(s, o);
                        let a = self.concretize(s, &p)? as u64;
                        let id = (a >> 32) as u32;
                        if id < FN_BASE || (id - FN_BASE) as usize >= self.m.fn_names.len() { return Err(End::Err(format!("call of a bad pointer {:x}", a))); }
                        self.m.fn_names[(id - FN_BASE) as usize].clone()
                    }
                };
                if let Some(r) = self.builtin(s, &name, args, &vals, ret)? { return Ok(Some(r)); }
                if *noreturn { return Err(End::Abort(name.to_string())); }
                let id = self.m.fn_id(&name);
                let Some(f) = self.m.func(&mut self.d, id) else { return Err(End::Err(format!("call of external {}", name))) };
                self.called.insert(id);
                if s.frames.len() > 400 { return Err(End::Err("call depth".into())); }
                let mut regs = vec![V::C(0); f.nregs as usize];
                for (k, p) in f.params.iter().enumerate() { if k < vals.len() { regs[*p as usize] = vals[k].clone(); } }
                s.frames.push(Frame { f, block: 0, prev: 0, ip: 0, regs, allocas: vec![], dst });
                return Ok(None);
            }
        };
        Ok(Some(v))
    }
    /// ark-ff's multiplication of field elements: executed on concrete operands, a term of its own on symbolic canonical ones
    fn field_mul(&mut self, s: &mut State, name: &str, a: &[V]) -> R<Option<V>> {
        if self.polys { return self.field_op(s, name, a); }
        let square = name.contains("15square_in_place");
        let x = self.get_bytes(s, &a[0], 32)?;
        let y = if square { x.clone() } else { self.get_bytes(s, &a[1], 32)? };
        let (op, p) = match self.m.field_of(name) { Some(false) => (Op::MulR, FR), Some(true) => (Op::MulQ, FQ), None => return Ok(None) };
        let (x, y) = (self.assemble(&x), self.assemble(&y));
        let (x, y) = (self.id(&x, 256), self.id(&y, 256));
        let p = self.d.constant(p.to_vec(), 256);
        for v in [x, y] {
            let c = self.d.bin(Op::Ult, v, p);
            match self.decided(s, c) { Some(true) => continue, Some(false) => return Ok(None), None => {} }
            let n = self.d.not(c);
            if self.query(s, &[n])?.is_some() { return Ok(None); }
            self.learn(s, c);
        }
        let r = self.d.bin(op, x, y);
        let c = self.d.bin(Op::Ult, r, p);
        self.add(s, c);
        let v = self.v(r);
        let b = match v { V::C(_) => unreachable!(), v => self.disassemble(&v, 32) };
        self.put_bytes(s, &a[0], &b)?;
        Ok(Some(if square { a[0].clone() } else { V::C(0) }))
    }
    /// a memory operand as an element of the base field; None if it isn't known to be reduced
    fn field_arg(&mut self, s: &mut State, p: &V) -> R<Option<Id>> {
        let b = self.get_bytes(s, p, 32)?;
        let v = self.assemble(&b);
        let v = self.id(&v, 256);
        let p = self.d.constant(FQ.to_vec(), 256);
        let c = self.d.bin(Op::Ult, v, p);
        if self.d.cval(v).is_some() && self.decided(s, c) == Some(false) { return Ok(None); }
        if self.decided(s, c) != Some(true) { return Err(End::Err(format!("an operand that is not known to be an element of the field: {:?}", self.d.nodes[v as usize]))); }
        Ok(Some(v))
    }
    /// ark-ff's arithmetic in the base field, on polynomials
    fn field_op(&mut self, s: &mut State, name: &str, a: &[V]) -> R<Option<V>> {
        let has = |x: &str| name.contains(x);
        if self.m.field_of(name) != Some(true) { return Err(End::Err(format!("unknown field of {}", name))); }
        let (to, r, ret) = if has("10mul_assign") || has("10add_assign") || has("10sub_assign") {
            let (Some(x), Some(y)) = (self.field_arg(s, &a[0])?, self.field_arg(s, &a[1])?) else { return Ok(None) };
            (a[0].clone(), if has("10mul_assign") { self.d.field_prod(x, y) } else { self.d.field_sum(x, y, has("10sub_assign")) }, V::C(0))
        } else if has("15square_in_place") || has("15double_in_place") {
            let Some(x) = self.field_arg(s, &a[0])? else { return Ok(None) };
            (a[0].clone(), if has("15square_in_place") { self.d.field_prod(x, x) } else { self.d.field_sum(x, x, false) }, a[0].clone())
        } else if has("..Neg") && has("3neg17h") {
            let Some(x) = self.field_arg(s, &a[1])? else { return Ok(None) };
            let z = self.d.cu(0, 256);
            (a[0].clone(), self.d.field_sum(z, x, true), V::C(0))
        } else if has("7inverse17h") {
            let Some(x) = self.field_arg(s, &a[1])? else { return Ok(None) };
            if self.d.cval(x).map_or(false, |v| is_zero(v)) { return Ok(None); }
            let one = self.disassemble(&V::C(1), 8);
            self.put_bytes(s, &a[0], &one)?;
            let to = self.bin(BOp::Add, 64, &a[0], &V::C(8))?;
            (to, self.d.field_inv(x), V::C(0))
        } else { return Ok(None) };
        let b = { let v = V::N(r); self.disassemble(&v, 32) };
        self.put_bytes(s, &to, &b)?;
        self.st.field_ops += 1;
        Ok(Some(ret))
    }
    /// whether a condition depends on elements of the base field
    fn on_field(&mut self, c: Id) -> bool {
        let (mut seen, mut vs) = (HashSet::new(), vec![]);
        self.d.vars(c, &mut seen, &mut vs);
        vs.iter().any(|v| self.d.w(*v) == 256)
    }
    /// the state's model with random field elements
    fn general(&mut self, s: &State, k: u64) -> Model {
        let mut vals = s.model.vals.clone();
        let mut z = 0x2545_f491_4f6c_dd1du64.wrapping_mul(k + 1);
        let mut rnd = || { z ^= z << 13; z ^= z >> 7; z ^= z << 17; z };
        for (v, n) in &s.inputs { if *n == 32 { let x = vec![rnd(), rnd(), rnd(), rnd() & 0x0fff_ffff_ffff_ffff]; vals.insert(*v, x); } }
        Model::new(vals)
    }
    fn byterev(&mut self, v: &V, n: u64) -> V { let mut b = self.disassemble(v, n); b.reverse(); self.assemble(&b) }
    fn cstr(&mut self, s: &mut State, p: &V, n: u64) -> R<String> { let b = self.get_bytes(s, p, n)?; Ok(b.iter().map(|x| *x as u8 as char).collect()) }

    fn builtin(&mut self, s: &mut State, name: &str, args: &[(T, O)], a: &[V], ret: &T) -> R<Option<V>> {
        let ok = |v: V| Ok(Some(v));
        let unit = V::C(0);
        if let Some(n) = name.strip_prefix("llvm.") {
            let base = n.split('.').next().unwrap();
            let two = || { let mut p = n.split('.'); (p.next().unwrap_or(""), p.next().unwrap_or("")) };
            let w = args.get(0).and_then(|(t, _)| width(t)).unwrap_or(0);
            return match base {
                "lifetime" | "assume" | "experimental" | "dbg" | "prefetch" | "invariant" | "donothing" | "stackrestore" => ok(unit),
                "stacksave" => ok(unit),
                "expect" | "threadlocal" | "launder" | "strip" | "ptrmask" => ok(a[0].clone()),
                "is" => ok(V::C(0)),
                "objectsize" => ok(V::C(u64::MAX as u128)),
                "fptoui" | "fptosi" => { let x = self.concretize(s, &a[0])?; ok(V::C(fcast(base, w, width(ret).unwrap(), x))) }
                "fabs" | "floor" | "ceil" | "trunc" | "round" | "sqrt" => { let x = self.concretize(s, &a[0])?; let f = flt(x, w); let f = match base { "fabs" => f.abs(), "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), "round" => f.round(), _ => f.sqrt() }; ok(V::C(unflt(f, w))) }
                "trap" | "debugtrap" => Err(End::Abort("llvm.trap".into())),
                "memcpy" | "memmove" => { let k = self.concretize(s, &a[2])? as u64; let b = self.get_bytes(s, &a[1], k)?; self.put_bytes(s, &a[0], &b)?; ok(unit) }
                "memset" => { let k = self.concretize(s, &a[2])? as u64; let b = self.disassemble(&a[1], 1)[0]; self.put_bytes(s, &a[0], &vec![b; k as usize])?; ok(unit) }
                "load" => {
                    let off = self.cast(if w == 64 { Cast::Same } else { Cast::Sext }, width(&args[1].0).unwrap(), 64, &a[1]);
                    let p = self.bin(BOp::Add, 64, &a[0], &off)?;
                    let x = self.load(s, &Ty::Int(32), &p)?;
                    let x = self.concretize(s, &x)? as u32;
                    if x & 0xff00_0000 != REL_TAG { return Err(End::Err("load.relative".into())); }
                    ok(V::C(self.m.rel[(x & 0xff_ffff) as usize] as u128))
                }
                "umin" | "umax" | "smin" | "smax" => {
                    let p = match base { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                    let c = self.icmp(p, width(if let Ty::Vect(_, e) = &*args[0].0 { e } else { &args[0].0 }).unwrap(), &a[0], &a[1]);
                    let t = args[0].0.clone();
                    ok(self.select(&c, &a[0], &a[1], &t))
                }
                "abs" => { let c = self.icmp(Pred::Slt, w, &a[0], &V::C(0)); let n = self.bin(BOp::Sub, w, &V::C(0), &a[0])?; let t = args[0].0.clone(); ok(self.select(&c, &n, &a[0], &t)) }
                "bswap" => ok(self.byterev(&a[0], (w / 8) as u64)),
                "bitreverse" | "ctpop" | "ctlz" | "cttz" => {
                    if let V::C(x) = a[0] {
                        let r = match base { "ctpop" => x.count_ones() as u128, "ctlz" => (x.leading_zeros() - (128 - w)) as u128, "cttz" => (x.trailing_zeros().min(w)) as u128, _ => x.reverse_bits() >> (128 - w) };
                        return ok(V::C(r));
                    }
                    let x = self.id(&a[0], w);
                    let bits: Vec<Id> = (0..w).map(|k| self.d.extract(x, k, 1)).collect();
                    let r = match base {
                        "ctpop" => { let mut acc = self.d.cu(0, w); for b in bits { let z = self.d.zext(b, w); acc = self.d.bin(Op::Add, acc, z); } acc }
                        "ctlz" | "cttz" => { let mut acc = self.d.cu(w as u128, w); let it: Vec<usize> = if base == "ctlz" { (0..w as usize).collect() } else { (0..w as usize).rev().collect() }; for k in it { let c = self.d.cu(if base == "ctlz" { w as u128 - 1 - k as u128 } else { k as u128 }, w); acc = self.d.ite(bits[k], c, acc); } acc }
                        _ => { let mut acc = bits[0]; for b in &bits[1..] { acc = self.d.concat(acc, *b); } acc }
                    };
                    ok(self.v(r))
                }
                "fshl" | "fshr" => {
                    let k = self.bin(BOp::URem, w, &a[2], &V::C(w as u128))?;
                    let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                    let c = self.d.concat(x, y);
                    let k = self.id(&k, w);
                    let k = self.d.zext(k, 2 * w);
                    let r = if base == "fshl" { let t = self.d.bin(Op::Shl, c, k); self.d.extract(t, w, w) } else { let t = self.d.bin(Op::LShr, c, k); self.d.extract(t, 0, w) };
                    ok(self.v(r))
                }
                "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                    let signed = base.starts_with('s');
                    let bop = match &base[1..] { "add" => BOp::Add, "sub" => BOp::Sub, _ => BOp::Mul };
                    let ww = if bop == BOp::Mul { 2 * w } else { w + 1 };
                    if two().1 == "with" {
                        let r = self.bin(bop, w, &a[0], &a[1])?;
                        let ov = if !signed && bop == BOp::Sub { self.icmp(Pred::Ult, w, &a[0], &a[1]) }
                            else if !signed && bop == BOp::Add { self.icmp(Pred::Ult, w, &r, &a[0]) }
                            else {
                                let k = if signed { Cast::Sext } else { Cast::Zext };
                                let (x, y) = (self.cast(k, w, ww, &a[0]), self.cast(k, w, ww, &a[1]));
                                let (x, y) = (self.id(&x, ww), self.id(&y, ww));
                                let (x, y) = (self.v(x), self.v(y));
                                let full = self.bin(bop, ww, &x, &y)?;
                                let back = self.cast(k, w, ww, &r);
                                let (f, b) = (self.id(&full, ww), self.id(&back, ww));
                                let e = self.d.bin(Op::Eq, f, b);
                                let e = self.d.not(e);
                                self.v(e)
                            };
                        ok(V::A(Rc::new(vec![r, ov])))
                    } else { // saturating
                        if signed { return Err(End::Err(format!("unsupported {}", name))); }
                        let r = self.bin(bop, w, &a[0], &a[1])?;
                        let t = args[0].0.clone();
                        if bop == BOp::Sub { let c = self.icmp(Pred::Ult, w, &a[0], &a[1]); ok(self.select(&c, &V::C(0), &r, &t)) }
                        else { let c = self.icmp(Pred::Ult, w, &r, &a[0]); let o = V::C(if w == 128 { u128::MAX } else { (1 << w) - 1 }); ok(self.select(&c, &o, &r, &t)) }
                    }
                }
                "vector" => {
                    let V::A(x) = &a[0] else { return Err(End::Err(name.into())) };
                    let Ty::Vect(_, e) = &*args[0].0 else { panic!() };
                    let w = width(e).unwrap();
                    let o = n.split('.').nth(2).unwrap_or("");
                    let mut r = x[0].clone();
                    for y in &x[1..] { r = match o { "add" => self.bin(BOp::Add, w, &r, y)?, "or" => self.bin(BOp::Or, w, &r, y)?, "and" => self.bin(BOp::And, w, &r, y)?, "xor" => self.bin(BOp::Xor, w, &r, y)?, "mul" => self.bin(BOp::Mul, w, &r, y)?, o => return Err(End::Err(format!("vector.reduce.{}", o))) }; }
                    ok(r)
                }
                "x86" if n.starts_with("x86.addcarry") || n.starts_with("x86.subborrow") => {
                    let (c, x, y) = (&a[0], &a[1], &a[2]);
                    let w = width(&args[1].0).unwrap();
                    let cb = self.icmp(Pred::Ne, 8, c, &V::C(0));
                    let (cz, xz, yz) = (self.cast(Cast::Zext, 1, w + 1, &cb), self.cast(Cast::Zext, w, w + 1, x), self.cast(Cast::Zext, w, w + 1, y));
                    let o = if n.starts_with("x86.addcarry") { BOp::Add } else { BOp::Sub };
                    let t = self.bin(o, w + 1, &xz, &yz)?;
                    let t = self.bin(o, w + 1, &t, &cz)?;
                    let t = self.id(&t, w + 1);
                    let (lo, hi) = (self.d.extract(t, 0, w), self.d.extract(t, w, 1));
                    let hi = self.d.zext(hi, 8);
                    ok(V::A(Rc::new(vec![self.v(hi), self.v(lo)])))
                }
                _ => Err(End::Err(format!("unsupported intrinsic {}", name))),
            };
        }
        match name {
            "sym_bytes" => {
                let n = self.concretize(s, &a[1])? as u64;
                let mut b = vec![];
                let mut o = 0;
                while o < n {
                    let k = (n - o).min(32);
                    let v = self.d.var(s.inputs.len() as u32, 8 * k as u32);
                    s.inputs.push((v, k as u32));
                    b.extend((0..k).map(|i| sb(v, i)));
                    o += k;
                }
                self.put_bytes(s, &a[0], &b)?;
                ok(unit)
            }
            "sym_assume" => {
                let c = self.icmp(Pred::Ne, 8, &a[0], &V::C(0));
                match c {
                    V::C(0) => Err(End::Pruned),
                    V::C(_) => ok(unit),
                    V::N(i) => {
                        match self.decided(s, i) { Some(true) => return ok(unit), Some(false) => return Err(End::Pruned), None => {} }
                        if !self.holds(s, i) { match self.query(s, &[i])? { None => return Err(End::Pruned), Some(m) => s.model = Rc::new(m) } }
                        self.add(s, i);
                        ok(unit)
                    }
                    _ => panic!(),
                }
            }
            "sym_prop" => {
                let c = self.icmp(Pred::Ne, 8, &a[0], &V::C(0));
                self.st.props += 1;
                match c {
                    V::C(x) => {
                        self.st.props_trivial += 1;
                        if x == 0 { let n = self.concretize(s, &a[2])? as u64; let msg = self.cstr(s, &a[1], n)?; let m = s.model.clone(); self.violation(s, &m, msg, "prop"); return Err(End::Pruned); }
                    }
                    V::N(i) => {
                        if self.decided(s, i) == Some(true) { return ok(unit); }
                        if self.polys && self.on_field(i) {
                            for k in 0..3 {
                                let m = self.general(s, k);
                                if self.d.eval(i, &m)[0] & 1 == 0 {
                                    let n = self.concretize(s, &a[2])? as u64;
                                    let msg = self.cstr(s, &a[1], n)?;
                                    self.violation(s, &m, msg, "prop");
                                    return Err(End::Pruned);
                                }
                            }
                            return Err(End::Err("an identity of field elements that could not be decided".into()));
                        }
                        let ni = self.d.not(i);
                        if let Some(m) = self.query(s, &[ni])? {
                            let n = self.concretize(s, &a[2])? as u64;
                            let msg = self.cstr(s, &a[1], n)?;
                            self.violation(s, &m, msg, "prop");
                            if !self.holds(s, i) { match self.query(s, &[i])? { None => return Err(End::Pruned), Some(m) => s.model = Rc::new(m) } }
                            self.add(s, i);
                        } else { self.learn(s, i); }
                    }
                    _ => panic!(),
                }
                ok(unit)
            }
            "sym_reach" => { let n = self.concretize(s, &a[1])? as u64; let m = self.cstr(s, &a[0], n)?; if !s.reached.contains(&m) { s.reached.push(m); } ok(unit) }
            "sym_pin" => { let x = self.concretize(s, &a[0])?; ok(V::C(x)) }
            "sym_noabort" => { let V::C(x) = a[0] else { return Err(End::Err("sym_noabort".into())) }; s.noabort = x != 0; ok(unit) }
            "sym_observe" => { let n = self.concretize(s, &a[1])? as u64; let b = self.get_bytes(s, &a[0], n)?; s.observed.extend(b); ok(unit) }
            _ if name.contains("ark_ff..fields..models..Fp256") && (name.contains("10mul_assign") || name.contains("15square_in_place")) => self.field_mul(s, name, a),
            _ if self.polys && name.contains("ark_ff..fields..models..Fp256") && (name.contains("_assign17h") || name.contains("_in_place17h") || name.contains("3neg17h") || name.contains("7inverse17h")) => self.field_op(s, name, a),
            "sym_field" => {
                let b = self.get_bytes(s, &a[0], 32)?;
                let v = self.assemble(&b);
                let v = self.id(&v, 256);
                let p = self.d.constant(FQ.to_vec(), 256);
                let c = self.d.bin(Op::Ult, v, p);
                match self.decided(s, c) { Some(true) => return ok(unit), Some(false) => return Err(End::Pruned), None => {} }
                if !self.holds(s, c) { match self.query(s, &[c])? { None => return Err(End::Pruned), Some(m) => s.model = Rc::new(m) } }
                self.add(s, c);
                ok(unit)
            }
            "sym_generic" => {
                self.polys = true;
                self.points.clear();
                // what a path is validated with
                let m = self.general(s, 0);
                if s.pc.iter().all(|c| self.d.eval(*c, &m)[0] & 1 == 1) { s.model = Rc::new(m); }
                ok(unit)
            }
            _ if name.starts_with("_ZN4sha26sha25611compress256") => self.compress(s, a),
            // the seeds of hash tables, which no result depends on
            "getrandom" => { ok(a[1].clone()) }
            // the allocator
            "__rust_alloc" | "__rdl_alloc" | "__rg_alloc" | "malloc" | "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => { let n = self.concretize(s, &a[0])? as u64; let p = self.alloc(s, n)?; ok(V::C(p as u128)) }
            "calloc" => { let n = self.concretize(s, &a[0])? as u64; let k = self.concretize(s, &a[1])? as u64; let p = self.alloc(s, n * k)?; ok(V::C(p as u128)) }
            "posix_memalign" => { let n = self.concretize(s, &a[2])? as u64; let p = self.alloc(s, n)?; self.store(s, &Ty::Ptr, &V::C(p as u128), &a[0])?; ok(V::C(0)) }
            "__rust_dealloc" | "__rdl_dealloc" | "__rg_dealloc" | "free" => {
                let p = self.concretize(s, &a[0])? as u64;
                let id = (p >> 32) as u32;
                if p != 0 && id < GL_BASE && id > 0 { if !s.objs[id as usize - 1].alive { return Err(End::Err("double free".into())); } s.objs[id as usize - 1] = Obj::dead(); }
                ok(unit)
            }
            "__rust_realloc" | "__rdl_realloc" | "realloc" => {
                let n = self.concretize(s, &a[if name == "realloc" { 1 } else { 3 }])? as u64;
                let p = self.concretize(s, &a[0])? as u64;
                let q = self.alloc(s, n)?;
                if p != 0 {
                    let id = (p >> 32) as usize - 1;
                    let old = s.objs[id].clone();
                    if !old.alive { return Err(End::Err("realloc after free".into())); }
                    let k = old.len.min(n as usize);
                    let b = old.read(0, k);
                    self.write_bytes(s, q, &b)?;
                    s.objs[id] = Obj::dead();
                }
                ok(V::C(q as u128))
            }
            "memcpy" | "memmove" => { let k = self.concretize(s, &a[2])? as u64; let b = self.get_bytes(s, &a[1], k)?; self.put_bytes(s, &a[0], &b)?; ok(a[0].clone()) }
            "memset" => { let k = self.concretize(s, &a[2])? as u64; let x = self.cast(Cast::Trunc, 32, 8, &a[1]); let b = self.disassemble(&x, 1)[0]; self.put_bytes(s, &a[0], &vec![b; k as usize])?; ok(a[0].clone()) }
            "bcmp" | "memcmp" => {
                let k = self.concretize(s, &a[2])? as u64;
                if k == 0 { return ok(V::C(0)); }
                let (x, y) = (self.get_bytes(s, &a[0], k)?, self.get_bytes(s, &a[1], k)?);
                if name == "bcmp" {
                    let mut ne = self.d.cu(0, 1);
                    for (p, q) in x.chunks(32).zip(y.chunks(32)) {
                        let (u, v) = (self.assemble(p), self.assemble(q));
                        let w = 8 * p.len() as u32;
                        let c = self.icmp(Pred::Ne, w, &u, &v);
                        let c = self.id(&c, 1);
                        ne = self.d.bin(Op::Or, ne, c);
                    }
                    let r = self.d.zext(ne, 32);
                    return ok(self.v(r));
                }
                let (mut x, mut y) = (x, y);
                x.reverse();
                y.reverse();
                let (u, v) = (self.assemble(&x), self.assemble(&y));
                let w = 8 * k as u32;
                let (u, v) = (self.id(&u, w), self.id(&v, w));
                let e = self.d.bin(Op::Eq, u, v);
                let l = self.d.bin(Op::Ult, u, v);
                let (z, one, m1) = (self.d.cu(0, 32), self.d.cu(1, 32), self.d.cu(0xffff_ffff, 32));
                let t = self.d.ite(l, m1, one);
                let r = self.d.ite(e, z, t);
                ok(self.v(r))
            }
            "strlen" => { let p = self.concretize(s, &a[0])? as u64; let mut k = 0; loop { let b = self.read_bytes(s, p + k, 1)?; if b[0] == 0 { break; } k += 1; } ok(V::C(k as u128)) }
            "getenv" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "__errno_location" if name != "__errno_location" => ok(V::C(0)),
            "write" => ok(a[2].clone()),
            "writev" => Err(End::Err("writev".into())),
            "rust_begin_unwind" | "abort" | "rust_panic" | "exit" | "_exit" => Err(End::Abort(name.into())),
            "syscall" => ok(V::C(0)),
            _ => { let _ = ret; Ok(None) }
        }
    }
}

fn flt(x: u128, w: u32) -> f64 { if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) } }
fn unflt(x: f64, w: u32) -> u128 { if w == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 } }
/// conversions from a float saturate (where LLVM's plain ones would be poison)
fn fcast(op: &str, sw: u32, dw: u32, x: u128) -> u128 {
    let mask = |v: u128| if dw >= 128 { v } else { v & ((1u128 << dw) - 1) };
    match op {
        "uitofp" => if dw == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
        "sitofp" => { let v = ((x << (128 - sw)) as i128) >> (128 - sw); if dw == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
        "fptoui" => { let f = flt(x, sw); let max = if dw >= 128 { u128::MAX } else { (1u128 << dw) - 1 }; (f as u128).min(max) }
        "fptosi" => { let f = flt(x, sw); let max = if dw >= 128 { i128::MAX } else { (1i128 << (dw - 1)) - 1 }; mask((f as i128).clamp(-max - 1, max) as u128) }
        _ => unflt(flt(x, sw), dw),
    }
}
