//! Hash-consed bit-vector terms with local simplification and concrete evaluation.
use std::cell::RefCell;
use std::collections::HashMap;

pub type Id = u32;
/// little-endian limbs, exactly ceil(w/64) of them, bits above w are zero
pub type BV = Vec<u64>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, Not,
    Eq, Ult, Slt, Ite, Sext, Extract, Concat,
    /// Montgomery products modulo the two primes of BN254, uninterpreted for the solver
    MulR, MulQ,
    /// A polynomial over other terms modulo the prime of BN254's base field (all in Montgomery form); a modular inverse
    Pol, InvQ,
    /// The compression function of SHA-256 (state, block), uninterpreted and collision-free for the solver
    Sha,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: Id, pub b: Id, pub c: Id }

pub fn limbs(w: u32) -> usize { ((w + 63) / 64) as usize }
pub fn mask(mut v: BV, w: u32) -> BV {
    v.resize(limbs(w), 0);
    if w % 64 != 0 { let n = v.len(); v[n - 1] &= (1u64 << (w % 64)) - 1; }
    v
}
pub fn bv(x: u128, w: u32) -> BV { mask(vec![x as u64, (x >> 64) as u64, 0, 0], w.max(1)) }
pub fn to_u128(v: &BV) -> u128 { v[0] as u128 | (v.get(1).copied().unwrap_or(0) as u128) << 64 }
pub fn is_zero(v: &BV) -> bool { v.iter().all(|x| *x == 0) }
fn bit(v: &BV, i: u32) -> bool { v.get((i / 64) as usize).map_or(false, |x| x >> (i % 64) & 1 == 1) }
pub fn ones(w: u32) -> BV { mask(vec![u64::MAX; limbs(w)], w) }
fn cmp(a: &BV, b: &BV) -> std::cmp::Ordering {
    for i in (0..a.len().max(b.len())).rev() {
        let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
        if x != y { return x.cmp(&y); }
    }
    std::cmp::Ordering::Equal
}
fn bnot(a: &BV, w: u32) -> BV { mask(a.iter().map(|x| !x).collect(), w) }
fn badd(a: &BV, b: &BV, w: u32) -> BV {
    let mut c = 0u128;
    let mut r = vec![];
    for i in 0..limbs(w) { let s = a[i] as u128 + b[i] as u128 + c; r.push(s as u64); c = s >> 64; }
    mask(r, w)
}
pub fn bneg(a: &BV, w: u32) -> BV { badd(&bnot(a, w), &bv(1, w), w) }
fn bmul(a: &BV, b: &BV, w: u32) -> BV {
    let n = limbs(w);
    let mut r = vec![0u64; n];
    for i in 0..n {
        let mut c = 0u128;
        for j in 0..n - i {
            let s = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = s as u64;
            c = s >> 64;
        }
    }
    mask(r, w)
}
fn bshl(a: &BV, k: u32, w: u32) -> BV {
    let mut r = vec![0u64; limbs(w)];
    if k >= w { return r; }
    for i in (k / 64) as usize..r.len() {
        let s = i - (k / 64) as usize;
        r[i] = a[s] << (k % 64);
        if k % 64 != 0 && s > 0 { r[i] |= a[s - 1] >> (64 - k % 64); }
    }
    mask(r, w)
}
fn blshr(a: &BV, k: u32, w: u32) -> BV {
    let n = limbs(w);
    let mut r = vec![0u64; n];
    if k >= w { return r; }
    for i in 0..n {
        let s = i + (k / 64) as usize;
        if s < n { r[i] = a[s] >> (k % 64); if k % 64 != 0 && s + 1 < n { r[i] |= a[s + 1] << (64 - k % 64); } }
    }
    r
}
fn bdivrem(a: &BV, b: &BV, w: u32) -> (BV, BV) {
    if is_zero(b) { return (ones(w), a.clone()); }
    if w <= 128 { let (x, y) = (to_u128(a), to_u128(b)); return (bv(x / y, w), bv(x % y, w)); }
    let (mut q, mut r) = (vec![0u64; limbs(w)], vec![0u64; limbs(w)]);
    for i in (0..w).rev() {
        r = bshl(&r, 1, w);
        if bit(a, i) { r[0] |= 1; }
        if cmp(&r, b) != std::cmp::Ordering::Less { r = badd(&r, &bneg(b, w), w); q[(i / 64) as usize] |= 1 << (i % 64); }
    }
    (q, r)
}
pub fn bsext(a: &BV, from: u32, w: u32) -> BV {
    let mut v = a.clone();
    v.resize(limbs(w), 0);
    if bit(a, from - 1) { for i in from..w { v[(i / 64) as usize] |= 1 << (i % 64); } }
    mask(v, w)
}
pub fn bextract(a: &BV, lo: u32, aw: u32, w: u32) -> BV { mask(blshr(a, lo, aw), w) }
fn bconcat(hi: &BV, lo: &BV, low: u32, w: u32) -> BV {
    let mut h = hi.clone(); h.resize(limbs(w), 0);
    let mut r = bshl(&h, low, w);
    for i in 0..lo.len() { r[i] |= lo[i]; }
    r
}
pub const FR: [u64; 4] = [4891460686036598785, 2896914383306846353, 13281191951274694749, 3486998266802970665];
pub const FQ: [u64; 4] = [4332616871279656263, 10917124144477883021, 13281191951274694749, 3486998266802970665];
/// a * b / 2^256 modulo p
fn montmul(a: &BV, b: &BV, p: &[u64; 4]) -> BV {
    let mut inv = 1u64;
    for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(p[0].wrapping_mul(inv))); }
    let inv = inv.wrapping_neg();
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 { let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c; t[j] = s as u64; c = s >> 64; }
        let s = t[4] as u128 + c; t[4] = s as u64; t[5] = (s >> 64) as u64;
        let m = t[0].wrapping_mul(inv);
        let mut c = (t[0] as u128 + m as u128 * p[0] as u128) >> 64;
        for j in 1..4 { let s = t[j] as u128 + m as u128 * p[j] as u128 + c; t[j - 1] = s as u64; c = s >> 64; }
        let s = t[4] as u128 + c; t[3] = s as u64; t[4] = t[5] + (s >> 64) as u64; t[5] = 0;
    }
    let r: BV = t[..4].to_vec();
    let pv = p.to_vec();
    if t[4] != 0 || cmp(&r, &pv) != std::cmp::Ordering::Less { badd(&r, &bneg(&pv, 256), 256) } else { r }
}
/// concrete semantics; `aw` is the width of the first operand, `bw` of the second
fn fold(op: Op, w: u32, aw: u32, bw: u32, a: &BV, b: &BV, lo: u32) -> BV {
    use std::cmp::Ordering::*;
    let shift = |b: &BV| if cmp(b, &bv(aw as u128, 64)) == Less { b[0] as u32 } else { aw };
    match op {
        Op::Add => badd(a, b, w),
        Op::Mul => bmul(a, b, w),
        Op::UDiv => bdivrem(a, b, w).0,
        Op::URem => bdivrem(a, b, w).1,
        Op::SDiv | Op::SRem => {
            let (na, nb) = (bit(a, w - 1), bit(b, w - 1));
            let (x, y) = (if na { bneg(a, w) } else { a.clone() }, if nb { bneg(b, w) } else { b.clone() });
            let (q, r) = bdivrem(&x, &y, w);
            if op == Op::SDiv { if na != nb { bneg(&q, w) } else { q } } else if na { bneg(&r, w) } else { r }
        }
        Op::Shl => bshl(a, shift(b), w),
        Op::LShr => blshr(a, shift(b), w),
        Op::AShr => { let k = shift(b).min(w - 1); bsext(&mask(blshr(a, k, w), w - k), w - k, w) }
        Op::And => a.iter().zip(b).map(|(x, y)| x & y).collect(),
        Op::Or => a.iter().zip(b).map(|(x, y)| x | y).collect(),
        Op::Xor => a.iter().zip(b).map(|(x, y)| x ^ y).collect(),
        Op::Not => bnot(a, w),
        Op::Eq => bv((cmp(a, b) == Equal) as u128, 1),
        Op::Ult => bv((cmp(a, b) == Less) as u128, 1),
        Op::Slt => {
            let (na, nb) = (bit(a, aw - 1), bit(b, aw - 1));
            bv((if na != nb { na } else { cmp(a, b) == Less }) as u128, 1)
        }
        Op::Sext => bsext(a, aw, w),
        Op::Extract => bextract(a, lo, aw, w),
        Op::Concat => bconcat(a, b, bw, w),
        Op::MulR => montmul(a, b, &FR),
        Op::MulQ => montmul(a, b, &FQ),
        Op::Sha => compress(a, b),
        _ => unreachable!(),
    }
}

pub struct Model { pub vals: HashMap<Id, BV>, pub memo: RefCell<HashMap<Id, BV>> }
impl Model { pub fn new(vals: HashMap<Id, BV>) -> Self { Model { vals, memo: RefCell::new(HashMap::new()) } } }

/// monomials (factors in ascending order) with their coefficients (nonzero), in order
pub type Poly = Vec<(Vec<Id>, [u64; 4])>;
/// 1 in Montgomery form
pub fn one_q() -> [u64; 4] { let two256 = montmul(&vec![1, 0, 0, 0], &r2(), &FQ); arr(&two256) }
fn r2() -> BV { // 2^512 mod p by doubling
    let p = FQ.to_vec();
    let mut x = bv(1, 256);
    for _ in 0..512 { x = addq(&x, &x, &p); }
    x
}
fn addq(a: &BV, b: &BV, p: &BV) -> BV { let s = badd(a, b, 256); if cmp(&s, p) != std::cmp::Ordering::Less { badd(&s, &bneg(p, 256), 256) } else { s } }
fn arr(v: &BV) -> [u64; 4] { [v[0], v[1], v[2], v[3]] }
fn lt4(a: &[u64; 4], b: &[u64; 4]) -> bool { for i in (0..4).rev() { if a[i] != b[i] { return a[i] < b[i]; } } false }
fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] { let mut r = [0; 4]; let mut c = false; for i in 0..4 { let (x, k) = a[i].overflowing_sub(b[i]); let (x, l) = x.overflowing_sub(c as u64); r[i] = x; c = k | l; } r }
pub fn addf(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4]; let mut c = 0u128;
    for i in 0..4 { let s = a[i] as u128 + b[i] as u128 + c; r[i] = s as u64; c = s >> 64; }
    if lt4(&r, &FQ) { r } else { sub4(&r, &FQ) }
}
pub fn negf(a: &[u64; 4]) -> [u64; 4] { if *a == [0; 4] { *a } else { sub4(&FQ, a) } }
pub fn mulf(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    const INV: u64 = 0x87d20782e4866389;
    let mut t = [0u64; 5];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 { let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c; t[j] = s as u64; c = s >> 64; }
        let s = t[4] as u128 + c; let (t4, t5) = (s as u64, (s >> 64) as u64);
        let m = t[0].wrapping_mul(INV);
        let mut c = (t[0] as u128 + m as u128 * FQ[0] as u128) >> 64;
        for j in 1..4 { let s = t[j] as u128 + m as u128 * FQ[j] as u128 + c; t[j - 1] = s as u64; c = s >> 64; }
        let s = t4 as u128 + c; t[3] = s as u64; t[4] = t5 + (s >> 64) as u64;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || !lt4(&r, &FQ) { sub4(&r, &FQ) } else { r }
}
pub fn invf(a: &[u64; 4]) -> [u64; 4] {
    let e = sub4(&FQ, &[2, 0, 0, 0]);
    let mut r = one_q();
    for i in (0..256).rev() { r = mulf(&r, &r); if e[i / 64] >> (i % 64) & 1 == 1 { r = mulf(&r, a); } }
    r
}

#[derive(Default)]
pub struct Dag {
    /// polynomials; values of terms at a fixed point; terms by that value
    pub polys: Vec<Poly>,
    pmap: HashMap<Poly, Id>,
    finger: HashMap<Id, [u64; 4]>,
    byfinger: HashMap<[u64; 4], Id>,
    /// identities between differently written polynomials that were proved; that could not be proved
    pub merged: u64,
    pub unmerged: u64,
    one: Option<[u64; 4]>,
    pub nodes: Vec<Node>,
    pub consts: Vec<BV>,
    cmap: HashMap<(u32, BV), Id>,
    map: HashMap<Node, Id>,
    vmap: HashMap<(u32, u32), Id>,
}

impl Dag {
    fn one(&mut self) -> [u64; 4] { match self.one { Some(x) => x, None => { let x = one_q(); self.one = Some(x); x } } }
    /// the value of a term at the fixed point used to find candidates of equal terms
    fn finger(&mut self, i: Id) -> [u64; 4] {
        if let Some(x) = self.finger.get(&i) { return *x; }
        let n = self.n(i);
        let r = match n.op {
            Op::Const => arr(&mask(self.consts[n.a as usize].clone(), 256)),
            Op::InvQ => { let x = self.finger(n.a); invf(&x) }
            Op::Pol => { let p = self.polys[n.a as usize].clone(); self.finger_poly(&p) }
            _ => { // a number derived from the term's identity
                let mut x = [0u64; 4];
                let mut z = (i as u64).wrapping_add(0x1234_5678_9abc_def0);
                for k in 0..4 { z = z.wrapping_add(0x9e37_79b9_7f4a_7c15); let mut y = z; y = (y ^ (y >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9); y = (y ^ (y >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb); x[k] = y ^ (y >> 31); }
                x[3] &= 0x0fff_ffff_ffff_ffff;
                x
            }
        };
        self.finger.insert(i, r);
        r
    }
    fn finger_poly(&mut self, p: &Poly) -> [u64; 4] {
        let mut s = [0u64; 4];
        for (m, c) in p { let mut x = *c; for f in m { let y = self.finger(*f); x = mulf(&x, &y); } s = addf(&s, &x); }
        s
    }
    /// a term as a polynomial of degree at most 2 over terms
    pub fn poly(&mut self, i: Id) -> Poly {
        if let Some(c) = self.cval(i) { let c = arr(c); return if c == [0; 4] { vec![] } else { vec![(vec![], c)] }; }
        let n = self.n(i);
        if n.op == Op::Pol { return self.polys[n.a as usize].clone(); }
        let one = self.one();
        vec![(vec![i], one)]
    }
    pub fn degree(p: &Poly) -> usize { p.iter().map(|(m, _)| m.len()).max().unwrap_or(0) }
    fn norm(v: HashMap<Vec<Id>, [u64; 4]>) -> Poly { let mut r: Poly = v.into_iter().filter(|(_, c)| *c != [0; 4]).collect(); r.sort(); r }
    pub fn padd(a: &Poly, b: &Poly, minus: bool) -> Poly {
        let (mut r, mut i, mut j) = (Vec::with_capacity(a.len() + b.len()), 0, 0);
        let sg = |c: &[u64; 4]| if minus { negf(c) } else { *c };
        while i < a.len() || j < b.len() {
            let o = if i == a.len() { std::cmp::Ordering::Greater } else if j == b.len() { std::cmp::Ordering::Less } else { a[i].0.cmp(&b[j].0) };
            match o {
                std::cmp::Ordering::Less => { r.push(a[i].clone()); i += 1; }
                std::cmp::Ordering::Greater => { r.push((b[j].0.clone(), sg(&b[j].1))); j += 1; }
                _ => { let c = addf(&a[i].1, &sg(&b[j].1)); if c != [0; 4] { r.push((a[i].0.clone(), c)); } i += 1; j += 1; }
            }
        }
        r
    }
    fn pmul_raw(a: &Poly, b: &Poly) -> Poly {
        let mut v: HashMap<Vec<Id>, [u64; 4]> = HashMap::new();
        for (m, c) in a { for (n, d) in b {
            let mut k = m.clone(); k.extend(n); k.sort();
            let e = v.entry(k).or_insert([0; 4]);
            *e = addf(e, &mulf(c, d));
        } }
        Self::norm(v)
    }
    pub fn field_prod(&mut self, x: Id, y: Id) -> Id {
        let (mut p, mut q) = (self.poly(x), self.poly(y));
        let one = self.one();
        // what would get a degree above 2 is a term of its own from here on
        if Self::degree(&p) + Self::degree(&q) > 2 {
            if Self::degree(&p) > 1 { p = vec![(vec![x], one)]; }
            if Self::degree(&q) > 1 { q = vec![(vec![y], one)]; }
        }
        let r = Self::pmul_raw(&p, &q);
        self.mk_poly(r)
    }
    pub fn field_sum(&mut self, x: Id, y: Id, minus: bool) -> Id { let (p, q) = (self.poly(x), self.poly(y)); let r = Self::padd(&p, &q, minus); self.mk_poly(r) }
    pub fn field_inv(&mut self, x: Id) -> Id {
        if let Some(c) = self.cval(x) { let r = invf(&arr(c)).to_vec(); return self.constant(r, 256); }
        self.push(Node { op: Op::InvQ, w: 256, a: x, b: 0, c: 0 })
    }
    fn mk_poly(&mut self, p: Poly) -> Id {
        if p.is_empty() { return self.cu(0, 256); }
        let one = self.one();
        if p.len() == 1 && p[0].0.is_empty() { return self.constant(p[0].1.to_vec(), 256); }
        if p.len() == 1 && p[0].0.len() == 1 && p[0].1 == one { return p[0].0[0]; }
        if let Some(i) = self.pmap.get(&p) { return *i; }
        let f = self.finger_poly(&p);
        if let Some(i) = self.byfinger.get(&f).cloned() {
            let q = self.poly(i);
            if self.zero(Self::padd(&p, &q, true)) == Some(true) { self.merged += 1; self.pmap.insert(p, i); return i; }
            self.unmerged += 1;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(Node { op: Op::Pol, w: 256, a: self.polys.len() as u32, b: 0, c: 0 });
        self.polys.push(p.clone());
        self.pmap.insert(p, i);
        self.finger.insert(i, f);
        self.byfinger.entry(f).or_insert(i);
        i
    }
    /// whether a polynomial is zero everywhere (Some(true)), or nowhere (Some(false)): unfolds the terms it is made of, the latest first
    pub fn zero(&mut self, mut p: Poly) -> Option<bool> {
        for _ in 0..200 {
            if p.is_empty() { return Some(true); }
            if p.len() == 1 && p[0].0.is_empty() { return Some(false); }
            if p.len() > 20_000 { return None; }
            let Some(t) = p.iter().flat_map(|(m, _)| m.iter()).cloned().filter(|i| self.op(*i) == Op::Pol).max() else { return None };
            let def = self.polys[self.nodes[t as usize].a as usize].clone();
            let (mut rest, mut with): (Poly, Poly) = (vec![], vec![]);
            for (m, c) in p { match m.iter().position(|x| *x == t) { None => rest.push((m, c)), Some(k) => { let mut m = m; m.remove(k); with.push((m, c)) } } }
            with.sort();
            let x = Self::pmul_raw(&with, &def);
            p = Self::padd(&rest, &x, false);
        }
        None
    }
    pub fn w(&self, i: Id) -> u32 { self.nodes[i as usize].w }
    pub fn op(&self, i: Id) -> Op { self.nodes[i as usize].op }
    fn n(&self, i: Id) -> Node { self.nodes[i as usize].clone() }
    pub fn cval(&self, i: Id) -> Option<&BV> { let n = &self.nodes[i as usize]; if n.op == Op::Const { Some(&self.consts[n.a as usize]) } else { None } }
    fn push(&mut self, n: Node) -> Id {
        if let Some(i) = self.map.get(&n) { return *i; }
        let i = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.map.insert(n, i);
        i
    }
    pub fn constant(&mut self, v: BV, w: u32) -> Id {
        if let Some(i) = self.cmap.get(&(w, v.clone())) { return *i; }
        let i = self.nodes.len() as Id;
        self.nodes.push(Node { op: Op::Const, w, a: self.consts.len() as u32, b: 0, c: 0 });
        self.consts.push(v.clone());
        self.cmap.insert((w, v), i);
        i
    }
    pub fn cu(&mut self, x: u128, w: u32) -> Id { let v = bv(x, w); self.constant(v, w) }
    /// the k-th input variable (of width w) of a path
    pub fn var(&mut self, k: u32, w: u32) -> Id {
        if let Some(i) = self.vmap.get(&(k, w)) { return *i; }
        let i = self.push(Node { op: Op::Var, w, a: k, b: 0, c: 0 });
        self.vmap.insert((k, w), i);
        i
    }
    fn is_c(&self, i: Id, x: u128) -> bool { self.cval(i).map_or(false, |v| v[0] as u128 == x && v[1..].iter().all(|x| *x == 0)) }
    fn is_ones(&self, i: Id) -> bool { let w = self.w(i); self.cval(i).map_or(false, |v| *v == ones(w)) }

    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(v) = self.cval(a) { let r = bnot(v, w); return self.constant(r, w); }
        let n = self.n(a);
        if n.op == Op::Not { return n.a; }
        self.push(Node { op: Op::Not, w, a, b: 0, c: 0 })
    }
    pub fn neg(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(v) = self.cval(a) { let r = bneg(v, w); return self.constant(r, w); }
        let n = self.not(a);
        let one = self.cu(1, w);
        self.bin(Op::Add, n, one)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b { return self.cu(0, w); }
        // (x + y) - x
        let n = self.n(a);
        if n.op == Op::Add { if n.a == b { return n.b; } if n.b == b { return n.a; } }
        let nb = self.neg(b);
        self.bin(Op::Add, a, nb)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        let z = self.cu(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.cval(a) { let r = bsext(v, aw, w); return self.constant(r, w); }
        if aw == 1 { let (o, z) = (self.constant(ones(w), w), self.cu(0, w)); return self.ite(a, o, z); }
        let n = self.n(a);
        if n.op == Op::Concat && self.is_c(n.a, 0) { return self.zext(a, w); }
        self.push(Node { op: Op::Sext, w, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let n = self.n(a);
        assert!(lo + w <= n.w, "extract out of range");
        if w == n.w { return a; }
        match n.op {
            Op::Const => { let r = bextract(&self.consts[n.a as usize], lo, n.w, w); self.constant(r, w) }
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { self.extract(n.a, lo - lw, w) }
                else if lo + w <= lw { self.extract(n.b, lo, w) }
                else { let h = self.extract(n.a, 0, lo + w - lw); let l = self.extract(n.b, lo, lw - lo); self.concat(h, l) }
            }
            Op::Sext => {
                let aw = self.w(n.a);
                if lo + w <= aw { self.extract(n.a, lo, w) }
                else if lo == 0 { self.sext(n.a, w) }
                else { self.push(Node { op: Op::Extract, w, a, b: lo, c: 0 }) }
            }
            Op::Ite if self.cval(n.b).is_some() || self.cval(n.c).is_some() => {
                let (x, y) = (self.extract(n.b, lo, w), self.extract(n.c, lo, w));
                self.ite(n.a, x, y)
            }
            Op::And | Op::Or | Op::Xor if self.cval(n.b).is_some() || self.cval(n.a).is_some() => {
                let (x, y) = (self.extract(n.a, lo, w), self.extract(n.b, lo, w));
                self.bin(n.op, x, y)
            }
            Op::Not => { let x = self.extract(n.a, lo, w); self.not(x) }
            Op::Add | Op::Mul if lo == 0 && w <= 64 && n.w > 64 => {
                let (x, y) = (self.extract(n.a, 0, w), self.extract(n.b, 0, w));
                self.bin(n.op, x, y)
            }
            _ => self.push(Node { op: Op::Extract, w, a, b: lo, c: 0 }),
        }
    }
    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if nh.op == Op::Concat { let r = self.concat(nh.b, lo); return self.concat(nh.a, r); }
        // merge hi with the leftmost part of lo
        let (first, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (lo, None) };
        let nf = self.n(first);
        let merged = if nh.op == Op::Const && nf.op == Op::Const {
            let r = bconcat(&self.consts[nh.a as usize], &self.consts[nf.a as usize], nf.w, nh.w + nf.w);
            Some(self.constant(r, nh.w + nf.w))
        } else if nh.op == Op::Extract && nf.op == Op::Extract && nh.a == nf.a && nf.b + nf.w == nh.b {
            Some(self.extract(nh.a, nf.b, nh.w + nf.w))
        } else { None };
        match (merged, rest) {
            (Some(m), None) => m,
            (Some(m), Some(r)) => self.concat(m, r),
            _ => self.push(Node { op: Op::Concat, w, a: hi, b: lo, c: 0 }),
        }
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b || self.is_c(c, 1) { return a; }
        if self.is_c(c, 0) { return b; }
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            if self.is_c(a, 1) { return self.bin(Op::Or, c, b); }
            if self.is_c(a, 0) { let n = self.not(c); return self.bin(Op::And, n, b); }
            if self.is_c(b, 0) { return self.bin(Op::And, c, a); }
            if self.is_c(b, 1) { let n = self.not(c); return self.bin(Op::Or, n, a); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.push(Node { op: Op::Ite, w, a: c, b: a, c: b })
    }
    /// pieces of a concatenation, most significant first
    fn pieces(&self, i: Id, out: &mut Vec<Id>) {
        let n = &self.nodes[i as usize];
        if n.op == Op::Concat { self.pieces(n.a, out); self.pieces(n.b, out) } else { out.push(i) }
    }
    fn merge_or(&mut self, a: Id, b: Id) -> Option<Id> {
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        if pa.len() == 1 && pb.len() == 1 && self.cval(pa[0]).is_none() && self.cval(pb[0]).is_none() { return None; }
        pa.reverse();
        pb.reverse();
        let mut res: Vec<Id> = vec![]; // least significant first
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0, 0);
        while i < pa.len() && j < pb.len() {
            let (wa, wb) = (self.w(pa[i]) - oi, self.w(pb[j]) - oj);
            let k = wa.min(wb);
            let (x, y) = (self.extract(pa[i], oi, k), self.extract(pb[j], oj, k));
            let r = if self.is_c(x, 0) { y } else if self.is_c(y, 0) { x } else if self.is_ones(x) { x } else if self.is_ones(y) { y } else { return None };
            res.push(r);
            oi += k; oj += k;
            if oi == self.w(pa[i]) { i += 1; oi = 0; }
            if oj == self.w(pb[j]) { j += 1; oj = 0; }
        }
        let mut r = res[0];
        for x in &res[1..] { r = self.concat(*x, r); }
        Some(r)
    }
    /// x & const as pieces, if the constant is a union of few runs
    fn and_const(&mut self, a: Id, m: &BV, w: u32) -> Option<Id> {
        let mut runs: Vec<(u32, u32, bool)> = vec![];
        let mut i = 0;
        while i < w {
            let b = bit(m, i);
            let s = i;
            while i < w && bit(m, i) == b { i += 1; }
            runs.push((s, i - s, b));
            if runs.len() > 3 { return None; }
        }
        let mut r: Option<Id> = None;
        for (s, l, b) in runs {
            let p = if b { self.extract(a, s, l) } else { self.cu(0, l) };
            r = Some(match r { None => p, Some(lo) => self.concat(p, lo) });
        }
        r
    }
    pub fn sha(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let r = compress(x, y); return self.constant(r, 256); }
        self.push(Node { op: Op::Sha, w: 256, a, b, c: 0 })
    }
    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        let w = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { aw };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let r = fold(op, w, aw, aw, x, y, 0); return self.constant(r, w); }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::MulR | Op::MulQ);
        if comm && (self.cval(a).is_some() || (self.cval(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let (na, nb) = (self.n(a), self.n(b));
        let bc = self.cval(b).cloned();
        match op {
            Op::Add => {
                if self.is_c(b, 0) { return a; }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(y) = &bc {
                    if na.op == Op::Add { if let Some(x) = self.cval(na.b) { let s = badd(x, y, w); let s = self.constant(s, w); return self.bin(Op::Add, na.a, s); } }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let (p, q) = (self.bin(Op::Add, na.b, b), self.bin(Op::Add, na.c, b));
                        return self.ite(na.a, p, q);
                    }
                } else if na.op == Op::Add && self.cval(na.b).is_some() {
                    let s = self.bin(Op::Add, na.a, b);
                    return self.bin(Op::Add, s, na.b);
                } else if nb.op == Op::Add && self.cval(nb.b).is_some() {
                    let s = self.bin(Op::Add, a, nb.a);
                    return self.bin(Op::Add, s, nb.b);
                }
            }
            Op::Mul => {
                if w == 1 { return self.bin(Op::And, a, b); }
                if self.is_c(b, 0) { return b; }
                if self.is_c(b, 1) { return a; }
                if let Some(y) = &bc {
                    let pop: u32 = y.iter().map(|x| x.count_ones()).sum();
                    if pop == 1 { let k = (0..w).find(|i| bit(y, *i)).unwrap(); let k = self.cu(k as u128, w); return self.bin(Op::Shl, a, k); }
                }
            }
            Op::MulR | Op::MulQ => { if self.is_c(b, 0) { return b; } }
            Op::UDiv => {
                if self.is_c(b, 1) { return a; }
                if let Some(y) = &bc {
                    let pop: u32 = y.iter().map(|x| x.count_ones()).sum();
                    if pop == 1 { let k = (0..w).find(|i| bit(y, *i)).unwrap(); let k = self.cu(k as u128, w); return self.bin(Op::LShr, a, k); }
                }
            }
            Op::URem => {
                if let Some(y) = &bc {
                    let pop: u32 = y.iter().map(|x| x.count_ones()).sum();
                    if pop == 1 { let k = (0..w).find(|i| bit(y, *i)).unwrap(); if k == 0 { return self.cu(0, w); } let l = self.extract(a, 0, k); return self.zext(l, w); }
                }
            }
            Op::Shl => {
                if self.is_c(a, 0) { return a; }
                if let Some(y) = &bc {
                    let k = if y[1..].iter().any(|x| *x != 0) || y[0] >= w as u64 { return self.cu(0, w) } else { y[0] as u32 };
                    if k == 0 { return a; }
                    let h = self.extract(a, 0, w - k);
                    let z = self.cu(0, k);
                    return self.concat(h, z);
                }
            }
            Op::LShr => {
                if self.is_c(a, 0) { return a; }
                if let Some(y) = &bc {
                    let k = if y[1..].iter().any(|x| *x != 0) || y[0] >= w as u64 { return self.cu(0, w) } else { y[0] as u32 };
                    if k == 0 { return a; }
                    let h = self.extract(a, k, w - k);
                    return self.zext(h, w);
                }
            }
            Op::AShr => {
                if let Some(y) = &bc {
                    let k = if y[1..].iter().any(|x| *x != 0) || y[0] >= w as u64 { w - 1 } else { y[0] as u32 };
                    let h = self.extract(a, k, w - k);
                    return self.sext(h, w);
                }
            }
            Op::And => {
                if a == b { return a; }
                if self.is_c(b, 0) { return b; }
                if self.is_ones(b) { return a; }
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.cu(0, w); }
                if w > 1 { if let Some(y) = &bc { if let Some(r) = self.and_const(a, y, w) { return r; } } }
            }
            Op::Or => {
                if a == b { return a; }
                if self.is_c(b, 0) { return a; }
                if self.is_ones(b) { return b; }
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.constant(ones(w), w); }
                if w > 1 { if let Some(r) = self.merge_or(a, b) { return r; } }
            }
            Op::Xor => {
                if a == b { return self.cu(0, w); }
                if self.is_c(b, 0) { return a; }
                if self.is_ones(b) { return self.not(a); }
                if w == 1 && na.op == Op::Not { let r = self.bin(Op::Xor, na.a, b); return self.not(r); }
                if w == 1 && nb.op == Op::Not { let r = self.bin(Op::Xor, a, nb.a); return self.not(r); }
            }
            Op::Eq => {
                if a == b { return self.cu(1, 1); }
                if matches!(na.op, Op::Pol | Op::InvQ) || matches!(nb.op, Op::Pol | Op::InvQ) {
                    let (p, q) = (self.poly(a), self.poly(b));
                    if let Some(r) = self.zero(Self::padd(&p, &q, true)) { return self.cu(r as u128, 1); }
                }
                if aw == 1 {
                    if self.is_c(b, 1) { return a; }
                    if self.is_c(b, 0) { return self.not(a); }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(y) = &bc {
                    match na.op {
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let (h, l) = (bextract(y, lw, aw, aw - lw), bextract(y, 0, aw, lw));
                            let (h, l) = (self.constant(h, aw - lw), self.constant(l, lw));
                            let x = self.bin(Op::Eq, na.a, h);
                            if self.is_c(x, 0) { return x; }
                            let y = self.bin(Op::Eq, na.b, l);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite if self.cval(na.b).is_some() || self.cval(na.c).is_some() => {
                            let (p, q) = (self.bin(Op::Eq, na.b, b), self.bin(Op::Eq, na.c, b));
                            return self.ite(na.a, p, q);
                        }
                        Op::Add if self.cval(na.b).is_some() => {
                            let d = badd(y, &bneg(self.cval(na.b).unwrap(), aw), aw);
                            let d = self.constant(d, aw);
                            return self.bin(Op::Eq, na.a, d);
                        }
                        Op::Not => { let d = self.not(b); return self.bin(Op::Eq, na.a, d); }
                        Op::Xor if self.cval(na.b).is_some() => { let d = self.bin(Op::Xor, na.b, b); return self.bin(Op::Eq, na.a, d); }
                        Op::Sext => {
                            let sw = self.w(na.a);
                            let low = bextract(y, 0, aw, sw);
                            if bsext(&low, sw, aw) != *y { return self.cu(0, 1); }
                            let l = self.constant(low, sw);
                            return self.bin(Op::Eq, na.a, l);
                        }
                        _ => {}
                    }
                } else if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let x = self.bin(Op::Eq, na.a, nb.a);
                    let y = self.bin(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, x, y);
                }
            }
            Op::Ult => {
                if matches!(na.op, Op::Pol | Op::InvQ) && bc.as_ref().map_or(false, |y| cmp(y, &FQ.to_vec()) != std::cmp::Ordering::Less) { return self.cu(1, 1); }
                if a == b || self.is_c(b, 0) || self.is_ones(a) { return self.cu(0, 1); }
                if aw == 1 { let n = self.not(a); return self.bin(Op::And, n, b); }
                if self.is_c(b, 1) { let z = self.cu(0, aw); return self.bin(Op::Eq, a, z); }
                if self.is_c(a, 0) { let e = self.bin(Op::Eq, b, a); return self.not(e); }
                // zero-extended operands
                let za = if na.op == Op::Concat && self.is_c(na.a, 0) { Some(self.w(na.a)) } else { None };
                let zb = if nb.op == Op::Concat && self.is_c(nb.a, 0) { Some(self.w(nb.a)) } else { None };
                if let (Some(k), Some(y)) = (za, &bc) {
                    if !is_zero(&bextract(y, aw - k, aw, k)) { return self.cu(1, 1); }
                    let l = bextract(y, 0, aw, aw - k);
                    let l = self.constant(l, aw - k);
                    return self.bin(Op::Ult, na.b, l);
                }
                if let (Some(x), Some(k)) = (self.cval(a).cloned(), zb) {
                    if !is_zero(&bextract(&x, aw - k, aw, k)) { return self.cu(0, 1); }
                    let l = bextract(&x, 0, aw, aw - k);
                    let l = self.constant(l, aw - k);
                    return self.bin(Op::Ult, l, nb.b);
                }
                if let (Some(j), Some(k)) = (za, zb) {
                    let m = j.min(k);
                    let (x, y) = (self.extract(a, 0, aw - m), self.extract(b, 0, aw - m));
                    return self.bin(Op::Ult, x, y);
                }
                if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() && bc.is_some() {
                    let (p, q) = (self.bin(Op::Ult, na.b, b), self.bin(Op::Ult, na.c, b));
                    return self.ite(na.a, p, q);
                }
            }
            Op::Slt => {
                if a == b { return self.cu(0, 1); }
                let top0 = |s: &Self, n: &Node, i: Id| (n.op == Op::Concat && s.is_c(n.a, 0)) || s.cval(i).map_or(false, |v| !bit(v, aw - 1));
                if top0(self, &na, a) && top0(self, &nb, b) { return self.bin(Op::Ult, a, b); }
            }
            _ => {}
        }
        self.push(Node { op, w, a, b, c: 0 })
    }

    pub fn eval(&self, i: Id, m: &Model) -> BV {
        if let Some(v) = m.memo.borrow().get(&i) { return v.clone(); }
        let n = &self.nodes[i as usize];
        let r = match n.op {
            Op::Const => return self.consts[n.a as usize].clone(),
            Op::Var => return m.vals.get(&i).cloned().unwrap_or_else(|| bv(0, n.w)),
            Op::Ite => { let c = self.eval(n.a, m); if is_zero(&c) { self.eval(n.c, m) } else { self.eval(n.b, m) } }
            Op::Not | Op::Sext => { let a = self.eval(n.a, m); fold(n.op, n.w, self.w(n.a), 0, &a, &a, 0) }
            Op::Extract => { let a = self.eval(n.a, m); bextract(&a, n.b, self.w(n.a), n.w) }
            Op::InvQ => { let a = self.eval(n.a, m); invf(&arr(&a)).to_vec() }
            Op::Pol => {
                let mut s = [0u64; 4];
                for (mono, c) in &self.polys[n.a as usize] { let mut x = *c; for f in mono { let y = self.eval(*f, m); x = mulf(&x, &arr(&y)); } s = addf(&s, &x); }
                s.to_vec()
            }
            _ => { let (a, b) = (self.eval(n.a, m), self.eval(n.b, m)); fold(n.op, n.w, self.w(n.a), self.w(n.b), &a, &b, 0) }
        };
        m.memo.borrow_mut().insert(i, r.clone());
        r
    }
    pub fn vars(&self, i: Id, seen: &mut std::collections::HashSet<Id>, out: &mut Vec<Id>) {
        if !seen.insert(i) { return; }
        let n = &self.nodes[i as usize];
        match n.op {
            Op::Const => {}
            Op::Var => out.push(i),
            Op::Not | Op::Sext | Op::Extract | Op::InvQ => self.vars(n.a, seen, out),
            Op::Pol => for (m, _) in &self.polys[n.a as usize] { for f in m { self.vars(*f, seen, out) } },
            Op::Ite => { self.vars(n.a, seen, out); self.vars(n.b, seen, out); self.vars(n.c, seen, out) }
            _ => { self.vars(n.a, seen, out); self.vars(n.b, seen, out) }
        }
    }
    /// the field products in a term
    pub fn products(&self, i: Id, seen: &mut std::collections::HashSet<Id>, out: &mut Vec<Id>) {
        if !seen.insert(i) { return; }
        let n = &self.nodes[i as usize];
        match n.op {
            Op::Const | Op::Var => {}
            Op::Not | Op::Sext | Op::Extract | Op::InvQ => self.products(n.a, seen, out),
            Op::Pol => for (m, _) in &self.polys[n.a as usize] { for f in m { self.products(*f, seen, out) } },
            Op::Ite => { self.products(n.a, seen, out); self.products(n.b, seen, out); self.products(n.c, seen, out) }
            o => { self.products(n.a, seen, out); self.products(n.b, seen, out); if matches!(o, Op::MulR | Op::MulQ | Op::Sha) { out.push(i) } }
        }
    }
}

/// SHA-256's compression function: the state's eight words as stored in memory, a block of 64 bytes
fn compress(state: &BV, block: &BV) -> BV {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2];
    let word = |v: &BV, i: usize| (v[i / 2] >> (32 * (i % 2))) as u32;
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = word(block, i).swap_bytes(); }
    for i in 16..64 {
        let (x, y) = (w[i - 15], w[i - 2]);
        let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let h: Vec<u32> = (0..8).map(|i| word(state, i)).collect();
    let mut v = h.clone();
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let t1 = v[7].wrapping_add(s1).wrapping_add((v[4] & v[5]) ^ (!v[4] & v[6])).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    let mut r = vec![0u64; 4];
    for i in 0..8 { r[i / 2] |= (h[i].wrapping_add(v[i]) as u64) << (32 * (i % 2)); }
    r
}
