//! A query as integer arithmetic: sums are kept as linear forms, wrap-around shows up only where intervals cannot exclude it.
//! What does not fit (bit operations, products of unknowns) becomes an unknown number: "unsat" counts, a model has to be checked.
use crate::expr::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone, Default)]
struct Lin { t: BTreeMap<usize, i128>, c: i128 }
type Range = (i128, i128);
pub struct Lia<'a> {
    d: &'a Dag,
    buf: String,
    /// integer unknowns with their ranges (none: only known not to be negative)
    ints: Vec<Option<Range>>,
    lin: HashMap<Id, Option<Rc<Lin>>>,
    val: HashMap<(Id, u32), Rc<Lin>>,
    div: HashMap<(Id, i128), (usize, usize)>,
    bools: HashMap<Id, String>,
    facts: HashMap<Id, Range>,
    vars: Vec<(Id, String)>,
}
fn pow(k: u32) -> i128 { 1i128 << k }
/// the representative of c modulo 2^w that is closest to zero
fn small(c: i128, w: u32) -> i128 {
    if w >= 128 { return c; }
    if w == 127 { let m = c & i128::MAX; return if m >= pow(126) { m - i128::MAX - 1 } else { m }; }
    let m = c.rem_euclid(pow(w));
    if w > 0 && m >= pow(w - 1) { m - pow(w) } else { m }
}
fn num(c: i128) -> String { if c < 0 { format!("(- {})", c.unsigned_abs()) } else { c.to_string() } }

impl Lin {
    fn atom(i: usize) -> Self { let mut l = Lin::default(); l.t.insert(i, 1); l }
    fn cst(c: i128) -> Self { Lin { t: BTreeMap::new(), c } }
    fn add(&self, o: &Lin, k: i128) -> Option<Lin> {
        let mut r = self.clone();
        r.c = r.c.checked_add(o.c.checked_mul(k)?)?;
        for (x, c) in &o.t {
            let e = r.t.entry(*x).or_insert(0);
            *e = e.checked_add(c.checked_mul(k)?)?;
            if *e == 0 { r.t.remove(x); }
        }
        Some(r)
    }
    fn reduce(&self, w: u32) -> Lin {
        let mut r = Lin { t: self.t.iter().map(|(x, c)| (*x, small(*c, w))).filter(|(_, c)| *c != 0).collect(), c: small(self.c, w) };
        // all but one coefficient positive and the constant close to -1 only by accident of the representative: leave as is
        if r.t.is_empty() && r.c < 0 && w <= 126 { r.c += pow(w); }
        r
    }
    fn text(&self) -> String {
        if self.t.is_empty() { return num(self.c); }
        let mut s = String::from("(+");
        for (x, c) in &self.t { if *c == 1 { let _ = write!(s, " i{}", x); } else { let _ = write!(s, " (* {} i{})", num(*c), x); } }
        let _ = write!(s, " {})", num(self.c));
        s
    }
}

impl<'a> Lia<'a> {
    /// the script (without get-value) and the variables
    pub fn script(d: &'a Dag, asserted: &[Id]) -> (String, Vec<(Id, String)>) {
        let mut l = Lia { d, buf: String::new(), ints: vec![], lin: HashMap::new(), val: HashMap::new(), div: HashMap::new(), bools: HashMap::new(), facts: HashMap::new(), vars: vec![] };
        for a in asserted { l.fact(*a, true); }
        for a in asserted { let t = l.boolean(*a); let _ = write!(l.buf, "(assert {})\n", t); }
        let mut s = String::from("(set-option :produce-models true)\n");
        s.push_str(&l.buf);
        s.push_str("(check-sat)\n");
        (s, l.vars)
    }
    fn cu(&self, i: Id) -> Option<i128> { let v = self.d.cval(i)?; if v.len() > 2 && v[2..].iter().any(|x| *x != 0) { return None; } i128::try_from(to_u128(v)).ok() }
    fn node(&self, i: Id) -> Node { self.d.nodes[i as usize].clone() }
    fn clamp(&mut self, i: Id, lo: i128, hi: i128) {
        let w = self.d.w(i);
        if w > 126 || lo > hi { return; }
        let e = self.facts.entry(i).or_insert((0, pow(w) - 1));
        e.0 = e.0.max(lo);
        e.1 = e.1.min(hi);
        let n = self.node(i);
        if n.op == Op::Concat && self.cu(n.a) == Some(0) { self.clamp(n.b, lo, hi); }
        if n.op == Op::Or && hi < pow(w) - 1 {
            let k = 128 - (hi as u128).leading_zeros();
            self.clamp(n.a, 0, pow(k) - 1);
            self.clamp(n.b, 0, pow(k) - 1);
        }
    }
    /// ranges that follow from an asserted condition
    fn fact(&mut self, i: Id, pos: bool) {
        let n = self.node(i);
        match (n.op, pos) {
            (Op::And, true) | (Op::Or, false) if n.w == 1 => { self.fact(n.a, pos); self.fact(n.b, pos); }
            (Op::Not, _) if n.w == 1 => self.fact(n.a, !pos),
            (Op::Ult, _) => {
                let max = |w: u32| if w <= 126 { pow(w) - 1 } else { i128::MAX };
                match (self.cu(n.a), self.cu(n.b)) {
                    (None, Some(c)) if self.d.w(n.a) <= 126 => if pos { self.clamp(n.a, 0, c - 1) } else { let m = max(self.d.w(n.a)); self.clamp(n.a, c, m) },
                    (Some(c), None) if self.d.w(n.a) <= 126 => if pos { let m = max(self.d.w(n.b)); self.clamp(n.b, c + 1, m) } else { self.clamp(n.b, 0, c) },
                    _ => {}
                }
            }
            (Op::Eq, true) if self.d.w(n.a) > 1 => match (self.cu(n.a), self.cu(n.b)) {
                (None, Some(c)) => self.clamp(n.a, c, c),
                (Some(c), None) => self.clamp(n.b, c, c),
                _ => {}
            },
            _ => {}
        }
    }
    fn fresh(&mut self, r: Option<Range>) -> usize {
        let k = self.ints.len();
        self.ints.push(r);
        let _ = write!(self.buf, "(declare-const i{} Int)\n", k);
        match r {
            Some((lo, hi)) => { let _ = write!(self.buf, "(assert (<= {} i{} {}))\n", num(lo), k, num(hi)); }
            None => { let _ = write!(self.buf, "(assert (<= 0 i{}))\n", k); }
        }
        k
    }
    fn unknown(&mut self, i: Id) -> Lin {
        let w = self.d.w(i);
        let r = if w <= 126 { Some(self.facts.get(&i).copied().unwrap_or((0, pow(w) - 1))) } else { None };
        Lin::atom(self.fresh(r))
    }
    fn range(&self, l: &Lin) -> Option<Range> {
        let (mut lo, mut hi) = (l.c, l.c);
        for (x, c) in &l.t {
            let (a, b) = self.ints[*x]?;
            let (p, q) = (a.checked_mul(*c)?, b.checked_mul(*c)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        Some((lo, hi))
    }
    /// modulo 2^w; none: not a linear form
    fn linear(&mut self, i: Id) -> Rc<Lin> {
        if let Some(Some(l)) = self.lin.get(&i) { return l.clone(); }
        let n = self.node(i);
        let l = self.linear_(i, &n).map(|l| l.reduce(n.w)).unwrap_or_else(|| self.unknown(i));
        let l = Rc::new(l);
        self.lin.insert(i, Some(l.clone()));
        l
    }
    fn linear_(&mut self, i: Id, n: &Node) -> Option<Lin> {
        let w = n.w;
        if w == 1 { let t = self.boolean(i); let k = self.fresh(Some((0, 1))); let _ = write!(self.buf, "(assert (= i{} (ite {} 1 0)))\n", k, t); return Some(Lin::atom(k)); }
        match n.op {
            Op::Var => {
                let l = self.unknown(i);
                if w <= 128 { self.vars.push((i, format!("i{}", l.t.keys().next().unwrap()))); }
                Some(l)
            }
            _ if w > 128 => None,
            Op::Const => Some(Lin::cst(to_u128(self.d.cval(i)?) as i128)),
            Op::Add => { let (a, b) = (self.linear(n.a), self.linear(n.b)); a.add(&b, 1) }
            Op::Not => Lin::cst(-1).add(&*self.linear(n.a), -1),
            Op::Mul => {
                let (x, c) = if self.d.cval(n.b).is_some() { (n.a, n.b) } else if self.d.cval(n.a).is_some() { (n.b, n.a) } else { return None };
                let c = small(to_u128(self.d.cval(c)?) as i128, w);
                Lin::default().add(&*self.linear(x), c)
            }
            Op::Shl => { let k = self.cu(n.b)?; if k >= 126 || k as u32 >= w { return None; } Lin::default().add(&*self.linear(n.a), pow(k as u32)) }
            Op::Concat => {
                let wb = self.d.w(n.b);
                let b = self.value(n.b);
                if self.cu(n.a) == Some(0) { return Some((*b).clone()); }
                if wb > 125 { return None; }
                b.add(&*self.value(n.a), pow(wb))
            }
            Op::Extract => {
                let wa = self.d.w(n.a);
                if n.b == 0 {
                    if wa <= 128 { return Some((*self.linear(n.a)).clone()); }
                    return None;
                }
                if wa > 128 || n.b > 120 { return None; }
                let (q, _) = self.divide(n.a, pow(n.b))?;
                Some(Lin::atom(q))
            }
            Op::LShr => { let k = self.cu(n.b)?; if k > 120 { return None; } let (q, _) = self.divide(n.a, pow(k as u32))?; Some(Lin::atom(q)) }
            Op::UDiv => { let c = self.cu(n.b)?; if c == 0 { return None; } let (q, _) = self.divide(n.a, c)?; Some(Lin::atom(q)) }
            Op::URem => { let c = self.cu(n.b)?; if c == 0 { return None; } let (_, r) = self.divide(n.a, c)?; Some(Lin::atom(r)) }
            Op::And => {
                let (x, c) = if let Some(c) = self.cu(n.b) { (n.a, c) } else if let Some(c) = self.cu(n.a) { (n.b, c) } else { return None };
                let k = 128 - (c as u128).leading_zeros();
                if k <= 120 && c == pow(k) - 1 { return Some((*self.modulo(x, k)).clone()); }
                // the mask without its low bits
                let low = (c as u128).trailing_zeros();
                if w <= 126 && c != 0 && low > 0 && c == pow(w) - pow(low) { let (v, m) = (self.value(x), self.modulo(x, low)); return v.add(&m, -1); }
                self.clamp(i, 0, c);
                None
            }
            Op::Ite => {
                let c = self.boolean(n.a);
                let (a, b) = (self.value(n.b), self.value(n.c));
                let r = match (self.range(&a), self.range(&b)) { (Some(a), Some(b)) => Some((a.0.min(b.0).max(0), a.1.max(b.1))), _ => None };
                let k = self.fresh(r);
                let _ = write!(self.buf, "(assert (= i{} (ite {} {} {})))\n", k, c, a.text(), b.text());
                Some(Lin::atom(k))
            }
            Op::Sext => {
                let wa = self.d.w(n.a);
                if wa > 120 { return None; }
                let s = self.sign(n.a)?;
                self.value(n.a).add(&Lin::atom(s), -pow(wa))
            }
            _ => None,
        }
    }
    fn sign(&mut self, i: Id) -> Option<usize> {
        let w = self.d.w(i);
        if w > 126 { return None; }
        let v = self.value(i);
        let r = match self.range(&v) { Some((lo, _)) if lo >= pow(w - 1) => (1, 1), Some((_, hi)) if hi < pow(w - 1) => (0, 0), _ => (0, 1) };
        let k = self.fresh(Some(r));
        if r.0 != r.1 { let _ = write!(self.buf, "(assert (= i{} (ite (>= {} {}) 1 0)))\n", k, v.text(), num(pow(w - 1))); }
        Some(k)
    }
    /// quotient and remainder by a constant
    fn divide(&mut self, x: Id, c: i128) -> Option<(usize, usize)> {
        if let Some(r) = self.div.get(&(x, c)) { return Some(*r); }
        let v = self.value(x);
        let (lo, hi) = self.range(&v)?;
        let q = self.fresh(Some((lo.max(0) / c, hi / c)));
        let r = self.fresh(Some((0, c - 1)));
        let _ = write!(self.buf, "(assert (= {} (+ (* {} i{}) i{})))\n", v.text(), num(c), q, r);
        self.div.insert((x, c), (q, r));
        Some((q, r))
    }
    fn value(&mut self, i: Id) -> Rc<Lin> { let w = self.d.w(i); self.modulo(i, w) }
    /// the number modulo 2^k
    fn modulo(&mut self, i: Id, k: u32) -> Rc<Lin> {
        if let Some(l) = self.val.get(&(i, k)) { return l.clone(); }
        let w = self.d.w(i);
        let l = self.linear(i);
        let l = if k < w && k <= 126 { l.reduce(k) } else { (*l).clone() };
        let fact = if k == w { self.facts.get(&i).copied() } else { None };
        let v = match self.range(&l) {
            None if k > 126 && l.t.len() == 1 && l.c == 0 && l.t.values().all(|c| *c == 1) => Some(l),
            None => None,
            Some((lo, hi)) if k > 126 => if lo >= 0 && (k == 128 || hi >> 126 == 0) { Some(l) } else { None },
            Some((lo, hi)) => {
                let (a, b) = (lo.div_euclid(pow(k)), hi.div_euclid(pow(k)));
                if a == b { l.add(&Lin::cst(pow(k)), -a) } else {
                    let q = self.fresh(Some((a, b)));
                    l.add(&Lin::atom(q), -pow(k)).map(|v| {
                        // a number of its own: its range is known
                        let r = self.fresh(Some(fact.unwrap_or((0, pow(k) - 1))));
                        let _ = write!(self.buf, "(assert (= i{} {}))\n", r, v.text());
                        Lin::atom(r)
                    })
                }
            }
        };
        let mut v = match v { Some(v) => v, None => Lin::atom(self.fresh(if k <= 126 { Some(fact.unwrap_or((0, pow(k) - 1))) } else { None })) };
        if let (Some((flo, fhi)), Some((lo, hi))) = (fact, self.range(&v)) {
            if flo > lo || fhi < hi {
                let r = self.fresh(Some((flo.max(lo), fhi.min(hi))));
                let _ = write!(self.buf, "(assert (= i{} {}))\n", r, v.text());
                v = Lin::atom(r);
            }
        }
        let v = Rc::new(v);
        self.val.insert((i, k), v.clone());
        v
    }
    fn compare(&mut self, op: &str, a: Rc<Lin>, b: Rc<Lin>) -> String {
        match a.add(&b, -1) {
            Some(mut l) => { let c = l.c.checked_neg().unwrap_or(i128::MAX); if c == i128::MAX { return format!("({} {} {})", op, a.text(), b.text()); } l.c = 0; format!("({} {} {})", op, l.text(), num(c)) }
            None => format!("({} {} {})", op, a.text(), b.text()),
        }
    }
    fn boolean(&mut self, i: Id) -> String {
        if let Some(s) = self.bools.get(&i) { return s.clone(); }
        let n = self.node(i);
        let t = match n.op {
            Op::Const => Some(if self.cu(i) == Some(1) { "true".to_string() } else { "false".into() }),
            Op::Var => { let s = format!("b{}", i); let _ = write!(self.buf, "(declare-const {} Bool)\n", s); self.vars.push((i, s.clone())); Some(s) }
            Op::Not => { let a = self.boolean(n.a); Some(format!("(not {})", a)) }
            Op::And | Op::Or | Op::Xor | Op::Add => {
                let (a, b) = (self.boolean(n.a), self.boolean(n.b));
                Some(format!("({} {} {})", match n.op { Op::And => "and", Op::Or => "or", _ => "xor" }, a, b))
            }
            Op::Ite => { let (c, a, b) = (self.boolean(n.a), self.boolean(n.b), self.boolean(n.c)); Some(format!("(ite {} {} {})", c, a, b)) }
            Op::Eq if self.d.w(n.a) == 1 => { let (a, b) = (self.boolean(n.a), self.boolean(n.b)); Some(format!("(= {} {})", a, b)) }
            Op::Eq => { let (a, b) = (self.value(n.a), self.value(n.b)); Some(self.compare("=", a, b)) }
            Op::Ult if self.d.w(n.a) > 1 => {
                let (x, y) = (self.node(n.a), self.cu(n.b));
                match (x.op, y) {
                    // both below a power of two
                    (Op::Or, Some(c)) if c > 0 && c & (c - 1) == 0 => { let (a, b) = (self.value(x.a), self.value(x.b)); Some(format!("(and (< {} {}) (< {} {}))", a.text(), c, b.text(), c)) }
                    _ => { let (a, b) = (self.value(n.a), self.value(n.b)); Some(self.compare("<", a, b)) }
                }
            }
            Op::Slt if self.d.w(n.a) > 1 && self.d.w(n.a) <= 120 => {
                let w = self.d.w(n.a);
                let (s, t) = (self.sign(n.a).unwrap(), self.sign(n.b).unwrap());
                let (a, b) = (self.value(n.a).add(&Lin::atom(s), -pow(w)), self.value(n.b).add(&Lin::atom(t), -pow(w)));
                match (a, b) { (Some(a), Some(b)) => Some(self.compare("<", Rc::new(a), Rc::new(b))), _ => None }
            }
            Op::Extract if self.d.w(n.a) <= 120 => {
                let (q, v);
                if n.b == 0 { v = self.modulo(n.a, 1); Some(format!("(= {} 1)", v.text())) }
                else {
                    match self.divide(n.a, pow(n.b)) {
                        None => None,
                        Some((k, _)) => {
                            q = k;
                            if n.b + 1 == self.d.w(n.a) { Some(format!("(= i{} 1)", q)) } else {
                                let (h, b) = (self.fresh(Some((0, i128::MAX))), self.fresh(Some((0, 1))));
                                let _ = write!(self.buf, "(assert (= i{} (+ (* 2 i{}) i{})))\n", q, h, b);
                                Some(format!("(= i{} 1)", b))
                            }
                        }
                    }
                }
            }
            _ => None,
        };
        let s = format!("c{}", i);
        match t {
            Some(t) if t.len() < 12 => { self.bools.insert(i, t.clone()); return t; }
            Some(t) => { let _ = write!(self.buf, "(define-fun {} () Bool {})\n", s, t); }
            None => { let _ = write!(self.buf, "(declare-const {} Bool)\n", s); }
        }
        self.bools.insert(i, s.clone());
        s
    }
}
