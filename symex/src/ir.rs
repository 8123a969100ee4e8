//! Lazy parser for the textual LLVM IR rustc emits.
use crate::expr::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { C(u128), N(Id), A(Rc<Vec<V>>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Float(u32), Arr(u64, Rc<Ty>), Vect(u64, Rc<Ty>), Struct(Vec<Rc<Ty>>, bool), Other }
pub type T = Rc<Ty>;

pub fn width(t: &Ty) -> Option<u32> { match t { Ty::Int(w) | Ty::Float(w) => Some(*w), Ty::Ptr => Some(64), _ => None } }
pub fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) | Ty::Float(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, _ => 8 },
        Ty::Ptr => 8,
        Ty::Arr(_, e) => align_of(e),
        Ty::Vect(n, e) => (n * size_of(e)).next_power_of_two(),
        Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|x| align_of(x)).max().unwrap_or(1) },
        _ => 1,
    }
}
pub fn store_size(t: &Ty) -> u64 { match t { Ty::Int(w) | Ty::Float(w) => ((w + 7) / 8) as u64, _ => size_of(t) } }
fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }
pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(_) | Ty::Float(_) => up(store_size(t), align_of(t)),
        Ty::Ptr => 8,
        Ty::Arr(n, e) => n * size_of(e),
        Ty::Vect(n, e) => n * size_of(e),
        Ty::Struct(f, p) => { let mut o = 0; for x in f { if !p { o = up(o, align_of(x)); } o += size_of(x); } if *p { o } else { up(o, align_of(t)) } }
        _ => 0,
    }
}
pub fn field_off(t: &Ty, i: usize) -> u64 {
    match t {
        Ty::Struct(f, p) => { let mut o = 0; for (k, x) in f.iter().enumerate() { if !p { o = up(o, align_of(x)); } if k == i { return o; } o += size_of(x); } panic!("field") }
        Ty::Arr(_, e) | Ty::Vect(_, e) => i as u64 * size_of(e),
        _ => panic!("field_off of {:?}", t),
    }
}
pub fn field_ty(t: &Ty, i: usize) -> T { match t { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, e) | Ty::Vect(_, e) => e.clone(), _ => panic!("field_ty of {:?}", t) } }
pub fn n_fields(t: &Ty) -> usize { match t { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize, _ => panic!() } }

#[derive(Clone, Debug)]
pub enum O { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext, Same }

#[derive(Clone, Debug)]
pub enum Callee { Name(Rc<str>), Ptr(O) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BOp, u32, O, O),
    Icmp(Pred, u32, O, O),
    Select(O, O, O, T),
    Load(T, O),
    Store(T, O, O),
    Alloca(u64),
    Gep(O, u64, Vec<(O, u32, u64)>),
    Cast(Cast, u32, u32, O),
    /// between vectors and integers: element width and count (0: scalar) of either side
    Bits(u32, u64, u32, u64, O),
    Call { callee: Callee, args: Vec<(T, O)>, ret: T, noreturn: bool },
    Extract(O, Vec<usize>),
    Insert(O, O, Vec<usize>),
    Copy(O),
    CmpXchg(T, O, O, O),
    Rmw(Rc<str>, T, O, O),
    ExtractElt(O, O),
    InsertElt(O, O, O),
    Shuffle(O, O, Vec<u32>, u64),
    /// floating point, on concrete values only: operation, width, operands
    Flt(Rc<str>, u32, Vec<O>),
    /// conversion: operation, source width, destination width
    FCast(Rc<str>, u32, u32, O),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Ins { pub i: I, pub dst: u32, pub dbg: u32 }
pub const NODST: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Term { Br(u32), Cond(O, u32, u32), Switch(u32, O, u32, Vec<(u128, u32)>), Ret(Option<O>), Unreachable, Bad(String) }
pub struct Block { pub phis: Vec<(u32, Vec<(u32, O)>)>, pub ins: Vec<Ins>, pub term: Term, pub tdbg: u32, pub cov: Cell<u32> }
pub struct Func { pub name: Rc<str>, pub id: u32, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block> }

#[derive(Clone, Debug, PartialEq)]
enum Tok { L(String), G(String), N(String), W(String), S(Vec<u8>), C(Vec<u8>), P(u8), M(String), A(u32) }

fn lex(s: &[u8]) -> Vec<(Tok, u32)> {
    let mut out = vec![];
    let mut i = 0;
    let mut line = 0u32;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$';
    let quoted = |i: &mut usize| -> Vec<u8> {
        let mut v = vec![];
        *i += 1;
        while s[*i] != b'"' {
            if s[*i] == b'\\' {
                if s[*i + 1] == b'\\' { v.push(b'\\'); *i += 2; continue; }
                v.push(u8::from_str_radix(std::str::from_utf8(&s[*i + 1..*i + 3]).unwrap(), 16).unwrap());
                *i += 3;
            } else { v.push(s[*i]); *i += 1; }
        }
        *i += 1;
        v
    };
    while i < s.len() {
        let c = s[i];
        match c {
            b'\n' => { line += 1; i += 1; }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => while i < s.len() && s[i] != b'\n' { i += 1 },
            b'%' | b'@' => {
                i += 1;
                let n = if s[i] == b'"' { String::from_utf8_lossy(&quoted(&mut i)).into_owned() } else {
                    let b = i;
                    while i < s.len() && idc(s[i]) { i += 1; }
                    String::from_utf8_lossy(&s[b..i]).into_owned()
                };
                out.push((if c == b'%' { Tok::L(n) } else { Tok::G(n) }, line));
            }
            b'!' => {
                i += 1;
                if i < s.len() && s[i] == b'"' { quoted(&mut i); out.push((Tok::M(String::new()), line)); continue; }
                let b = i;
                while i < s.len() && (idc(s[i])) { i += 1; }
                out.push((Tok::M(String::from_utf8_lossy(&s[b..i]).into_owned()), line));
            }
            b'#' => {
                i += 1;
                let b = i;
                while i < s.len() && s[i].is_ascii_digit() { i += 1; }
                out.push((Tok::A(std::str::from_utf8(&s[b..i]).unwrap().parse().unwrap_or(0)), line));
            }
            b'"' => { let v = quoted(&mut i); out.push((Tok::S(v), line)); }
            b'c' if i + 1 < s.len() && s[i + 1] == b'"' => { i += 1; let v = quoted(&mut i); out.push((Tok::C(v), line)); }
            b'0'..=b'9' => { let b = i; while i < s.len() && (idc(s[i]) || s[i] == b'+') { i += 1; } out.push((Tok::N(String::from_utf8_lossy(&s[b..i]).into_owned()), line)); }
            b'-' => { let b = i; i += 1; while i < s.len() && (idc(s[i]) || s[i] == b'+') { i += 1; } out.push((Tok::N(String::from_utf8_lossy(&s[b..i]).into_owned()), line)); }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => { let b = i; while i < s.len() && idc(s[i]) { i += 1; } out.push((Tok::W(String::from_utf8_lossy(&s[b..i]).into_owned()), line)); }
            c => { out.push((Tok::P(c), line)); i += 1; }
        }
    }
    out
}

pub fn parse_int(s: &str, w: u32) -> Option<BV> {
    // decimal of arbitrary size
    let (neg, d) = if let Some(x) = s.strip_prefix('-') { (true, x) } else { (false, s) };
    if !d.bytes().all(|c| c.is_ascii_digit()) { return None; }
    let n = limbs(w.max(64));
    let mut v = vec![0u64; n];
    for c in d.bytes() {
        let mut carry = (c - b'0') as u128;
        for l in v.iter_mut() { let t = *l as u128 * 10 + carry; *l = t as u64; carry = t >> 64; }
    }
    let v = mask(v, w);
    Some(if neg { bneg(&v, w) } else { v })
}

pub const FN_BASE: u32 = 0x4000_0000;
pub const GL_BASE: u32 = 0x2000_0000;
pub const REL_TAG: u32 = 0x5E00_0000;

pub struct Module {
    text: Vec<u8>,
    fn_pos: HashMap<Rc<str>, (usize, usize)>,
    decl_nr: HashMap<Rc<str>, bool>,
    gl_pos: HashMap<Rc<str>, (usize, usize)>,
    ty_pos: HashMap<String, (usize, usize)>,
    ty_cache: HashMap<String, T>,
    attr_nr: HashMap<u32, bool>,
    pub fn_ids: HashMap<Rc<str>, u32>,
    pub fn_names: Vec<Rc<str>>,
    pub gl_ids: HashMap<Rc<str>, u32>,
    pub gl_names: Vec<Rc<str>>,
    pub rel: Vec<u64>,
    pub funcs: HashMap<u32, Rc<Func>>,
    meta_pos: HashMap<u32, (usize, usize)>,
    field: HashMap<String, Option<bool>>,
}

struct P<'m> { t: Vec<(Tok, u32)>, i: usize, m: &'m mut Module, d: &'m mut Dag }

fn memfind(h: &[u8], n: &[u8]) -> bool { h.windows(n.len()).any(|w| w == n) }

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let mut m = Module { text: vec![], fn_pos: HashMap::new(), decl_nr: HashMap::new(), gl_pos: HashMap::new(), ty_pos: HashMap::new(), ty_cache: HashMap::new(), attr_nr: HashMap::new(), fn_ids: HashMap::new(), fn_names: vec![], gl_ids: HashMap::new(), gl_names: vec![], rel: vec![], funcs: HashMap::new(), meta_pos: HashMap::new(), field: HashMap::new() };
        let name_at = |l: &[u8], sig: u8| -> Option<String> {
            let p = l.iter().position(|c| *c == sig)?;
            let r = &l[p + 1..];
            if r[0] == b'"' { let e = r[1..].iter().position(|c| *c == b'"')?; Some(String::from_utf8_lossy(&r[1..1 + e]).into_owned()) }
            else { let e = r.iter().position(|c| !(c.is_ascii_alphanumeric() || b"_.-$".contains(c)))?; Some(String::from_utf8_lossy(&r[..e]).into_owned()) }
        };
        let nr_attrs = |l: &[u8]| -> Vec<u32> {
            let s = String::from_utf8_lossy(l).into_owned();
            let tail = s.rfind(')').map(|p| s[p..].to_string()).unwrap_or_default();
            tail.split('#').skip(1).filter_map(|x| x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()).collect()
        };
        let mut pend: Vec<(Rc<str>, Vec<u32>)> = vec![];
        let mut pos = 0;
        while pos < text.len() {
            let e = text[pos..].iter().position(|c| *c == b'\n').map_or(text.len(), |x| pos + x);
            let l = &text[pos..e];
            if l.starts_with(b"define ") {
                let n: Rc<str> = name_at(l, b'@').unwrap().into();
                pend.push((n.clone(), nr_attrs(l)));
                let mut q = e;
                loop {
                    q += 1;
                    let e2 = text[q..].iter().position(|c| *c == b'\n').map_or(text.len(), |x| q + x);
                    if &text[q..e2] == b"}" { q = e2; break; }
                    q = e2;
                }
                m.fn_pos.insert(n, (pos, q));
                pos = q + 1;
                continue;
            } else if l.starts_with(b"declare ") {
                let n: Rc<str> = name_at(l, b'@').unwrap().into();
                pend.push((n, nr_attrs(l)));
            } else if l.starts_with(b"@") {
                let n: Rc<str> = name_at(l, b'@').unwrap().into();
                m.gl_pos.insert(n, (pos, e));
            } else if l.starts_with(b"%") {
                m.ty_pos.insert(name_at(l, b'%').unwrap(), (pos, e));
            } else if l.starts_with(b"attributes #") {
                let s = String::from_utf8_lossy(l);
                let n: u32 = s[12..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
                m.attr_nr.insert(n, s.split_whitespace().any(|w| w == "noreturn"));
            } else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let n: u32 = String::from_utf8_lossy(&l[1..12.min(l.len())]).chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
                m.meta_pos.insert(n, (pos, e));
            }
            pos = e + 1;
        }
        for (n, a) in pend { let nr = a.iter().any(|x| m.attr_nr.get(x) == Some(&true)); m.decl_nr.insert(n, nr); }
        m.text = text;
        m
    }
    /// the prime field a multiplication is modulo: Some(false) for BN254's scalar field, Some(true) for its base field
    pub fn field_of(&mut self, n: &str) -> Option<bool> {
        if let Some(r) = self.field.get(n) { return *r; }
        let mut todo = vec![(n.to_string(), 0)];
        let mut seen = std::collections::HashSet::new();
        let mut r = None;
        while let (None, Some((f, depth))) = (r, todo.pop()) {
            let Some((a, b)) = self.fn_pos.get(&f[..]).cloned() else { continue };
            let t = &self.text[a..b];
            let has = |x: u64| memfind(t, (x as i64).to_string().as_bytes());
            r = match (has(4891460686036598785), has(4332616871279656263)) { (true, false) => Some(false), (false, true) => Some(true), _ => None };
            if r.is_none() {
                // the modulus may be a constant in memory
                let text = String::from_utf8_lossy(t).into_owned();
                for g in text.split('@').skip(1) {
                    let g: String = g.chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '.').collect();
                    if let Some((a, b)) = self.gl_pos.get(&g[..]).cloned() {
                        let t = &self.text[a..b];
                        if memfind(t, b"\\01\\00\\00\\00\\93\\F5\\E1C") { r = Some(false) } else if memfind(t, b"G\\FD|\\D8\\16\\8C <") { r = Some(true) }
                    }
                }
            }
            let t = &self.text[a..b];
            if depth >= 4 { continue; }
            for l in String::from_utf8_lossy(t).lines() {
                if !l.contains("call ") { continue; }
                for c in l.split('@').skip(1) {
                    let g: String = if let Some(q) = c.strip_prefix('"') { q.split('"').next().unwrap().into() } else { c.chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '.' || *c == '$').collect() };
                    if (g.contains("ark_") || g.contains("array")) && seen.insert(g.clone()) { todo.push((g, depth + 1)); }
                }
            }
        }
        self.field.insert(n.into(), r);
        r
    }
    pub fn has_body(&self, n: &str) -> bool { self.fn_pos.contains_key(n) }
    pub fn functions(&self) -> impl Iterator<Item = &Rc<str>> { self.fn_pos.keys() }
    pub fn fn_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.fn_ids.get(n) { return *i; }
        let r: Rc<str> = n.into();
        let i = FN_BASE + self.fn_names.len() as u32;
        self.fn_names.push(r.clone());
        self.fn_ids.insert(r, i);
        i
    }
    /// address of a global or function
    pub fn addr(&mut self, n: &str) -> u64 {
        if self.fn_pos.contains_key(n) || (self.decl_nr.contains_key(n) && !self.gl_pos.contains_key(n)) { return (self.fn_id(n) as u64) << 32; }
        if let Some(i) = self.gl_ids.get(n) { return (*i as u64) << 32; }
        // aliases
        if let Some((a, b)) = self.gl_pos.get(n).cloned() {
            let s = String::from_utf8_lossy(&self.text[a..b]).into_owned();
            if s.contains(" alias ") { let t = s.rsplit('@').next().unwrap().trim_matches('"').to_string(); return self.addr(&t); }
        }
        let r: Rc<str> = n.into();
        let i = GL_BASE + self.gl_names.len() as u32;
        self.gl_names.push(r.clone());
        self.gl_ids.insert(r, i);
        (i as u64) << 32
    }
    /// type and initial value of global number `gid`
    pub fn global_init(&mut self, d: &mut Dag, gid: u32) -> (T, Option<V>) {
        let n = self.gl_names[(gid - GL_BASE) as usize].clone();
        let Some((a, b)) = self.gl_pos.get(&n).cloned() else { return (Rc::new(Ty::Arr(64, Rc::new(Ty::Int(8)))), None) };
        let toks = lex(&self.text[a..b]);
        let mut p = P { t: toks, i: 0, m: self, d };
        let mut external = false;
        // name = attrs global|constant type init
        loop {
            match p.next() { Tok::W(w) if w == "global" || w == "constant" => break, Tok::W(w) if w == "external" || w == "extern_weak" => external = true, _ => {} }
        }
        let t = p.ty();
        if external { return (t, None); }
        let v = p.constant(&t);
        (t, Some(v))
    }
    fn named(&mut self, n: &str, d: &mut Dag) -> T {
        if let Some(t) = self.ty_cache.get(n) { return t.clone(); }
        let Some((a, b)) = self.ty_pos.get(n).cloned() else { return Rc::new(Ty::Other) };
        let toks = lex(&self.text[a..b]);
        let mut p = P { t: toks, i: 0, m: self, d };
        p.next(); p.next(); p.next(); // %x = type
        let t = if let Tok::W(w) = p.peek() { if w == "opaque" { Rc::new(Ty::Other) } else { p.ty() } } else { p.ty() };
        self.ty_cache.insert(n.into(), t.clone());
        t
    }
    pub fn func(&mut self, d: &mut Dag, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(&id) { return Some(f.clone()); }
        let n = self.fn_names[(id - FN_BASE) as usize].clone();
        let (a, b) = self.fn_pos.get(&n).cloned()?;
        let toks = lex(&self.text[a..b]);
        let f = Rc::new(P { t: toks, i: 0, m: self, d }.function(n, id));
        self.funcs.insert(id, f.clone());
        Some(f)
    }
    fn meta_text(&self, n: u32) -> Option<String> { self.meta_pos.get(&n).map(|(a, b)| String::from_utf8_lossy(&self.text[*a..*b]).into_owned()) }
    /// (file, line, function) of a debug location, following inlined scopes
    pub fn loc(&self, mut n: u32) -> Vec<(String, u32, String)> {
        let field = |s: &str, k: &str| -> Option<u32> { let p = s.find(&format!("{}: !", k))?; s[p + k.len() + 3..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() };
        let num = |s: &str, k: &str| -> Option<u32> { let p = s.find(&format!("{}: ", k))?; s[p + k.len() + 2..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() };
        let st = |s: &str, k: &str| -> Option<String> { let p = s.find(&format!("{}: \"", k))?; let r = &s[p + k.len() + 3..]; Some(r[..r.find('"')?].to_string()) };
        let mut out = vec![];
        for _ in 0..64 {
            let Some(s) = self.meta_text(n) else { break };
            let line = num(&s, "line").unwrap_or(0);
            let mut sc = field(&s, "scope");
            while let Some(x) = sc {
                let Some(t) = self.meta_text(x) else { break };
                if t.contains("DISubprogram(") {
                    let f = field(&t, "file").and_then(|f| self.meta_text(f)).and_then(|f| st(&f, "filename")).unwrap_or_default();
                    let dir = field(&t, "file").and_then(|f| self.meta_text(f)).and_then(|f| st(&f, "directory")).unwrap_or_default();
                    let f = if f.starts_with('/') { f } else { format!("{}/{}", dir, f) };
                    out.push((f, line, st(&t, "name").unwrap_or_default()));
                    break;
                }
                sc = field(&t, "scope");
            }
            match field(&s, "inlinedAt") { Some(x) => n = x, None => break }
        }
        out
    }
}

impl<'m> P<'m> {
    fn fname(&self) -> String { format!("{:?}", self.t.iter().find(|x| matches!(x.0, Tok::G(_))).map(|x| x.0.clone())) }
    fn peek(&self) -> Tok { self.t.get(self.i).map(|x| x.0.clone()).unwrap_or(Tok::P(0)) }
    fn next(&mut self) -> Tok { let t = self.peek(); self.i += 1; t }
    fn is_p(&self, c: u8) -> bool { matches!(self.t.get(self.i), Some((Tok::P(x), _)) if *x == c) }
    fn eat(&mut self, c: u8) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: u8) { if !self.eat(c) { panic!("expected {:?}, found {:?} near {:?}", c as char, self.peek(), &self.t[self.i.saturating_sub(8)..(self.i + 4).min(self.t.len())]) } }
    fn is_w(&self, w: &str) -> bool { matches!(self.t.get(self.i), Some((Tok::W(x), _)) if x == w) }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn num(&mut self) -> u64 { match self.next() { Tok::N(s) => s.parse().unwrap(), t => panic!("number, found {:?}", t) } }
    fn balanced(&mut self) { // at '('
        let mut d = 0;
        loop {
            match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => { d -= 1; if d == 0 { return; } } Tok::P(0) => return, _ => {} }
        }
    }
    fn ty(&mut self) -> T {
        let t = match self.next() {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => { if self.eat_w("addrspace") { self.balanced(); } Ty::Ptr }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "label" | "metadata" | "token" | "opaque" => Ty::Other,
                w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                w => panic!("type {}", w),
            },
            Tok::L(n) => return self.m.named(&n, self.d),
            Tok::P(b'[') => { let n = self.num(); self.next(); let e = self.ty(); self.exp(b']'); Ty::Arr(n, e) }
            Tok::P(b'{') => Ty::Struct(self.fields(b'}'), false),
            Tok::P(b'<') => {
                if self.eat(b'{') { let f = self.fields(b'}'); self.exp(b'>'); Ty::Struct(f, true) }
                else { let n = self.num(); self.next(); let e = self.ty(); self.exp(b'>'); Ty::Vect(n, e) }
            }
            t => panic!("type, found {:?} near {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 4).min(self.t.len())]),
        };
        let t = Rc::new(t);
        // function types in calls: ret (args...)
        t
    }
    fn fields(&mut self, end: u8) -> Vec<T> {
        let mut f = vec![];
        if self.eat(end) { return f; }
        loop { f.push(self.ty()); if !self.eat(b',') { break; } }
        self.exp(end);
        f
    }
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::W(w) => {
                    if matches!(w.as_str(), "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "asm" | "none" | "select" | "icmp" | "xor" | "and" | "or" | "shl" | "lshr" | "zext" | "sext" | "mul" | "blockaddress" | "splat") { return; }
                    self.i += 1;
                    if w == "align" { if let Tok::N(_) = self.peek() { self.i += 1; } }
                    if self.is_p(b'(') { self.balanced(); }
                }
                Tok::S(_) => { self.i += 1; if self.eat(b'=') { self.i += 1; } }
                _ => return,
            }
        }
    }
    fn zero(&mut self, t: &Ty) -> V {
        match t {
            Ty::Int(w) if *w > 128 => V::N(self.d.cu(0, *w)),
            Ty::Struct(f, _) => { let v = f.iter().map(|x| self.zero(x)).collect(); V::A(Rc::new(v)) }
            Ty::Arr(n, e) | Ty::Vect(n, e) => { let z = self.zero(e); V::A(Rc::new(vec![z; *n as usize])) }
            _ => V::C(0),
        }
    }
    fn constant(&mut self, t: &T) -> V {
        match self.next() {
            Tok::N(s) => match &**t {
                Ty::Int(w) => { let v = parse_int(&s, *w).unwrap_or_else(|| bv(0, *w)); if *w <= 128 { V::C(to_u128(&v)) } else { V::N(self.d.constant(v, *w)) } }
                Ty::Float(w) => {
                    if let Some(h) = s.strip_prefix("0x") { let b = u64::from_str_radix(h, 16).unwrap_or(0); if *w == 32 { V::C((f64::from_bits(b) as f32).to_bits() as u128) } else { V::C(b as u128) } }
                    else { let x: f64 = s.parse().unwrap_or(0.0); if *w == 32 { V::C((x as f32).to_bits() as u128) } else { V::C(x.to_bits() as u128) } }
                }
                _ => panic!("number of type {:?}", t),
            },
            Tok::G(n) => V::C(self.m.addr(&n) as u128),
            Tok::C(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Tok::P(b'[') | Tok::P(b'{') => self.elems(),
            Tok::P(b'<') => { if self.eat(b'{') { let v = self.elems(); self.exp(b'>'); v } else { self.elems() } }
            Tok::W(w) => match w.as_str() {
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => self.zero(t),
                "false" => V::C(0),
                "true" => V::C(1),
                "splat" => { self.exp(b'('); let et = self.ty(); let e = self.constant(&et); self.exp(b')'); V::A(Rc::new(vec![e; n_fields(t)])) }
                "getelementptr" => {
                    while let Tok::W(_) = self.peek() { self.i += 1; if self.is_p(b'(') && self.t[self.i.saturating_sub(1)].0 != Tok::W("inbounds".into()) { self.balanced(); } }
                    self.exp(b'(');
                    let mut bt = self.ty();
                    self.exp(b',');
                    let pt = self.ty();
                    let V::C(mut a) = self.constant(&pt) else { panic!() };
                    let mut first = true;
                    while self.eat(b',') {
                        self.eat_w("inrange");
                        let it = self.ty();
                        let w = width(&it).unwrap();
                        let V::C(x) = self.constant(&it) else { panic!() };
                        let x = to_u128(&bsext(&bv(x, w), w, 64)) as u64;
                        if first { a = (a as u64).wrapping_add(x.wrapping_mul(size_of(&bt))) as u128; first = false; }
                        else { a = (a as u64).wrapping_add(match &*bt { Ty::Struct(..) => field_off(&bt, x as usize), _ => x.wrapping_mul(size_of(&field_ty(&bt, 0))) }) as u128; bt = field_ty(&bt, x as usize); }
                    }
                    self.exp(b')');
                    V::C(a)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    self.exp(b'(');
                    let st = self.ty();
                    let start = self.i;
                    let v = self.constant(&st);
                    let end = self.i;
                    self.eat_w("to");
                    let dt = self.ty();
                    self.exp(b')');
                    let V::C(x) = v else { return v };
                    let (sw, dw) = (width(&st).unwrap(), width(&dt).unwrap());
                    if w == "trunc" && dw == 32 && self.t[start..end].iter().any(|t| t.0 == Tok::W("sub".into())) {
                        // relative lookup table entry: remember the target
                        let mut gl = self.t[start..end].iter().filter_map(|t| if let Tok::G(n) = &t.0 { Some(n.clone()) } else { None });
                        let n = gl.next().unwrap();
                        let base = gl.next().unwrap();
                        let (a, b) = (self.m.addr(&n), self.m.addr(&base));
                        let target = a.wrapping_add((x as u64).wrapping_sub(a.wrapping_sub(b)) & 0xffff_ffff).wrapping_add(0);
                        // offsets inside either constant are folded into x; both bases are multiples of 2^32
                        self.m.rel.push(target);
                        return V::C((REL_TAG | (self.m.rel.len() as u32 - 1)) as u128);
                    }
                    V::C(if w == "sext" { to_u128(&bsext(&bv(x, sw), sw, dw)) } else { to_u128(&bv(x, dw)) })
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                    while let Tok::W(_) = self.peek() { self.i += 1; }
                    self.exp(b'(');
                    let t1 = self.ty(); let a = self.constant(&t1); self.exp(b',');
                    let t2 = self.ty(); let b = self.constant(&t2); self.exp(b')');
                    let (V::C(a), V::C(b)) = (a, b) else { panic!() };
                    let r = match w.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "mul" => a.wrapping_mul(b), "shl" => a << b, _ => a >> b };
                    V::C(to_u128(&bv(r, width(&t1).unwrap())))
                }
                "icmp" => {
                    let Tok::W(p) = self.next() else { panic!() };
                    self.exp(b'(');
                    let t1 = self.ty(); let a = self.constant(&t1); self.exp(b',');
                    let t2 = self.ty(); let b = self.constant(&t2); self.exp(b')');
                    let (V::C(a), V::C(b)) = (a, b) else { panic!() };
                    V::C(match p.as_str() { "eq" => a == b, "ne" => a != b, "ult" => a < b, "ule" => a <= b, "ugt" => a > b, "uge" => a >= b, p => panic!("constant icmp {}", p) } as u128)
                }
                "select" => {
                    self.exp(b'(');
                    let t1 = self.ty(); let c = self.constant(&t1); self.exp(b',');
                    let t2 = self.ty(); let a = self.constant(&t2); self.exp(b',');
                    let t3 = self.ty(); let b = self.constant(&t3); self.exp(b')');
                    if let V::C(0) = c { b } else { a }
                }
                w => panic!("constant {} {:?}", w, &self.t[self.i.saturating_sub(5)..(self.i + 10).min(self.t.len())]),
            },
            t => panic!("constant, found {:?}", t),
        }
    }
    fn elems(&mut self) -> V {
        let mut v = vec![];
        if self.eat(b']') || self.eat(b'}') || self.eat(b'>') { return V::A(Rc::new(v)); }
        loop { let t = self.ty(); v.push(self.constant(&t)); if !self.eat(b',') { break; } }
        self.i += 1;
        V::A(Rc::new(v))
    }

    fn function(mut self, name: Rc<str>, id: u32) -> Func {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        macro_rules! reg { ($n:expr) => {{ let n: String = $n; match regs.get(&n) { Some(r) => *r, None => { let r = nregs; nregs += 1; regs.insert(n, r); r } } }}; }
        // header
        while !matches!(self.peek(), Tok::G(_)) { self.i += 1; }
        self.i += 1;
        self.exp(b'(');
        let mut params = vec![];
        let mut k = 0;
        while !self.eat(b')') {
            if self.eat(b',') { continue; }
            if self.eat(b'.') { continue; }
            if let Tok::W(w) = self.peek() { if w == "..." { self.i += 1; continue; } }
            self.ty();
            self.attrs();
            let n = if let Tok::L(n) = self.peek() { self.i += 1; n } else { k.to_string() };
            if n == k.to_string() { k += 1; }
            params.push(reg!(n));
        }
        let hl = self.t[self.i - 1].1;
        while self.i < self.t.len() && self.t[self.i].1 == hl { self.i += 1; }
        // block names
        let mut bnames: HashMap<String, u32> = HashMap::new();
        let mut order = vec![];
        {
            let mut i = self.i;
            let first_label = matches!(self.t.get(i + 1), Some((Tok::P(b':'), _)));
            if !first_label { bnames.insert(k.to_string(), 0); order.push(k.to_string()); }
            let mut last = u32::MAX;
            while i < self.t.len() {
                if self.t[i].1 != last {
                    last = self.t[i].1;
                    if let Some((Tok::P(b':'), _)) = self.t.get(i + 1) {
                        let n = match &self.t[i].0 { Tok::W(w) => w.clone(), Tok::N(n) => n.clone(), Tok::S(s) => String::from_utf8_lossy(s).into_owned(), t => panic!("label {:?}", t) };
                        bnames.insert(n.clone(), order.len() as u32);
                        order.push(n);
                    }
                }
                i += 1;
            }
        }
        let mut blocks: Vec<Block> = (0..order.len()).map(|_| Block { phis: vec![], ins: vec![], term: Term::Bad("no terminator".into()), tdbg: 0, cov: Cell::new(0) }).collect();
        let mut cur = 0usize;
        macro_rules! lbl { () => {{ self.eat_w("label"); match self.next() { Tok::L(n) => *bnames.get(&n).unwrap_or_else(|| panic!("label {} in {}", n, self.fname())), t => panic!("label {:?}", t) } }}; }
        macro_rules! opnd { ($t:expr) => {{ if let Tok::L(n) = self.peek() { self.i += 1; O::R(reg!(n)) } else { O::K(self.constant($t)) } }}; }
        macro_rules! tyopnd { () => {{ let t = self.ty(); self.attrs(); let o = opnd!(&t); (t, o) }}; }
        while self.i < self.t.len() {
            let start = self.i;
            let line0 = self.t[start].1;
            if let Some((Tok::P(b':'), _)) = self.t.get(self.i + 1) {
                let n = match &self.t[self.i].0 { Tok::W(w) => w.clone(), Tok::N(n) => n.clone(), Tok::S(s) => String::from_utf8_lossy(s).into_owned(), _ => unreachable!() };
                cur = bnames[&n] as usize;
                self.i += 2;
                continue;
            }
            if self.is_p(b'}') { break; }
            let mut dst = NODST;
            if let (Tok::L(n), Some((Tok::P(b'='), _))) = (self.peek(), self.t.get(self.i + 1)) { dst = reg!(n); self.i += 2; }
            let Tok::W(mut op) = self.next() else { panic!("instruction {:?}", self.t[start]) };
            if matches!(op.as_str(), "tail" | "musttail" | "notail") { op = match self.next() { Tok::W(w) => w, _ => panic!() }; }
            let mut term: Option<Term> = None;
            let mut ins: Option<I> = None;
            let mut skip = false;
            match op.as_str() {
                "ret" => { let t = self.ty(); term = Some(Term::Ret(if *t == Ty::Void { None } else { Some(opnd!(&t)) })); }
                "br" => {
                    if self.is_w("label") { term = Some(Term::Br(lbl!())); }
                    else { let (_, c) = tyopnd!(); self.exp(b','); let a = lbl!(); self.exp(b','); let b = lbl!(); term = Some(Term::Cond(c, a, b)); }
                }
                "switch" => {
                    let (t, v) = tyopnd!();
                    self.exp(b',');
                    let def = lbl!();
                    self.exp(b'[');
                    let mut cs = vec![];
                    while !self.eat(b']') { let ct = self.ty(); let V::C(c) = self.constant(&ct) else { panic!() }; self.exp(b','); let b = lbl!(); cs.push((c, b)); }
                    term = Some(Term::Switch(width(&t).unwrap(), v, def, cs));
                }
                "unreachable" => term = Some(Term::Unreachable),
                "resume" | "landingpad" | "cleanupret" | "catchret" => { term = if op == "resume" { Some(Term::Bad("resume".into())) } else { None }; if op == "landingpad" { ins = Some(I::Unsupported("landingpad".into())); } skip = true; }
                "phi" => {
                    let t = self.ty();
                    let mut inc = vec![];
                    loop { self.exp(b'['); let v = opnd!(&t); self.exp(b','); let Tok::L(b) = self.next() else { panic!() }; inc.push((*bnames.get(&b).unwrap_or_else(|| panic!("label {} in {}", b, self.fname())), v)); self.exp(b']'); if !(self.is_p(b',') && matches!(self.t.get(self.i + 1), Some((Tok::P(b'['), _)))) { break; } self.i += 1; }
                    blocks[cur].phis.push((dst, inc));
                    skip = true;
                }
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                    while let Tok::W(w) = self.peek() { if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint") { self.i += 1; } else { break; } }
                    let t = self.ty();
                    let a = opnd!(&t);
                    self.exp(b',');
                    let b = opnd!(&t);
                    let w = width(if let Ty::Vect(_, e) = &*t { e } else { &t }).unwrap();
                    let o = match op.as_str() { "add" => BOp::Add, "sub" => BOp::Sub, "mul" => BOp::Mul, "udiv" => BOp::UDiv, "sdiv" => BOp::SDiv, "urem" => BOp::URem, "srem" => BOp::SRem, "shl" => BOp::Shl, "lshr" => BOp::LShr, "ashr" => BOp::AShr, "and" => BOp::And, "or" => BOp::Or, _ => BOp::Xor };
                    ins = Some(I::Bin(o, w, a, b));
                }
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" => {
                    let mut name = op.clone();
                    while let Tok::W(w) = self.peek() { if matches!(w.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { self.i += 1; } else { break; } }
                    if op == "fcmp" { let Tok::W(p) = self.next() else { panic!() }; name = p; }
                    let t = self.ty();
                    let mut v = vec![opnd!(&t)];
                    if op != "fneg" { self.exp(b','); v.push(opnd!(&t)); }
                    ins = Some(match width(&t) { Some(w) => I::Flt(name.as_str().into(), w, v), None => I::Unsupported(format!("vector {}", op)) });
                }
                "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                    let (t, a) = tyopnd!();
                    self.eat_w("to");
                    let dt = self.ty();
                    ins = Some(match (width(&t), width(&dt)) { (Some(x), Some(y)) => I::FCast(op.as_str().into(), x, y, a), _ => I::Unsupported(format!("vector {}", op)) });
                }
                "icmp" => {
                    let Tok::W(p) = self.next() else { panic!() };
                    let t = self.ty();
                    let a = opnd!(&t);
                    self.exp(b',');
                    let b = opnd!(&t);
                    let w = width(if let Ty::Vect(_, e) = &*t { e } else { &t }).unwrap();
                    let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                    ins = Some(I::Icmp(p, w, a, b));
                }
                "select" => { let (_, c) = tyopnd!(); self.exp(b','); let (t, a) = tyopnd!(); self.exp(b','); let (_, b) = tyopnd!(); ins = Some(I::Select(c, a, b, t)); }
                "load" => { self.eat_w("atomic"); self.eat_w("volatile"); let t = self.ty(); self.exp(b','); let (_, p) = tyopnd!(); ins = Some(I::Load(t, p)); }
                "store" => { self.eat_w("atomic"); self.eat_w("volatile"); let (t, v) = tyopnd!(); self.exp(b','); let (_, p) = tyopnd!(); ins = Some(I::Store(t, v, p)); }
                "alloca" => {
                    self.eat_w("inalloca");
                    let t = self.ty();
                    let mut n = 1;
                    if self.is_p(b',') && !matches!(self.t.get(self.i + 1), Some((Tok::W(w), _)) if w == "align") { self.i += 1; if let Tok::W(_) = self.peek() { self.ty(); if let Tok::N(_) = self.peek() { n = self.num(); } else { ins = Some(I::Unsupported("dynamic alloca".into())); } } }
                    if ins.is_none() { ins = Some(I::Alloca(size_of(&t) * n)); }
                }
                "getelementptr" => {
                    while let Tok::W(w) = self.peek() { if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") { self.i += 1; } else { break; } }
                    let mut bt = self.ty();
                    self.exp(b',');
                    let (_, p) = tyopnd!();
                    let mut off = 0u64;
                    let mut dynv = vec![];
                    let mut first = true;
                    let mut bad = false;
                    while self.is_p(b',') && !matches!(self.t.get(self.i + 1), Some((Tok::M(_), _))) {
                        self.i += 1;
                        let (it, o) = tyopnd!();
                        let Some(w) = (match &*it { Ty::Vect(_, e) => width(e), t => width(t) }) else { bad = true; continue };
                        if matches!((&*it, &*bt, first), (Ty::Vect(..), Ty::Struct(..), false)) { bad = true; continue; }
                        if first {
                            first = false;
                            let sz = size_of(&bt);
                            match o { O::K(V::C(x)) => off = off.wrapping_add((to_u128(&bsext(&bv(x, w), w, 64)) as u64).wrapping_mul(sz)), o => dynv.push((o, w, sz)) }
                        } else {
                            match (&*bt.clone(), o) {
                                (Ty::Struct(..), O::K(V::C(x))) => { off = off.wrapping_add(field_off(&bt, x as usize)); bt = field_ty(&bt, x as usize); }
                                (_, O::K(V::C(x))) => { let e = field_ty(&bt, 0); off = off.wrapping_add((to_u128(&bsext(&bv(x, w), w, 64)) as u64).wrapping_mul(size_of(&e))); bt = e; }
                                (_, o) => { let e = field_ty(&bt, 0); dynv.push((o, w, size_of(&e))); bt = e; }
                            }
                        }
                    }
                    ins = Some(if bad { I::Unsupported("vector gep".into()) } else { I::Gep(p, off, dynv) });
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                    while let Tok::W(w) = self.peek() { if matches!(w.as_str(), "nuw" | "nsw" | "nneg") { self.i += 1; } else { break; } }
                    let (t, a) = tyopnd!();
                    self.eat_w("to");
                    let dt = self.ty();
                    let (se, de) = (if let Ty::Vect(_, e) = &*t { e.clone() } else { t.clone() }, if let Ty::Vect(_, e) = &*dt { e.clone() } else { dt.clone() });
                    ins = Some(match (width(&se), width(&de)) {
                        (Some(sw), Some(dw)) if op != "bitcast" || (sw == dw) => I::Cast(match op.as_str() { "sext" => Cast::Sext, _ if dw < sw => Cast::Trunc, _ if dw > sw => Cast::Zext, _ => Cast::Same }, sw, dw, a),
                        (Some(sw), Some(dw)) => I::Bits(sw, if let Ty::Vect(n, _) = &*t { *n } else { 0 }, dw, if let Ty::Vect(n, _) = &*dt { *n } else { 0 }, a),
                        _ => I::Unsupported(format!("{} {:?} to {:?}", op, t, dt)),
                    });
                }
                "freeze" => { let (_, a) = tyopnd!(); ins = Some(I::Copy(a)); }
                "extractvalue" => { let (_, a) = tyopnd!(); let mut ix = vec![]; while self.is_p(b',') && matches!(self.t.get(self.i + 1), Some((Tok::N(_), _))) { self.i += 1; ix.push(self.num() as usize); } ins = Some(I::Extract(a, ix)); }
                "insertvalue" => { let (_, a) = tyopnd!(); self.exp(b','); let (_, v) = tyopnd!(); let mut ix = vec![]; while self.is_p(b',') && matches!(self.t.get(self.i + 1), Some((Tok::N(_), _))) { self.i += 1; ix.push(self.num() as usize); } ins = Some(I::Insert(a, v, ix)); }
                "extractelement" => { let (_, a) = tyopnd!(); self.exp(b','); let (_, i) = tyopnd!(); ins = Some(I::ExtractElt(a, i)); }
                "insertelement" => { let (_, a) = tyopnd!(); self.exp(b','); let (_, v) = tyopnd!(); self.exp(b','); let (_, i) = tyopnd!(); ins = Some(I::InsertElt(a, v, i)); }
                "shufflevector" => {
                    let (t, a) = tyopnd!(); self.exp(b','); let (_, b) = tyopnd!(); self.exp(b',');
                    let mt = self.ty();
                    let V::A(m) = self.constant(&mt) else { panic!() };
                    ins = Some(I::Shuffle(a, b, m.iter().map(|x| if let V::C(c) = x { *c as u32 } else { 0 }).collect(), n_fields(&t) as u64));
                }
                "fence" => { ins = Some(I::Nop); skip = true; }
                "cmpxchg" => { self.eat_w("weak"); self.eat_w("volatile"); let (_, p) = tyopnd!(); self.exp(b','); let (t, a) = tyopnd!(); self.exp(b','); let (_, b) = tyopnd!(); ins = Some(I::CmpXchg(t, p, a, b)); }
                "atomicrmw" => { self.eat_w("volatile"); let Tok::W(o) = self.next() else { panic!() }; let (_, p) = tyopnd!(); self.exp(b','); let (t, v) = tyopnd!(); ins = Some(I::Rmw(o.as_str().into(), t, p, v)); }
                "call" | "invoke" => {
                    // calling convention and return attributes
                    loop {
                        match self.peek() {
                            Tok::W(w) if w == "void" || w == "ptr" || w == "float" || w == "double" || w == "token" || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) => break,
                            Tok::W(w) => { self.i += 1; if w == "align" { if let Tok::N(_) = self.peek() { self.i += 1; } } if self.is_p(b'(') { self.balanced(); } }
                            Tok::S(_) => { self.i += 1; if self.eat(b'=') { self.i += 1; } }
                            _ => break,
                        }
                    }
                    let ret = self.ty();
                    // explicit function type
                    if self.is_p(b'(') { self.balanced(); }
                    let mut asm = false;
                    let callee = match self.next() {
                        Tok::G(n) => Callee::Name(n.as_str().into()),
                        Tok::L(n) => Callee::Ptr(O::R(reg!(n))),
                        Tok::W(w) if w == "asm" => { asm = true; while !self.is_p(b'(') { self.i += 1; } Callee::Name("asm".into()) }
                        Tok::W(w) if w == "null" => Callee::Ptr(O::K(V::C(0))),
                        t => panic!("callee {:?}", t),
                    };
                    self.exp(b'(');
                    let mut args = vec![];
                    while !self.eat(b')') {
                        if self.eat(b',') { continue; }
                        let t = self.ty();
                        if *t == Ty::Other { // metadata
                            let mut d = 0;
                            loop { match self.peek() { Tok::P(b'(') => d += 1, Tok::P(b')') => { if d == 0 { break; } d -= 1; } Tok::P(b',') if d == 0 => break, Tok::P(0) => break, _ => {} } self.i += 1; }
                            continue;
                        }
                        self.attrs();
                        let o = opnd!(&t);
                        args.push((t, o));
                    }
                    let mut nr = if let Callee::Name(n) = &callee { self.m.decl_nr.get(n).copied().unwrap_or(false) } else { false };
                    loop { match self.peek() { Tok::A(n) => { self.i += 1; nr |= self.m.attr_nr.get(&n) == Some(&true); } Tok::P(b'[') if op == "call" => { while !self.eat(b']') { self.i += 1; } } _ => break } }
                    if asm && *ret != Ty::Void { ins = Some(I::Unsupported("inline asm".into())); }
                    else if asm { ins = Some(I::Nop); }
                    else { ins = Some(I::Call { callee, args, ret, noreturn: nr }); }
                    if op == "invoke" {
                        while !self.is_w("to") { self.i += 1; }
                        self.i += 1;
                        let n = lbl!();
                        self.eat_w("unwind");
                        let _ = lbl!();
                        term = Some(Term::Br(n));
                    }
                }
                _ => { ins = Some(I::Unsupported(op.clone())); skip = true; }
            }
            let _ = skip;
            // trailing tokens of this line(s): find !dbg
            let last = self.t[self.i.min(self.t.len()) - 1].1.max(line0);
            let mut dbg = 0;
            while self.i < self.t.len() && self.t[self.i].1 <= last {
                if let Tok::M(m) = &self.t[self.i].0 { if m == "dbg" { if let Some((Tok::M(n), _)) = self.t.get(self.i + 1) { dbg = n.parse().unwrap_or(0); } } }
                self.i += 1;
            }
            if op == "landingpad" { // clauses on following lines
                while let Tok::W(w) = self.peek() { if w == "cleanup" || w == "catch" || w == "filter" { let l = self.t[self.i].1; while self.i < self.t.len() && self.t[self.i].1 == l { self.i += 1; } } else { break; } }
            }
            if let Some(i) = ins { if !matches!(i, I::Nop) { blocks[cur].ins.push(Ins { i, dst, dbg }); } }
            if let Some(t) = term { blocks[cur].term = t; blocks[cur].tdbg = dbg; }
        }
        let _ = memfind;
        Func { name, id, nregs, params, blocks }
    }
}
