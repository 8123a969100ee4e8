//! An SMT solver process spoken to over SMT-LIB 2, with the path condition kept as a stack of scopes.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Answer { Sat(Model), Unsat, Unknown(String) }

/// SMT-LIB text of terms, each defined once
#[derive(Default)]
struct Em { buf: String, defined: HashSet<Id>, vars: Vec<Id>, uf: bool }

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: std::sync::mpsc::Receiver<String>,
    em: Em,
    stack: Vec<Id>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    /// queries the incremental solver gave up on, decided by the portfolio
    pub hard: u64,
    pub quick: bool,
    selftest: bool,
    pub name: String,
    pub timeout_ms: u64,
    log: Option<std::fs::File>,
    seen: HashSet<Id>,
}

fn lit(v: &BV, w: u32) -> String {
    if w == 1 { return (if v[0] & 1 == 1 { "true" } else { "false" }).into(); }
    let mut s = String::with_capacity(w as usize / 4 + 2);
    if w % 4 == 0 {
        s.push_str("#x");
        for i in (0..w / 4).rev() { let _ = write!(s, "{:x}", v[(i / 16) as usize] >> (i % 16 * 4) & 15); }
    } else {
        s.push_str("#b");
        for i in (0..w).rev() { s.push(if v[(i / 64) as usize] >> (i % 64) & 1 == 1 { '1' } else { '0' }); }
    }
    s
}

impl Em {
    fn r(d: &Dag, i: Id) -> String { match d.cval(i) { Some(v) => lit(v, d.w(i)), None => format!("n{}", i) } }
    fn bvr(d: &Dag, i: Id) -> String { if d.w(i) == 1 { format!("(ite {} #b1 #b0)", Self::r(d, i)) } else { Self::r(d, i) } }
    fn define(&mut self, d: &Dag, i: Id) {
        if d.cval(i).is_some() || self.defined.contains(&i) { return; }
        let n = d.nodes[i as usize].clone();
        if matches!(n.op, Op::MulR | Op::MulQ | Op::Sha) { self.uf = true; }
        match n.op {
            Op::Var | Op::Pol | Op::InvQ => {}
            Op::Not | Op::Sext | Op::Extract => self.define(d, n.a),
            Op::Ite => { self.define(d, n.a); self.define(d, n.b); self.define(d, n.c) }
            _ => { self.define(d, n.a); self.define(d, n.b) }
        }
        self.defined.insert(i);
        let sort = if n.w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", n.w) };
        if matches!(n.op, Op::Pol | Op::InvQ) { let _ = write!(self.buf, "(declare-const n{} {})\n", i, sort); return; }
        if n.op == Op::Var {
            let _ = write!(self.buf, "(declare-const n{} {})\n", i, sort);
            self.vars.push(i);
            return;
        }
        let aw = d.w(n.a);
        let b1 = n.w == 1 && aw == 1;
        let body = match n.op {
            Op::Not => format!("({} {})", if n.w == 1 { "not" } else { "bvnot" }, Self::r(d, n.a)),
            Op::Sext => format!("((_ sign_extend {}) {})", n.w - aw, Self::bvr(d, n.a)),
            Op::Extract => {
                let e = format!("((_ extract {} {}) {})", n.b + n.w - 1, n.b, Self::r(d, n.a));
                if n.w == 1 { format!("(= {} #b1)", e) } else { e }
            }
            Op::Concat => format!("(concat {} {})", Self::bvr(d, n.a), Self::bvr(d, n.b)),
            Op::Ite => format!("(ite {} {} {})", Self::r(d, n.a), Self::r(d, n.b), Self::r(d, n.c)),
            Op::Eq => format!("(= {} {})", Self::r(d, n.a), Self::r(d, n.b)),
            Op::And if b1 => format!("(and {} {})", Self::r(d, n.a), Self::r(d, n.b)),
            Op::Or if b1 => format!("(or {} {})", Self::r(d, n.a), Self::r(d, n.b)),
            Op::Xor if b1 => format!("(xor {} {})", Self::r(d, n.a), Self::r(d, n.b)),
            o => {
                let f = match o {
                    Op::Add => "bvadd", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::SDiv => "bvsdiv", Op::URem => "bvurem", Op::SRem => "bvsrem",
                    Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor",
                    Op::Ult => "bvult", Op::Slt => "bvslt", Op::MulR => "fmr", Op::MulQ => "fmq", Op::Sha => "fsh", _ => unreachable!(),
                };
                let e = format!("({} {} {})", f, Self::bvr(d, n.a), Self::bvr(d, n.b));
                if n.w == 1 && !matches!(o, Op::Ult | Op::Slt) { format!("(= {} #b1)", e) } else { e }
            }
        };
        let _ = write!(self.buf, "(define-fun n{} () {} {})\n", i, sort, body);
    }
}

/// (get-value ..) output
fn parse_values(d: &Dag, t: &str, vals: &mut HashMap<Id, BV>) -> Option<()> {
    let toks: Vec<&str> = t.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
    for p in toks.chunks(2) {
        if p.len() < 2 { return None; }
        let id: Id = p[0].get(1..)?.parse().ok()?;
        let w = d.w(id);
        let mut v = vec![0u64; limbs(w)];
        let s = p[1];
        if s == "true" { v[0] = 1 } else if s == "false" {} else {
            let (base, digits) = (if s.get(..2)? == "#x" { 4 } else { 1 }, &s[2..]);
            for (k, ch) in digits.chars().rev().enumerate() {
                let x = ch.to_digit(16)? as u64;
                let b = k * base;
                if b / 64 < v.len() { v[b / 64] |= x << (b % 64); }
            }
        }
        vals.insert(id, v);
    }
    Some(())
}

fn parse_ints(d: &Dag, t: &str, vars: &[(Id, String)], vals: &mut HashMap<Id, BV>) -> Option<()> {
    let toks: Vec<&str> = t.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
    let by: HashMap<&str, Id> = vars.iter().map(|(i, s)| (&s[..], *i)).collect();
    for p in toks.chunks(2) {
        if p.len() < 2 { return None; }
        let id = *by.get(p[0])?;
        let v = match p[1] { "true" => 1, "false" => 0, n => n.parse::<u128>().ok()? };
        vals.insert(id, bv(v, d.w(id)));
    }
    Some(())
}

/// Time the incremental solver gets for a query (less where it has failed before)
const UF: &str = "(declare-fun fmr ((_ BitVec 256) (_ BitVec 256)) (_ BitVec 256))\n(declare-fun fmq ((_ BitVec 256) (_ BitVec 256)) (_ BitVec 256))\n(declare-fun fsh ((_ BitVec 256) (_ BitVec 512)) (_ BitVec 256))\n";
const FIRST_MS: u64 = 1000;

impl Solver {
    pub fn new(name: &str, timeout_ms: u64) -> Self { Self::start(name, timeout_ms, false) }
    fn start(name: &str, timeout_ms: u64, uf: bool) -> Self {
        let mut c = match name {
            "cvc5" => { let mut c = Command::new("cvc5"); c.args(["--incremental", "--produce-models", "--lang=smt2", &format!("--tlimit-per={}", timeout_ms.min(FIRST_MS))]); c }
            n => { let mut c = Command::new(if n == "z3" { "z3-new" } else { n }); c.args(["-in", "-smt2"]); c }
        };
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver not found");
        let inp = child.stdin.take().unwrap();
        let rd = BufReader::new(child.stdout.take().unwrap());
        let (tx, out) = std::sync::mpsc::channel();
        std::thread::spawn(move || { for l in rd.lines() { match l { Ok(l) => if tx.send(l + "\n").is_err() { break }, Err(_) => break } } });
        let log = std::env::var("SYMEX_SMTLOG").ok().map(|p| std::fs::File::create(format!("{}.{}", p, std::process::id())).unwrap());
        let mut s = Solver { child, inp, out, em: Em::default(), stack: vec![], queries: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0, hard: 0, quick: false, selftest: std::env::var("SYMEX_XLIA").is_ok(), name: name.into(), timeout_ms, log, seen: HashSet::new() };
        s.em.buf.push_str("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n");
        if name != "cvc5" { let _ = write!(s.em.buf, "(set-option :timeout {})\n", timeout_ms.min(FIRST_MS)); }
        s.em.buf.push_str(if uf { "(set-logic QF_UFBV)\n" } else { "(set-logic QF_BV)\n" });
        if uf { s.em.buf.push_str(UF); s.em.uf = true; }
        s
    }
    fn flush(&mut self) {
        if let Some(l) = &mut self.log { let _ = l.write_all(self.em.buf.as_bytes()); }
        self.inp.write_all(self.em.buf.as_bytes()).expect("solver died");
        self.inp.flush().expect("solver died");
        self.em.buf.clear();
    }
    /// Several solvers, each on the query as a script of its own; the first usable answer counts
    fn portfolio(&mut self, d: &Dag, pc: &[Id], extra: &[Id], first: String) -> Answer {
        let t = Instant::now();
        let all: Vec<Id> = pc.iter().chain(extra).copied().collect();
        let mut em = Em::default();
        for i in &all { em.define(d, *i); }
        em.buf = format!("(set-option :produce-models true)\n{}{}", if em.uf { format!("(set-logic QF_UFBV)\n{}", UF) } else { "(set-logic QF_BV)\n".into() }, em.buf);
        for i in &all { let _ = write!(em.buf, "(assert {})\n", Em::r(d, *i)); }
        em.buf.push_str("(check-sat)\n");
        let (mut lia, lvars) = crate::lia::Lia::script(d, &all);
        if let Ok(p) = std::env::var("SYMEX_DUMP") { for (k, b) in [("", &em.buf), (".lia", &lia)] { let _ = std::fs::write(format!("{}.{}.{}{}.smt2", p, std::process::id(), self.hard, k), b); } }
        for (buf, vars) in [(&mut em.buf, em.vars.iter().map(|v| format!("n{}", v)).collect::<Vec<_>>()), (&mut lia, lvars.iter().map(|v| v.1.clone()).collect())] {
            if !vars.is_empty() { let _ = write!(buf, "(get-value ({}))\n", vars.join(" ")); }
            buf.push_str("(exit)\n");
        }
        // the first works on integers: its "unsat" counts, its model only if it fits
        let cmds: [&[&str]; 5] = [
            &["z3-new", "-in", "-smt2"],
            &["z3-new", "-in", "-smt2"],
            &["cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum"],
            &["z3-new", "-in", "-smt2", "tactic.default_tactic=smt", "sat.smt=true", "smt.bv.solver=2"],
            &["cvc5", "--lang=smt2", "--produce-models"],
        ];
        let (tx, rx) = std::sync::mpsc::channel();
        let mut kids = vec![];
        let mut start = |n: usize| {
            let c = cmds[n];
            let Ok(mut k) = Command::new(c[0]).args(&c[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { return };
            let (mut i, o, tx, text) = (k.stdin.take().unwrap(), k.stdout.take().unwrap(), tx.clone(), if n == 0 { lia.clone() } else { em.buf.clone() });
            std::thread::spawn(move || { let _ = i.write_all(text.as_bytes()); });
            std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut BufReader::new(o), &mut s); let _ = tx.send((n, s)); });
            kids.push(k);
        };
        start(0);
        let mut running = 1;
        let mut more = true;
        let mut ans = Answer::Unknown(first);
        let limit = std::time::Duration::from_millis(self.timeout_ms);
        while let Some(left) = limit.checked_sub(t.elapsed()) {
            let got = rx.recv_timeout(if more { left.min(std::time::Duration::from_millis(1000)) } else { left });
            if let Ok((n, s)) = got {
                running -= 1;
                if s.starts_with("unsat") { self.unsat += 1; ans = Answer::Unsat; break; }
                if s.starts_with("sat") && !s.contains("(error") {
                    let mut vals = HashMap::new();
                    let good = if n == 0 { parse_ints(d, &s[3..], &lvars, &mut vals) } else { parse_values(d, &s[3..], &mut vals) };
                    let m = Model::new(vals);
                    if good.is_some() && (n > 0 || all.iter().all(|c| d.eval(*c, &m)[0] & 1 == 1)) {
                        self.sat += 1;
                        ans = Answer::Sat(m);
                        break;
                    }
                }
            }
            if more { more = false; for n in 1..cmds.len() { start(n); } running += cmds.len() - 1; }
            if running == 0 { break; }
        }
        for k in &mut kids { let _ = k.kill(); let _ = k.wait(); }
        let el = t.elapsed().as_secs_f64();
        self.time += el;
        self.max_time = self.max_time.max(el);
        ans
    }
    fn line(&mut self) -> String { self.out.recv().unwrap_or_else(|_| "(error \"solver died\")".into()) }
    fn restart(&mut self, uf: bool) {
        let mut n = Solver::start(&self.name, self.timeout_ms, uf);
        std::mem::swap(&mut self.child, &mut n.child);
        std::mem::swap(&mut self.inp, &mut n.inp);
        std::mem::swap(&mut self.out, &mut n.out);
        std::mem::swap(&mut self.em, &mut n.em);
        self.stack.clear();
        if self.quick { self.hurry(); }
    }
    /// Leave more to the portfolio
    pub fn hurry(&mut self) { self.quick = true; if self.name != "cvc5" { self.em.buf.push_str("(set-option :timeout 250)\n"); } }
    /// Is `pc` together with `extra` satisfiable?
    pub fn check(&mut self, d: &Dag, pc: &[Id], extra: &[Id]) -> Answer {
        if !self.em.uf {
            let (mut seen, mut out) = (std::mem::take(&mut self.seen), vec![]);
            for i in pc.iter().chain(extra) { d.products(*i, &mut seen, &mut out); }
            self.seen = seen;
            if !out.is_empty() {
                // from now on with uninterpreted functions
                self.restart(true);
            }
        }
        let mut k = 0;
        while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] { k += 1; }
        if k < self.stack.len() { let _ = write!(self.em.buf, "(pop {})\n", self.stack.len() - k); self.stack.truncate(k); }
        for i in &pc[k..] {
            self.em.define(d, *i);
            let _ = write!(self.em.buf, "(push 1)\n(assert {})\n", Em::r(d, *i));
            self.stack.push(*i);
        }
        for e in extra { self.em.define(d, *e); }
        self.em.buf.push_str("(push 1)\n");
        for e in extra { let _ = write!(self.em.buf, "(assert {})\n", Em::r(d, *e)); }
        self.em.buf.push_str("(check-sat)\n");
        let t = Instant::now();
        self.flush();
        // a solver that does not keep to its time limit is replaced
        let a = match self.out.recv_timeout(std::time::Duration::from_millis(if self.quick { 1500 } else { FIRST_MS * 2 })) {
            Ok(l) => l,
            Err(_) => { let uf = self.em.uf; self.restart(uf); self.em.buf.push_str("(push 1)\n"); "slow".into() }
        };
        let el = t.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += el;
        self.max_time = self.max_time.max(el);
        let r = match a.trim() {
            "unsat" => { self.unsat += 1; Answer::Unsat }
            "sat" => {
                self.sat += 1;
                // only the variables these constraints mention
                let (mut seen, mut vs) = (HashSet::new(), vec![]);
                for i in pc.iter().chain(extra) { d.vars(*i, &mut seen, &mut vs); }
                let mut vals = HashMap::new();
                let mut good = true;
                if !vs.is_empty() {
                    self.em.buf.push_str("(get-value (");
                    for v in &vs { let _ = write!(self.em.buf, "n{} ", v); }
                    self.em.buf.push_str("))\n");
                    self.flush();
                    let mut t = String::new();
                    let mut depth = 0i32;
                    loop {
                        let l = self.line();
                        if l.contains("(error") { good = false; break; }
                        depth += l.matches('(').count() as i32 - l.matches(')').count() as i32;
                        t.push_str(&l);
                        if depth <= 0 { break; }
                    }
                    good = good && parse_values(d, &t, &mut vals).is_some();
                }
                if good { Answer::Sat(Model::new(vals)) } else { self.sat -= 1; self.portfolio(d, pc, extra, "no model".into()) }
            }
            s => { let s = s.to_string(); self.hard += 1; if self.hard == 3 { self.hurry(); } self.portfolio(d, pc, extra, s) }
        };
        self.em.buf.push_str("(pop 1)\n");
        if self.selftest { if let Answer::Sat(_) = &r {
            let all: Vec<Id> = pc.iter().chain(extra).copied().collect();
            let s = crate::lia::Lia::script(d, &all).0;
            let mut k = Command::new("z3-new").args(["-in", "-smt2", "-T:5"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
            k.stdin.take().unwrap().write_all(s.as_bytes()).unwrap();
            let o = String::from_utf8(k.wait_with_output().unwrap().stdout).unwrap();
            if !o.starts_with("sat") && !o.contains("timeout") { let _ = std::fs::write(format!("/tmp/xlia.{}.{}.smt2", std::process::id(), self.queries), format!("{}; {}", s, o)); eprintln!("XLIA {}", o); }
        } }
        r
    }
}
impl Drop for Solver { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
