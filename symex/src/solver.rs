//! Satisfiability queries: canonical form, shared cache, SMT-LIB pipe to z3.
use crate::expr::{Arena, Op, E};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct VarInfo {
    pub class: u8,
    pub w: u32,
}

pub const CL_KIND: u8 = 1;
pub const CL_SPACING: u8 = 2;
pub const CL_PUNCT: u8 = 3;
pub const CL_DELIM: u8 = 4;
pub const CL_SPAN: u8 = 5;
pub const CL_IDENT: u8 = 6;
pub const CL_LIT: u8 = 7;
pub const CL_BOOL: u8 = 8;
pub const CL_NAME: u8 = 9; // an identifier that is not a keyword, not even a weak one
pub const CL_ABI: u8 = 10; // a string literal
pub const CL_WEAK: u8 = 11; // an identifier that is not a keyword, but may be a weak one

pub struct Stats {
    pub queries: AtomicU64, // sent to the solver
    pub hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub nanos: AtomicU64,
    pub max_nanos: AtomicU64,
}

pub struct Shared {
    pub cache: Vec<Mutex<HashMap<Vec<u8>, bool>>>,
    pub models: Mutex<HashMap<Vec<u8>, Vec<u128>>>,
    pub stats: Stats,
    pub z3: String,
    /// when the run began, and how long one may wait for an answer, counted from then (ms)
    pub t0: Instant,
    pub until: u64,
    /// the solver processes, and when to end each (ms from t0, 0: not busy)
    watched: Mutex<Vec<std::sync::Arc<Watched>>>,
}
struct Watched {
    child: Mutex<Child>,
    end: AtomicU64,
}
impl Shared {
    /// Ends solver processes that are late; z3's own time limit is not always heeded.
    pub fn watch(&self, until: u64) {
        let now = self.t0.elapsed().as_millis() as u64;
        for w in self.watched.lock().unwrap().iter() {
            let e = w.end.load(Relaxed);
            if e != 0 && now > e.min(until) {
                let _ = w.child.lock().unwrap().kill();
            }
        }
    }
    pub fn new(z3: String, t0: Instant, until: u64) -> Self {
        Shared {
            t0,
            until,
            watched: Mutex::new(vec![]),
            cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            models: Mutex::new(HashMap::new()),
            stats: Stats {
                queries: AtomicU64::new(0),
                hits: AtomicU64::new(0),
                sat: AtomicU64::new(0),
                unsat: AtomicU64::new(0),
                nanos: AtomicU64::new(0),
                max_nanos: AtomicU64::new(0),
            },
            z3,
        }
    }
}

pub struct Solver<'a> {
    sh: &'a Shared,
    proc: Option<(std::sync::Arc<Watched>, ChildStdin, BufReader<ChildStdout>)>,
}

const KEYWORDS: &[&str] = &[
    "_", "abstract", "as", "async", "auto", "await", "become", "box", "break", "const", "continue", "crate", "default", "do", "dyn",
    "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro",
    "macro_rules", "match", "mod", "move", "mut", "override", "priv", "pub", "raw", "ref", "return", "safe", "self", "Self",
    "static", "struct", "super", "trait", "true", "try", "type", "typeof", "union", "unsafe", "unsized", "use",
    "virtual", "where", "while", "yield", "gen",
];
/// Those of them that may name things.
const WEAK: &[&str] = &["auto", "default", "macro_rules", "raw", "safe", "union", "gen"];

/// The environment assumptions on symbolic inputs, by class.
fn preamble() -> String {
    let mut s = String::from("(set-option :timeout 60000)\n");
    let or = |v: Vec<String>| format!("(or {})", v.join(" "));
    let puncts: Vec<String> =
        "=<>!~+-*/%^&|@.,;:#$?'".bytes().map(|c| format!("(= x #x{:02x})", c)).collect();
    let _ = writeln!(s, "(define-fun c1 ((x (_ BitVec 8))) Bool (bvult x #x04))");
    let _ = writeln!(s, "(define-fun c2 ((x (_ BitVec 8))) Bool (bvult x #x02))");
    let _ = writeln!(s, "(define-fun c3 ((x (_ BitVec 8))) Bool {})", or(puncts));
    let _ = writeln!(s, "(define-fun c4 ((x (_ BitVec 8))) Bool (bvult x #x04))");
    let _ = writeln!(
        s,
        "(define-fun c5 ((x (_ BitVec 32))) Bool (and (bvult x #x00008000) (bvuge x #x00000001)))"
    );
    let _ = writeln!(s, "(define-fun c8 ((x (_ BitVec 8))) Bool (bvult x #x02))");
    let _ = writeln!(s, "(define-fun alpha ((b (_ BitVec 8))) Bool (or (and (bvuge b #x41) (bvule b #x5a)) (and (bvuge b #x61) (bvule b #x7a)) (= b #x5f)))");
    let _ = writeln!(s, "(define-fun digit ((b (_ BitVec 8))) Bool (and (bvuge b #x30) (bvule b #x39)))");
    let _ = writeln!(s, "(define-fun wordc ((b (_ BitVec 8))) Bool (or (alpha b) (digit b)))");
    // what may stand in strings and characters, unescaped
    let _ = writeln!(s, "(define-fun strc ((b (_ BitVec 8))) Bool (and (bvuge b #x20) (bvule b #x7e) (not (= b #x22)) (not (= b #x27)) (not (= b #x5c))))");
    // letters outside ASCII: two bytes, from `à` to `ö`
    let _ = writeln!(s, "(define-fun lead ((b (_ BitVec 8))) Bool (= b #xc3))");
    let _ = writeln!(s, "(define-fun trail ((b (_ BitVec 8))) Bool (and (bvuge b #xa0) (bvule b #xb6)))");
    let byte = |i: usize| format!("((_ extract {} {}) x)", 8 * i + 7, 8 * i);
    // identifiers: [A-Za-z_][A-Za-z0-9_]*, zero padded, or the same after "r#"
    let tail = |from: usize, pred: &str| {
        let mut v = vec![];
        for i in from..16 {
            v.push(format!("(or ({} {b}) (= {b} #x00))", pred, b = byte(i)));
            if i + 1 < 16 {
                v.push(format!("(=> (= {} #x00) (= {} #x00))", byte(i), byte(i + 1)));
            }
        }
        v.join(" ")
    };
    // the same for identifiers, with letters of two bytes
    let itail = |from: usize| {
        let mut v = vec![];
        for i in from..16 {
            v.push(format!("(or (wordc {b}) (= {b} #x00) (trail {b}){l})", b = byte(i), l = if i < 15 { format!(" (lead {})", byte(i)) } else { String::new() }));
            v.push(format!("(= (trail {}) (lead {}))", byte(i), byte(i - 1)));
            if i + 1 < 16 {
                v.push(format!("(=> (= {} #x00) (= {} #x00))", byte(i), byte(i + 1)));
            }
        }
        v.join(" ")
    };
    let word = |t: &str| {
        let mut v = 0u128;
        for (i, c) in t.bytes().enumerate() {
            v |= (c as u128) << (8 * i);
        }
        format!("(= x #x{:032x})", v)
    };
    let bad: Vec<String> = ["r#crate", "r#self", "r#super", "r#Self", "r#_"].iter().map(|t| word(t)).collect();
    let _ = writeln!(
        s,
        "(define-fun c6 ((x (_ BitVec 128))) Bool (or (and (or (alpha {b0}) (lead {b0})) {t1}) (and (= {b0} #x72) (= {b1} #x23) (or (alpha {b2}) (lead {b2})) {t3} (not {bad}))))",
        b0 = byte(0),
        b1 = byte(1),
        b2 = byte(2),
        t1 = itail(1),
        t3 = itail(3),
        bad = or(bad)
    );
    // keywords, and the identifiers venial treats as such
    let kws: Vec<String> = KEYWORDS.iter().map(|t| format!("(not {})", word(t))).collect();
    let _ = writeln!(s, "(define-fun c9 ((x (_ BitVec 128))) Bool (and {}))", kws.join(" "));
    let kws: Vec<String> = KEYWORDS.iter().filter(|t| !WEAK.contains(t)).map(|t| format!("(not {})", word(t))).collect();
    let _ = writeln!(s, "(define-fun c11 ((x (_ BitVec 128))) Bool (and {}))", kws.join(" "));
    // a prefix, word characters, a suffix, zeros
    let between = |pre: &str, pred: &str, least: usize, post: &str| {
        let mut strs = vec![];
        for n in least..=16 - pre.len() - post.len() {
            let mut v = vec![];
            let mut i = 0;
            for c in pre.bytes() {
                v.push(format!("(= {} #x{:02x})", byte(i), c));
                i += 1;
            }
            for _ in 0..n {
                v.push(format!("({} {})", pred, byte(i)));
                i += 1;
            }
            for c in post.bytes() {
                v.push(format!("(= {} #x{:02x})", byte(i), c));
                i += 1;
            }
            while i < 16 {
                v.push(format!("(= {} #x00)", byte(i)));
                i += 1;
            }
            strs.push(format!("(and {})", v.join(" ")));
        }
        or(strs)
    };
    // literals: digits without a leading zero, also with a suffix; floats; strings, byte and raw
    // strings of word characters; characters
    let mut lits = vec![format!("(and (digit {b0}) (not (= {b0} #x30)) {t1})", b0 = byte(0), t1 = tail(1, "digit"))];
    for post in ["u8", "i64", "usize", ".5", ".25f32"] {
        lits.push(format!("(and (not (= {} #x30)) {})", byte(0), between("", "digit", 1, post)));
    }
    for pre in ["\"", "r\"", "b\"", "c\""] {
        lits.push(between(pre, "strc", 0, "\""));
    }
    lits.push(format!("(and (= x (bvand x #x000000000000000000000000ffffffff)) (or {} {}))", 
        format!("(and (= {} #x27) (strc {}) (= {} #x27) (= {} #x00))", byte(0), byte(1), byte(2), byte(3)),
        format!("(and (= {} #x62) (= {} #x27) (strc {}) (= {} #x27))", byte(0), byte(1), byte(2), byte(3))));
    let _ = writeln!(s, "(define-fun c7 ((x (_ BitVec 128))) Bool {})", or(lits));
    let _ = writeln!(s, "(define-fun c10 ((x (_ BitVec 128))) Bool (or {} {}))", between("\"", "strc", 0, "\""), between("r\"", "strc", 0, "\""));
    s
}

pub enum Answer {
    Sat,
    Unsat,
    Unknown(String),
}

impl<'a> Solver<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        Solver { sh, proc: None }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.sh.z3)
            .arg("-in")
            .arg("-smt2")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start z3");
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        i.write_all(preamble().as_bytes()).unwrap();
        let w = std::sync::Arc::new(Watched { child: Mutex::new(c), end: AtomicU64::new(0) });
        self.sh.watched.lock().unwrap().push(w.clone());
        self.proc = Some((w, i, o));
    }

    /// Bytes identifying the query up to renaming of variables, and the nodes in order.
    fn canon(&self, ar: &Arena, vars: &[VarInfo], cs: &[E], full: bool) -> (Vec<u8>, Vec<u32>) {
        let mut key: Vec<u8> = vec![full as u8];
        let mut local: HashMap<E, u32> = HashMap::new();
        let mut vmap: Vec<u32> = vec![];
        let mut cnt = 0u32;
        fn go(ar: &Arena, vars: &[VarInfo], e: E, key: &mut Vec<u8>, local: &mut HashMap<E, u32>, vmap: &mut Vec<u32>, cnt: &mut u32) -> u32 {
            if let Some(i) = local.get(&e) {
                return *i;
            }
            let n = ar.n[e as usize];
            let mut ch = [0u32; 3];
            match n.op {
                Op::Const | Op::Var => {}
                _ => {
                    for (i, x) in [n.a, n.b, n.c].iter().enumerate() {
                        if *x != 0 {
                            ch[i] = go(ar, vars, *x, key, local, vmap, cnt);
                        }
                    }
                }
            }
            *cnt += 1;
            let id = *cnt;
            local.insert(e, id);
            key.push(n.op as u8);
            key.push(n.w as u8);
            match n.op {
                Op::Const => key.extend_from_slice(&n.k.to_le_bytes()[..((n.w as usize + 7) / 8)]),
                Op::Var => {
                    key.push(vars[n.k as usize].class);
                    vmap.push(n.k as u32);
                }
                _ => {
                    for x in ch {
                        if x != 0 {
                            key.extend_from_slice(&x.to_le_bytes());
                        }
                    }
                    if n.op == Op::Extract {
                        key.push(n.k as u8);
                    }
                }
            }
            id
        }
        for c in cs {
            let i = go(ar, vars, *c, &mut key, &mut local, &mut vmap, &mut cnt);
            key.push(0xff);
            key.extend_from_slice(&i.to_le_bytes());
        }
        (key, vmap)
    }

    fn smt(&self, ar: &Arena, vars: &[VarInfo], cs: &[E], extra: &[E], full: bool, all_vars: bool) -> String {
        let mut s = String::from("(push)\n");
        let mut done: HashMap<E, ()> = HashMap::new();
        let mut declared: HashMap<u32, ()> = HashMap::new();
        fn nm(ar: &Arena, e: E) -> String {
            let n = ar.n[e as usize];
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        (if n.k == 1 { "true" } else { "false" }).to_string()
                    } else if n.w % 4 == 0 {
                        format!("#x{:0w$x}", n.k, w = n.w as usize / 4)
                    } else {
                        format!("#b{:0w$b}", n.k, w = n.w as usize)
                    }
                }
                Op::Var => format!("v{}", n.k),
                _ => format!("n{}", e),
            }
        }
        // as a bit vector even when the width is one
        fn bv(ar: &Arena, e: E) -> String {
            if ar.n[e as usize].w == 1 {
                format!("(ite {} #b1 #b0)", nm(ar, e))
            } else {
                nm(ar, e)
            }
        }
        fn declare(s: &mut String, vars: &[VarInfo], v: u32, declared: &mut HashMap<u32, ()>, full: bool) {
            if declared.insert(v, ()).is_some() {
                return;
            }
            let i = vars[v as usize];
            let _ = writeln!(s, "(declare-const v{} (_ BitVec {}))", v, i.w);
            let eager = matches!(i.class, CL_KIND | CL_SPACING | CL_PUNCT | CL_DELIM | CL_SPAN | CL_BOOL);
            let lazy = matches!(i.class, CL_IDENT | CL_LIT | CL_ABI);
            if i.class == CL_NAME || i.class == CL_WEAK {
                let _ = writeln!(s, "(assert (c{} v{}))", i.class, v);
                if full {
                    let _ = writeln!(s, "(assert (c6 v{}))", v);
                }
            }
            if eager || (full && lazy) {
                let _ = writeln!(s, "(assert (c{} v{}))", i.class, v);
            }
        }
        fn go(ar: &Arena, vars: &[VarInfo], e: E, s: &mut String, done: &mut HashMap<E, ()>, declared: &mut HashMap<u32, ()>, full: bool) {
            if done.insert(e, ()).is_some() {
                return;
            }
            let n = ar.n[e as usize];
            match n.op {
                Op::Const => return,
                Op::Var => {
                    declare(s, vars, n.k as u32, declared, full);
                    return;
                }
                _ => {}
            }
            for x in [n.a, n.b, n.c] {
                if x != 0 {
                    go(ar, vars, x, s, done, declared, full);
                }
            }
            let bool1 = n.w == 1;
            let cw = ar.n[n.a as usize].w; // operand width
            let body = match n.op {
                Op::And | Op::Or | Op::Xor if bool1 => {
                    let o = match n.op {
                        Op::And => "and",
                        Op::Or => "or",
                        _ => "xor",
                    };
                    format!("({} {} {})", o, nm(ar, n.a), nm(ar, n.b))
                }
                Op::Eq => format!("(= {} {})", nm(ar, n.a), nm(ar, n.b)),
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let o = match n.op {
                        Op::Ult => "bvult",
                        Op::Ule => "bvule",
                        Op::Slt => "bvslt",
                        _ => "bvsle",
                    };
                    format!("({} {} {})", o, bv(ar, n.a), bv(ar, n.b))
                }
                Op::Ite => format!("(ite {} {} {})", nm(ar, n.a), nm(ar, n.b), nm(ar, n.c)),
                Op::Extract => {
                    let x = format!("((_ extract {} {}) {})", n.k as u32 + n.w - 1, n.k, bv(ar, n.a));
                    if bool1 {
                        format!("(= {} #b1)", x)
                    } else {
                        x
                    }
                }
                Op::ZExt => format!("((_ zero_extend {}) {})", n.w - cw, bv(ar, n.a)),
                Op::SExt => format!("((_ sign_extend {}) {})", n.w - cw, bv(ar, n.a)),
                Op::Concat => format!("(concat {} {})", bv(ar, n.a), bv(ar, n.b)),
                _ => {
                    let o = match n.op {
                        Op::Add => "bvadd",
                        Op::Sub => "bvsub",
                        Op::Mul => "bvmul",
                        Op::UDiv => "bvudiv",
                        Op::URem => "bvurem",
                        Op::SDiv => "bvsdiv",
                        Op::SRem => "bvsrem",
                        Op::And => "bvand",
                        Op::Or => "bvor",
                        Op::Xor => "bvxor",
                        Op::Shl => "bvshl",
                        Op::LShr => "bvlshr",
                        Op::AShr => "bvashr",
                        _ => unreachable!(),
                    };
                    let x = format!("({} {} {})", o, bv(ar, n.a), bv(ar, n.b));
                    if bool1 {
                        format!("(= {} #b1)", x)
                    } else {
                        x
                    }
                }
            };
            if bool1 {
                let _ = writeln!(s, "(define-fun n{} () Bool {})", e, body);
            } else {
                let _ = writeln!(s, "(define-fun n{} () (_ BitVec {}) {})", e, n.w, body);
            }
        }
        for c in cs.iter().chain(extra) {
            go(ar, vars, *c, &mut s, &mut done, &mut declared, full);
        }
        if all_vars {
            for v in 0..vars.len() as u32 {
                declare(&mut s, vars, v, &mut declared, full);
            }
        }
        for c in cs {
            let _ = writeln!(s, "(assert {})", nm(ar, *c));
        }
        // with many variables, blasting everything at once is much the faster
        s.push_str(if all_vars { "(check-sat-using (then simplify solve-eqs bit-blast simplify sat))\n" } else { "(check-sat)\n" });
        s
    }

    fn ask(&mut self, text: &str, values: &[u32]) -> Result<Option<Vec<u128>>, String> {
        if self.proc.is_none() {
            self.start();
        }
        let now = self.sh.t0.elapsed().as_millis() as u64;
        let w = self.proc.as_ref().unwrap().0.clone();
        w.end.store((now + 60_000).min(self.sh.until).max(now + 1000), Relaxed);
        let r = self.ask1(text, values);
        w.end.store(0, Relaxed);
        if let Ok(d) = std::env::var("VERIF_DUMP_SLOW") {
            let t = self.sh.t0.elapsed().as_millis() as u64 - now;
            if t > 1000 {
                let _ = std::fs::write(format!("{}/s{}_{}.smt2", d, now, t), format!("{}{}", preamble(), text));
            }
        }
        if r.is_err() {
            let _ = w.child.lock().unwrap().kill();
            let _ = w.child.lock().unwrap().wait();
            self.sh.watched.lock().unwrap().retain(|x| !std::sync::Arc::ptr_eq(x, &w));
            self.proc = None;
            if let Ok(d) = std::env::var("VERIF_DUMP") {
                let _ = std::fs::write(format!("{}/q{}.smt2", d, now), format!("{}{}", preamble(), text));
            }
        }
        r
    }
    fn ask1(&mut self, text: &str, values: &[u32]) -> Result<Option<Vec<u128>>, String> {
        let t0 = Instant::now();
        let (_, i, o) = self.proc.as_mut().unwrap();
        i.write_all(text.as_bytes()).map_err(|e| e.to_string())?;
        i.flush().map_err(|e| e.to_string())?;
        let mut line = String::new();
        o.read_line(&mut line).map_err(|e| e.to_string())?;
        let st = &self.sh.stats;
        let r = match line.trim() {
            "sat" => {
                st.sat.fetch_add(1, Relaxed);
                let mut out = vec![];
                if !values.is_empty() {
                    let names: Vec<String> = values.iter().map(|v| format!("v{}", v)).collect();
                    i.write_all(format!("(get-value ({}))\n(echo \"done\")\n", names.join(" ")).as_bytes())
                        .map_err(|e| e.to_string())?;
                    i.flush().map_err(|e| e.to_string())?;
                    let mut txt = String::new();
                    loop {
                        let mut l = String::new();
                        o.read_line(&mut l).map_err(|e| e.to_string())?;
                        if l.trim() == "done" || l.is_empty() {
                            break;
                        }
                        txt.push_str(&l);
                    }
                    for part in txt.split('#').skip(1) {
                        let end = part.find(|c: char| c == ')' || c.is_whitespace()).unwrap_or(part.len());
                        let tok = &part[..end];
                        let v = if let Some(h) = tok.strip_prefix('x') {
                            u128::from_str_radix(h, 16)
                        } else {
                            u128::from_str_radix(&tok[1..], 2)
                        };
                        out.push(v.map_err(|_| format!("model value {}", tok))?);
                    }
                    if out.len() != values.len() {
                        return Err(format!("model: {}", txt));
                    }
                }
                Ok(Some(out))
            }
            "unsat" => {
                st.unsat.fetch_add(1, Relaxed);
                Ok(None)
            }
            x => Err(format!("solver answered {:?} to\n{}", x, text)),
        };
        i.write_all(b"(pop)\n").map_err(|e| e.to_string())?;
        let dt = t0.elapsed().as_nanos() as u64;
        st.queries.fetch_add(1, Relaxed);
        st.nanos.fetch_add(dt, Relaxed);
        st.max_nanos.fetch_max(dt, Relaxed);
        r
    }

    /// Are these constraints satisfiable?
    pub fn sat(&mut self, ar: &Arena, vars: &[VarInfo], cs: &[E], full: bool) -> Answer {
        let (key, _) = self.canon(ar, vars, cs, full);
        let mut h = 0u64;
        for b in &key {
            h = (h.rotate_left(5) ^ *b as u64).wrapping_mul(0x517cc1b727220a95);
        }
        let slot = &self.sh.cache[(h >> 40) as usize % 64];
        if let Some(r) = slot.lock().unwrap().get(&key) {
            self.sh.stats.hits.fetch_add(1, Relaxed);
            return if *r { Answer::Sat } else { Answer::Unsat };
        }
        let text = self.smt(ar, vars, cs, &[], full, false);
        match self.ask(&text, &[]) {
            Ok(r) => {
                slot.lock().unwrap().insert(key, r.is_some());
                if r.is_some() {
                    Answer::Sat
                } else {
                    Answer::Unsat
                }
            }
            Err(e) => Answer::Unknown(e),
        }
    }

    /// A value of `e` allowed by the constraints.
    pub fn value(&mut self, ar: &Arena, vars: &[VarInfo], cs: &[E], e: E) -> Result<u128, String> {
        let (mut key, vmap) = {
            let mut l = cs.to_vec();
            l.push(e);
            self.canon(ar, vars, &l, false)
        };
        key.push(0xee);
        let cached = self.sh.models.lock().unwrap().get(&key).cloned();
        let vals = match cached {
            Some(v) => {
                self.sh.stats.hits.fetch_add(1, Relaxed);
                v
            }
            None => {
                let text = self.smt(ar, vars, cs, &[e], false, false);
                match self.ask(&text, &vmap)? {
                    Some(v) => {
                        self.sh.models.lock().unwrap().insert(key, v.clone());
                        v
                    }
                    None => return Err("no value: path condition unsatisfiable".into()),
                }
            }
        };
        let mut env = HashMap::new();
        for (v, x) in vmap.iter().zip(vals) {
            env.insert(*v, x);
        }
        Ok(eval(ar, e, &env))
    }

    /// A full model (every variable, every environment assumption), if there is one.
    pub fn model(&mut self, ar: &Arena, vars: &[VarInfo], cs: &[E]) -> Result<Option<Vec<u128>>, String> {
        let text = self.smt(ar, vars, cs, &[], true, true);
        let all: Vec<u32> = (0..vars.len() as u32).collect();
        self.ask(&text, &all)
    }
}

pub fn eval(ar: &Arena, e: E, env: &HashMap<u32, u128>) -> u128 {
    fn go(ar: &Arena, e: E, env: &HashMap<u32, u128>, memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let n = ar.n[e as usize];
        let m = crate::ll::mask;
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => *env.get(&(n.k as u32)).unwrap_or(&0),
            Op::Ite => {
                if go(ar, n.a, env, memo) != 0 {
                    go(ar, n.b, env, memo)
                } else {
                    go(ar, n.c, env, memo)
                }
            }
            Op::Extract => m(go(ar, n.a, env, memo) >> n.k, n.w),
            Op::ZExt => go(ar, n.a, env, memo),
            Op::SExt => m(crate::ll::sext128(go(ar, n.a, env, memo), ar.w(n.a)) as u128, n.w),
            Op::Concat => (go(ar, n.a, env, memo) << ar.w(n.b)) | go(ar, n.b, env, memo),
            op => {
                let (x, y) = (go(ar, n.a, env, memo), go(ar, n.b, env, memo));
                Arena::fold(op, ar.w(n.a), x, y).unwrap_or(0)
            }
        };
        memo.insert(e, r);
        r
    }
    go(ar, e, env, &mut HashMap::new())
}
