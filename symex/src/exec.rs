//! The symbolic executor: paths, forks, intrinsics, assertions.
use crate::expr::{Arena, Op, E};
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    Agg(Rc<Vec<V>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum D {
    Take(u32),
    Val(u128),
    Not(u128),
}
struct TraceNode {
    d: D,
    up: Option<Rc<TraceNode>>,
}
impl Drop for TraceNode {
    fn drop(&mut self) {
        // avoid deep recursion
        let mut u = self.up.take();
        while let Some(r) = u {
            match Rc::try_unwrap(r) {
                Ok(mut n) => u = n.up.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
struct Frame {
    func: u32,
    regs: Vec<V>,
    blk: u32,
    ip: u32,
    prev: u32,
    sp: u64,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    heap: u64,
    sp: u64,
    pc: Rc<Vec<E>>,
    subst: Rc<HashMap<E, u128>>,
    touched: Rc<HashSet<u32>>,
    vars: Rc<Vec<VarInfo>>,
    trace: Option<Rc<TraceNode>>,
    replay: Option<(Rc<Vec<D>>, usize)>,
    steps: u64,
    reach: Vec<u32>,
    panic_mode: u32,
    depth: u32,
}

enum Stop {
    Done,          // harness returned
    Panic(String), // the program panicked
    Assumed,       // an assumption failed
    Dead,          // infeasible or already reported
    Hang,          // step or depth limit
    Ub(String),    // unreachable / invalid access
    Error(String), // not supported
    Halt,          // exploration stopped
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Found {
    pub kind: &'static str,
    pub id: u32,
    pub msg: String,
    pub vals: Vec<(u8, u128)>,
    pub reach: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Body,
    Panic,
    Fill,
    Alloc,
    Realloc,
    Assume,
    Assert,
    Reach,
    PanicMode,
    Param,
    Conc,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Umax,
    Umin,
    Smax,
    Smin,
    UaddSat,
    SaddSat,
    SsubSat,
    GetRandom,
    Zero,
    UsubSat,
    UaddOv,
    UsubOv,
    UmulOv,
    SaddOv,
    SsubOv,
    SmulOv,
    Fshl,
    Fshr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Abs,
    Ucmp,
    Scmp,
    IsConst,
    First,
    Trap,
    LoadRel,
    Ignore,
    Unknown,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_viol: usize,
    pub time: f64,
    pub grace: u64,
    pub samples: usize,
    pub threads: usize,
    pub params: Vec<u128>,
}

#[derive(Default)]
pub struct Counters {
    pub done: AtomicU64,
    pub panicked: AtomicU64,
    pub assumed: AtomicU64,
    pub dead: AtomicU64,
    pub forks: AtomicU64,
    pub instrs: AtomicU64,
    pub asserts: AtomicU64,
    pub asserts_solver: AtomicU64,
    pub concretised: AtomicU64,
    pub max_path_instrs: AtomicU64,
    pub max_vars: AtomicU64,
    pub donated: AtomicU64,
    pub abandoned: AtomicU64,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub outcome: &'static str,
    pub vals: Vec<(u8, u128)>,
    pub reach: Vec<u32>,
}

pub struct Run<'m> {
    pub m: &'m Module,
    pub entry: u32,
    pub image: Vec<u8>,
    pub sh: Shared,
    pub cfg: Cfg,
    pub cnt: Counters,
    pub found: Mutex<Vec<Found>>,
    pub errors: Mutex<Vec<String>>,
    pub reach: Mutex<BTreeMap<u32, u64>>,
    pub asserts: Mutex<BTreeMap<u32, u64>>,
    pub sigs: Mutex<HashMap<Vec<u32>, u32>>,
    pub samples: Mutex<Vec<Sample>>,
    pub funcs: Mutex<HashSet<u32>>,
    pub panics: Mutex<BTreeMap<String, u64>>,
    kinds: Vec<FK>,
    queue: Mutex<(Vec<Vec<D>>, usize)>, // traces, idle workers
    cv: Condvar,
    idle: AtomicU64,
    pub stop: AtomicBool,
    pub timed_out: AtomicBool,
    /// when the first violation was found, in ms; 0: none yet
    found_at: AtomicU64,
    seeds: AtomicU64,
    pub t0: Instant,
}

fn fk(name: &str, has_body: bool) -> FK {
    let is = |p: &str| name.starts_with(p);
    match name {
        "__sx_fill" => return FK::Fill,
        "__sx_alloc" => return FK::Alloc,
        "__sx_realloc" => return FK::Realloc,
        "__sx_assume" => return FK::Assume,
        "__sx_assert" => return FK::Assert,
        "__sx_reach" => return FK::Reach,
        "__sx_panic_mode" => return FK::PanicMode,
        "__sx_param" => return FK::Param,
        "__sx_conc" => return FK::Conc,
        "memcpy" | "memmove" => return FK::Memcpy,
        "memset" => return FK::Memset,
        "memcmp" | "bcmp" => return FK::Memcmp,
        "strlen" => return FK::Strlen,
        // hash seeds: venial's results must not depend on them; one value stands for all
        "getrandom" => return FK::GetRandom,
        "__cxa_thread_atexit_impl" => return FK::Zero,
        "abort" | "rust_begin_unwind" | "rust_panic" => return FK::Panic,
        _ => {}
    }
    if name.contains("9panicking") || name.contains("begin_unwind") {
        return FK::Panic;
    }
    if is("llvm.") {
        let n = &name[5..];
        let t: &[(&str, FK)] = &[
            ("memcpy.", FK::Memcpy),
            ("memmove.", FK::Memcpy),
            ("memset.", FK::Memset),
            ("umax.", FK::Umax),
            ("umin.", FK::Umin),
            ("smax.", FK::Smax),
            ("smin.", FK::Smin),
            ("uadd.sat.", FK::UaddSat),
            ("sadd.sat.", FK::SaddSat),
            ("ssub.sat.", FK::SsubSat),
            ("usub.sat.", FK::UsubSat),
            ("uadd.with", FK::UaddOv),
            ("usub.with", FK::UsubOv),
            ("umul.with", FK::UmulOv),
            ("sadd.with", FK::SaddOv),
            ("ssub.with", FK::SsubOv),
            ("smul.with", FK::SmulOv),
            ("fshl.", FK::Fshl),
            ("fshr.", FK::Fshr),
            ("ctlz.", FK::Ctlz),
            ("cttz.", FK::Cttz),
            ("ctpop.", FK::Ctpop),
            ("bswap.", FK::Bswap),
            ("bitreverse.", FK::Bitreverse),
            ("abs.", FK::Abs),
            ("ucmp.", FK::Ucmp),
            ("scmp.", FK::Scmp),
            ("is.constant.", FK::IsConst),
            ("expect.", FK::First),
            ("threadlocal.address", FK::First),
            ("launder.", FK::First),
            ("strip.", FK::First),
            ("trap", FK::Trap),
            ("ubsantrap", FK::Trap),
            ("load.relative", FK::LoadRel),
            ("lifetime", FK::Ignore),
            ("assume", FK::Ignore),
            ("prefetch", FK::Ignore),
            ("invariant", FK::Ignore),
            ("dbg", FK::Ignore),
        ];
        for (p, k) in t {
            if n.starts_with(p) {
                return *k;
            }
        }
        return FK::Unknown;
    }
    if has_body {
        FK::Body
    } else {
        FK::Unknown
    }
}

fn image(m: &Module) -> Vec<u8> {
    let mut img = vec![0u8; (m.globals_end - GLOBAL_BASE) as usize];
    fn put(img: &mut [u8], off: usize, t: &Ty, k: &K) {
        match k {
            K::Zero => {}
            K::Int(v) => {
                let n = t.size() as usize;
                for i in 0..n.min(16) {
                    img[off + i] = (v >> (8 * i)) as u8;
                }
            }
            K::Bytes(b) => img[off..off + b.len()].copy_from_slice(b),
            K::Agg(l) => {
                for (i, x) in l.iter().enumerate() {
                    let (o, ft) = match t {
                        Ty::Struct(f, _) => (t.field_off(i) as usize, f[i].clone()),
                        Ty::Arr(_, e) | Ty::Vec(_, e) => (i * e.size() as usize, (**e).clone()),
                        _ => panic!("aggregate constant of type {:?}", t),
                    };
                    put(img, off + o, &ft, x);
                }
            }
        }
    }
    for g in &m.globals {
        if let Some((a, b)) = g.init {
            let mut lx = Lx::new(&m.src, a, b);
            match m.konst(&mut lx, &g.ty) {
                Ok(k) => put(&mut img, (g.addr - GLOBAL_BASE) as usize, &g.ty, &k),
                Err(_) => {} // refers to a symbol outside the module; a use of it shows up as an error
            }
        }
    }
    img
}

impl<'m> Run<'m> {
    pub fn new(m: &'m Module, entry: u32, z3: String, cfg: Cfg) -> Self {
        Run {
            m,
            entry,
            image: image(m),
            sh: Shared::new(z3, Instant::now(), (cfg.time * 1000.0) as u64 + 2000),
            cfg,
            cnt: Counters::default(),
            found: Mutex::new(vec![]),
            errors: Mutex::new(vec![]),
            reach: Mutex::new(BTreeMap::new()),
            asserts: Mutex::new(BTreeMap::new()),
            sigs: Mutex::new(HashMap::new()),
            samples: Mutex::new(vec![]),
            funcs: Mutex::new(HashSet::new()),
            panics: Mutex::new(BTreeMap::new()),
            kinds: m.funcs.iter().map(|f| fk(&f.name, f.text.is_some())).collect(),
            queue: Mutex::new((vec![vec![]], 0)),
            cv: Condvar::new(),
            idle: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            timed_out: AtomicBool::new(false),
            found_at: AtomicU64::new(0),
            seeds: AtomicU64::new(0),
            t0: Instant::now(),
        }
    }
    pub fn go(&self) {
        let busy = AtomicU64::new(self.cfg.threads as u64);
        std::thread::scope(|s| {
            s.spawn(|| {
                while busy.load(Relaxed) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    let found = self.found_at.load(Relaxed);
                    self.sh.watch(if found == 0 { u64::MAX } else { found + self.cfg.grace + 2000 });
                }
            });
            for _ in 0..self.cfg.threads {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                        let w = std::panic::AssertUnwindSafe(|| Worker::new(self).work());
                        if std::panic::catch_unwind(w).is_err() {
                            self.errors.lock().unwrap_or_else(|e| e.into_inner()).push("the executor panicked".into());
                            self.halt();
                        }
                        busy.fetch_sub(1, Relaxed);
                    })
                    .unwrap();
            }
        });
    }
    /// What to do about a query without an answer: an error, unless time is up anyway.
    fn unanswered(&self, e: String) -> Stop {
        if self.late() {
            Stop::Halt
        } else {
            Stop::Error(e)
        }
    }
    /// Is the time over? After a violation there is only a little more of it.
    fn late(&self) -> bool {
        let found = self.found_at.load(Relaxed);
        if found != 0 && self.t0.elapsed().as_millis() as u64 > found + self.cfg.grace {
            self.halt();
            return true;
        }
        if self.t0.elapsed().as_secs_f64() > self.cfg.time {
            self.timed_out.store(true, Relaxed);
            self.halt();
            return true;
        }
        false
    }
    fn halt(&self) {
        self.stop.store(true, Relaxed);
        // under the lock, so that no worker is between looking at `stop` and waiting
        let _q = self.queue.lock().unwrap_or_else(|e| e.into_inner());
        self.cv.notify_all();
    }
}

struct Worker<'r, 'm> {
    r: &'r Run<'m>,
    m: &'m Module,
    ar: Arena,
    sv: Solver<'r>,
    stack: Vec<State>,
    funcs: HashSet<u32>,
    reach: BTreeMap<u32, u64>,
    asserts: BTreeMap<u32, u64>,
    panics: BTreeMap<String, u64>,
    base: Mem,
    instrs: u64,
    rnd: u64,
}

macro_rules! bail {
    ($($t:tt)*) => { return Err(Stop::Error(format!($($t)*))) };
}

fn mem<T>(r: Result<T, String>) -> R<T> {
    r.map_err(Stop::Ub)
}

impl<'r, 'm> Worker<'r, 'm> {
    fn new(r: &'r Run<'m>) -> Self {
        Worker {
            r,
            m: r.m,
            ar: Arena::new(),
            sv: Solver::new(&r.sh),
            stack: vec![],
            funcs: HashSet::new(),
            reach: BTreeMap::new(),
            asserts: BTreeMap::new(),
            panics: BTreeMap::new(),
            base: Mem::new(&r.image),
            instrs: 0,
            rnd: 0x9e3779b97f4a7c15 ^ (r.seeds.fetch_add(1, Relaxed) + 1).wrapping_mul(0xd1342543de82ef95),
        }
    }
    fn work(mut self) {
        'outer: loop {
            let tr = {
                let mut q = self.r.queue.lock().unwrap();
                loop {
                    if self.r.stop.load(Relaxed) {
                        break 'outer;
                    }
                    if let Some(t) = q.0.pop() {
                        break t;
                    }
                    q.1 += 1;
                    self.r.idle.store(q.1 as u64, Relaxed);
                    if q.1 == self.r.cfg.threads {
                        self.r.cv.notify_all();
                        break 'outer;
                    }
                    q = self.r.cv.wait_timeout(q, std::time::Duration::from_secs(1)).unwrap().0;
                    if q.1 == self.r.cfg.threads {
                        break 'outer;
                    }
                    q.1 -= 1;
                    self.r.idle.store(q.1 as u64, Relaxed);
                }
            };
            // a fresh arena now and then keeps memory bounded
            if self.ar.n.len() > 4_000_000 {
                self.ar = Arena::new();
            }
            let st = self.initial(tr);
            self.stack.push(st);
            while let Some(st) = self.next_state() {
                if self.r.stop.load(Relaxed) || self.r.late() {
                    break 'outer;
                }
                self.run(st);
                self.donate();
            }
        }
        let r = self.r;
        r.cnt.instrs.fetch_add(self.instrs, Relaxed);
        r.funcs.lock().unwrap().extend(self.funcs.iter());
        for (m, l) in [(&r.reach, &self.reach), (&r.asserts, &self.asserts)] {
            let mut m = m.lock().unwrap();
            for (k, v) in l {
                *m.entry(*k).or_insert(0) += v;
            }
        }
        let mut m = r.panics.lock().unwrap();
        for (k, v) in &self.panics {
            *m.entry(k.clone()).or_insert(0) += v;
        }
    }
    /// The next state: mostly depth first, now and then any, so that a run that is cut short
    /// has not spent all its time in one corner.
    fn next_state(&mut self) -> Option<State> {
        let n = self.stack.len();
        if n > 2 && n < 2000 {
            self.rnd ^= self.rnd << 13;
            self.rnd ^= self.rnd >> 7;
            self.rnd ^= self.rnd << 17;
            if self.rnd >> 8 & 7 < 2 {
                let i = (self.rnd >> 20) as usize % n;
                return Some(self.stack.remove(i));
            }
        }
        self.stack.pop()
    }
    fn donate(&mut self) {
        if self.stack.is_empty() || self.r.idle.load(Relaxed) == 0 {
            return;
        }
        let mut q = self.r.queue.lock().unwrap();
        if q.0.len() >= self.r.cfg.threads {
            return;
        }
        let st = self.stack.remove(0);
        let mut v = vec![];
        let mut t = st.trace.clone();
        while let Some(n) = t {
            v.push(n.d);
            t = n.up.clone();
        }
        v.reverse();
        // a donated state may itself still be replaying
        if let Some((r, p)) = &st.replay {
            v.extend_from_slice(&r[*p..]);
        }
        q.0.push(v);
        self.r.cnt.donated.fetch_add(1, Relaxed);
        self.r.cv.notify_one();
    }
    fn initial(&mut self, tr: Vec<D>) -> State {
        let b = self.m.body(self.r.entry);
        self.funcs.insert(self.r.entry);
        let f = Frame {
            func: self.r.entry,
            regs: vec![V::C(0); b.nregs as usize],
            blk: 0,
            ip: 0,
            prev: 0,
            sp: STACK_BASE + 64,
            dst: None,
            normal: None,
        };
        State {
            frames: vec![Rc::new(f)],
            mem: self.base.clone(),
            heap: HEAP_BASE + 64,
            sp: STACK_BASE + 64,
            pc: Rc::new(vec![]),
            subst: Rc::new(HashMap::new()),
            touched: Rc::new(HashSet::new()),
            vars: Rc::new(vec![]),
            trace: None,
            replay: if tr.is_empty() { None } else { Some((Rc::new(tr), 0)) },
            steps: 0,
            reach: vec![],
            panic_mode: 1,
            depth: 0,
        }
    }

    // ------------------------------------------------------------ constraints

    fn simp(&mut self, st: &State, e: E) -> E {
        if self.ar.cst(e).is_some() {
            return e;
        }
        if !self.ar.vars[e as usize].iter().any(|v| st.touched.contains(v)) {
            return e;
        }
        let mut memo = HashMap::new();
        self.simp_go(st, e, &mut memo)
    }
    fn simp_go(&mut self, st: &State, e: E, memo: &mut HashMap<E, E>) -> E {
        let n = self.ar.n[e as usize];
        if n.op == Op::Const {
            return e;
        }
        if let Some(k) = st.subst.get(&e) {
            return self.ar.k(*k, n.w);
        }
        if n.op == Op::Var || !self.ar.vars[e as usize].iter().any(|v| st.touched.contains(v)) {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let a = if n.a != 0 { self.simp_go(st, n.a, memo) } else { 0 };
        let b = if n.b != 0 { self.simp_go(st, n.b, memo) } else { 0 };
        let c = if n.c != 0 { self.simp_go(st, n.c, memo) } else { 0 };
        let mut r = e;
        if a != n.a || b != n.b || c != n.c {
            r = self.ar.rebuild(&n, a, b, c);
            if let Some(k) = st.subst.get(&r) {
                r = self.ar.k(*k, n.w);
            }
        }
        memo.insert(e, r);
        r
    }
    fn slice(&self, st: &State, seeds: &[E]) -> Vec<E> {
        let mut vs: HashSet<u32> = HashSet::new();
        for s in seeds {
            vs.extend(self.ar.vars[*s as usize].iter());
        }
        let mut take = vec![false; st.pc.len()];
        loop {
            let mut grew = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !take[i] {
                    let cv = &self.ar.vars[*c as usize];
                    if cv.iter().any(|v| vs.contains(v)) {
                        take[i] = true;
                        for v in cv.iter() {
                            grew |= vs.insert(*v);
                        }
                    }
                }
            }
            if !grew {
                break;
            }
        }
        st.pc.iter().zip(&take).filter(|(_, t)| **t).map(|(c, _)| *c).collect()
    }
    fn sat(&mut self, st: &State, c: E, full: bool) -> R<bool> {
        if let Some(k) = self.ar.cst(c) {
            if k == 0 {
                return Ok(false);
            }
        }
        let mut q = self.slice(st, &[c]);
        q.push(c);
        match self.sv.sat(&self.ar, &st.vars, &q, full) {
            Answer::Sat => Ok(true),
            Answer::Unsat => Ok(false),
            Answer::Unknown(e) => Err(self.r.unanswered(e)),
        }
    }
    fn add(&mut self, st: &mut State, c: E) {
        let c = self.simp(st, c);
        if self.ar.cst(c).is_some() {
            return;
        }
        let n = self.ar.n[c as usize];
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if let Some(x) = self.ar.is_not(c) {
            let xn = self.ar.n[x as usize];
            if xn.op == Op::Or {
                let p = self.ar.not1(xn.a);
                let q = self.ar.not1(xn.b);
                self.add(st, p);
                self.add(st, q);
                return;
            }
            Rc::make_mut(&mut st.subst).insert(x, 0);
        } else {
            let s = Rc::make_mut(&mut st.subst);
            s.insert(c, 1);
            if n.op == Op::Eq {
                if let Some(k) = self.ar.cst(n.b) {
                    s.insert(n.a, k);
                }
            }
            // the negated comparison is stored the other way round
            let neg = match n.op {
                Op::Ult => Some(Op::Ule),
                Op::Ule => Some(Op::Ult),
                Op::Slt => Some(Op::Sle),
                Op::Sle => Some(Op::Slt),
                _ => None,
            };
            if let Some(o) = neg {
                let x = self.ar.op2(o, n.b, n.a);
                Rc::make_mut(&mut st.subst).insert(x, 0);
            }
        }
        let vs = self.ar.vars[c as usize].clone();
        let t = Rc::make_mut(&mut st.touched);
        for v in vs.iter() {
            t.insert(*v);
        }
        Rc::make_mut(&mut st.pc).push(c);
    }
    fn log(&self, st: &mut State, d: D) {
        st.trace = Some(Rc::new(TraceNode { d, up: st.trace.take() }));
        st.depth += 1;
    }
    fn replayed(&self, st: &mut State) -> Option<D> {
        if let Some((r, p)) = &mut st.replay {
            let d = r[*p];
            *p += 1;
            if *p == r.len() {
                st.replay = None;
            }
            Some(d)
        } else {
            None
        }
    }

    /// Picks one of several mutually exclusive, exhaustive conditions; the others become
    /// new states, which see the same instruction again through `resume`.
    fn choose(&mut self, st: &mut State, conds: &[E]) -> R<u32> {
        let cs: Vec<E> = conds.iter().map(|c| self.simp(st, *c)).collect();
        for (i, c) in cs.iter().enumerate() {
            if self.ar.cst(*c) == Some(1) {
                return Ok(i as u32);
            }
        }
        if let Some(d) = self.replayed(st) {
            self.log(st, d);
            return match d {
                D::Take(i) => {
                    self.add(st, cs[i as usize]);
                    Ok(i)
                }
                _ => bail!("replay diverged at a branch"),
            };
        }
        let mut feas = vec![];
        let n = cs.len();
        for (i, c) in cs.iter().enumerate() {
            if self.ar.cst(*c) == Some(0) {
                continue;
            }
            if i == n - 1 && feas.is_empty() {
                feas.push(i);
                break;
            }
            if self.sat(st, *c, false)? {
                feas.push(i);
            }
        }
        if feas.is_empty() {
            return Err(Stop::Dead);
        }
        if feas.len() > 1 {
            self.r.cnt.forks.fetch_add(feas.len() as u64 - 1, Relaxed);
        }
        for &i in feas[1..].iter().rev() {
            let mut alt = st.clone();
            // The new state re-executes the instruction; this decision makes it take i.
            alt.replay = Some((Rc::new(vec![D::Take(i as u32)]), 0));
            self.stack.push(alt);
        }
        let i = feas[0];
        self.log(st, D::Take(i as u32));
        self.add(st, cs[i]);
        Ok(i as u32)
    }
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        let n = self.ar.not1(c);
        Ok(self.choose(st, &[c, n])? == 0)
    }
    fn conc_e(&mut self, st: &mut State, e: E) -> R<u128> {
        loop {
            let e = self.simp(st, e);
            if let Some(k) = self.ar.cst(e) {
                return Ok(k);
            }
            let w = self.ar.w(e);
            if let Some(d) = self.replayed(st) {
                self.log(st, d);
                match d {
                    D::Val(v) => {
                        let k = self.ar.k(v, w);
                        let q = self.ar.op2(Op::Eq, e, k);
                        self.add(st, q);
                        return Ok(v);
                    }
                    D::Not(v) => {
                        let k = self.ar.k(v, w);
                        let q = self.ar.op2(Op::Eq, e, k);
                        let q = self.ar.not1(q);
                        self.add(st, q);
                        continue;
                    }
                    _ => bail!("replay diverged at a concretisation"),
                }
            }
            let q = self.slice(st, &[e]);
            let v = self.sv.value(&self.ar, &st.vars, &q, e).map_err(|e| self.r.unanswered(e))?;
            self.r.cnt.concretised.fetch_add(1, Relaxed);
            let k = self.ar.k(v, w);
            let eq = self.ar.op2(Op::Eq, e, k);
            let ne = self.ar.not1(eq);
            if self.sat(st, ne, false)? {
                self.r.cnt.forks.fetch_add(1, Relaxed);
                let mut alt = st.clone();
                alt.replay = Some((Rc::new(vec![D::Not(v)]), 0));
                self.stack.push(alt);
            }
            self.log(st, D::Val(v));
            self.add(st, eq);
            return Ok(v);
        }
    }
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::C(k) => Ok(*k),
            V::S(e) => self.conc_e(st, *e),
            V::Agg(_) => bail!("aggregate used as a scalar"),
        }
    }

    // ------------------------------------------------------------ values

    fn kv(k: &K, t: &Ty) -> V {
        match k {
            K::Int(v) => V::C(*v),
            K::Zero => match t {
                Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(|t| Self::kv(&K::Zero, t)).collect())),
                Ty::Arr(n, e) | Ty::Vec(n, e) => V::Agg(Rc::new((0..*n).map(|_| Self::kv(&K::Zero, e)).collect())),
                _ => V::C(0),
            },
            K::Agg(l) => {
                let v = l
                    .iter()
                    .enumerate()
                    .map(|(i, x)| match t {
                        Ty::Struct(f, _) => Self::kv(x, &f[i]),
                        Ty::Arr(_, e) | Ty::Vec(_, e) => Self::kv(x, e),
                        _ => V::C(0),
                    })
                    .collect();
                V::Agg(Rc::new(v))
            }
            K::Bytes(b) => V::Agg(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
        }
    }
    #[inline]
    fn get(st: &State, o: &Opnd, t: &Ty) -> V {
        match o {
            Opnd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::Const(K::Int(v)) => V::C(*v),
            Opnd::Const(k) => Self::kv(k, t),
        }
    }
    fn as_e(&mut self, v: &V, w: u32) -> R<E> {
        match v {
            V::C(k) => Ok(self.ar.k(*k, w)),
            V::S(e) => {
                if self.ar.w(*e) != w {
                    bail!("width {} used as {}", self.ar.w(*e), w);
                }
                Ok(*e)
            }
            V::Agg(_) => bail!("aggregate used as a scalar"),
        }
    }
    fn as_v(&self, e: E) -> V {
        match self.ar.cst(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }
    #[inline]
    fn set(st: &mut State, r: u32, v: V) {
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[r as usize] = v;
    }

    fn load(&mut self, st: &mut State, a: u64, t: &Ty) -> R<V> {
        Ok(match t {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    v.push(self.load(st, a + t.field_off(i), ft)?);
                }
                V::Agg(Rc::new(v))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, a + i * e.size(), e)?);
                }
                V::Agg(Rc::new(v))
            }
            _ => {
                let w = t.width();
                if w > 128 {
                    bail!("load of {} bits", w);
                }
                let n = (w as u64 + 7) / 8;
                match mem(st.mem.read_c(a, n))? {
                    Some(k) => V::C(mask(k, w)),
                    None => {
                        let e = mem(st.mem.read_e(&mut self.ar, a, n))?;
                        let e = self.ar.extract(e, 0, w);
                        let e = self.simp(st, e);
                        self.as_v(e)
                    }
                }
            }
        })
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        match (t, v) {
            (Ty::Struct(f, _), V::Agg(l)) => {
                for (i, ft) in f.iter().enumerate() {
                    self.store(st, a + t.field_off(i), ft, &l[i])?;
                }
            }
            (Ty::Arr(_, e), V::Agg(l)) | (Ty::Vec(_, e), V::Agg(l)) => {
                for (i, x) in l.iter().enumerate() {
                    self.store(st, a + i as u64 * e.size(), e, x)?;
                }
            }
            (_, V::C(k)) => {
                let w = t.width();
                if w > 128 {
                    bail!("store of {} bits", w);
                }
                mem(st.mem.write_c(a, (w as u64 + 7) / 8, mask(*k, w)))?;
            }
            (_, V::S(e)) => {
                let w = t.width();
                let n = (w + 7) / 8;
                let e = self.ar.zext(*e, n * 8);
                mem(st.mem.write_e(&mut self.ar, a, n as u64, e))?;
            }
            _ => bail!("store of {:?}", t),
        }
        Ok(())
    }
    fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::URem => Op::URem,
            Bin::SDiv => Op::SDiv,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            return match Arena::fold(o, w, *x, *y) {
                Some(v) => Ok(V::C(mask(v, w))),
                None => Err(Stop::Ub("division by zero".into())),
            };
        }
        if let (V::Agg(x), V::Agg(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            let mut out = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                out.push(self.bin(op, w, p, q)?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
        let x = self.as_e(a, w)?;
        let y = self.as_e(b, w)?;
        let e = self.ar.op2(o, x, y);
        Ok(self.as_v(e))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = if swap { (*y, *x) } else { (*x, *y) };
            let r = Arena::fold(op, w, x, y).unwrap();
            return Ok(V::C(r ^ neg as u128));
        }
        let (a, b) = if swap { (b, a) } else { (a, b) };
        let x = self.as_e(a, w)?;
        let y = self.as_e(b, w)?;
        let mut e = self.ar.op2(op, x, y);
        if neg {
            e = self.ar.not1(e);
        }
        Ok(self.as_v(e))
    }

    // ------------------------------------------------------------ paths

    fn run(&mut self, mut st: State) {
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
        };
        let c = &self.r.cnt;
        c.max_path_instrs.fetch_max(st.steps, Relaxed);
        c.max_vars.fetch_max(st.vars.len() as u64, Relaxed);
        match r {
            Stop::Done => {
                c.done.fetch_add(1, Relaxed);
                self.sample(&st, "ok");
            }
            Stop::Panic(f) => {
                c.panicked.fetch_add(1, Relaxed);
                *self.panics.entry(f.clone()).or_insert(0) += 1;
                if st.panic_mode != 0 {
                    self.violation(&st, "panic", st.panic_mode, f, None);
                } else {
                    self.sample(&st, "panic");
                }
            }
            Stop::Assumed => {
                c.assumed.fetch_add(1, Relaxed);
            }
            Stop::Dead => {
                c.dead.fetch_add(1, Relaxed);
            }
            Stop::Hang => self.violation(&st, "hang", 0, "step or call depth limit".into(), None),
            Stop::Ub(m) => {
                let w = self.whereami(&st);
                self.violation(&st, "ub", 0, format!("{} in {}", m, w), None)
            }
            Stop::Error(m) => {
                let w = self.whereami(&st);
                let mut e = self.r.errors.lock().unwrap();
                if e.len() < 20 {
                    e.push(format!("{} in {}", m, w));
                }
                drop(e);
                // this path is given up, and counted; the others go on
                if c.abandoned.fetch_add(1, Relaxed) > 20_000 {
                    self.r.halt();
                }
            }
            Stop::Halt => {}
        }
    }
    fn whereami(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| self.m.funcs[f.func as usize].name.clone()).collect::<Vec<_>>().join(" < ")
    }
    fn sample(&mut self, st: &State, outcome: &'static str) {
        let mut sig = st.reach.clone();
        sig.sort_unstable();
        sig.dedup();
        sig.push(if outcome == "ok" { 1 << 30 } else { 1 << 31 });
        {
            let mut m = self.r.sigs.lock().unwrap();
            let n = m.entry(sig).or_insert(0);
            // the first of each kind, then ever rarer ones
            *n += 1;
            let k = *n;
            if !(k <= 2 || k.is_power_of_two() && k < 5000) {
                return;
            }
            if self.r.samples.lock().unwrap().len() >= self.r.cfg.samples {
                return;
            }
        }
        if let Ok(Some(vals)) = self.sv.model(&self.ar, &st.vars, &st.pc) {
            let vals = st.vars.iter().zip(vals).map(|(i, v)| (i.class, v)).collect();
            self.r.samples.lock().unwrap().push(Sample { outcome, vals, reach: st.reach.clone() });
        }
    }
    /// Reports a violation unless no input meets all the environment assumptions.
    fn violation(&mut self, st: &State, kind: &'static str, id: u32, msg: String, extra: Option<E>) {
        if self.r.late() {
            return;
        }
        // a few of each kind are enough
        if self.r.found.lock().unwrap().iter().filter(|x| x.kind == kind && x.id == id).count() >= 4 {
            return;
        }
        let mut cs: Vec<E> = st.pc.to_vec();
        cs.extend(extra);
        match self.sv.model(&self.ar, &st.vars, &cs) {
            Ok(None) => {}
            Ok(Some(vals)) => {
                let vals = st.vars.iter().zip(vals).map(|(i, v)| (i.class, v)).collect();
                let mut f = self.r.found.lock().unwrap();
                let same = f.iter().filter(|x| x.kind == kind && x.id == id).count();
                let now = self.r.t0.elapsed().as_millis() as u64 + 1;
                let _ = self.r.found_at.compare_exchange(0, now, Relaxed, Relaxed);
                if same < 4 {
                    f.push(Found { kind, id, msg, vals, reach: st.reach.clone() });
                }
                if f.len() >= self.r.cfg.max_viol {
                    drop(f);
                    self.r.halt();
                }
            }
            Err(e) => match self.r.unanswered(e) {
                Stop::Error(e) => {
                    self.r.errors.lock().unwrap().push(e);
                    self.r.halt();
                }
                _ => {}
            },
        }
    }

    fn goto(&mut self, st: &mut State, target: u32) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        let b = &self.m.body(f.func).blocks[target as usize];
        let from = f.blk;
        f.prev = from;
        f.blk = target;
        f.ip = 0;
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, l) = &b.phis[0];
                let o = l.iter().find(|(p, _)| *p == from).map(|(_, o)| o);
                if let Some(o) = o {
                    let v = match o {
                        Opnd::Reg(r) => f.regs[*r as usize].clone(),
                        Opnd::Const(K::Int(k)) => V::C(*k),
                        Opnd::Const(k) => Self::kv(k, &Ty::Other),
                    };
                    f.regs[*d as usize] = v;
                }
            }
            _ => {
                let mut vs = Vec::with_capacity(b.phis.len());
                for (_, l) in &b.phis {
                    let o = l.iter().find(|(p, _)| *p == from).map(|(_, o)| o);
                    vs.push(match o {
                        Some(Opnd::Reg(r)) => f.regs[*r as usize].clone(),
                        Some(Opnd::Const(K::Int(k))) => V::C(*k),
                        Some(Opnd::Const(k)) => Self::kv(k, &Ty::Other),
                        None => V::C(0),
                    });
                }
                for ((d, _), v) in b.phis.iter().zip(vs) {
                    f.regs[*d as usize] = v;
                }
            }
        }
    }

    /// One instruction.
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.instrs += 1;
        if st.steps & 0xfff == 0 {
            if self.r.stop.load(Relaxed) {
                return Err(Stop::Halt);
            }
            if self.r.late() {
                return Err(Stop::Halt);
            }
            if st.steps > self.r.cfg.max_steps {
                return Err(Stop::Hang);
            }
        }
        let (func, blk, ip) = {
            let f = st.frames.last().unwrap();
            (f.func, f.blk, f.ip)
        };
        let m: &'m Module = self.m;
        let body = m.body(func);
        let ins = &body.blocks[blk as usize].ins[ip as usize];
        match ins {
            I::Nop => {}
            I::Bin(op, t, d, a, b) => {
                let (x, y) = (Self::get(st, a, t), Self::get(st, b, t));
                let w = match t {
                    Ty::Vec(_, e) => e.width(),
                    _ => t.width(),
                };
                if let (Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem, V::S(e)) = (op, &y) {
                    let z = self.ar.k(0, w);
                    let c = self.ar.op2(Op::Eq, *e, z);
                    if self.branch(st, c)? {
                        return Err(Stop::Ub("division by zero".into()));
                    }
                }
                let v = self.bin(*op, w, &x, &y)?;
                Self::set(st, *d, v);
            }
            I::Icmp(p, t, d, a, b) => {
                let (x, y) = (Self::get(st, a, t), Self::get(st, b, t));
                if let Ty::Vec(_, et) = t {
                    if let (V::Agg(xs), V::Agg(ys)) = (&x, &y) {
                        let mut out = vec![];
                        for (p1, q1) in xs.iter().zip(ys.iter()) {
                            out.push(self.icmp(*p, et.width(), p1, q1)?);
                        }
                        Self::set(st, *d, V::Agg(Rc::new(out)));
                    } else {
                        bail!("vector compare");
                    }
                } else {
                    let v = self.icmp(*p, t.width(), &x, &y)?;
                    Self::set(st, *d, v);
                }
            }
            I::Cast(c, ft, tt, d, a) => {
                let x = Self::get(st, a, ft);
                let v = self.cast(*c, ft, tt, x)?;
                Self::set(st, *d, v);
            }
            I::Select(t, d, c, a, b) => {
                let cv = Self::get(st, c, &Ty::Int(1));
                let v = match cv {
                    V::C(k) => Self::get(st, if k & 1 != 0 { a } else { b }, t),
                    V::S(e) => {
                        let e = self.simp(st, e);
                        match (self.ar.cst(e), t) {
                            (Some(k), _) => Self::get(st, if k & 1 != 0 { a } else { b }, t),
                            (None, Ty::Int(w)) => {
                                let (x, y) = (Self::get(st, a, t), Self::get(st, b, t));
                                let p = self.as_e(&x, *w)?;
                                let q = self.as_e(&y, *w)?;
                                let r = self.ar.ite(e, p, q);
                                self.as_v(r)
                            }
                            _ => {
                                let k = self.branch(st, e)?;
                                Self::get(st, if k { a } else { b }, t)
                            }
                        }
                    }
                    V::Agg(_) => bail!("vector select"),
                };
                Self::set(st, *d, v);
            }
            I::VSelect(ct, t, d, c, a, b) => {
                let (c, x, y) = (Self::get(st, c, ct), Self::get(st, a, t), Self::get(st, b, t));
                let (Ty::Vec(_, et), V::Agg(cs), V::Agg(xs), V::Agg(ys)) = (t, &c, &x, &y) else { bail!("vector select") };
                let mut out = vec![];
                for ((c, x), y) in cs.iter().zip(xs.iter()).zip(ys.iter()) {
                    let w = et.width();
                    let (c, p, q) = (self.as_e(c, 1)?, self.as_e(x, w)?, self.as_e(y, w)?);
                    let r = self.ar.ite(c, p, q);
                    out.push(self.as_v(r));
                }
                Self::set(st, *d, V::Agg(Rc::new(out)));
            }
            I::Shuffle(d, t, a, b, ix) => {
                let (x, y) = (Self::get(st, a, t), Self::get(st, b, t));
                let (V::Agg(xs), V::Agg(ys)) = (&x, &y) else { bail!("shufflevector") };
                let mut out = vec![];
                for i in ix {
                    match xs.iter().chain(ys.iter()).nth(*i as usize) {
                        Some(v) => out.push(v.clone()),
                        None => bail!("shufflevector"),
                    }
                }
                Self::set(st, *d, V::Agg(Rc::new(out)));
            }
            I::Load(t, d, a) => {
                let p = Self::get(st, a, &Ty::Ptr);
                let p = self.conc(st, &p)? as u64;
                let v = self.load(st, p, t)?;
                Self::set(st, *d, v);
            }
            I::Store(t, v, a) => {
                let p = Self::get(st, a, &Ty::Ptr);
                let p = self.conc(st, &p)? as u64;
                let x = Self::get(st, v, t);
                self.store(st, p, t, &x)?;
            }
            I::Gep(d, base, off, idx) => {
                let b = Self::get(st, base, &Ty::Ptr);
                let mut k = *off;
                let mut sym: E = 0;
                match b {
                    V::C(x) => k = k.wrapping_add(x as u64),
                    V::S(e) => sym = e,
                    V::Agg(_) => bail!("gep base"),
                }
                for (o, w, sc) in idx {
                    let v = Self::get(st, o, &Ty::Int(*w));
                    match v {
                        V::C(x) => k = k.wrapping_add((sext128(x, *w) as u64).wrapping_mul(*sc)),
                        V::S(e) => {
                            let e = if *w < 64 {
                                self.ar.sext(e, 64)
                            } else {
                                self.ar.extract(e, 0, 64)
                            };
                            let s = self.ar.k(*sc as u128, 64);
                            let t = self.ar.op2(Op::Mul, e, s);
                            sym = if sym == 0 { t } else { self.ar.op2(Op::Add, sym, t) };
                        }
                        V::Agg(_) => bail!("gep index"),
                    }
                }
                let v = if sym == 0 {
                    V::C(k as u128)
                } else {
                    let kk = self.ar.k(k as u128, 64);
                    let e = self.ar.op2(Op::Add, sym, kk);
                    self.as_v(e)
                };
                Self::set(st, *d, v);
            }
            I::Alloca(d, size, align) => {
                let a = (*align).max(16);
                let p = (st.sp + a - 1) / a * a;
                st.sp = p + size + 16;
                if st.sp > STACK_BASE + STACK_MAX {
                    return Err(Stop::Hang);
                }
                Self::set(st, *d, V::C(p as u128));
            }
            I::Extract(d, a, path, _t) => {
                let mut v = match a {
                    Opnd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    Opnd::Const(k) => Self::kv(k, _t),
                };
                for i in path {
                    v = match &v {
                        V::Agg(l) => l[*i as usize].clone(),
                        _ => V::C(0), // undef aggregate
                    };
                }
                Self::set(st, *d, v);
            }
            I::Insert(d, a, x, path, t) => {
                let base = Self::get(st, a, t);
                let base = match base {
                    V::Agg(_) => base,
                    _ => Self::kv(&K::Zero, t),
                };
                let val = match x {
                    Opnd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    Opnd::Const(k) => {
                        let mut ft = t.clone();
                        for i in path {
                            ft = match &ft {
                                Ty::Struct(f, _) => f[*i as usize].clone(),
                                Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                                _ => Ty::Other,
                            };
                        }
                        Self::kv(k, &ft)
                    }
                };
                fn ins(v: &V, path: &[u32], x: V) -> V {
                    if path.is_empty() {
                        return x;
                    }
                    match v {
                        V::Agg(l) => {
                            let mut l2 = (**l).clone();
                            l2[path[0] as usize] = ins(&l2[path[0] as usize], &path[1..], x);
                            V::Agg(Rc::new(l2))
                        }
                        o => o.clone(),
                    }
                }
                let v = ins(&base, path, val);
                Self::set(st, *d, v);
            }
            I::Rmw(d, op, t, a, x) => {
                let p = Self::get(st, a, &Ty::Ptr);
                let p = self.conc(st, &p)? as u64;
                let old = self.load(st, p, t)?;
                let x = Self::get(st, x, t);
                let w = t.width();
                let new = match *op {
                    "xchg" => x,
                    "add" => self.bin(Bin::Add, w, &old, &x)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &x)?,
                    "and" => self.bin(Bin::And, w, &old, &x)?,
                    "or" => self.bin(Bin::Or, w, &old, &x)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &x)?,
                    _ => bail!("atomicrmw {}", op),
                };
                self.store(st, p, t, &new)?;
                Self::set(st, *d, old);
            }
            I::CmpXchg(d, t, a, cmp, new) => {
                let p = Self::get(st, a, &Ty::Ptr);
                let p = self.conc(st, &p)? as u64;
                let old = self.load(st, p, t)?;
                let c = Self::get(st, cmp, t);
                let n = Self::get(st, new, t);
                let (o, c) = (self.conc(st, &old)?, self.conc(st, &c)?);
                if o == c {
                    self.store(st, p, t, &n)?;
                }
                Self::set(st, *d, V::Agg(Rc::new(vec![V::C(o), V::C((o == c) as u128)])));
            }
            I::Br(t) => {
                self.goto(st, *t);
                return Ok(());
            }
            I::CondBr(c, a, b) => {
                let t = match Self::get(st, c, &Ty::Int(1)) {
                    V::C(k) => k & 1 != 0,
                    V::S(e) => self.branch(st, e)?,
                    V::Agg(_) => bail!("branch on an aggregate"),
                };
                self.goto(st, if t { *a } else { *b });
                return Ok(());
            }
            I::Switch(w, v, def, cases) => {
                let x = Self::get(st, v, &Ty::Int(*w));
                let x = match x {
                    V::S(e) => {
                        let e = self.simp(st, e);
                        self.as_v(e)
                    }
                    o => o,
                };
                let t = match x {
                    V::C(k) => cases.iter().find(|(c, _)| *c == k).map(|(_, t)| *t).unwrap_or(*def),
                    V::S(e) => {
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut none = self.ar.k(1, 1);
                        for (c, t) in cases {
                            let k = self.ar.k(*c, *w);
                            let q = self.ar.op2(Op::Eq, e, k);
                            if *t == *def {
                                continue;
                            }
                            let nq = self.ar.not1(q);
                            none = self.ar.op2(Op::And, none, nq);
                            match groups.iter_mut().find(|(g, _)| g == t) {
                                Some(g) => g.1 = self.ar.op2(Op::Or, g.1, q),
                                None => groups.push((*t, q)),
                            }
                        }
                        groups.push((*def, none));
                        let conds: Vec<E> = groups.iter().map(|g| g.1).collect();
                        let i = self.choose(st, &conds)?;
                        groups[i as usize].0
                    }
                    V::Agg(_) => bail!("switch on an aggregate"),
                };
                self.goto(st, t);
                return Ok(());
            }
            I::Ret(v) => {
                let val = v.as_ref().map(|(t, o)| Self::get(st, o, t));
                let f = st.frames.pop().unwrap();
                st.sp = f.sp;
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (f.dst, val) {
                    Self::set(st, d, v);
                }
                if let Some(n) = f.normal {
                    self.goto(st, n);
                } else {
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                }
                return Ok(());
            }
            I::Unreachable => return Err(Stop::Ub("unreachable code".into())),
            I::Unsupported(s) => bail!("unsupported: {}", s),
            I::Call(dst, callee, args, rt, normal) => {
                let fi = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let p = Self::get(st, o, &Ty::Ptr);
                        let p = self.conc(st, &p)? as u64;
                        if p < FUNC_BASE || p >= FUNC_BASE + 16 * m.funcs.len() as u64 || p % 16 != 0 {
                            return Err(Stop::Ub(format!("call of {:#x}", p)));
                        }
                        ((p - FUNC_BASE) / 16) as u32
                    }
                };
                let kind = self.r.kinds[fi as usize];
                match kind {
                    FK::Body => {
                        if st.frames.len() >= self.r.cfg.max_depth {
                            return Err(Stop::Hang);
                        }
                        self.funcs.insert(fi);
                        let b = m.body(fi);
                        let mut regs = vec![V::C(0); b.nregs as usize];
                        for (i, (t, a)) in args.iter().enumerate() {
                            if i < b.params.len() {
                                regs[b.params[i] as usize] = Self::get(st, a, t);
                            }
                        }
                        let f = Frame { func: fi, regs, blk: 0, ip: 0, prev: 0, sp: st.sp, dst: *dst, normal: *normal };
                        st.frames.push(Rc::new(f));
                        return Ok(());
                    }
                    FK::Panic => return Err(Stop::Panic(m.funcs[fi as usize].name.clone())),
                    FK::Unknown => bail!("call of {}", m.funcs[fi as usize].name),
                    _ => {
                        let a: Vec<V> = args.iter().map(|(t, o)| Self::get(st, o, t)).collect();
                        let r = self.intrinsic(st, kind, fi, &a, args, rt)?;
                        if let (Some(d), Some(v)) = (dst, r) {
                            Self::set(st, *d, v);
                        }
                        if let Some(n) = normal {
                            self.goto(st, *n);
                            return Ok(());
                        }
                    }
                }
            }
        }
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
        Ok(())
    }

    fn cast(&mut self, c: Cast, ft: &Ty, tt: &Ty, x: V) -> R<V> {
        if let (Ty::Vec(_, fe), Ty::Vec(_, te), V::Agg(l)) = (ft, tt, &x) {
            let l = l.clone();
            let mut out = vec![];
            for v in l.iter() {
                out.push(self.cast(c, fe, te, v.clone())?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
        let (fw, tw) = (ft.width(), tt.width());
        if fw == 0 || tw == 0 {
            // bit casts between scalars and vectors
            return self.bitcast(ft, tt, x);
        }
        Ok(match (c, &x) {
            (Cast::Copy, _) if fw == tw => x,
            (Cast::Copy, V::C(k)) => V::C(mask(*k, tw)),
            (Cast::Copy, V::S(e)) => {
                let e = if fw > tw { self.ar.extract(*e, 0, tw) } else { self.ar.zext(*e, tw) };
                self.as_v(e)
            }
            (Cast::Zext, V::C(k)) => V::C(*k),
            (Cast::Sext, V::C(k)) => V::C(mask(sext128(*k, fw) as u128, tw)),
            (Cast::Trunc, V::C(k)) => V::C(mask(*k, tw)),
            (Cast::Zext, V::S(e)) => {
                let e = self.ar.zext(*e, tw);
                self.as_v(e)
            }
            (Cast::Sext, V::S(e)) => {
                let e = self.ar.sext(*e, tw);
                self.as_v(e)
            }
            (Cast::Trunc, V::S(e)) => {
                let e = self.ar.extract(*e, 0, tw);
                self.as_v(e)
            }
            _ => bail!("cast of an aggregate"),
        })
    }
    fn bitcast(&mut self, ft: &Ty, tt: &Ty, x: V) -> R<V> {
        // to one wide value, then apart
        let mut parts: Vec<(E, u32)> = vec![];
        match (&x, ft) {
            (V::Agg(l), Ty::Vec(_, e)) => {
                for v in l.clone().iter() {
                    let w = e.width();
                    parts.push((self.as_e(v, w)?, w));
                }
            }
            (v, t) => {
                let w = t.width();
                parts.push((self.as_e(v, w)?, w));
            }
        }
        let total: u32 = parts.iter().map(|p| p.1).sum();
        if total > 128 {
            bail!("bitcast of {} bits", total);
        }
        let mut acc = parts[0].0;
        for p in &parts[1..] {
            acc = self.ar.concat(p.0, acc);
        }
        match tt {
            Ty::Vec(n, e) => {
                let w = e.width();
                let mut out = vec![];
                for i in 0..*n as u32 {
                    let x = self.ar.extract(acc, i * w, w);
                    out.push(self.as_v(x));
                }
                Ok(V::Agg(Rc::new(out)))
            }
            _ => Ok(self.as_v(acc)),
        }
    }

    fn intrinsic(&mut self, st: &mut State, k: FK, fi: u32, a: &[V], args: &[(Ty, Opnd)], rt: &Ty) -> R<Option<V>> {
        let w = args.first().map(|x| x.0.width()).unwrap_or(0);
        Ok(match k {
            FK::Ignore => None,
            FK::Fill => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let cl = self.conc(st, &a[2])? as u8;
                if n > 16 {
                    bail!("symbolic value of {} bytes", n);
                }
                let id = st.vars.len() as u32;
                Rc::make_mut(&mut st.vars).push(VarInfo { class: cl, w: 8 * n as u32 });
                let e = self.ar.var(id, 8 * n as u32);
                mem(st.mem.write_e(&mut self.ar, p, n, e))?;
                None
            }
            FK::Alloc | FK::Realloc => {
                let (n, al) = if k == FK::Alloc {
                    (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64)
                } else {
                    (self.conc(st, &a[3])? as u64, self.conc(st, &a[2])? as u64)
                };
                let al = al.max(16);
                let p = (st.heap + al - 1) / al * al;
                if n > 1 << 24 || p + n > HEAP_BASE + HEAP_MAX {
                    return Err(Stop::Hang);
                }
                st.heap = p + n + 16;
                if k == FK::Realloc {
                    let old = self.conc(st, &a[0])? as u64;
                    let on = self.conc(st, &a[1])? as u64;
                    mem(st.mem.copy(p, old, on.min(n)))?;
                }
                Some(V::C(p as u128))
            }
            FK::Assume => {
                let c = match &a[0] {
                    V::C(k) => *k & 1 != 0,
                    V::S(e) => {
                        let e = self.simp(st, *e);
                        let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                        match self.ar.cst(e) {
                            Some(k) => k != 0,
                            None => {
                                // no fork: the other side is cut off
                                if st.replay.is_some() || self.sat(st, e, false)? {
                                    self.add(st, e);
                                    true
                                } else {
                                    false
                                }
                            }
                        }
                    }
                    V::Agg(_) => bail!("assume"),
                };
                if !c {
                    return Err(Stop::Assumed);
                }
                None
            }
            FK::Assert => {
                let id = self.conc(st, &a[1])? as u32;
                let replaying = st.replay.is_some();
                if !replaying {
                    self.r.cnt.asserts.fetch_add(1, Relaxed);
                    *self.asserts.entry(id).or_insert(0) += 1;
                }
                match &a[0] {
                    V::C(k) => {
                        if *k & 1 == 0 {
                            if !replaying {
                                self.violation(st, "assert", id, String::new(), None);
                            }
                            return Err(Stop::Dead);
                        }
                    }
                    V::S(e) => {
                        let e = self.simp(st, *e);
                        let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                        if self.ar.cst(e) != Some(1) {
                            let ne = self.ar.not1(e);
                            if !replaying {
                                self.r.cnt.asserts_solver.fetch_add(1, Relaxed);
                                if self.sat(st, ne, true)? {
                                    self.violation(st, "assert", id, String::new(), Some(ne));
                                    if !self.sat(st, e, false)? {
                                        return Err(Stop::Dead);
                                    }
                                }
                            }
                            self.add(st, e);
                        }
                    }
                    V::Agg(_) => bail!("assert"),
                }
                None
            }
            FK::Reach => {
                let id = self.conc(st, &a[0])? as u32;
                st.reach.push(id);
                if st.replay.is_none() {
                    *self.reach.entry(id).or_insert(0) += 1;
                }
                None
            }
            FK::PanicMode => {
                st.panic_mode = self.conc(st, &a[0])? as u32;
                None
            }
            FK::Param => {
                let i = self.conc(st, &a[0])? as usize;
                Some(V::C(self.r.cfg.params.get(i).copied().unwrap_or(0)))
            }
            FK::Conc => {
                let v = self.conc(st, &a[0])?;
                Some(V::C(v))
            }
            FK::Memcpy => {
                let n = self.conc(st, &a[2])? as u64;
                if n > 0 {
                    let d = self.conc(st, &a[0])? as u64;
                    let s = self.conc(st, &a[1])? as u64;
                    if n > 1 << 22 {
                        return Err(Stop::Ub("huge copy".into()));
                    }
                    mem(st.mem.copy(d, s, n))?;
                }
                Some(a[0].clone())
            }
            FK::Memset => {
                let n = self.conc(st, &a[2])? as u64;
                let d = if n > 0 { self.conc(st, &a[0])? as u64 } else { 0 };
                match &a[1] {
                    V::C(k) => {
                        for i in 0..n {
                            mem(st.mem.write_c(d + i, 1, *k & 0xff))?;
                        }
                    }
                    V::S(e) => {
                        let e = self.ar.extract(*e, 0, 8);
                        for i in 0..n {
                            mem(st.mem.write_e(&mut self.ar, d + i, 1, e))?;
                        }
                    }
                    _ => bail!("memset"),
                }
                Some(a[0].clone())
            }
            FK::Memcmp => {
                let n = self.conc(st, &a[2])? as u64;
                let bcmp = self.m.funcs[fi as usize].name == "bcmp";
                let rw = rt.width();
                let one = self.ar.k(1, rw);
                let zero = self.ar.k(0, rw);
                let neg = self.ar.k(u128::MAX, rw);
                let mut acc = zero;
                if n > 0 {
                    let p = self.conc(st, &a[0])? as u64;
                    let q = self.conc(st, &a[1])? as u64;
                    if bcmp {
                        let mut all = self.ar.k(1, 1);
                        let mut i = 0;
                        while i < n {
                            let l = (n - i).min(16);
                            let x = mem(st.mem.read_e(&mut self.ar, p + i, l))?;
                            let y = mem(st.mem.read_e(&mut self.ar, q + i, l))?;
                            let e = self.ar.op2(Op::Eq, x, y);
                            all = self.ar.op2(Op::And, all, e);
                            i += l;
                        }
                        acc = self.ar.ite(all, zero, one);
                    } else {
                        for i in (0..n).rev() {
                            let x = mem(st.mem.read_e(&mut self.ar, p + i, 1))?;
                            let y = mem(st.mem.read_e(&mut self.ar, q + i, 1))?;
                            let eq = self.ar.op2(Op::Eq, x, y);
                            let lt = self.ar.op2(Op::Ult, x, y);
                            let d = self.ar.ite(lt, neg, one);
                            acc = self.ar.ite(eq, acc, d);
                        }
                    }
                }
                Some(self.as_v(acc))
            }
            FK::Strlen => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0u64;
                loop {
                    match mem(st.mem.read_c(p + n, 1))? {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => bail!("strlen of symbolic text"),
                    }
                }
                Some(V::C(n as u128))
            }
            FK::Umax | FK::Umin | FK::Smax | FK::Smin => {
                let (p, swap) = match k {
                    FK::Umax => (Pred::Ugt, false),
                    FK::Umin => (Pred::Ult, false),
                    FK::Smax => (Pred::Sgt, false),
                    _ => (Pred::Slt, false),
                };
                let _ = swap;
                let c = self.icmp(p, w, &a[0], &a[1])?;
                Some(self.pick(c, &a[0], &a[1], w)?)
            }
            FK::SaddSat | FK::SsubSat => {
                let b = if k == FK::SaddSat { Bin::Add } else { Bin::Sub };
                let (t, t2) = (Ty::Int(w), Ty::Int(2 * w));
                let x = self.cast(Cast::Sext, &t, &t2, a[0].clone())?;
                let y = self.cast(Cast::Sext, &t, &t2, a[1].clone())?;
                let wide = self.bin(b, 2 * w, &x, &y)?;
                let lo = self.cast(Cast::Trunc, &t2, &t, wide.clone())?;
                let back = self.cast(Cast::Sext, &t, &t2, lo.clone())?;
                let o = self.icmp(Pred::Ne, 2 * w, &wide, &back)?;
                let neg = self.icmp(Pred::Slt, w, &a[0], &V::C(0))?;
                let (min, max) = (V::C(1u128 << (w - 1)), V::C((1u128 << (w - 1)) - 1));
                let m = self.pick(neg, &min, &max, w)?;
                Some(self.pick(o, &m, &lo, w)?)
            }
            FK::GetRandom => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                for i in 0..n {
                    mem(st.mem.write_c(p + i, 1, 0x5a))?;
                }
                Some(V::C(n as u128))
            }
            FK::Zero => Some(V::C(0)),
            FK::UaddSat => {
                let s = self.bin(Bin::Add, w, &a[0], &a[1])?;
                let o = self.icmp(Pred::Ult, w, &s, &a[0])?;
                let m = V::C(mask(u128::MAX, w));
                Some(self.pick(o, &m, &s, w)?)
            }
            FK::UsubSat => {
                let s = self.bin(Bin::Sub, w, &a[0], &a[1])?;
                let o = self.icmp(Pred::Ult, w, &a[0], &a[1])?;
                Some(self.pick(o, &V::C(0), &s, w)?)
            }
            FK::UaddOv => {
                let s = self.bin(Bin::Add, w, &a[0], &a[1])?;
                let o = self.icmp(Pred::Ult, w, &s, &a[0])?;
                Some(V::Agg(Rc::new(vec![s, o])))
            }
            FK::UsubOv => {
                let s = self.bin(Bin::Sub, w, &a[0], &a[1])?;
                let o = self.icmp(Pred::Ult, w, &a[0], &a[1])?;
                Some(V::Agg(Rc::new(vec![s, o])))
            }
            FK::SaddOv | FK::SsubOv | FK::SmulOv | FK::UmulOv => {
                if 2 * w > 128 {
                    // only concrete
                    let (x, y) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                    let (p, o) = match k {
                        FK::UmulOv => {
                            let (p, o) = x.overflowing_mul(y);
                            (p, o)
                        }
                        _ => bail!("128-bit overflow check"),
                    };
                    return Ok(Some(V::Agg(Rc::new(vec![V::C(p), V::C(o as u128)]))));
                }
                let b = match k {
                    FK::SaddOv => Bin::Add,
                    FK::SsubOv => Bin::Sub,
                    _ => Bin::Mul,
                };
                let c = if k == FK::UmulOv { Cast::Zext } else { Cast::Sext };
                let (t, t2) = (Ty::Int(w), Ty::Int(2 * w));
                let x = self.cast(c, &t, &t2, a[0].clone())?;
                let y = self.cast(c, &t, &t2, a[1].clone())?;
                let wide = self.bin(b, 2 * w, &x, &y)?;
                let lo = self.cast(Cast::Trunc, &t2, &t, wide.clone())?;
                let back = self.cast(c, &t, &t2, lo.clone())?;
                let o = self.icmp(Pred::Ne, 2 * w, &wide, &back)?;
                Some(V::Agg(Rc::new(vec![lo, o])))
            }
            FK::Fshl | FK::Fshr => {
                let s = self.conc(st, &a[2])? as u32 % w;
                if s == 0 {
                    return Ok(Some(if k == FK::Fshl { a[0].clone() } else { a[1].clone() }));
                }
                let (l, r) = if k == FK::Fshl { (s, w - s) } else { (w - s, s) };
                let x = self.bin(Bin::Shl, w, &a[0], &V::C(l as u128))?;
                let y = self.bin(Bin::LShr, w, &a[1], &V::C(r as u128))?;
                Some(self.bin(Bin::Or, w, &x, &y)?)
            }
            FK::Ctlz | FK::Cttz | FK::Ctpop | FK::Bswap | FK::Bitreverse => {
                if let (FK::Bswap, V::S(e)) = (k, &a[0]) {
                    let mut acc = self.ar.extract(*e, 0, 8);
                    for i in 1..w / 8 {
                        let x = self.ar.extract(*e, 8 * i, 8);
                        acc = self.ar.concat(acc, x);
                    }
                    return Ok(Some(self.as_v(acc)));
                }
                let x = self.conc(st, &a[0])?;
                Some(V::C(match k {
                    FK::Ctlz => (x.leading_zeros() - (128 - w)) as u128,
                    FK::Cttz => x.trailing_zeros().min(w) as u128,
                    FK::Ctpop => x.count_ones() as u128,
                    FK::Bitreverse => x.reverse_bits() >> (128 - w),
                    _ => x.swap_bytes() >> (128 - w),
                }))
            }
            FK::Abs => {
                let n = self.bin(Bin::Sub, w, &V::C(0), &a[0])?;
                let c = self.icmp(Pred::Slt, w, &a[0], &V::C(0))?;
                Some(self.pick(c, &n, &a[0], w)?)
            }
            FK::Ucmp | FK::Scmp => {
                let rw = rt.width();
                let (l, g) = if k == FK::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp(l, w, &a[0], &a[1])?;
                let gt = self.icmp(g, w, &a[0], &a[1])?;
                let x = self.pick(gt, &V::C(1), &V::C(0), rw)?;
                Some(self.pick(lt, &V::C(mask(u128::MAX, rw)), &x, rw)?)
            }
            FK::IsConst => Some(V::C(0)),
            FK::First => Some(a[0].clone()),
            FK::Trap => return Err(Stop::Panic("trap".into())),
            FK::LoadRel => {
                let p = self.conc(st, &a[0])? as u64;
                let o = self.conc(st, &a[1])?;
                let v = self.load(st, p.wrapping_add(o as u64), &Ty::Int(32))?;
                let v = self.conc(st, &v)?;
                Some(V::C(p.wrapping_add(sext128(v, 32) as u64) as u128))
            }
            FK::Body | FK::Panic | FK::Unknown => unreachable!(),
        })
    }
    fn pick(&mut self, c: V, x: &V, y: &V, w: u32) -> R<V> {
        match c {
            V::C(k) => Ok(if k != 0 { x.clone() } else { y.clone() }),
            V::S(e) => {
                let p = self.as_e(x, w)?;
                let q = self.as_e(y, w)?;
                let r = self.ar.ite(e, p, q);
                Ok(self.as_v(r))
            }
            V::Agg(_) => bail!("pick"),
        }
    }
}
