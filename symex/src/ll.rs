//! Reader for textual LLVM IR.  Function bodies are decoded the first time they are called.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Void | Ty::Other => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
}

/// A constant, with global addresses already filled in.
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Agg(Vec<K>),
    Bytes(Vec<u8>),
    Zero,
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Const(K),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Copy,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(Opnd),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, u32, Opnd, Opnd),
    Icmp(Pred, Ty, u32, Opnd, Opnd),
    Cast(Cast, Ty, Ty, u32, Opnd),
    Select(Ty, u32, Opnd, Opnd, Opnd),
    Load(Ty, u32, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, u64, Vec<(Opnd, u32, u64)>), // dst, base, constant offset, (index, width, scale)
    Alloca(u32, u64, u64),
    Call(Option<u32>, Callee, Vec<(Ty, Opnd)>, Ty, Option<u32>), // last: normal destination (invoke)
    Extract(u32, Opnd, Vec<u32>, Ty),
    Insert(u32, Opnd, Opnd, Vec<u32>, Ty),
    Shuffle(u32, Ty, Opnd, Opnd, Vec<u32>),
    VSelect(Ty, Ty, u32, Opnd, Opnd, Opnd),
    Rmw(u32, &'static str, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<I>,
}
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}
pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>, // byte range of "define ... }"
    pub body: OnceLock<Body>,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub addr: u64,
    pub size: u64,
    pub is_const: bool,
}
pub struct Module {
    pub src: String,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub sym: HashMap<String, u64>, // global or function name -> address
    pub fidx: HashMap<String, u32>,
    pub types: HashMap<String, (usize, usize)>,
    pub globals_end: u64,
}

pub const GLOBAL_BASE: u64 = 0x0010_0000;
pub const FUNC_BASE: u64 = 0x4000_0000;

// ------------------------------------------------------------------ lexer

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),  // "..."
    CStr(&'a str), // c"..."
    Meta,
    Attr,
    P(u8),
    Dots,
    Eof,
}

pub struct Lx<'a> {
    s: &'a str,
    pub p: usize,
    end: usize,
}

fn wordch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    pub fn new(s: &'a str, p: usize, end: usize) -> Self {
        Lx { s, p, end }
    }
    fn b(&self, i: usize) -> u8 {
        if i < self.end {
            self.s.as_bytes()[i]
        } else {
            0
        }
    }
    fn skip(&mut self) {
        loop {
            let c = self.b(self.p);
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.p += 1;
            } else if c == b';' {
                while self.p < self.end && self.b(self.p) != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    fn name(&mut self) -> &'a str {
        if self.b(self.p) == b'"' {
            let st = self.p + 1;
            let mut i = st;
            while self.b(i) != b'"' {
                i += 1;
            }
            self.p = i + 1;
            &self.s[st..i]
        } else {
            let st = self.p;
            let mut i = st;
            while wordch(self.b(i)) {
                i += 1;
            }
            self.p = i;
            &self.s[st..i]
        }
    }
    pub fn next(&mut self) -> T<'a> {
        self.skip();
        if self.p >= self.end {
            return T::Eof;
        }
        let c = self.b(self.p);
        match c {
            b'%' => {
                self.p += 1;
                T::Local(self.name())
            }
            b'@' => {
                self.p += 1;
                T::Global(self.name())
            }
            b'!' => {
                // metadata: !123, !name, !{...}, !DI...(...)
                self.p += 1;
                while wordch(self.b(self.p)) {
                    self.p += 1;
                }
                T::Meta
            }
            b'#' => {
                self.p += 1;
                while wordch(self.b(self.p)) {
                    self.p += 1;
                }
                T::Attr
            }
            b'"' => T::Str(self.name()),
            b'c' if self.b(self.p + 1) == b'"' => {
                self.p += 1;
                T::CStr(self.name())
            }
            b'.' if self.b(self.p + 1) == b'.' && self.b(self.p + 2) == b'.' => {
                self.p += 3;
                T::Dots
            }
            _ if c.is_ascii_digit() || (c == b'-' && self.b(self.p + 1).is_ascii_digit()) => T::Num(self.name()),
            _ if wordch(c) => T::Word(self.name()),
            _ => {
                self.p += 1;
                T::P(c)
            }
        }
    }
    pub fn peek(&mut self) -> T<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        let p = self.p;
        let t = self.next();
        if t != T::P(c) {
            panic!("expected {:?}, got {:?} near {:?}", c as char, t, &self.s[p.saturating_sub(80)..(p + 80).min(self.end)]);
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek() == T::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            T::Word(w) => is_type_word(w),
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::Local(_) => true,
            _ => false,
        }
    }
    /// Skips attributes and calling conventions in front of a type.
    fn skip_attrs(&mut self) {
        loop {
            if self.at_type() {
                return;
            }
            match self.peek() {
                T::Word(_) | T::Num(_) | T::Str(_) | T::Attr => {
                    self.next();
                    if self.peek() == T::P(b'(') {
                        self.skip_parens();
                    } else if self.peek() == T::P(b'=') {
                        self.next();
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    match w {
        "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128" => true,
        _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()),
    }
}

impl Module {
    fn ty(&self, lx: &mut Lx) -> Ty {
        let mut t = match lx.next() {
            T::Word("ptr") => {
                if lx.eat_word("addrspace") {
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            T::Word("void") => Ty::Void,
            T::Word("float") => Ty::Float(32),
            T::Word("double") => Ty::Float(64),
            T::Word(w) if is_type_word(w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
            T::Word(_) => Ty::Other,
            T::P(b'{') => self.struct_ty(lx, false),
            T::P(b'<') => {
                if lx.eat(b'{') {
                    let t = self.struct_ty(lx, true);
                    lx.expect(b'>');
                    t
                } else {
                    let n: u64 = match lx.next() {
                        T::Num(n) => n.parse().unwrap(),
                        t => panic!("vector type {:?}", t),
                    };
                    lx.next(); // x
                    let e = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Box::new(e))
                }
            }
            T::P(b'[') => {
                let n: u64 = match lx.next() {
                    T::Num(n) => n.parse().unwrap(),
                    t => panic!("array type {:?}", t),
                };
                lx.next(); // x
                let e = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Box::new(e))
            }
            T::Local(n) => {
                let (a, b) = *self.types.get(n).unwrap_or_else(|| panic!("unknown type {}", n));
                let mut l2 = Lx::new(&self.src, a, b);
                self.ty(&mut l2)
            }
            t => panic!("type: {:?}", t),
        };
        // function type: ret (args)
        if lx.peek() == T::P(b'(') && t != Ty::Other {
            // only in call instructions of vararg functions; the caller checks
            let save = lx.p;
            lx.skip_parens();
            match lx.peek() {
                T::Global(_) | T::Local(_) => {}
                _ => {
                    lx.p = save;
                }
            }
        }
        if t == Ty::Other {
            t = Ty::Other;
        }
        t
    }
    fn struct_ty(&self, lx: &mut Lx, packed: bool) -> Ty {
        let mut f = vec![];
        if !lx.eat(b'}') {
            loop {
                f.push(self.ty(lx));
                if lx.eat(b'}') {
                    break;
                }
                lx.expect(b',');
            }
        }
        Ty::Struct(f, packed)
    }

    /// A constant of type `t`.
    pub fn konst(&self, lx: &mut Lx, t: &Ty) -> Result<K, String> {
        Ok(match lx.next() {
            T::Num(n) => {
                if let Ty::Float(_) = t {
                    return parse_float(n, t).map(K::Int);
                }
                K::Int(parse_int(n, t.width()))
            }
            T::Word("true") => K::Int(1),
            T::Word("false") => K::Int(0),
            T::Word("null") | T::Word("undef") | T::Word("poison") | T::Word("zeroinitializer") | T::Word("none") => {
                match t {
                    Ty::Int(_) | Ty::Ptr | Ty::Float(_) => K::Int(0),
                    _ => K::Zero,
                }
            }
            T::Global(g) => K::Int(*self.sym.get(g).ok_or_else(|| format!("symbol {}", g))? as u128),
            T::CStr(s) => K::Bytes(unescape(s)),
            T::P(b'{') => K::Agg(self.klist(lx, b'}')?),
            T::P(b'[') => K::Agg(self.klist(lx, b']')?),
            T::P(b'<') => {
                if lx.eat(b'{') {
                    let l = self.klist(lx, b'}')?;
                    lx.expect(b'>');
                    K::Agg(l)
                } else {
                    K::Agg(self.klist(lx, b'>')?)
                }
            }
            T::Word("splat") => {
                lx.expect(b'(');
                let et = self.ty(lx);
                let k = self.konst(lx, &et)?;
                lx.expect(b')');
                match t {
                    Ty::Vec(n, _) => K::Agg(vec![k; *n as usize]),
                    _ => return Err("splat".into()),
                }
            }
            T::Word("getelementptr") => {
                while let T::Word(w) = lx.peek() {
                    if is_type_word(w) {
                        break;
                    }
                    lx.next();
                    if lx.peek() == T::P(b'(') && w == "inrange" {
                        lx.skip_parens();
                    }
                }
                lx.expect(b'(');
                let et = self.ty(lx);
                lx.expect(b',');
                let bt = self.ty(lx);
                let base = self.kint(lx, &bt)?;
                let mut idx = vec![];
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let w = it.width();
                    let v = self.kint(lx, &it)?;
                    idx.push(sext128(v, w));
                }
                lx.expect(b')');
                let mut off: i128 = 0;
                let mut cur = et;
                for (k, i) in idx.iter().enumerate() {
                    if k == 0 {
                        off += *i * cur.size() as i128;
                    } else {
                        off += match &cur {
                            Ty::Struct(..) => cur.field_off(*i as usize) as i128,
                            Ty::Arr(_, e) | Ty::Vec(_, e) => *i * e.size() as i128,
                            _ => return Err("gep constant".into()),
                        };
                        cur = match &cur {
                            Ty::Struct(f, _) => f[*i as usize].clone(),
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                            _ => unreachable!(),
                        };
                    }
                }
                K::Int((base as i128).wrapping_add(off) as u64 as u128)
            }
            T::Word("ptrtoint") | T::Word("inttoptr") | T::Word("bitcast") | T::Word("trunc") | T::Word("addrspacecast") | T::Word("ptrtoaddr") => {
                lx.expect(b'(');
                let ft = self.ty(lx);
                let v = self.kint(lx, &ft)?;
                lx.next(); // to
                let tt = self.ty(lx);
                lx.expect(b')');
                K::Int(mask(v, tt.width()))
            }
            T::Word(op @ ("sub" | "add" | "xor")) => {
                while let T::Word(_) = lx.peek() {
                    lx.next();
                }
                lx.expect(b'(');
                let ta = self.ty(lx);
                let a = self.kint(lx, &ta)?;
                lx.expect(b',');
                let tb = self.ty(lx);
                let b = self.kint(lx, &tb)?;
                lx.expect(b')');
                K::Int(mask(
                    match op {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        _ => a ^ b,
                    },
                    ta.width(),
                ))
            }
            t => return Err(format!("constant {:?}", t)),
        })
    }
    fn kint(&self, lx: &mut Lx, t: &Ty) -> Result<u128, String> {
        match self.konst(lx, t)? {
            K::Int(v) => Ok(v),
            _ => Err("integer constant".into()),
        }
    }
    fn klist(&self, lx: &mut Lx, close: u8) -> Result<Vec<K>, String> {
        let mut v = vec![];
        if lx.eat(close) {
            return Ok(v);
        }
        loop {
            let t = self.ty(lx);
            v.push(self.konst(lx, &t)?);
            if lx.eat(close) {
                return Ok(v);
            }
            lx.expect(b',');
        }
    }

    pub fn parse(src: String) -> Module {
        let mut m = Module {
            src,
            funcs: vec![],
            globals: vec![],
            sym: HashMap::new(),
            fidx: HashMap::new(),
            types: HashMap::new(),
            globals_end: 0,
        };
        let src = std::mem::take(&mut m.src);
        let b = src.as_bytes();
        let mut p = 0;
        let mut graw: Vec<(String, usize, usize)> = vec![];
        while p < b.len() {
            let e = src[p..].find('\n').map(|i| p + i).unwrap_or(b.len());
            let line = &src[p..e];
            if line.starts_with("define") {
                let close = src[p..].find("\n}").map(|i| p + i + 2).unwrap();
                let name = fn_name(line);
                m.fidx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(Func { name, text: Some((p, close)), body: OnceLock::new() });
                p = close;
                continue;
            } else if line.starts_with("declare") {
                let name = fn_name(line);
                m.fidx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(Func { name, text: None, body: OnceLock::new() });
            } else if line.starts_with('@') {
                let mut lx = Lx::new(&src, p, e);
                if let T::Global(n) = lx.next() {
                    let n = n.to_string();
                    lx.expect(b'=');
                    graw.push((n, lx.p, e));
                }
            } else if line.starts_with('%') {
                let mut lx = Lx::new(&src, p, e);
                if let T::Local(n) = lx.next() {
                    lx.next();
                    lx.next(); // = type
                    m.types.insert(n.to_string(), (lx.p, e));
                }
            }
            p = e + 1;
        }
        for (i, f) in m.funcs.iter().enumerate() {
            m.sym.insert(f.name.clone(), FUNC_BASE + i as u64 * 16);
        }
        m.src = src;
        let mut addr = GLOBAL_BASE;
        let mut gl = vec![];
        for (name, s, e) in graw {
            let mut lx = Lx::new(&m.src, s, e);
            let mut is_const = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.peek() {
                    T::Word("constant") => {
                        is_const = true;
                        lx.next();
                        break;
                    }
                    T::Word("global") => {
                        lx.next();
                        break;
                    }
                    T::Word("alias") | T::Word("ifunc") => {
                        alias = true;
                        break;
                    }
                    T::Word("external") | T::Word("extern_weak") => {
                        external = true;
                        lx.next();
                    }
                    T::Eof => break,
                    _ => {
                        lx.next();
                    }
                }
            }
            if alias || lx.peek() == T::Eof {
                continue;
            }
            let ty = m.ty(&mut lx);
            let size = ty.size();
            addr = (addr + 63) / 64 * 64;
            m.sym.insert(name.clone(), addr);
            gl.push(Global { name, ty, init: if external { None } else { Some((lx.p, e)) }, addr, size, is_const });
            addr += size.max(1);
        }
        m.globals_end = (addr + 4095) / 4096 * 4096;
        m.globals = gl;
        m
    }

    pub fn body(&self, f: u32) -> &Body {
        let func = &self.funcs[f as usize];
        func.body.get_or_init(|| {
            let (a, b) = func.text.expect("body of a declaration");
            FnParser { m: self, regs: HashMap::new(), labels: HashMap::new() }.run(a, b)
        })
    }
}

fn fn_name(line: &str) -> String {
    let at = line.find('@').unwrap();
    let mut lx = Lx::new(line, at, line.len());
    match lx.next() {
        T::Global(n) => n.to_string(),
        _ => panic!("function name in {}", line),
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
fn parse_int(n: &str, w: u32) -> u128 {
    if let Some(r) = n.strip_prefix('-') {
        mask((r.parse::<u128>().unwrap()).wrapping_neg(), w)
    } else {
        mask(n.parse::<u128>().unwrap(), w)
    }
}
fn parse_float(n: &str, t: &Ty) -> Result<u128, String> {
    if let Some(h) = n.strip_prefix("0x") {
        if let Ok(v) = u64::from_str_radix(h, 16) {
            return Ok(match t {
                Ty::Float(32) => (f64::from_bits(v) as f32).to_bits() as u128,
                _ => v as u128,
            });
        }
    }
    let v: f64 = n.parse().map_err(|_| format!("float {}", n))?;
    Ok(match t {
        Ty::Float(32) => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    })
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b.get(i + 1) == Some(&b'\\') {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

// ------------------------------------------------------------------ function bodies

struct FnParser<'m> {
    m: &'m Module,
    regs: HashMap<&'m str, u32>,
    labels: HashMap<&'m str, u32>,
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &'m str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opnd(&mut self, lx: &mut Lx<'m>, t: &Ty) -> Result<Opnd, String> {
        if let T::Local(n) = lx.peek() {
            lx.next();
            return Ok(Opnd::Reg(self.reg(n)));
        }
        if lx.peek() == T::Word("asm") {
            return Err("inline asm".into());
        }
        Ok(Opnd::Const(self.m.konst(lx, t)?))
    }
    fn tyop(&mut self, lx: &mut Lx<'m>) -> Result<(Ty, Opnd), String> {
        let t = self.m.ty(lx);
        let o = self.opnd(lx, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, lx: &mut Lx<'m>) -> Result<u32, String> {
        match (lx.next(), lx.next()) {
            (T::Word("label"), T::Local(n)) => self.labels.get(n).copied().ok_or_else(|| format!("label {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }

    fn run(mut self, a: usize, b: usize) -> Body {
        let m: &'m Module = self.m;
        let src: &'m str = &m.src;
        // header: define ... @name(params) ... {
        let hdr_end = src[a..b].find('\n').map(|i| a + i).unwrap();
        let at = src[a..hdr_end].find('@').map(|i| a + i).unwrap();
        let mut lx = Lx::new(src, at, hdr_end);
        lx.next();
        lx.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        let mut ptexts: Vec<Option<&'m str>> = vec![];
        if !lx.eat(b')') {
            loop {
                if lx.peek() == T::Dots {
                    lx.next();
                    lx.expect(b')');
                    break;
                }
                let _t = m.ty(&mut lx);
                // attributes up to the name
                let mut name = None;
                loop {
                    match lx.peek() {
                        T::Local(n) => {
                            lx.next();
                            name = Some(n);
                        }
                        T::P(b',') | T::P(b')') => break,
                        _ => {
                            lx.next();
                            if lx.peek() == T::P(b'(') {
                                lx.skip_parens();
                            }
                        }
                    }
                }
                ptexts.push(name);
                if name.map_or(true, |n| n.bytes().all(|c| c.is_ascii_digit())) {
                    unnamed += 1;
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        for n in ptexts {
            let r = self.reg(n.unwrap_or("__unnamed_param"));
            params.push(r);
        }
        // split into lines and blocks
        let mut blocks_lines: Vec<Vec<(usize, usize)>> = vec![];
        let body = &src[hdr_end + 1..b];
        let base = hdr_end + 1;
        let mut off = 0;
        let mut first_label_seen = false;
        for line in body.split_inclusive('\n') {
            let (ls, le) = (base + off, base + off + line.len());
            off += line.len();
            let t = line.trim_end();
            if t.is_empty() || t == "}" || t.trim_start().starts_with(';') || t.trim_start().starts_with("#dbg_") {
                continue;
            }
            let c0 = t.as_bytes()[0];
            if c0 != b' ' && c0 != b'\t' && c0 != b']' {
                // label
                let mut l = Lx::new(src, ls, le);
                let name = match l.next() {
                    T::Num(n) | T::Word(n) | T::Str(n) => n,
                    x => panic!("label line {:?} {:?}", x, t),
                };
                let idx = blocks_lines.len() as u32;
                self.labels.insert(name, idx);
                blocks_lines.push(vec![]);
                first_label_seen = true;
                continue;
            }
            if !first_label_seen {
                // entry block without a label: its implicit name is the next number
                let n = unnamed.to_string();
                let n: &'m str = Box::leak(n.into_boxed_str());
                self.labels.insert(n, 0);
                blocks_lines.push(vec![]);
                first_label_seen = true;
            }
            blocks_lines.last_mut().unwrap().push((ls, le));
        }
        // join continuation lines
        let mut blocks = vec![];
        for lines in blocks_lines {
            let mut blk = Block { phis: vec![], ins: vec![] };
            let mut i = 0;
            while i < lines.len() {
                let (s, mut e) = lines[i];
                let text = &src[s..e];
                let tr = text.trim_start();
                if tr.starts_with("switch") || tr.starts_with("indirectbr") {
                    while !src[s..e].trim_end().trim_end_matches(|c: char| c != ']').ends_with(']') {
                        i += 1;
                        e = lines[i].1;
                    }
                } else if tr.starts_with("invoke") || tr.contains("= invoke ") {
                    if i + 1 < lines.len() && src[lines[i + 1].0..lines[i + 1].1].trim_start().starts_with("to label") {
                        i += 1;
                        e = lines[i].1;
                    }
                } else if tr.contains("= landingpad") {
                    while i + 1 < lines.len() {
                        let n = src[lines[i + 1].0..lines[i + 1].1].trim_start();
                        if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
                            i += 1;
                            e = lines[i].1;
                        } else {
                            break;
                        }
                    }
                }
                i += 1;
                if tr.starts_with('%') && tr.contains("= phi ") {
                    match self.phi(Lx::new(src, s, e)) {
                        Ok(p) => blk.phis.push(p),
                        Err(x) => blk.ins.push(I::Unsupported(format!("{}: {}", x, tr.trim_end()))),
                    }
                    continue;
                }
                match self.ins(Lx::new(src, s, e)) {
                    Ok(I::Nop) => {}
                    Ok(x) => blk.ins.push(x),
                    Err(x) => blk.ins.push(I::Unsupported(format!("{}: {}", x, tr.trim_end()))),
                }
            }
            blocks.push(blk);
        }
        Body { nregs: self.regs.len() as u32, params, blocks }
    }

    fn phi(&mut self, mut lx: Lx<'m>) -> Result<(u32, Vec<(u32, Opnd)>), String> {
        let d = match lx.next() {
            T::Local(n) => self.reg(n),
            _ => return Err("phi".into()),
        };
        lx.expect(b'=');
        lx.next();
        while let T::Word(w) = lx.peek() {
            if is_type_word(w) {
                break;
            }
            lx.next();
        }
        let t = self.m.ty(&mut lx);
        let mut v = vec![];
        loop {
            lx.expect(b'[');
            let o = self.opnd(&mut lx, &t)?;
            lx.expect(b',');
            let l = match lx.next() {
                T::Local(n) => *self.labels.get(n).ok_or_else(|| format!("phi label {}", n))?,
                _ => return Err("phi label".into()),
            };
            lx.expect(b']');
            v.push((l, o));
            if !lx.eat(b',') {
                break;
            }
            if lx.peek() != T::P(b'[') {
                break;
            }
        }
        Ok((d, v))
    }

    fn ins(&mut self, mut lx: Lx<'m>) -> Result<I, String> {
        let m: &'m Module = self.m;
        let mut dst = None;
        if let T::Local(n) = lx.peek() {
            lx.next();
            lx.expect(b'=');
            dst = Some(self.reg(n));
        }
        let op = match lx.next() {
            T::Word(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let flags = |lx: &mut Lx<'m>| {
            while let T::Word(w) = lx.peek() {
                if is_type_word(w) {
                    break;
                }
                lx.next();
            }
        };
        Ok(match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                flags(&mut lx);
                let t = m.ty(&mut lx);
                let a = self.opnd(&mut lx, &t)?;
                lx.expect(b',');
                let b = self.opnd(&mut lx, &t)?;
                let k = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "urem" => Bin::URem,
                    "sdiv" => Bin::SDiv,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                I::Bin(k, t, d, a, b)
            }
            "icmp" => {
                let mut pred = None;
                while let T::Word(w) = lx.peek() {
                    if is_type_word(w) {
                        break;
                    }
                    lx.next();
                    pred = match w {
                        "eq" => Some(Pred::Eq),
                        "ne" => Some(Pred::Ne),
                        "ult" => Some(Pred::Ult),
                        "ule" => Some(Pred::Ule),
                        "ugt" => Some(Pred::Ugt),
                        "uge" => Some(Pred::Uge),
                        "slt" => Some(Pred::Slt),
                        "sle" => Some(Pred::Sle),
                        "sgt" => Some(Pred::Sgt),
                        "sge" => Some(Pred::Sge),
                        _ => pred,
                    };
                }
                let t = m.ty(&mut lx);
                let a = self.opnd(&mut lx, &t)?;
                lx.expect(b',');
                let b = self.opnd(&mut lx, &t)?;
                I::Icmp(pred.ok_or("icmp predicate")?, t, d, a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                flags(&mut lx);
                let (ft, a) = self.tyop(&mut lx)?;
                lx.next(); // to
                let tt = m.ty(&mut lx);
                let (fw, tw) = (ft.width(), tt.width());
                let c = match op {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if fw < tw {
                            Cast::Zext
                        } else if fw > tw {
                            Cast::Trunc
                        } else {
                            Cast::Copy
                        }
                    }
                    _ => Cast::Copy,
                };
                I::Cast(c, ft, tt, d, a)
            }
            "freeze" => {
                let (t, a) = self.tyop(&mut lx)?;
                I::Cast(Cast::Copy, t.clone(), t, d, a)
            }
            "select" => {
                flags(&mut lx);
                let (ct, c) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (t, a) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (_, b) = self.tyop(&mut lx)?;
                if ct != Ty::Int(1) {
                    return Ok(I::VSelect(ct, t, d, c, a, b));
                }
                I::Select(t, d, c, a, b)
            }
            "load" => {
                flags(&mut lx);
                let t = m.ty(&mut lx);
                lx.expect(b',');
                let (_, p) = self.tyop(&mut lx)?;
                I::Load(t, d, p)
            }
            "store" => {
                flags(&mut lx);
                let (t, v) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (_, p) = self.tyop(&mut lx)?;
                I::Store(t, v, p)
            }
            "alloca" => {
                flags(&mut lx);
                let t = m.ty(&mut lx);
                let mut n = 1;
                let mut align = t.align();
                while lx.eat(b',') {
                    match lx.peek() {
                        T::Word("align") => {
                            lx.next();
                            if let T::Num(x) = lx.next() {
                                align = x.parse().unwrap();
                            }
                        }
                        T::Meta => {
                            lx.next();
                            if lx.peek() == T::Meta {
                                lx.next();
                            }
                        }
                        _ => {
                            let (_, o) = self.tyop(&mut lx)?;
                            match o {
                                Opnd::Const(K::Int(k)) => n = k as u64,
                                _ => return Err("dynamic alloca".into()),
                            }
                        }
                    }
                }
                I::Alloca(d, t.size() * n, align)
            }
            "getelementptr" => {
                flags(&mut lx);
                let mut cur = m.ty(&mut lx);
                lx.expect(b',');
                let (bt, base) = self.tyop(&mut lx)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off: u64 = 0;
                let mut dynx = vec![];
                let mut first = true;
                while lx.eat(b',') {
                    if lx.peek() == T::Meta {
                        break;
                    }
                    let (it, o) = self.tyop(&mut lx)?;
                    let scale;
                    let next;
                    if first {
                        scale = cur.size();
                        next = cur.clone();
                    } else {
                        match &cur {
                            Ty::Struct(f, _) => {
                                let i = match &o {
                                    Opnd::Const(K::Int(i)) => *i as usize,
                                    _ => return Err("gep struct index".into()),
                                };
                                off = off.wrapping_add(cur.field_off(i));
                                cur = f[i].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                next = (**e).clone();
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                    first = false;
                    match &o {
                        Opnd::Const(K::Int(i)) => {
                            off = off.wrapping_add((sext128(*i, it.width()) as u64).wrapping_mul(scale))
                        }
                        Opnd::Const(_) => return Err("gep index".into()),
                        _ => dynx.push((o, it.width(), scale)),
                    }
                    cur = next;
                }
                I::Gep(d, base, off, dynx)
            }
            "extractelement" => {
                let (t, a) = self.tyop(&mut lx)?;
                lx.expect(b',');
                match self.tyop(&mut lx)?.1 {
                    Opnd::Const(K::Int(k)) => I::Extract(d, a, vec![k as u32], t),
                    _ => return Err("extractelement at a computed place".into()),
                }
            }
            "insertelement" => {
                let (t, a) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (_, v) = self.tyop(&mut lx)?;
                lx.expect(b',');
                match self.tyop(&mut lx)?.1 {
                    Opnd::Const(K::Int(k)) => I::Insert(d, a, v, vec![k as u32], t),
                    _ => return Err("insertelement at a computed place".into()),
                }
            }
            "shufflevector" => {
                let (t, a) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (_, b) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (mt, o) = self.tyop(&mut lx)?;
                let n = match mt {
                    Ty::Vec(n, _) => n as usize,
                    _ => return Err("shufflevector".into()),
                };
                let ix = match o {
                    Opnd::Const(K::Zero) => vec![0; n],
                    Opnd::Const(K::Agg(l)) => l
                        .iter()
                        .map(|k| match k {
                            K::Int(k) => *k as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("shufflevector".into()),
                };
                I::Shuffle(d, t, a, b, ix)
            }
            "extractvalue" => {
                let (t, a) = self.tyop(&mut lx)?;
                let mut ix = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        T::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                I::Extract(d, a, ix, t)
            }
            "insertvalue" => {
                let (t, a) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (_, v) = self.tyop(&mut lx)?;
                let mut ix = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        T::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                I::Insert(d, a, v, ix, t)
            }
            "br" => {
                if lx.peek() == T::Word("label") {
                    I::Br(self.label(&mut lx)?)
                } else {
                    let (_, c) = self.tyop(&mut lx)?;
                    lx.expect(b',');
                    let a = self.label(&mut lx)?;
                    lx.expect(b',');
                    let b = self.label(&mut lx)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let def = self.label(&mut lx)?;
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let (_, o) = self.tyop(&mut lx)?;
                    lx.expect(b',');
                    let l = self.label(&mut lx)?;
                    match o {
                        Opnd::Const(K::Int(k)) => cases.push((k, l)),
                        _ => return Err("switch case".into()),
                    }
                }
                I::Switch(t.width(), v, def, cases)
            }
            "ret" => {
                let t = m.ty(&mut lx);
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let o = self.opnd(&mut lx, &t)?;
                    I::Ret(Some((t, o)))
                }
            }
            "unreachable" => I::Unreachable,
            "fence" => I::Nop,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    lx.next();
                }
                lx.skip_attrs();
                let rt = m.ty(&mut lx);
                let callee = match lx.next() {
                    T::Global(g) => match m.fidx.get(g) {
                        Some(i) => Callee::Direct(*i),
                        None => return Err(format!("call of unknown symbol {}", g)),
                    },
                    T::Local(n) => Callee::Indirect(Opnd::Reg(self.reg(n))),
                    t => return Err(format!("callee {:?}", t)),
                };
                if let Callee::Direct(i) = &callee {
                    let n = &m.funcs[*i as usize].name;
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.invariant")
                    {
                        return Ok(I::Nop);
                    }
                }
                lx.expect(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = m.ty(&mut lx);
                        // attributes up to the operand
                        loop {
                            match lx.peek() {
                                T::Word(w) => {
                                    let is_const = matches!(
                                        w,
                                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat"
                                    );
                                    if is_const {
                                        break;
                                    }
                                    lx.next();
                                    if w == "align" {
                                        lx.next();
                                    } else if lx.peek() == T::P(b'(') {
                                        lx.skip_parens();
                                    }
                                }
                                T::Str(_) => {
                                    lx.next();
                                }
                                _ => break,
                            }
                        }
                        let o = self.opnd(&mut lx, &t)?;
                        args.push((t, o));
                        if lx.eat(b')') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    loop {
                        match lx.next() {
                            T::Word("to") => {
                                normal = Some(self.label(&mut lx)?);
                                break;
                            }
                            T::Eof => return Err("invoke".into()),
                            _ => {}
                        }
                    }
                }
                I::Call(dst, callee, args, rt, normal)
            }
            "atomicrmw" => {
                flags(&mut lx);
                // atomicrmw [volatile] op ptr p, ty v ordering; flags() has eaten the operation name
                let txt = &lx.s[..lx.p];
                let opn = txt.trim_end().rsplit(' ').next().unwrap();
                let opn: &'static str = Box::leak(opn.to_string().into_boxed_str());
                let (_, p) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (t, v) = self.tyop(&mut lx)?;
                I::Rmw(d, opn, t, p, v)
            }
            "cmpxchg" => {
                flags(&mut lx);
                let (_, p) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (t, c) = self.tyop(&mut lx)?;
                lx.expect(b',');
                let (_, n) = self.tyop(&mut lx)?;
                I::CmpXchg(d, t, p, c, n)
            }
            _ => return Err(format!("instruction {}", op)),
        })
    }
}
