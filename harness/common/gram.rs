//! A generator of declarations (from the Rust grammar, not from venial) and the matching
//! view of what venial made of one: two lists of labelled pieces that have to agree.
use crate::env;
use crate::props::B;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

// Labels: hundreds are the groups that properties ask for.
pub const KIND: u32 = 100; // + kind
pub const NAME: u32 = 120;
pub const F_UNIT: u32 = 200;
pub const F_TUPLE: u32 = 201;
pub const F_NAMED: u32 = 202;
pub const FIELD: u32 = 203;
pub const F_NAME: u32 = 204;
pub const F_TY: u32 = 205;
pub const F_END: u32 = 206;
pub const VARIANT: u32 = 207;
pub const V_NAME: u32 = 208;
pub const S_SEMI: u32 = 209;
pub const V_LIST: u32 = 210;
pub const GENERICS: u32 = 300;
pub const GP_LIFETIME: u32 = 301;
pub const GP_TYPE: u32 = 302;
pub const GP_CONST: u32 = 303;
pub const GP_BAD: u32 = 304;
pub const GP_BOUND: u32 = 305;
pub const WHERE: u32 = 400;
pub const PRED_LEFT: u32 = 401;
pub const PRED_BOUND: u32 = 402;
pub const Q_DEFAULT: u32 = 500;
pub const Q_CONST: u32 = 501;
pub const Q_ASYNC: u32 = 502;
pub const Q_UNSAFE: u32 = 503;
pub const Q_EXTERN: u32 = 504;
pub const Q_ABI: u32 = 505;
pub const FN_PARAMS: u32 = 506;
pub const P_RECV: u32 = 507;
pub const P_REF: u32 = 508;
pub const P_LIFETIME: u32 = 509;
pub const P_MUT: u32 = 510;
pub const P_TYPED: u32 = 511;
pub const P_NAME: u32 = 512;
pub const P_TY: u32 = 513;
pub const RET: u32 = 514;
pub const BODY: u32 = 515;
pub const FN_SEMI: u32 = 516;
pub const V_VALUE: u32 = 600;
pub const V_NOVALUE: u32 = 601;
pub const ATTR: u32 = 700;
pub const ATTR_INNER: u32 = 701;
pub const ATTR_PATH: u32 = 702;
pub const ATTR_EMPTY: u32 = 703;
pub const ATTR_GROUP: u32 = 704;
pub const ATTR_EQ: u32 = 705;
pub const ATTR_SINGLE: u32 = 706;
pub const ATTR_MULTI: u32 = 707;
pub const VIS: u32 = 710;
pub const VIS_RESTRICTED: u32 = 711;
pub const MEMBERS: u32 = 800;
pub const MEMBERS_END: u32 = 801;
pub const M_FN: u32 = 802;
pub const M_CONST: u32 = 803;
pub const M_TYPE: u32 = 804;
pub const M_MACRO: u32 = 805;
pub const M_ITEM: u32 = 806;
pub const M_OTHER: u32 = 807;
pub const UNSAFE: u32 = 808;
pub const I_TRAIT: u32 = 809;
pub const I_SELF: u32 = 810;
pub const T_SUPER: u32 = 811;
pub const MOD_SEMI: u32 = 812;
pub const X_ABI: u32 = 813;
pub const C_MUT: u32 = 900;
pub const C_TY: u32 = 901;
pub const C_INIT: u32 = 902;
pub const C_STATIC: u32 = 903;
pub const C_CONST: u32 = 904;
pub const A_BOUND: u32 = 905;
pub const A_TY: u32 = 906;
pub const U_TREE: u32 = 907;
pub const MAC_DECLARED: u32 = 908;
pub const MAC_BODY: u32 = 909;
pub const MAC_SEMI: u32 = 910;
pub const X_ALIAS: u32 = 911;
pub const C_EQ: u32 = 912;
pub const C_SEMI: u32 = 913;
pub const A_EQ: u32 = 914;
pub const A_SEMI: u32 = 915;
pub const U_SEMI: u32 = 916;
pub const X_SEMI: u32 = 917;
pub const X_AS: u32 = 918;
const MAC_DELIM: u32 = 920;

// Kinds of items.
pub const STRUCT: usize = 0;
pub const ENUM: usize = 1;
pub const UNION: usize = 2;
pub const FUNCTION: usize = 3;
pub const IMPL: usize = 4;
pub const TRAIT: usize = 5;
pub const MODULE: usize = 6;
pub const TYPE: usize = 7;
pub const CONSTANT: usize = 8;
pub const USE: usize = 9;
pub const MACRO: usize = 10;
pub const EXTERN_BLOCK: usize = 11;
pub const EXTERN_CRATE: usize = 12;
pub const KINDS: usize = 13;

/// Forms of types in types: outer ones, inner ones; of bounds around types.
const OUTER: usize = 16;
/// The sizes of long and deep types, and how many shapes there are.
const SIZES: [usize; 9] = [3, 4, 5, 6, 7, 8, 11, 17, 40];
fn sizes() -> &'static [usize] {
    if env::param(9) == 4 {
        &[130]
    } else {
        &SIZES
    }
}
const BIG: usize = 12;
const BIG_BOUND: usize = 6;
const INNER: usize = 47;
const OUTER_BOUND: usize = 5;

pub type Pieces = Vec<(u32, TokenStream)>;

// ------------------------------------------------------------------ the generator

pub struct G {
    pub b: B,
    pub e: Pieces,
    /// The group of features this run varies most.
    pub focus: u32,
    /// How many features may differ from the plainest form: of that group, of the others.
    pub bf: usize,
    pub bo: usize,
    /// How many pieces may be an arbitrary sequence of tokens, and how long those may be.
    pub free: usize,
    pub free_len: usize,
    /// How deep members nest.
    pub depth: usize,
    seen: bool,
    /// How many elements a list may have.
    pub list: usize,
    /// The first list of the focus group has this many elements (0: not forced).
    pub forced: usize,
    /// Use the second set of forms (of types, bounds, qualifiers, attributes, ...).
    pub more: bool,
    /// Types in types: every form of a type inside every form that holds one.
    pub nested: bool,
    /// Long and deep types, bounds, paths and values.
    pub big: bool,
}

impl G {
    /// Parameters: 0 length of free pieces, 2 focus (hundreds), 3 features of the focus,
    /// 4 other features, 1 free pieces, 8 length of the first list of the focus group,
    /// 9 second set of forms, 10 extra depth of modules.
    pub fn new() -> G {
        G {
            b: B::new(),
            e: Vec::new(),
            focus: env::param(2) as u32,
            bf: env::param(3),
            bo: env::param(4),
            free: env::param(1),
            free_len: env::param(0),
            depth: 1 + env::param(10),
            seen: false,
            list: 2,
            forced: env::param(8),
            more: env::param(9) >= 1,
            nested: env::param(9) == 2,
            big: env::param(9) == 3 || env::param(9) == 4,
        }
    }
    /// Picks one of n forms; form 0 is the plainest and costs nothing.
    pub fn alt(&mut self, group: u32, n: usize) -> usize {
        let left = if group == self.focus { self.bf } else { self.bo };
        if left == 0 {
            return 0;
        }
        let x = env::choose(n);
        if x != 0 {
            if group == self.focus {
                self.bf -= 1;
            } else {
                self.bo -= 1;
            }
        }
        x
    }
    /// The first place where the focus group occurs has it for nothing.
    fn first(&mut self, group: u32) -> bool {
        let first = group == self.focus && !self.seen;
        self.seen |= first;
        first
    }
    pub fn opt(&mut self, group: u32) -> bool {
        self.alt(group, 2) == 1
    }
    /// How many elements of a list.
    pub fn count(&mut self, group: u32, least: usize) -> usize {
        if self.forced > 0 && group == self.focus {
            return std::mem::take(&mut self.forced);
        }
        let most = self.list.max(least);
        let n = self.alt(group, most - least + 1);
        // the plainest list has one element
        if least == 0 {
            match n {
                0 => 1,
                1 => 0,
                n => n,
            }
        } else {
            least + n
        }
    }
    pub fn mark(&mut self, label: u32) {
        self.e.push((label, TokenStream::new()));
    }
    /// What `f` writes is the piece with this label.
    pub fn piece(&mut self, label: u32, f: impl FnOnce(&mut G)) {
        let at = self.e.len();
        self.mark(label);
        let from = env::len(&self.b.0);
        f(self);
        self.e[at].1 = env::tail(&self.b.0, from);
    }
    /// What `f` writes, as a stream of its own.
    pub fn sub(&mut self, f: impl FnOnce(&mut G)) -> TokenStream {
        let outer = std::mem::replace(&mut self.b, B::new());
        f(self);
        std::mem::replace(&mut self.b, outer).0
    }
    /// `:` that cannot be taken for half of a `::`.
    fn colon(&mut self, next: &TokenStream) {
        // (in long lists, alone: every free choice doubles the cases)
        let sp = if env::param(8) > 0 || starts_with_colon(next) { Spacing::Alone } else { env::any_spacing() };
        let mut p = Punct::new(':', sp);
        p.set_span(env::span());
        self.b.put(p);
    }
    /// `=` that cannot be taken for half of a `==` or `=>`.
    fn equals(&mut self, next: &TokenStream) {
        if starts_with(next, '=') || starts_with(next, '>') {
            self.b.p('=');
        } else {
            self.b.pa('=');
        }
    }
    /// A keyword that is a piece of its own.
    fn kwp(&mut self, label: u32, s: &str) {
        self.piece(label, |g| g.b.kw(s));
    }
    fn pp(&mut self, label: u32, c: char) {
        self.piece(label, |g| g.b.pa(c));
    }
    fn lifetime(&mut self) -> Ident {
        self.b.pj('\'');
        self.b.id()
    }
    fn path2(&mut self) {
        self.b.id();
        self.b.colon2();
        self.b.id();
    }
    /// A stream nobody looks into.
    pub fn opaque(&mut self) -> TokenStream {
        if self.free > 0 {
            self.free -= 1;
            return env::any_stream(self.free_len, 0);
        }
        self.sub(|g| {
            g.b.id();
            g.b.pa(';');
            g.b.lit();
        })
    }

    /// A type expression.
    pub fn ty(&mut self, group: u32, stop: Stop) -> TokenStream {
        if self.free > 0 && group == self.focus && env::boolean() {
            self.free -= 1;
            let s = env::any_stream(self.free_len, 0);
            env::assume(is_type(&s, stop));
            return s;
        }
        if self.nested {
            let form = self.alt(group, 1 + OUTER * INNER);
            let s = self.sub(|g| g.nested_ty(form));
            env::assume(form == 0 || is_type(&s, stop));
            return s;
        }
        if self.big {
            let form = self.alt(group, 1 + BIG * sizes().len());
            let s = self.sub(|g| g.big_ty(form));
            env::assume(form == 0 || is_type(&s, stop));
            return s;
        }
        if self.more {
            let form = self.alt(group, 28);
            let s = self.sub(|g| g.more_ty(form));
            env::assume(form == 0 || is_type(&s, stop));
            return s;
        }
        let form = self.alt(group, 20);
        self.sub(|g| g.base_ty(form))
    }
    fn base_ty(&mut self, form: usize) {
        let g = self;
        match form {
            0 => {
                g.b.id();
            }
            1 => {
                // I<I>
                g.b.id();
                g.b.pa('<');
                g.b.id();
                g.b.pa('>');
            }
            2 => {
                // I<'a, I, lit>
                g.b.id();
                g.b.pa('<');
                g.lifetime();
                g.b.pa(',');
                g.b.id();
                g.b.pa(',');
                g.b.lit();
                g.b.pa('>');
            }
            3 => {
                // &'a mut I
                g.b.pj('&');
                g.lifetime();
                g.b.kw("mut");
                g.b.id();
            }
            4 => {
                // (I, I)
                let mut i = B::new();
                i.id();
                i.pa(',');
                i.id();
                g.b.parens(&i.0);
            }
            5 => {
                // fn(I) -> I
                g.b.kw("fn");
                let mut i = B::new();
                i.id();
                g.b.parens(&i.0);
                g.b.pj('-');
                g.b.pa('>');
                g.b.id();
            }
            6 => g.path2(),
            7 => {
                // [I; lit]
                let mut i = B::new();
                i.id();
                i.pa(';');
                i.lit();
                g.b.brackets(&i.0);
            }
            8 => {
                // I<I<I>>
                g.b.id();
                g.b.pa('<');
                g.b.id();
                g.b.pa('<');
                g.b.id();
                g.b.pj('>');
                g.b.pa('>');
            }
            9 => {
                // <I as I>::I
                g.b.pa('<');
                g.b.id();
                g.b.kw("as");
                g.b.id();
                g.b.pa('>');
                g.b.colon2();
                g.b.id();
            }
            10 => {
                // I<dyn I(I) -> I, I>
                g.b.id();
                g.b.pa('<');
                g.b.kw("dyn");
                g.b.id();
                let mut i = B::new();
                i.id();
                g.b.parens(&i.0);
                g.b.pj('-');
                g.b.pa('>');
                g.b.id();
                g.b.pa(',');
                g.b.id();
                g.b.pa('>');
            }
            11 => {
                // *const I
                g.b.pa('*');
                g.b.kw("const");
                g.b.id();
            }
            12 => {
                // I<{ .. }>
                g.b.id();
                g.b.pa('<');
                let o = g.opaque();
                g.b.braces(&o);
                g.b.pa('>');
            }
            13 => g.b.pa('!'),
            14 => {
                // I<I = I<I>, I>
                g.b.id();
                g.b.pa('<');
                g.b.id();
                g.b.pa('=');
                g.b.id();
                g.b.pa('<');
                g.b.id();
                g.b.pa('>');
                g.b.pa(',');
                g.b.id();
                g.b.pa('>');
            }
            15 => {
                // ::I::I
                g.b.colon2();
                g.path2();
            }
            16 => {
                // a type that came through a macro
                let mut i = B::new();
                i.id();
                i.colon2();
                i.id();
                g.b.group(Delimiter::None, &i.0);
            }
            17 => {
                // crate::I
                g.b.kw("crate");
                g.b.colon2();
                g.b.id();
            }
            18 => {
                // impl I + 'a
                g.b.kw("impl");
                g.b.id();
                g.b.pa('+');
                g.lifetime();
            }
            _ => {
                // I::<I>::I
                g.b.id();
                g.b.colon2();
                g.b.pa('<');
                g.b.id();
                g.b.pa('>');
                g.b.colon2();
                g.b.id();
            }
        }
    }
    fn inner_ty(&mut self, form: usize) {
        if form < 20 {
            self.base_ty(form)
        } else {
            self.more_ty(form - 19)
        }
    }
    /// Form 0 is a name; the others are one type in another.
    fn nested_ty(&mut self, form: usize) {
        if form == 0 {
            self.b.id();
            return;
        }
        let (outer, x) = ((form - 1) / INNER, (form - 1) % INNER);
        let g = self;
        match outer {
            0 => g.args(|g| g.inner_ty(x)),
            1 => g.args(|g| {
                g.b.id();
                g.b.pa(',');
                g.inner_ty(x);
            }),
            2 => g.args(|g| {
                g.inner_ty(x);
                g.b.pa(',');
                g.b.id();
            }),
            3 => g.args(|g| {
                g.b.id();
                g.b.pa('=');
                g.inner_ty(x);
            }),
            4 => g.args(|g| {
                g.lifetime();
                g.b.pa(',');
                g.inner_ty(x);
                g.b.pa(',');
                g.b.lit();
                g.b.pa(',');
            }),
            5 => {
                g.b.pa('&');
                g.lifetime();
                g.inner_ty(x);
            }
            6 => {
                let s = g.sub(|g| {
                    g.inner_ty(x);
                    g.b.pa(';');
                    g.b.lit();
                });
                g.b.brackets(&s);
            }
            7 => g.parens1(|g| {
                g.inner_ty(x);
                g.b.pa(',');
                g.b.id();
            }),
            8 => {
                // fn(T) -> I
                g.b.kw("fn");
                g.parens1(|g| g.inner_ty(x));
                g.arrow();
                g.b.id();
            }
            9 => {
                // fn(I) -> T
                g.b.kw("fn");
                g.parens1(|g| {
                    g.b.id();
                });
                g.arrow();
                g.inner_ty(x);
            }
            10 => {
                // <T as I>::I
                g.angle(|g| {
                    g.inner_ty(x);
                    g.b.kw("as");
                    g.b.id();
                });
                g.b.colon2();
                g.b.id();
            }
            11 => {
                // <I as I<T>>::I
                g.angle(|g| {
                    g.b.id();
                    g.b.kw("as");
                    g.args(|g| g.inner_ty(x));
                });
                g.b.colon2();
                g.b.id();
            }
            12 => {
                // dyn I(I) -> T
                g.b.kw("dyn");
                g.b.id();
                g.parens1(|g| {
                    g.b.id();
                });
                g.arrow();
                g.inner_ty(x);
            }
            13 => {
                let s = g.sub(|g| g.inner_ty(x));
                g.b.group(Delimiter::None, &s);
            }
            14 => g.args(|g| {
                // I<I<T>, <I as I>::I>
                g.args(|g| g.inner_ty(x));
                g.b.pa(',');
                g.angle(|g| {
                    g.b.id();
                    g.b.kw("as");
                    g.b.id();
                });
                g.b.colon2();
                g.b.id();
            }),
            _ => {
                // I<fn(I) -> T, I>
                g.args(|g| {
                    g.b.kw("fn");
                    g.parens1(|g| {
                        g.b.id();
                    });
                    g.arrow();
                    g.inner_ty(x);
                    g.b.pa(',');
                    g.b.id();
                });
            }
        }
    }
    /// A type of any of the shapes: 0 types in types, 1 long and deep ones, 2 the plain ones.
    pub fn any_shape(&mut self, set: usize) -> TokenStream {
        match set {
            0 => {
                let form = env::choose(1 + OUTER * INNER);
                self.sub(|g| g.nested_ty(form))
            }
            1 => {
                let form = env::choose(1 + BIG * sizes().len());
                self.sub(|g| g.big_ty(form))
            }
            _ => {
                let form = env::choose(INNER);
                self.sub(|g| g.inner_ty(form))
            }
        }
    }
    /// n elements with something between them.
    fn many(&mut self, n: usize, mut f: impl FnMut(&mut G), mut between: impl FnMut(&mut G)) {
        for i in 0..n {
            if i > 0 {
                between(self);
            }
            f(self);
        }
    }
    fn id(&mut self) {
        self.b.id();
    }
    fn comma(&mut self) {
        self.b.pa(',');
    }
    /// Form 0 is a name; the others are long or deep.
    fn big_ty(&mut self, form: usize) {
        if form == 0 {
            return self.id();
        }
        let (shape, n) = ((form - 1) / sizes().len(), sizes()[(form - 1) % sizes().len()]);
        let g = self;
        match shape {
            0 => {
                // I<I<I<..>>>
                for _ in 0..n {
                    g.id();
                    g.b.pa('<');
                }
                g.id();
                for _ in 0..n {
                    g.b.pa('>');
                }
            }
            1 => g.many(n, |g| g.id(), |g| g.b.colon2()),
            2 => g.args(|g| g.many(n, |g| g.id(), |g| g.comma())),
            3 => {
                for _ in 0..n {
                    g.b.pa('&');
                }
                g.id();
            }
            4 => {
                let mut s = g.sub(|g| g.id());
                for _ in 0..n {
                    s = g.sub(|g| {
                        g.b.parens(&s);
                        g.comma();
                        g.id();
                    });
                }
                g.b.parens(&s);
            }
            5 => {
                // fn(I) -> fn(I) -> ..
                for _ in 0..n {
                    g.b.kw("fn");
                    g.parens1(|g| g.id());
                    g.arrow();
                }
                g.id();
            }
            6 => {
                // I<I, I<I, ..>>
                for _ in 0..n {
                    g.id();
                    g.b.pa('<');
                    g.id();
                    g.comma();
                }
                g.id();
                for _ in 0..n {
                    g.b.pa('>');
                }
            }
            7 => g.args(|g| {
                g.many(
                    n,
                    |g| {
                        g.args(|g| {
                            g.id();
                            g.comma();
                            g.id();
                        })
                    },
                    |g| g.comma(),
                )
            }),
            8 => {
                // <<<I as I>::I as I>::I as I>::I
                for _ in 0..n {
                    g.b.pa('<');
                }
                g.id();
                for _ in 0..n {
                    g.b.kw("as");
                    g.id();
                    g.b.pa('>');
                    g.b.colon2();
                    g.id();
                }
            }
            9 => {
                // I<I = I<I = ..>>
                for _ in 0..n {
                    g.id();
                    g.b.pa('<');
                    g.id();
                    g.b.pa('=');
                }
                g.id();
                for _ in 0..n {
                    g.b.pa('>');
                }
            }
            10 => {
                // dyn I + I + ..
                g.b.kw("dyn");
                g.many(n, |g| g.id(), |g| g.b.pa('+'));
            }
            _ => {
                // I<I>::I<I>::..
                g.many(
                    n,
                    |g| {
                        g.args(|g| {
                            g.lifetime();
                            g.comma();
                            g.id();
                        })
                    },
                    |g| g.b.colon2(),
                );
            }
        }
    }
    fn big_bound(&mut self, form: usize) {
        if form == 0 {
            return self.id();
        }
        let (shape, n) = ((form - 1) / sizes().len(), sizes()[(form - 1) % sizes().len()]);
        let g = self;
        match shape {
            0 => g.many(n, |g| g.id(), |g| g.b.pa('+')),
            1 => g.many(n, |g| g.args(|g| g.id()), |g| g.b.pa('+')),
            2 => {
                for _ in 0..n {
                    g.id();
                    g.b.pa('<');
                    g.id();
                    g.comma();
                }
                g.id();
                for _ in 0..n {
                    g.b.pa('>');
                }
            }
            3 => {
                g.b.kw("for");
                g.angle(|g| {
                    g.many(
                        n,
                        |g| {
                            g.lifetime();
                        },
                        |g| g.comma(),
                    )
                });
                g.id();
            }
            4 => g.args(|g| {
                g.many(
                    n,
                    |g| {
                        g.id();
                        g.b.pa('=');
                        g.id();
                    },
                    |g| g.comma(),
                )
            }),
            _ => g.many(
                n,
                |g| {
                    g.id();
                    g.parens1(|g| g.id());
                    g.arrow();
                    g.id();
                },
                |g| g.b.pa('+'),
            ),
        }
    }
    /// Form 0 is a name; the others are bounds with a type in them.
    fn nested_bound(&mut self, form: usize) {
        if form == 0 {
            self.b.id();
            return;
        }
        let (outer, x) = ((form - 1) / INNER, (form - 1) % INNER);
        let g = self;
        match outer {
            0 => g.args(|g| g.inner_ty(x)),
            1 => {
                g.b.id();
                g.b.pa('+');
                g.args(|g| {
                    g.b.id();
                    g.b.pa('=');
                    g.inner_ty(x);
                });
                g.b.pa('+');
                g.lifetime();
            }
            2 => {
                g.b.id();
                g.parens1(|g| g.inner_ty(x));
                g.arrow();
                g.inner_ty(x);
                g.b.pa('+');
                g.b.id();
            }
            3 => {
                g.b.kw("for");
                g.angle(|g| {
                    g.lifetime();
                });
                g.args(|g| {
                    g.inner_ty(x);
                    g.b.pa(',');
                    g.b.id();
                });
            }
            _ => {
                // ?I + I::I<I<T>>
                g.b.pa('?');
                g.b.id();
                g.b.pa('+');
                g.path2();
                g.angle(|g| g.args(|g| g.inner_ty(x)));
            }
        }
    }
    /// `I<..>`
    fn args(&mut self, f: impl FnOnce(&mut G)) {
        self.b.id();
        self.angle(f);
    }
    fn angle(&mut self, f: impl FnOnce(&mut G)) {
        self.b.pa('<');
        f(self);
        self.b.pa('>');
    }
    fn arrow(&mut self) {
        self.b.pj('-');
        self.b.pa('>');
    }
    fn parens1(&mut self, f: impl FnOnce(&mut G)) {
        let s = self.sub(f);
        self.b.parens(&s);
    }
    fn more_ty(&mut self, form: usize) {
        let g = self;
        match form {
            0 => {
                g.b.id();
            }
            1 => g.args(|g| g.args(|g| g.args(|g| g.args(|g| g.args(|g| g.path2()))))),
            2 => {
                // for<'a> fn(&'a I) -> I
                g.b.kw("for");
                g.angle(|g| {
                    g.lifetime();
                });
                g.b.kw("fn");
                g.parens1(|g| {
                    g.b.pa('&');
                    g.lifetime();
                    g.b.id();
                });
                g.arrow();
                g.b.id();
            }
            3 => g.args(|g| {
                g.b.p('-');
                g.b.lit();
            }),
            4 => {
                // dyn I + I
                g.b.kw("dyn");
                g.b.id();
                g.b.pa('+');
                g.b.id();
            }
            5 => {
                // unsafe extern "C" fn(..)
                g.b.kw("unsafe");
                g.b.kw("extern");
                g.b.abi();
                g.b.kw("fn");
                let o = g.opaque();
                g.b.parens(&o);
            }
            6 => {
                // I!(..)
                g.b.id();
                g.b.pa('!');
                let o = g.opaque();
                g.b.parens(&o);
            }
            7 => {
                g.b.kw(["Self", "self", "super"][env::choose(3)]);
                g.b.colon2();
                g.b.id();
            }
            8 => g.parens1(|g| {
                g.b.id();
            }),
            9 => g.parens1(|_| {}),
            10 => g.args(|g| {
                // I<I: I + I>
                g.b.id();
                g.b.pa(':');
                g.b.id();
                g.b.pa('+');
                g.b.id();
            }),
            11 => g.args(|g| {
                // I<I<I> = I>
                g.args(|g| {
                    g.b.id();
                });
                g.b.pa('=');
                g.b.id();
            }),
            12 => g.args(|g| {
                g.lifetime();
            }),
            13 => {
                g.b.pa('&');
                g.b.pa('&');
                g.b.id();
            }
            14 => {
                // dyn for<'a> I<'a> + 'a
                g.b.kw("dyn");
                g.b.kw("for");
                g.angle(|g| {
                    g.lifetime();
                });
                g.args(|g| {
                    g.lifetime();
                });
                g.b.pa('+');
                g.lifetime();
            }
            15 => g.args(|g| {
                // I<fn(I) -> I<I>, I>
                g.b.kw("fn");
                g.parens1(|g| {
                    g.b.id();
                });
                g.arrow();
                g.args(|g| {
                    g.b.id();
                });
                g.b.pa(',');
                g.b.id();
            }),
            16 => g.b.kw("_"),
            17 => g.args(|g| {
                // I<I, I<I>,>
                g.b.id();
                g.b.pa(',');
                g.args(|g| {
                    g.b.id();
                });
                g.b.pa(',');
            }),
            18 => {
                let s = g.sub(|g| {
                    g.b.id();
                });
                g.b.brackets(&s);
            }
            19 => g.args(|g| {
                // I<{..}, I<{..}>>
                let o = g.opaque();
                g.b.braces(&o);
                g.b.pa(',');
                g.args(|g| {
                    let o = g.opaque();
                    g.b.braces(&o);
                });
            }),
            20 => g.args(|_| {}),
            21 => {
                // <I<I> as I<I>>::I<I>
                g.angle(|g| {
                    g.args(|g| {
                        g.b.id();
                    });
                    g.b.kw("as");
                    g.args(|g| {
                        g.b.id();
                    });
                });
                g.b.colon2();
                g.args(|g| {
                    g.b.id();
                });
            }
            22 => {
                // fn()
                g.b.kw("fn");
                g.parens1(|_| {});
            }
            23 => {
                // *mut fn(I) -> fn(I) -> I
                g.b.pa('*');
                g.b.kw("mut");
                for _ in 0..2 {
                    g.b.kw("fn");
                    g.parens1(|g| {
                        g.b.id();
                    });
                    g.arrow();
                }
                g.b.id();
            }
            24 => {
                // I::I<I>::I<I>
                g.path2();
                g.angle(|g| {
                    g.b.id();
                });
                g.b.colon2();
                g.args(|g| {
                    g.b.id();
                });
            }
            25 => {
                // &mut [&'a I<'a>]
                g.b.pa('&');
                g.b.kw("mut");
                let s = g.sub(|g| {
                    g.b.pa('&');
                    g.lifetime();
                    g.args(|g| {
                        g.lifetime();
                    });
                });
                g.b.brackets(&s);
            }
            26 => {
                // I(I) -> I, as after impl or dyn
                g.b.kw("impl");
                g.b.id();
                g.parens1(|g| {
                    g.b.id();
                });
                g.arrow();
                g.args(|g| {
                    g.b.id();
                });
                g.b.pa('+');
                g.b.id();
            }
            _ => {
                // I<I>::I
                g.args(|g| {
                    g.args(|g| {
                        g.b.id();
                    });
                });
                g.b.colon2();
                g.b.id();
            }
        }
    }
    fn more_bound(&mut self, form: usize) {
        let g = self;
        match form {
            0 => {
                g.b.id();
            }
            1 => {
                // I<I<I<I>>> + 'a
                g.args(|g| g.args(|g| g.args(|g| g.path2())));
                g.b.pa('+');
                g.lifetime();
            }
            2 => {
                // 'a + 'a
                g.lifetime();
                g.b.pa('+');
                g.lifetime();
            }
            3 => {
                g.lifetime();
            }
            4 => {
                // (?I) + I +
                g.parens1(|g| {
                    g.b.pa('?');
                    g.b.id();
                });
                g.b.pa('+');
                g.b.id();
                g.b.pa('+');
            }
            5 => {
                // for<'a, 'a> I(&'a I) -> I + 'a
                g.b.kw("for");
                g.angle(|g| {
                    g.lifetime();
                    g.b.pa(',');
                    g.lifetime();
                });
                g.b.id();
                g.parens1(|g| {
                    g.b.pa('&');
                    g.lifetime();
                    g.b.id();
                });
                g.arrow();
                g.b.id();
                g.b.pa('+');
                g.lifetime();
            }
            6 => g.args(|g| {
                // I<I: I<I = I>>
                g.b.id();
                g.b.pa(':');
                g.args(|g| {
                    g.b.id();
                    g.b.pa('=');
                    g.b.id();
                });
            }),
            7 => g.args(|g| {
                g.b.p('-');
                g.b.lit();
            }),
            8 => {
                // ~const I / const I
                if env::boolean() {
                    g.b.pa('~');
                }
                g.b.kw("const");
                g.b.id();
            }
            9 => g.args(|g| {
                // I<I, {..}, I<fn() -> I>>
                g.b.id();
                g.b.pa(',');
                let o = g.opaque();
                g.b.braces(&o);
                g.b.pa(',');
                g.args(|g| {
                    g.b.kw("fn");
                    g.parens1(|_| {});
                    g.arrow();
                    g.b.id();
                });
            }),
            10 => {
                // I<I>::I<I> + I(I)
                g.args(|g| {
                    g.b.id();
                });
                g.b.colon2();
                g.args(|g| {
                    g.b.id();
                });
                g.b.pa('+');
                g.b.id();
                g.parens1(|g| {
                    g.b.id();
                });
            }
            _ => {
                // I(I) -> I::I + I(I) -> I
                g.b.id();
                g.parens1(|g| {
                    g.b.id();
                });
                g.arrow();
                g.path2();
                g.b.pa('+');
                g.b.id();
                g.parens1(|g| {
                    g.b.id();
                });
                g.arrow();
                g.b.id();
            }
        }
    }
    /// What follows the colon of a bound.
    pub fn bound(&mut self, group: u32) -> TokenStream {
        if self.free > 0 && group == self.focus && env::boolean() {
            self.free -= 1;
            let s = env::any_stream(self.free_len, 0);
            env::assume(is_type(&s, Stop::Bound));
            return s;
        }
        if self.nested {
            let form = self.alt(group, 1 + OUTER_BOUND * INNER);
            let s = self.sub(|g| g.nested_bound(form));
            env::assume(form == 0 || is_type(&s, Stop::Bound));
            return s;
        }
        if self.big {
            let form = self.alt(group, 1 + BIG_BOUND * sizes().len());
            return self.sub(|g| g.big_bound(form));
        }
        if self.more {
            let form = self.alt(group, 12);
            return self.sub(|g| g.more_bound(form));
        }
        let form = self.alt(group, 9);
        self.sub(|g| match form {
            0 => {
                g.b.id();
            }
            1 => {
                // I + I<I>
                g.b.id();
                g.b.pa('+');
                g.b.id();
                g.b.pa('<');
                g.b.id();
                g.b.pa('>');
            }
            2 => {
                g.b.pj('?');
                g.b.id();
            }
            3 => {
                // for<'a> I<&'a I>
                g.b.kw("for");
                g.b.pa('<');
                g.lifetime();
                g.b.pa('>');
                g.b.id();
                g.b.pa('<');
                g.b.pj('&');
                g.lifetime();
                g.b.id();
                g.b.pa('>');
            }
            4 => {
                // I(I) -> I<I>
                g.b.id();
                let mut i = B::new();
                i.id();
                g.b.parens(&i.0);
                g.b.pj('-');
                g.b.pa('>');
                g.b.id();
                g.b.pa('<');
                g.b.id();
                g.b.pa('>');
            }
            5 => {
                // I<I = I, I>
                g.b.id();
                g.b.pa('<');
                g.b.id();
                g.b.pa('=');
                g.b.id();
                g.b.pa(',');
                g.b.id();
                g.b.pa('>');
            }
            6 => {
                // I<{ .. }>
                g.b.id();
                g.b.pa('<');
                let o = g.opaque();
                g.b.braces(&o);
                g.b.pa('>');
            }
            7 => {
                // ::I::I
                g.b.colon2();
                g.path2();
            }
            _ => {}
        })
    }

    pub fn attrs(&mut self, inner: bool) {
        let n = if self.forced > 0 && self.focus == 700 { std::mem::take(&mut self.forced) } else { self.alt(700, 3) };
        for _ in 0..n {
            self.attr(inner);
        }
    }
    pub fn attr(&mut self, inner: bool) {
        let mut path = self.alt(700, 3);
        if self.more && path > 0 {
            path += 2;
        }
        let value = self.alt(700, 5);
        let n = if self.big && path + value > 0 { sizes()[env::choose(sizes().len())] } else { 0 };
        if self.big && path > 0 {
            path = 5;
        }
        let o = match value {
            0 => TokenStream::new(),
            _ if self.big => self.sub(|g| g.many(n, |g| g.id(), |g| g.comma())),
            _ => self.opaque(),
        };
        self.piece(ATTR, |g| {
            g.b.pa('#');
            if inner {
                g.b.pa('!');
                g.mark(ATTR_INNER);
            }
            let s = g.sub(|g| {
                let mut single = None;
                g.piece(ATTR_PATH, |g| match path {
                    0 => single = Some(g.b.id()),
                    1 => g.path2(),
                    2 => {
                        g.b.colon2();
                        g.path2();
                    }
                    3 => {
                        g.b.kw(["crate", "self", "super"][env::choose(3)]);
                        g.b.colon2();
                        g.path2();
                        g.b.colon2();
                        g.b.id();
                    }
                    5 => g.many(n, |g| g.id(), |g| g.b.colon2()),
                    _ => {
                        // `#[unsafe(..)]`
                        let i = Ident::new("unsafe", env::span());
                        g.b.put(i.clone());
                        single = Some(i);
                    }
                });
                match value {
                    0 => g.mark(ATTR_EMPTY),
                    1 | 2 | 3 => {
                        g.e.push((ATTR_GROUP, o.clone()));
                        let d = match value {
                            1 => Delimiter::Parenthesis,
                            2 => Delimiter::Brace,
                            _ => Delimiter::Bracket,
                        };
                        g.b.group(d, &o);
                    }
                    _ => {
                        g.equals(&o);
                        g.piece(ATTR_EQ, |g| g.b.append(&o));
                    }
                }
                match single {
                    Some(i) => g.e.push((ATTR_SINGLE, i.to_token_stream())),
                    None => g.mark(ATTR_MULTI),
                }
            });
            g.b.brackets(&s);
        });
    }
    pub fn vis(&mut self) {
        let form = self.alt(700, 6);
        if form == 0 {
            return;
        }
        self.piece(VIS, |g| {
            let mut i = B::new();
            match form {
                1 => {
                    g.b.kw("pub");
                    return;
                }
                2 => {
                    g.b.kw("crate");
                    return;
                }
                3 => i.kw("crate"),
                4 => i.kw(if env::boolean() { "super" } else { "self" }),
                _ => {
                    i.kw("in");
                    i.id();
                    i.colon2();
                    i.id();
                }
            }
            g.b.kw("pub");
            g.piece(VIS_RESTRICTED, |g| g.b.parens(&i.0));
        });
    }
    pub fn generics(&mut self) {
        // none unless something is spent on it; with the focus here, the first item has them
        let on = self.first(300) || self.opt(300);
        if !on {
            return;
        }
        let n = self.count(300, 0);
        self.piece(GENERICS, |g| {
            g.b.pa('<');
            for i in 0..n {
                g.generic_param();
                if i + 1 < n || g.opt(300) {
                    g.b.pa(',');
                }
            }
            g.b.pa('>');
        });
    }
    pub fn generic_param(&mut self) {
        match self.alt(300, 6) {
            0 => self.piece(GP_TYPE, |g| {
                g.b.id();
            }),
            1 => {
                let b = self.bound(300);
                self.piece(GP_TYPE, |g| {
                    g.b.id();
                });
                self.colon(&b);
                self.piece(GP_BOUND, |g| g.b.append(&b));
            }
            2 => {
                self.b.pj('\'');
                self.piece(GP_LIFETIME, |g| {
                    g.b.id();
                });
            }
            3 => {
                self.b.pj('\'');
                self.piece(GP_LIFETIME, |g| {
                    g.b.id();
                });
                self.b.pa(':');
                self.piece(GP_BOUND, |g| {
                    g.lifetime();
                    if g.opt(300) {
                        g.b.pa('+');
                        g.lifetime();
                    }
                });
            }
            4 => {
                let t = self.ty(300, Stop::Comma);
                self.b.kw("const");
                self.piece(GP_CONST, |g| {
                    g.b.id();
                });
                self.colon(&t);
                self.piece(GP_BOUND, |g| {
                    g.b.append(&t);
                    // a default is part of what follows the colon
                    let d = if g.more { g.alt(300, 5) } else { g.alt(300, 2) };
                    if d > 0 {
                        g.b.pa('=');
                    }
                    match d {
                        0 => {}
                        1 => {
                            g.b.lit();
                        }
                        2 => {
                            let o = g.opaque();
                            g.b.braces(&o);
                        }
                        3 => {
                            g.b.p('-');
                            g.b.lit();
                        }
                        _ => {
                            g.b.id();
                        }
                    }
                });
            }
            _ => {
                // T: I = I<I>
                let b = self.bound(300);
                let t = self.ty(300, Stop::Comma);
                self.piece(GP_TYPE, |g| {
                    g.b.id();
                });
                self.colon(&b);
                self.piece(GP_BOUND, |g| {
                    g.b.append(&b);
                    g.equals(&t);
                    g.b.append(&t);
                });
            }
        }
    }
    pub fn where_clause(&mut self) {
        let on = self.first(400) || self.opt(400);
        if !on {
            return;
        }
        let n = self.count(400, 0);
        self.piece(WHERE, |g| {
            g.b.kw("where");
            for i in 0..n {
                g.predicate();
                if i + 1 < n || g.opt(400) {
                    g.b.pa(',');
                }
            }
        });
    }
    pub fn predicate(&mut self) {
        let form = self.alt(400, 4);
        let left = match form {
            0 => self.ty(400, Stop::Left),
            1 => self.sub(|g| {
                g.lifetime();
            }),
            2 => {
                let t = self.ty(400, Stop::Left);
                self.sub(|g| {
                    // for<'a> T
                    g.b.kw("for");
                    g.b.pa('<');
                    g.lifetime();
                    g.b.pa('>');
                    g.b.append(&t);
                })
            }
            _ => self.sub(|g| {
                // I::I<I::I>::I
                g.path2();
                g.b.pa('<');
                g.path2();
                g.b.pa('>');
                g.b.colon2();
                g.b.id();
            }),
        };
        self.piece(PRED_LEFT, |g| g.b.append(&left));
        let b = self.bound(400);
        self.colon(&b);
        self.piece(PRED_BOUND, |g| g.b.append(&b));
    }

    /// Fields; leaves where the where-clause of a struct goes to the caller.
    pub fn fields(&mut self, form: usize) -> TokenStream {
        let label = [F_NAMED, F_TUPLE][form];
        let n = self.count(200, 0);
        let at = self.e.len();
        self.mark(label);
        let s = self.sub(|g| {
            for i in 0..n {
                g.mark(FIELD);
                g.attrs(false);
                let before = g.e.len();
                g.vis();
                let is_pub = g.e.len() == before + 1;
                let crate_vis = is_pub && starts_with_ident(&g.e[before].1, "crate");
                let t = g.ty(200, Stop::Comma);
                if form == 0 {
                    g.piece(F_NAME, |g| {
                        g.b.id();
                    });
                    g.colon(&t);
                } else {
                    env::assume(!starts_like_field(&t, is_pub));
                    // `crate ::a` is the type `crate::a`
                    env::assume(!(crate_vis && starts_with_colon(&t)));
                }
                g.piece(F_TY, |g| g.b.append(&t));
                if i + 1 < n || g.opt(200) {
                    g.b.pa(',');
                }
            }
        });
        self.e[at].1 = s.clone();
        self.mark(F_END);
        s
    }
    pub fn variants(&mut self) -> TokenStream {
        let n = self.count(200, 0);
        let at = self.e.len();
        self.mark(V_LIST);
        let s = self.sub(|g| {
            for i in 0..n {
                g.mark(VARIANT);
                g.attrs(false);
                g.vis();
                g.piece(V_NAME, |g| {
                    g.b.id();
                });
                match g.alt(200, 3) {
                    0 => g.mark(F_UNIT),
                    1 => {
                        let s = g.fields(0);
                        g.b.braces(&s);
                    }
                    _ => {
                        let s = g.fields(1);
                        g.b.parens(&s);
                    }
                }
                match g.alt(600, 4) {
                    0 => g.mark(V_NOVALUE),
                    f => {
                        g.b.pa('=');
                        let o = g.opaque();
                        g.piece(V_VALUE, |g| match f {
                            1 => {
                                g.b.lit();
                            }
                            2 => {
                                g.b.id();
                            }
                            _ => {
                                let d = [Delimiter::Parenthesis, Delimiter::Brace][env::choose(2)];
                                g.b.group(d, &o);
                            }
                        });
                    }
                }
                if i + 1 < n || g.opt(200) {
                    g.b.pa(',');
                }
            }
        });
        self.e[at].1 = s.clone();
        s
    }
    pub fn params(&mut self) -> TokenStream {
        let n = self.count(500, 0);
        self.sub(|g| {
            for i in 0..n {
                let form = if i == 0 { g.alt(500, 8) } else { 0 };
                let at = g.e.len();
                g.mark(P_RECV);
                g.attrs(false);
                match form {
                    0 | 6 | 7 => {
                        g.e[at].0 = P_TYPED;
                        if g.opt(500) {
                            g.kwp(P_MUT, "mut");
                        }
                        let t = g.ty(500, Stop::Comma);
                        g.piece(P_NAME, |g| {
                            if form == 0 {
                                g.b.id();
                            } else if form == 6 {
                                g.b.kw("self");
                            } else {
                                g.b.kw("_");
                            }
                        });
                        g.colon(&t);
                        g.piece(P_TY, |g| g.b.append(&t));
                    }
                    f => {
                        // self, &self, &'a self, mut self, &mut self, &'a mut self
                        if f == 2 || f == 3 || f == 5 {
                            g.pp(P_REF, '&');
                        }
                        if f == 3 {
                            g.piece(P_LIFETIME, |g| {
                                g.lifetime();
                            });
                        }
                        if f == 4 || f == 5 || (f == 3 && g.opt(500)) {
                            g.kwp(P_MUT, "mut");
                        }
                        g.b.kw("self");
                    }
                }
                if i + 1 < n || g.opt(500) {
                    g.b.pa(',');
                }
            }
        })
    }
    /// `fn`, from its qualifiers on; `member` says how it may end and begin.
    pub fn function(&mut self) {
        let kind = self.e.len();
        self.mark(KIND + FUNCTION as u32);
        // default, const or async, unsafe, extern, its ABI
        let q = if self.more {
            let q = self.alt(500, 36);
            [q % 2, q / 2 % 2, q / 4 % 3, q / 12]
        } else {
            [[0, 0, 0, 0], [0, 0, 1, 0], [0, 0, 2, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 1, 1, 2], [1, 0, 1, 0], [0, 1, 2, 0]][self.alt(500, 8)]
        };
        if q[0] == 1 {
            self.kwp(Q_DEFAULT, "default");
        }
        if q[2] == 1 {
            self.kwp(Q_CONST, "const");
        }
        if q[2] == 2 {
            self.kwp(Q_ASYNC, "async");
        }
        if q[1] == 1 {
            self.kwp(Q_UNSAFE, "unsafe");
        }
        if q[3] > 0 {
            self.kwp(Q_EXTERN, "extern");
            if q[3] == 2 {
                self.piece(Q_ABI, |g| {
                    g.b.abi();
                });
            }
        }
        let from = env::len(&self.b.0);
        self.b.kw("fn");
        self.e[kind].1 = env::tail(&self.b.0, from);
        self.piece(NAME, |g| {
            g.b.id();
        });
        self.generics();
        let at = self.e.len();
        self.mark(FN_PARAMS);
        let p = self.params();
        self.e[at].1 = p.clone();
        self.b.parens(&p);
        if self.opt(500) {
            let t = self.ty(500, Stop::Ret);
            self.b.pj('-');
            self.b.pa('>');
            self.piece(RET, |g| g.b.append(&t));
        }
        self.where_clause();
        if self.opt(500) {
            self.pp(FN_SEMI, ';');
        } else {
            let o = self.opaque();
            self.e.push((BODY, o.clone()));
            self.b.braces(&o);
        }
    }
    pub fn constant(&mut self, is_static: bool, value: bool) {
        self.mark(KIND + CONSTANT as u32);
        if is_static {
            self.kwp(C_STATIC, "static");
            if self.opt(900) {
                self.kwp(C_MUT, "mut");
            }
        } else {
            self.kwp(C_CONST, "const");
        }
        let blank = !is_static && self.opt(900);
        self.piece(NAME, |g| {
            if blank {
                g.b.kw("_");
            } else {
                g.b.id();
            }
        });
        let t = self.ty(900, Stop::Const);
        self.colon(&t);
        self.piece(C_TY, |g| g.b.append(&t));
        if value && !self.opt(900) {
            let v = if self.free > 0 && self.focus == 900 {
                self.free -= 1;
                let s = env::any_stream(self.free_len, 0);
                env::assume(no_semicolon(&s));
                s
            } else {
                let big = self.big;
                let f = if big {
                    self.alt(900, 1 + 3 * sizes().len())
                } else if self.more {
                    self.alt(900, 20)
                } else {
                    self.alt(900, 5)
                };
                self.sub(|g| match f {
                    f if big && f > 0 => {
                        // lit < lit < .., lit >> lit >> .., -I - -I ..
                        let (op, n) = ((f - 1) / sizes().len(), sizes()[(f - 1) % sizes().len()]);
                        g.many(
                            n,
                            |g| {
                                g.b.lit();
                            },
                            |g| match op {
                                0 => g.b.pa('<'),
                                1 => {
                                    g.b.pj('>');
                                    g.b.pa('>');
                                }
                                _ => {
                                    g.b.p('-');
                                    g.b.pa('!');
                                }
                            },
                        )
                    }
                    0 => {
                        g.b.lit();
                    }
                    1 => {
                        // lit << lit
                        g.b.lit();
                        g.b.pj('<');
                        g.b.pa('<');
                        g.b.lit();
                    }
                    2 => {
                        // I >= -lit
                        g.b.id();
                        g.b.pj('>');
                        g.b.pa('=');
                        g.b.p('-');
                        g.b.lit();
                    }
                    3 => {
                        // I::<I>(..)
                        g.b.id();
                        g.b.colon2();
                        g.b.pa('<');
                        g.b.id();
                        g.b.pa('>');
                        let o = g.opaque();
                        g.b.parens(&o);
                    }
                    4 => {
                        let o = g.opaque();
                        g.b.braces(&o);
                    }
                    5 => {
                        // -lit
                        g.b.p('-');
                        g.b.lit();
                    }
                    6 | 7 => {
                        // I < I, I > I
                        g.b.id();
                        g.b.pa(if f == 6 { '<' } else { '>' });
                        g.b.id();
                    }
                    8 => {
                        // I { .. }
                        g.path2();
                        let o = g.opaque();
                        g.b.braces(&o);
                    }
                    9 => {
                        // |I, I| -> I { .. }
                        g.b.pa('|');
                        g.b.id();
                        g.b.pa(',');
                        g.b.id();
                        g.b.pa('|');
                        g.arrow();
                        g.b.id();
                        let o = g.opaque();
                        g.b.braces(&o);
                    }
                    10 => {
                        // if I == I { .. } else { .. }
                        g.b.kw("if");
                        g.b.id();
                        g.b.pj('=');
                        g.b.pa('=');
                        g.b.id();
                        let o = g.opaque();
                        g.b.braces(&o);
                        g.b.kw("else");
                        g.b.braces(&TokenStream::new());
                    }
                    11 => {
                        // &[..]
                        g.b.pa('&');
                        let o = g.opaque();
                        g.b.brackets(&o);
                    }
                    12 => {
                        // lit..=lit
                        g.b.lit();
                        g.b.pj('.');
                        g.b.pj('.');
                        g.b.pa('=');
                        g.b.lit();
                    }
                    13 => {
                        // I as I<I<I>>
                        g.b.id();
                        g.b.kw("as");
                        g.args(|g| {
                            g.args(|g| {
                                g.b.id();
                            })
                        });
                    }
                    14 => {
                        // <I as I>::I
                        g.angle(|g| {
                            g.b.id();
                            g.b.kw("as");
                            g.b.id();
                        });
                        g.b.colon2();
                        g.b.id();
                    }
                    15 => {
                        // I >> lit != !I
                        g.b.id();
                        g.b.pj('>');
                        g.b.pa('>');
                        g.b.lit();
                        g.b.pj('!');
                        g.b.pa('=');
                        g.b.pa('!');
                        g.b.id();
                    }
                    16 => {
                        // I!(..).I(..)?
                        g.b.id();
                        g.b.pa('!');
                        let o = g.opaque();
                        g.b.parens(&o);
                        g.b.pa('.');
                        g.b.id();
                        g.b.parens(&TokenStream::new());
                        g.b.pa('?');
                    }
                    17 => {
                        // match I { .. }
                        g.b.kw("match");
                        g.b.id();
                        let o = g.opaque();
                        g.b.braces(&o);
                    }
                    18 => {
                        // an expression that came through a macro
                        let o = g.opaque();
                        g.b.group(Delimiter::None, &o);
                    }
                    _ => {
                        // I <= I && I -I
                        g.b.id();
                        g.b.pj('<');
                        g.b.pa('=');
                        g.b.id();
                        g.b.pj('&');
                        g.b.pa('&');
                        g.b.id();
                        g.b.p('-');
                        g.b.id();
                    }
                })
            };
            self.piece(C_EQ, |g| g.equals(&v));
            self.piece(C_INIT, |g| g.b.append(&v));
        }
        self.piece(C_SEMI, |g| g.b.pa(';'));
    }
    pub fn type_alias(&mut self, bound: bool) {
        self.kwp(KIND + TYPE as u32, "type");
        self.piece(NAME, |g| {
            g.b.id();
        });
        if bound && self.opt(900) {
            let b = self.bound(900);
            self.colon(&b);
            self.piece(A_BOUND, |g| g.b.append(&b));
        }
        if !(bound && self.opt(900)) {
            let t = self.ty(900, Stop::Semi);
            self.piece(A_EQ, |g| g.equals(&t));
            self.piece(A_TY, |g| g.b.append(&t));
        }
        self.pp(A_SEMI, ';');
    }
    pub fn macro_call(&mut self) {
        let kind = self.e.len();
        self.mark(KIND + MACRO as u32);
        self.piece(NAME, |g| {
            g.b.id();
        });
        let from = env::len(&self.b.0);
        self.b.pa('!');
        self.e[kind].1 = env::tail(&self.b.0, from);
        if self.opt(900) {
            self.piece(MAC_DECLARED, |g| {
                g.b.id();
            });
        }
        let f = if self.big { self.alt(900, 1 + sizes().len()) } else { 0 };
        let o = if f == 0 {
            self.opaque()
        } else {
            self.sub(|g| {
                g.many(
                    sizes()[f - 1],
                    |g| {
                        g.id();
                        g.b.lit();
                    },
                    |g| g.b.pa(';'),
                )
            })
        };
        self.e.push((MAC_BODY, o.clone()));
        let form = self.alt(900, 3);
        self.mark(MAC_DELIM + form as u32);
        match form {
            0 => self.b.braces(&o),
            f => {
                let d = if f == 1 { Delimiter::Parenthesis } else { Delimiter::Bracket };
                self.b.group(d, &o);
                self.pp(MAC_SEMI, ';');
            }
        }
    }
    /// The members of an impl, trait or extern block.
    pub fn members(&mut self, of: usize) -> TokenStream {
        self.mark(MEMBERS);
        let n = self.count(800, 0);
        let s = self.sub(|g| {
            g.attrs(true);
            for _ in 0..n {
                let f = g.alt(800, 4);
                let at = g.e.len();
                g.mark(M_FN);
                g.attrs(false);
                match f {
                    0 => {
                        g.vis();
                        g.function();
                    }
                    1 => {
                        g.e[at].0 = M_CONST;
                        g.vis();
                        g.constant(of == EXTERN_BLOCK, of != EXTERN_BLOCK);
                    }
                    2 => {
                        g.e[at].0 = M_TYPE;
                        g.vis();
                        g.type_alias(of == TRAIT);
                    }
                    _ => {
                        g.e[at].0 = M_MACRO;
                        g.macro_call();
                    }
                }
            }
        });
        self.mark(MEMBERS_END);
        s
    }
    pub fn mod_members(&mut self) -> TokenStream {
        self.mark(MEMBERS);
        let n = if self.depth == 0 { 0 } else { self.count(800, 0) };
        self.depth = self.depth.saturating_sub(1);
        let s = self.sub(|g| {
            g.attrs(true);
            for _ in 0..n {
                g.mark(M_ITEM);
                let k = g.alt(800, KINDS);
                g.item(k);
            }
        });
        self.depth += 1;
        self.mark(MEMBERS_END);
        s
    }
    /// A whole item.
    pub fn item(&mut self, kind: usize) {
        self.attrs(false);
        if kind != IMPL && kind != MACRO {
            self.vis();
        }
        match kind {
            STRUCT => {
                self.kwp(KIND + STRUCT as u32, "struct");
                self.piece(NAME, |g| {
                    g.b.id();
                });
                self.generics();
                match if self.forced > 100 { env::choose(3) } else { self.alt(200, 3) } {
                    0 => {
                        self.where_clause();
                        let s = self.fields(0);
                        self.b.braces(&s);
                    }
                    1 => {
                        let s = self.fields(1);
                        self.b.parens(&s);
                        self.where_clause();
                        self.pp(S_SEMI, ';');
                    }
                    _ => {
                        self.mark(F_UNIT);
                        self.where_clause();
                        self.pp(S_SEMI, ';');
                    }
                }
            }
            ENUM => {
                self.kwp(KIND + ENUM as u32, "enum");
                self.piece(NAME, |g| {
                    g.b.id();
                });
                self.generics();
                self.where_clause();
                let s = self.variants();
                self.b.braces(&s);
            }
            UNION => {
                self.kwp(KIND + UNION as u32, "union");
                self.piece(NAME, |g| {
                    g.b.id();
                });
                self.generics();
                self.where_clause();
                let s = self.fields(0);
                self.b.braces(&s);
            }
            FUNCTION => self.function(),
            IMPL => {
                if self.opt(800) {
                    self.kwp(UNSAFE, "unsafe");
                }
                self.kwp(KIND + IMPL as u32, "impl");
                // `impl <I as I>::I` does not exist: generics come first
                self.generics();
                let has_generics = self.e.last().map_or(false, |p| p.0 / 100 == 3);
                if self.opt(800) {
                    let t = self.impl_ty(has_generics, Stop::ImplTrait);
                    let not = self.more && self.opt(800);
                    self.piece(I_TRAIT, |g| {
                        if not {
                            g.b.pa('!');
                        }
                        g.b.append(&t)
                    });
                    self.b.kw("for");
                    let t = self.impl_ty(true, Stop::Ret);
                    // that would be `for<'a>`; no type starts like that
                    env::assume(!binder(&t, 0));
                    self.piece(I_SELF, |g| g.b.append(&t));
                } else {
                    let t = self.impl_ty(has_generics, Stop::ImplTrait);
                    self.piece(I_SELF, |g| g.b.append(&t));
                }
                self.where_clause();
                let s = self.members(IMPL);
                self.b.braces(&s);
            }
            TRAIT => {
                if self.opt(800) {
                    self.kwp(UNSAFE, "unsafe");
                }
                self.kwp(KIND + TRAIT as u32, "trait");
                self.piece(NAME, |g| {
                    g.b.id();
                });
                self.generics();
                if self.opt(800) {
                    let b = self.bound(800);
                    self.colon(&b);
                    self.piece(T_SUPER, |g| g.b.append(&b));
                }
                self.where_clause();
                let s = self.members(TRAIT);
                self.b.braces(&s);
            }
            MODULE => {
                if self.opt(800) {
                    self.kwp(UNSAFE, "unsafe");
                }
                self.kwp(KIND + MODULE as u32, "mod");
                self.piece(NAME, |g| {
                    g.b.id();
                });
                if self.opt(800) {
                    self.pp(MOD_SEMI, ';');
                } else {
                    let s = self.mod_members();
                    self.b.braces(&s);
                }
            }
            TYPE => {
                let bound = self.more;
                self.type_alias(bound)
            }
            CONSTANT => {
                let is_static = self.opt(900);
                self.constant(is_static, true);
            }
            USE => {
                self.kwp(KIND + USE as u32, "use");
                let t = if self.free > 0 && self.focus == 900 {
                    self.free -= 1;
                    let s = env::any_stream(self.free_len, 0);
                    env::assume(no_semicolon(&s));
                    env::assume(no_angle(&s));
                    s
                } else {
                    let big = self.big;
                    let f = if big {
                        self.alt(900, 1 + 2 * sizes().len())
                    } else if self.more {
                        self.alt(900, 10)
                    } else {
                        self.alt(900, 3)
                    };
                    self.sub(|g| match f {
                        f if big && f > 0 => {
                            // I::I::I::.., I::{I::{I::{..}}}
                            let (op, n) = ((f - 1) / sizes().len(), sizes()[(f - 1) % sizes().len()]);
                            if op == 0 {
                                g.many(n, |g| g.id(), |g| g.b.colon2());
                            } else {
                                let mut s = TokenStream::new();
                                for _ in 0..n {
                                    s = g.sub(|g| {
                                        g.id();
                                        g.b.colon2();
                                        g.b.braces(&s);
                                        g.comma();
                                    });
                                }
                                g.b.braces(&s);
                            }
                        }
                        0 => g.path2(),
                        2 => {
                            g.b.colon2();
                            g.b.id();
                            g.b.colon2();
                            g.b.pa('*');
                        }
                        3 => {
                            // I
                            g.b.id();
                        }
                        4 => {
                            // I::I as I
                            g.path2();
                            g.b.kw("as");
                            g.b.id();
                        }
                        5 => {
                            // I as _
                            g.b.id();
                            g.b.kw("as");
                            g.b.kw("_");
                        }
                        6 => {
                            // {I::I, I as I}
                            let i = g.sub(|g| {
                                g.path2();
                                g.b.pa(',');
                                g.b.id();
                                g.b.kw("as");
                                g.b.id();
                            });
                            g.b.braces(&i);
                        }
                        7 => {
                            // crate::{self, I::{*}}
                            g.b.kw(["crate", "self", "super"][env::choose(3)]);
                            g.b.colon2();
                            let i = g.sub(|g| {
                                g.b.kw("self");
                                g.b.pa(',');
                                g.b.id();
                                g.b.colon2();
                                let i = g.sub(|g| g.b.pa('*'));
                                g.b.braces(&i);
                            });
                            g.b.braces(&i);
                        }
                        8 => g.b.pa('*'),
                        9 => {
                            // ::{}
                            g.b.colon2();
                            g.b.braces(&TokenStream::new());
                        }
                        _ => {
                            g.b.id();
                            g.b.colon2();
                            let mut i = B::new();
                            i.id();
                            i.pa(',');
                            i.id();
                            g.b.braces(&i.0);
                        }
                    })
                };
                self.piece(U_TREE, |g| g.b.append(&t));
                self.pp(U_SEMI, ';');
            }
            MACRO => self.macro_call(),
            EXTERN_BLOCK => {
                if self.opt(800) {
                    self.kwp(UNSAFE, "unsafe");
                }
                self.kwp(KIND + EXTERN_BLOCK as u32, "extern");
                if !self.opt(800) {
                    self.piece(X_ABI, |g| {
                        g.b.abi();
                    });
                }
                let s = self.members(EXTERN_BLOCK);
                self.b.braces(&s);
            }
            _ => {
                self.piece(KIND + EXTERN_CRATE as u32, |g| {
                    g.b.kw("extern");
                    g.b.kw("crate");
                });
                let f = self.alt(900, 2);
                self.piece(NAME, |g| {
                    if f == 1 {
                        g.b.kw("self");
                    } else {
                        g.b.id();
                    }
                });
                let alias = if self.more { self.alt(900, 3) } else { self.alt(900, 2) };
                if alias > 0 {
                    self.kwp(X_AS, "as");
                    self.piece(X_ALIAS, |g| {
                        if alias == 1 {
                            g.b.id();
                        } else {
                            g.b.kw("_");
                        }
                    });
                }
                self.pp(X_SEMI, ';');
            }
        }
    }
    fn impl_ty(&mut self, angle_ok: bool, stop: Stop) -> TokenStream {
        let t = self.ty(800, stop);
        if !angle_ok {
            env::assume(!starts_with(&t, '<'));
        }
        t
    }
}

// ------------------------------------------------------------------ what a type may be

/// What ends a type (or bound), besides unbalanced angle brackets.
#[derive(Copy, Clone, PartialEq)]
pub enum Stop {
    /// `,`
    Comma,
    /// `,` `>` `;` `{` `=` `where` — what may follow a bound
    Bound,
    /// `:` that is not part of `::`, and what ends a where-clause
    Left,
    /// `;` `{` `where` — a return type, or the type an impl is for
    Ret,
    /// those and a `for` that does not start `for<'a>`
    ImplTrait,
    /// `=` `;`
    Const,
    /// `;`
    Semi,
}

/// A non-empty sequence of tokens in which angle brackets (arrows aside) pair up and none
/// of the tokens that would end it stands outside of them.
pub fn is_type(s: &TokenStream, stop: Stop) -> bool {
    let mut depth = 0usize;
    let mut dash = false;
    let mut alone = false;
    let mut colon = false; // the previous token is the first half of a `::`
    let mut any = false;
    for (at, t) in s.clone().into_iter().enumerate() {
        any = true;
        let after = std::mem::replace(&mut alone, false);
        let mut is_dash = false;
        let mut is_colon = false;
        match &t {
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == '<' {
                    depth += 1;
                } else if c == '>' && !dash {
                    // `- >` is no arrow
                    if depth == 0 || after {
                        return false;
                    }
                    depth -= 1;
                } else if c == '-' {
                    is_dash = p.spacing() == Spacing::Joint;
                    alone = !is_dash;
                } else if depth == 0 {
                    if c == ':' && stop == Stop::Left {
                        if colon {
                            // second half
                        } else if p.spacing() == Spacing::Joint {
                            is_colon = true;
                        } else {
                            return false;
                        }
                    } else {
                        let ends = match stop {
                            Stop::Comma => c == ',',
                            Stop::Bound => c == ',' || c == ';' || c == '=',
                            Stop::Left => c == ';',
                            Stop::Ret | Stop::ImplTrait | Stop::Semi => c == ';',
                            Stop::Const => c == '=' || c == ';',
                        };
                        if ends {
                            return false;
                        }
                    }
                }
            }
            TokenTree::Ident(i) => {
                if depth == 0 {
                    let ends = match stop {
                        Stop::Ret | Stop::Bound => i == "where",
                        Stop::ImplTrait => i == "where" || (i == "for" && !higher_ranked(s, at)),
                        _ => false,
                    };
                    if ends {
                        return false;
                    }
                }
            }
            TokenTree::Group(g) => {
                if depth == 0 && g.delimiter() == Delimiter::Brace {
                    match stop {
                        Stop::Bound | Stop::Left | Stop::Ret | Stop::ImplTrait => return false,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        if colon && !matches!(&t, TokenTree::Punct(p) if p.as_char() == ':') {
            return false; // half a `::`
        }
        dash = is_dash;
        colon = is_colon;
    }
    any && depth == 0 && !colon && !dash && !alone
}
/// Do `<'` or `<>` follow this token?
fn higher_ranked(s: &TokenStream, at: usize) -> bool {
    binder(s, at + 1)
}
fn binder(s: &TokenStream, at: usize) -> bool {
    let mut rest = s.clone().into_iter().skip(at);
    matches!(rest.next(), Some(TokenTree::Punct(p)) if p.as_char() == '<')
        && matches!(rest.next(), Some(TokenTree::Punct(p)) if p.as_char() == '\'' || p.as_char() == '>')
}
pub fn no_semicolon(s: &TokenStream) -> bool {
    for t in s.clone() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ';' {
                return false;
            }
        }
    }
    true
}
pub fn no_angle(s: &TokenStream) -> bool {
    for t in s.clone() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '<' || p.as_char() == '>' {
                return false;
            }
        }
    }
    true
}
pub fn starts_with(s: &TokenStream, c: char) -> bool {
    match s.clone().into_iter().next() {
        Some(TokenTree::Punct(p)) => p.as_char() == c,
        _ => false,
    }
}
pub fn starts_with_ident(s: &TokenStream, x: &str) -> bool {
    match s.clone().into_iter().next() {
        Some(TokenTree::Ident(i)) => i == x,
        _ => false,
    }
}
pub fn starts_with_colon(s: &TokenStream) -> bool {
    starts_with(s, ':')
}
/// A tuple field whose type would be read as attribute, visibility or restriction.
pub fn starts_like_field(s: &TokenStream, after_pub: bool) -> bool {
    let mut it = s.clone().into_iter();
    match it.next() {
        Some(TokenTree::Punct(p)) => p.as_char() == '#',
        Some(TokenTree::Ident(i)) => {
            if after_pub {
                false
            } else if i == "crate" {
                !crate_path(s)
            } else {
                i == "pub"
            }
        }
        Some(TokenTree::Group(g)) => after_pub && g.delimiter() == Delimiter::Parenthesis && restriction(&g.stream()),
        _ => false,
    }
}
fn crate_path(s: &TokenStream) -> bool {
    let mut it = s.clone().into_iter();
    it.next();
    let a = match it.next() {
        Some(TokenTree::Punct(p)) => p.as_char() == ':' && p.spacing() == Spacing::Joint,
        _ => false,
    };
    a && matches!(it.next(), Some(TokenTree::Punct(p)) if p.as_char() == ':')
}
fn restriction(s: &TokenStream) -> bool {
    let mut it = s.clone().into_iter();
    match it.next() {
        Some(TokenTree::Ident(i)) => {
            if i == "in" {
                true
            } else {
                (i == "crate" || i == "self" || i == "super") && it.next().is_none()
            }
        }
        _ => false,
    }
}

// ------------------------------------------------------------------ what venial made of it

pub struct O(pub Pieces);

fn toks(v: &[TokenTree]) -> TokenStream {
    v.iter().cloned().collect()
}

impl O {
    pub fn mark(&mut self, label: u32) {
        self.0.push((label, TokenStream::new()));
    }
    pub fn put(&mut self, label: u32, t: &impl ToTokens) {
        self.0.push((label, t.to_token_stream()));
    }
    fn flag<T: ToTokens>(&mut self, label: u32, t: &Option<T>) {
        if let Some(t) = t {
            self.put(label, t);
        }
    }
    pub fn attrs(&mut self, v: &[Attribute]) {
        for a in v {
            self.put(ATTR, a);
            if a.tk_bang.is_some() {
                self.mark(ATTR_INNER);
            }
            self.0.push((ATTR_PATH, toks(&a.path)));
            let label = match &a.value {
                AttributeValue::Empty => ATTR_EMPTY,
                AttributeValue::Group(..) => ATTR_GROUP,
                AttributeValue::Equals(..) => ATTR_EQ,
            };
            self.0.push((label, toks(a.get_value_tokens())));
            match a.get_single_path_segment() {
                Some(i) => self.put(ATTR_SINGLE, i),
                None => self.mark(ATTR_MULTI),
            }
        }
    }
    pub fn vis(&mut self, v: &Option<VisMarker>) {
        if let Some(v) = v {
            self.put(VIS, v);
            self.flag(VIS_RESTRICTED, &v.tk_token2);
        }
    }
    pub fn generics(&mut self, g: &Option<GenericParamList>) {
        if let Some(g) = g {
            self.put(GENERICS, g);
            for p in g.params.items() {
                let label = match (p.is_lifetime(), p.is_ty(), p.is_const()) {
                    (true, false, false) => GP_LIFETIME,
                    (false, true, false) => GP_TYPE,
                    (false, false, true) => GP_CONST,
                    _ => GP_BAD,
                };
                self.put(label, &p.name);
                if let Some(b) = &p.bound {
                    self.0.push((GP_BOUND, toks(&b.tokens)));
                }
            }
        }
    }
    pub fn where_clause(&mut self, w: &Option<WhereClause>) {
        if let Some(w) = w {
            self.put(WHERE, w);
            for p in w.items.items() {
                self.0.push((PRED_LEFT, toks(&p.left_side)));
                self.0.push((PRED_BOUND, toks(&p.bound.tokens)));
            }
        }
    }
    fn field(&mut self, a: &[Attribute], v: &Option<VisMarker>, name: Option<&Ident>, ty: &TypeExpr) {
        self.mark(FIELD);
        self.attrs(a);
        self.vis(v);
        if let Some(n) = name {
            self.put(F_NAME, n);
        }
        self.0.push((F_TY, toks(&ty.tokens)));
    }
    pub fn named(&mut self, n: &NamedFields) {
        self.put(F_NAMED, &n.fields);
        for f in n.fields.items() {
            self.field(&f.attributes, &f.vis_marker, Some(&f.name), &f.ty);
        }
        self.mark(F_END);
    }
    pub fn fields(&mut self, f: &Fields) {
        match f {
            Fields::Unit => self.mark(F_UNIT),
            Fields::Tuple(t) => {
                self.put(F_TUPLE, &t.fields);
                for f in t.fields.items() {
                    self.field(&f.attributes, &f.vis_marker, None, &f.ty);
                }
                self.mark(F_END);
            }
            Fields::Named(n) => self.named(n),
        }
    }
    pub fn function(&mut self, f: &Function) {
        self.attrs(&f.attributes);
        self.vis(&f.vis_marker);
        self.put(KIND + FUNCTION as u32, &f.tk_fn_keyword);
        let q = &f.qualifiers;
        self.flag(Q_DEFAULT, &q.tk_default);
        self.flag(Q_CONST, &q.tk_const);
        self.flag(Q_ASYNC, &q.tk_async);
        self.flag(Q_UNSAFE, &q.tk_unsafe);
        self.flag(Q_EXTERN, &q.tk_extern);
        if let Some(a) = &q.extern_abi {
            self.put(Q_ABI, a);
        }
        self.put(NAME, &f.name);
        self.generics(&f.generic_params);
        self.put(FN_PARAMS, &f.params);
        for p in f.params.items() {
            match p {
                FnParam::Receiver(r) => {
                    self.mark(P_RECV);
                    self.attrs(&r.attributes);
                    self.flag(P_REF, &r.tk_ref);
                    if let Some(l) = &r.lifetime {
                        self.put(P_LIFETIME, l);
                    }
                    self.flag(P_MUT, &r.tk_mut);
                }
                FnParam::Typed(t) => {
                    self.mark(P_TYPED);
                    self.attrs(&t.attributes);
                    self.flag(P_MUT, &t.tk_mut);
                    self.put(P_NAME, &t.name);
                    self.0.push((P_TY, toks(&t.ty.tokens)));
                }
            }
        }
        env::check(f.tk_return_arrow.is_some() == f.return_ty.is_some(), 501);
        if let Some(t) = &f.return_ty {
            self.0.push((RET, toks(&t.tokens)));
        }
        self.where_clause(&f.where_clause);
        if let Some(b) = &f.body {
            self.0.push((BODY, b.stream()));
        }
        self.flag(FN_SEMI, &f.tk_semicolon);
    }
    pub fn constant(&mut self, c: &Constant) {
        self.attrs(&c.attributes);
        self.vis(&c.vis_marker);
        self.mark(KIND + CONSTANT as u32);
        self.put(if c.is_static() { C_STATIC } else { C_CONST }, &c.tk_const_or_static);
        self.flag(C_MUT, &c.tk_mut);
        self.put(NAME, &c.name);
        self.0.push((C_TY, toks(&c.ty.tokens)));
        self.flag(C_EQ, &c.tk_equals);
        if let Some(i) = &c.initializer {
            self.0.push((C_INIT, toks(&i.tokens)));
        } else if c.tk_equals.is_some() {
            self.mark(C_INIT);
        }
        self.put(C_SEMI, &c.tk_semicolon);
    }
    pub fn type_alias(&mut self, t: &TypeAlias) {
        self.attrs(&t.attributes);
        self.vis(&t.vis_marker);
        self.put(KIND + TYPE as u32, &t.tk_type);
        self.put(NAME, &t.name);
        if let Some(b) = &t.bound {
            self.0.push((A_BOUND, toks(&b.tokens)));
        }
        self.flag(A_EQ, &t.tk_equals);
        if let Some(i) = &t.initializer_ty {
            self.0.push((A_TY, toks(&i.tokens)));
        }
        self.put(A_SEMI, &t.tk_semicolon);
    }
    pub fn macro_call(&mut self, m: &Macro) {
        self.attrs(&m.attributes);
        self.put(KIND + MACRO as u32, &m.tk_bang);
        self.put(NAME, &m.name);
        if let Some(i) = &m.tk_declared_name {
            self.put(MAC_DECLARED, i);
        }
        self.0.push((MAC_BODY, toks(&m.inner_tokens)));
        self.mark(match m.tk_braces_or_parens.delimiter {
            Delimiter::Brace => MAC_DELIM,
            Delimiter::Parenthesis => MAC_DELIM + 1,
            Delimiter::Bracket => MAC_DELIM + 2,
            Delimiter::None => M_OTHER,
        });
        self.flag(MAC_SEMI, &m.tk_semicolon);
    }
    fn impl_members(&mut self, inner: &[Attribute], v: &[ImplMember]) {
        self.mark(MEMBERS);
        self.attrs(inner);
        for m in v {
            match m {
                ImplMember::AssocFunction(f) => {
                    self.mark(M_FN);
                    self.function(f)
                }
                ImplMember::AssocConstant(c) => {
                    self.mark(M_CONST);
                    self.constant(c)
                }
                ImplMember::AssocType(t) => {
                    self.mark(M_TYPE);
                    self.type_alias(t)
                }
                ImplMember::Macro(m) => {
                    self.mark(M_MACRO);
                    self.macro_call(m)
                }
                _ => self.mark(M_OTHER),
            }
        }
        self.mark(MEMBERS_END);
    }
    /// The accessors of an item give what its kind's own fields hold.
    fn whole(&mut self, item: &Item, attributes: &Vec<Attribute>, name: Option<&Ident>, generics: Option<&GenericParamList>) {
        let a = item.attributes();
        if !std::ptr::eq(a, attributes) {
            let all = |v: &[Attribute]| {
                let mut t = TokenStream::new();
                for a in v {
                    a.to_tokens(&mut t);
                }
                t
            };
            env::check(env::same(&all(a), &all(attributes), false), 206);
        }
        match (item.name(), name) {
            (Some(a), Some(b)) => env::check(env::same(&a.to_token_stream(), &b.to_token_stream(), false), 207),
            (a, b) => env::check(a.is_none() && b.is_none(), 207),
        }
        match (item.generic_params(), generics) {
            (Some(a), Some(b)) => {
                if !std::ptr::eq(a, b) {
                    env::check(env::same(&a.to_token_stream(), &b.to_token_stream(), false), 208)
                }
            }
            (a, b) => env::check(a.is_none() && b.is_none(), 208),
        }
    }
    pub fn item(&mut self, item: &Item) {
        match item {
            Item::Struct(s) => self.whole(item, &s.attributes, Some(&s.name), s.generic_params.as_ref()),
            Item::Enum(s) => self.whole(item, &s.attributes, Some(&s.name), s.generic_params.as_ref()),
            Item::Union(s) => self.whole(item, &s.attributes, Some(&s.name), s.generic_params.as_ref()),
            Item::Module(s) => self.whole(item, &s.attributes, Some(&s.name), None),
            Item::Trait(s) => self.whole(item, &s.attributes, Some(&s.name), s.generic_params.as_ref()),
            Item::Impl(s) => self.whole(item, &s.attributes, None, s.impl_generic_params.as_ref()),
            Item::TypeAlias(s) => self.whole(item, &s.attributes, Some(&s.name), None),
            Item::Function(s) => self.whole(item, &s.attributes, Some(&s.name), s.generic_params.as_ref()),
            Item::Constant(s) => self.whole(item, &s.attributes, Some(&s.name), None),
            Item::UseDeclaration(s) => self.whole(item, &s.attributes, None, None),
            Item::Macro(s) => self.whole(item, &s.attributes, Some(&s.name), None),
            Item::ExternBlock(s) => self.whole(item, &s.attributes, None, None),
            Item::ExternCrate(s) => self.whole(item, &s.attributes, Some(&s.name), None),
            _ => {}
        }
        match item {
            Item::Struct(s) => {
                self.attrs(&s.attributes);
                self.vis(&s.vis_marker);
                self.put(KIND + STRUCT as u32, &s.tk_struct);
                self.put(NAME, &s.name);
                self.generics(&s.generic_params);
                if matches!(s.fields, Fields::Named(_)) {
                    self.where_clause(&s.where_clause);
                    self.fields(&s.fields);
                } else {
                    self.fields(&s.fields);
                    self.where_clause(&s.where_clause);
                }
                self.flag(S_SEMI, &s.tk_semicolon);
            }
            Item::Enum(s) => {
                self.attrs(&s.attributes);
                self.vis(&s.vis_marker);
                self.put(KIND + ENUM as u32, &s.tk_enum);
                self.put(NAME, &s.name);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                self.put(V_LIST, &s.variants);
                for v in s.variants.items() {
                    self.mark(VARIANT);
                    self.attrs(&v.attributes);
                    self.vis(&v.vis_marker);
                    self.put(V_NAME, &v.name);
                    self.fields(&v.fields);
                    match &v.value {
                        None => self.mark(V_NOVALUE),
                        Some(x) => self.put(V_VALUE, &x.value),
                    }
                }
            }
            Item::Union(s) => {
                self.attrs(&s.attributes);
                self.vis(&s.vis_marker);
                self.put(KIND + UNION as u32, &s.tk_union);
                self.put(NAME, &s.name);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                self.named(&s.fields);
            }
            Item::Function(f) => self.function(f),
            Item::Impl(s) => {
                self.attrs(&s.attributes);
                self.flag(UNSAFE, &s.tk_unsafe);
                self.put(KIND + IMPL as u32, &s.tk_impl);
                self.generics(&s.impl_generic_params);
                env::check(s.tk_for.is_some() == s.trait_ty.is_some(), 801);
                if let Some(t) = &s.trait_ty {
                    self.0.push((I_TRAIT, toks(&t.tokens)));
                }
                self.0.push((I_SELF, toks(&s.self_ty.tokens)));
                self.where_clause(&s.where_clause);
                self.impl_members(&s.inner_attributes, &s.body_items);
            }
            Item::Trait(s) => {
                self.attrs(&s.attributes);
                self.vis(&s.vis_marker);
                self.flag(UNSAFE, &s.tk_unsafe);
                self.put(KIND + TRAIT as u32, &s.tk_trait);
                self.put(NAME, &s.name);
                self.generics(&s.generic_params);
                if let Some(b) = &s.bound {
                    self.0.push((T_SUPER, toks(&b.tokens)));
                }
                self.where_clause(&s.where_clause);
                self.mark(MEMBERS);
                self.attrs(&s.inner_attributes);
                for m in &s.body_items {
                    match m {
                        TraitMember::AssocFunction(f) => {
                            self.mark(M_FN);
                            self.function(f)
                        }
                        TraitMember::AssocConstant(c) => {
                            self.mark(M_CONST);
                            self.constant(c)
                        }
                        TraitMember::AssocType(t) => {
                            self.mark(M_TYPE);
                            self.type_alias(t)
                        }
                        TraitMember::Macro(m) => {
                            self.mark(M_MACRO);
                            self.macro_call(m)
                        }
                        _ => self.mark(M_OTHER),
                    }
                }
                self.mark(MEMBERS_END);
            }
            Item::Module(s) => {
                self.attrs(&s.attributes);
                self.vis(&s.vis_marker);
                self.flag(UNSAFE, &s.tk_unsafe);
                self.put(KIND + MODULE as u32, &s.tk_mod);
                self.put(NAME, &s.name);
                self.flag(MOD_SEMI, &s.tk_semicolon);
                if s.tk_braces.is_some() {
                    self.mark(MEMBERS);
                    self.attrs(&s.inner_attributes);
                    for m in &s.members {
                        self.mark(M_ITEM);
                        self.item(m);
                    }
                    self.mark(MEMBERS_END);
                }
            }
            Item::TypeAlias(t) => self.type_alias(t),
            Item::Constant(c) => self.constant(c),
            Item::UseDeclaration(u) => {
                self.attrs(&u.attributes);
                self.vis(&u.vis_marker);
                self.put(KIND + USE as u32, &u.tk_use);
                self.0.push((U_TREE, toks(&u.import_tree.tokens)));
                self.put(U_SEMI, &u.tk_semicolon);
            }
            Item::Macro(m) => self.macro_call(m),
            Item::ExternBlock(x) => {
                self.attrs(&x.attributes);
                self.vis(&x.vis_marker);
                self.flag(UNSAFE, &x.tk_unsafe);
                self.put(KIND + EXTERN_BLOCK as u32, &x.tk_extern);
                if let Some(a) = &x.extern_abi {
                    self.put(X_ABI, a);
                }
                self.impl_members(&x.inner_attributes, &x.body_items);
            }
            Item::ExternCrate(x) => {
                self.attrs(&x.attributes);
                self.vis(&x.vis_marker);
                let mut k = x.tk_extern.to_token_stream();
                x.tk_crate.to_tokens(&mut k);
                self.0.push((KIND + EXTERN_CRATE as u32, k));
                self.put(NAME, &x.name);
                self.flag(X_AS, &x.tk_as);
                // an underscore may be reported as either
                self.flag(X_ALIAS, &x.alias);
                self.flag(X_ALIAS, &x.tk_underscore);
                self.put(X_SEMI, &x.tk_semicolon);
            }
            _ => self.mark(M_OTHER),
        }
    }
}

/// The two lists agree on the labels of a group (0: on all of them).
pub fn agree(want: &Pieces, got: &Pieces, group: u32, id: u32) {
    let sel = |p: &&(u32, TokenStream)| group == 0 || p.0 / 100 * 100 == group || p.0 / 100 == 1;
    let a: Vec<&(u32, TokenStream)> = want.iter().filter(sel).collect();
    let b: Vec<&(u32, TokenStream)> = got.iter().filter(sel).collect();
    for (x, y) in a.iter().zip(b.iter()) {
        if env::NATIVE {
            env::note(&format!("piece {} wanted", x.0), &x.1);
            env::note(&format!("piece {} got", y.0), &y.1);
        }
        env::check(x.0 == y.0, id);
        env::check(env::same(&x.1, &y.1, false), id + 1);
    }
    env::check(a.len() == b.len(), id + 2);
}
