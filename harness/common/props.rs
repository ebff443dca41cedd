//! The properties.  Each `h_*` function is one harness: it draws symbolic inputs, runs the
//! real code on them and states, with `env::check`, what has to hold.
use crate::env;
use proc_macro2::token_stream::IntoIter;
use proc_macro2::*;
use quote::ToTokens;
use std::iter::Peekable;
use venial::*;
use crate::gram::*;

// ------------------------------------------------------------------ building streams

/// A stream under construction.  Every token gets a symbolic span.
#[derive(Clone)]
pub struct B(pub TokenStream);

impl B {
    pub fn new() -> B {
        B(TokenStream::new())
    }
    pub fn put(&mut self, t: impl Into<TokenTree>) {
        self.0.extend(std::iter::once(t.into()));
    }
    /// A keyword or any other fixed identifier.
    pub fn kw(&mut self, s: &str) {
        self.put(Ident::new(s, env::span()));
    }
    fn punct(&mut self, c: char, sp: Spacing) {
        let mut p = Punct::new(c, sp);
        p.set_span(env::span());
        self.put(p);
    }
    /// A punctuation mark that does not touch the next one.
    pub fn p(&mut self, c: char) {
        self.punct(c, Spacing::Alone);
    }
    /// One that does.
    pub fn pj(&mut self, c: char) {
        self.punct(c, Spacing::Joint);
    }
    /// One that may.
    pub fn pa(&mut self, c: char) {
        let sp = env::any_spacing();
        self.punct(c, sp);
    }
    pub fn colon2(&mut self) {
        self.pj(':');
        self.pa(':');
    }
    /// An arbitrary identifier that is not a keyword.
    pub fn id(&mut self) -> Ident {
        let i = env::ident();
        self.put(i.clone());
        i
    }
    pub fn plain(&mut self) -> Ident {
        let i = env::plain_ident();
        self.put(i.clone());
        i
    }
    pub fn abi(&mut self) -> Literal {
        let l = env::string();
        self.put(l.clone());
        l
    }
    pub fn lit(&mut self) -> Literal {
        let l = env::literal();
        self.put(l.clone());
        l
    }
    pub fn group(&mut self, d: Delimiter, inner: &TokenStream) {
        let mut g = Group::new(d, inner.clone());
        g.set_span(env::span());
        self.put(g);
    }
    pub fn braces(&mut self, inner: &TokenStream) {
        self.group(Delimiter::Brace, inner)
    }
    pub fn parens(&mut self, inner: &TokenStream) {
        self.group(Delimiter::Parenthesis, inner)
    }
    pub fn brackets(&mut self, inner: &TokenStream) {
        self.group(Delimiter::Bracket, inner)
    }
    pub fn append(&mut self, s: &TokenStream) {
        self.0.extend(std::iter::once(s.clone()));
    }
}

pub fn iter_of(s: &TokenStream) -> Peekable<IntoIter> {
    s.clone().into_iter().peekable()
}

// ------------------------------------------------------------------ the item frames

/// Number of frames `framed` knows.
pub const FRAMES: usize = 26;

/// An arbitrary stream of tokens at one of the places where the parser reads tokens:
/// right at the start, or in a frame that leads the parser there.
pub fn framed(frame: usize, n: usize, depth: usize) -> TokenStream {
    let free = |m: usize| env::any_stream(m, depth);
    let mut b = B::new();
    match frame {
        0 => b.append(&free(n)),
        1 => {
            b.kw("struct");
            b.id();
            b.p('<');
            b.append(&free(n));
        }
        2 => {
            b.kw("struct");
            b.id();
            b.braces(&free(n));
            b.append(&free(1));
        }
        3 => {
            b.kw("struct");
            b.id();
            b.parens(&free(n));
            b.append(&free(1));
        }
        4 => {
            b.kw("enum");
            b.id();
            b.braces(&free(n));
        }
        5 => {
            b.kw("fn");
            b.id();
            b.parens(&free(n));
            b.braces(&TokenStream::new());
        }
        6 => {
            b.kw("fn");
            b.id();
            b.parens(&TokenStream::new());
            b.append(&free(n));
        }
        7 => {
            b.kw("impl");
            b.append(&free(n));
        }
        8 => {
            b.kw("impl");
            b.id();
            b.braces(&free(n));
        }
        9 => {
            b.kw("trait");
            b.id();
            b.append(&free(n));
        }
        10 => {
            b.kw("trait");
            b.id();
            b.braces(&free(n));
        }
        11 => {
            b.kw("mod");
            b.id();
            b.braces(&free(n));
        }
        12 => {
            b.p('#');
            b.brackets(&free(n));
            b.kw("struct");
            b.id();
            b.p(';');
        }
        13 => {
            b.kw("const");
            b.id();
            b.p(':');
            b.append(&free(n));
        }
        14 => {
            b.kw("static");
            b.append(&free(n));
        }
        15 => {
            b.kw("use");
            b.append(&free(n));
        }
        16 => {
            b.kw("struct");
            b.id();
            b.kw("where");
            b.append(&free(n));
        }
        17 => {
            b.kw("extern");
            b.append(&free(n));
        }
        18 => {
            b.kw("type");
            b.id();
            b.append(&free(n));
        }
        19 => {
            b.id();
            b.p('!');
            b.append(&free(n));
        }
        20 => {
            b.kw("union");
            b.id();
            b.braces(&free(n));
        }
        21 => {
            b.kw("extern");
            b.lit();
            b.braces(&free(n));
        }
        22 => {
            b.kw("pub");
            b.append(&free(n));
        }
        23 => {
            b.kw("unsafe");
            b.append(&free(n));
        }
        24 => {
            b.kw("const");
            b.append(&free(n));
        }
        _ => {
            b.kw("struct");
            b.id();
            b.parens(&TokenStream::new());
            b.append(&free(n));
        }
    }
    b.0
}

/// The frame this run explores: param(5) says which (0: all of them).
pub fn any_framed() -> TokenStream {
    let frame = match env::param(5) {
        0 => env::choose(FRAMES),
        f => f - 1,
    };
    let s = framed(frame, env::param(0), env::param(1));
    env::note("input", &s);
    s
}

// ------------------------------------------------------------------ C01 lossless printing

/// Whatever is accepted prints back as the tokens that were consumed.
pub fn h_roundtrip() {
    let spans = env::param(6) == 1;
    let s = any_framed();
    let n = env::len(&s);
    env::panics_allowed();
    let mut it = iter_of(&s);
    let r = consume_item(&mut it);
    env::no_panic(101);
    if let Ok(item) = r {
        env::reach(1);
        let out = item.to_token_stream();
        env::note("printed", &out);
        let rest = env::left(&it);
        env::check(rest < n, 102);
        env::check(env::len(&out) == n - rest, 103);
        env::check(env::same(&out, &env::head(&s, n - rest), spans), 104);
    } else {
        env::reach(2);
    }
}

// ------------------------------------------------------------------ C05 .. C12, C18 structure

/// Every declaration of the grammar is accepted, as what it is, with its parts where they
/// belong.  param(2): the group of parts compared (0: all), param(6): kind + 1 (0: any).
pub fn h_structure() {
    let mut g = G::new();
    let kind = match env::param(6) {
        0 => env::choose(KINDS),
        k => k - 1,
    };
    g.item(kind);
    let s = g.b.0.clone();
    env::note("input", &s);
    env::no_panic(201);
    let r = parse_item(s);
    env::reach(10 + kind as u32);
    match r {
        Ok(item) => {
            let mut o = O(Vec::new());
            o.item(&item);
            agree(&g.e, &o.0, g.focus, 202);
        }
        Err(_) => env::check(false, 205),
    }
}
