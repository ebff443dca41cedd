//! Concrete backend: the same harness on the real proc-macro2, fed with the values of one
//! path of the executor, in the order in which the path created them.
use proc_macro2::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

pub const NATIVE: bool = true;

pub struct Violation(pub u32);
pub struct Infeasible(pub String);

thread_local! {
    pub static VALS: RefCell<(Vec<(u8, Vec<u8>)>, usize)> = RefCell::new((vec![], 0));
    pub static PARAMS: RefCell<Vec<u32>> = RefCell::new(vec![]);
    pub static REACH: RefCell<Vec<u32>> = RefCell::new(vec![]);
    pub static MODE: Cell<u32> = Cell::new(1);
    static JOIN: Cell<bool> = Cell::new(false);
    static SPANS: RefCell<HashMap<u32, Span>> = RefCell::new(HashMap::new());
    static LINE: RefCell<Vec<Span>> = RefCell::new(vec![]);
}

fn fill(class: u8, n: usize) -> Vec<u8> {
    VALS.with(|v| {
        let mut v = v.borrow_mut();
        let i = v.1;
        v.1 += 1;
        if i >= v.0.len() {
            // beyond the values of the path: any value of the class will do
            return match class {
                5 => vec![1, 0, 0, 0],
                3 => vec![b','],
                6 | 9 | 11 => b"zz".to_vec().into_iter().chain([0; 14]).collect(),
                10 => b"\"C\"".to_vec().into_iter().chain([0; 13]).collect(),
                7 => b"1".to_vec().into_iter().chain([0; 15]).collect(),
                _ => vec![0; n],
            };
        }
        let (c, x) = v.0[i].clone();
        if c != class || x.len() != n {
            drop(v);
            std::panic::panic_any(Infeasible(format!("value {} has class {} width {}, wanted {} {}", i, c, x.len(), class, n)));
        }
        x
    })
}
fn fill8(class: u8) -> u8 {
    fill(class, 1)[0]
}
fn fill32(class: u8) -> u32 {
    let v = fill(class, 4);
    u32::from_le_bytes([v[0], v[1], v[2], v[3]])
}
fn fill_text(class: u8) -> String {
    let v = fill(class, 16);
    let n = v.iter().position(|c| *c == 0).unwrap_or(16);
    String::from_utf8(v[..n].to_vec()).unwrap()
}

pub fn param(i: u32) -> usize {
    PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0) as usize)
}
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Infeasible("assumption".into()));
    }
}
pub fn check(b: bool, id: u32) {
    if !b {
        std::panic::panic_any(Violation(id));
    }
}
pub fn reach(id: u32) {
    REACH.with(|r| r.borrow_mut().push(id));
}
pub fn panics_allowed() {
    MODE.with(|m| m.set(0));
}
pub fn no_panic(id: u32) {
    MODE.with(|m| m.set(id));
}
pub fn choose(n: usize) -> usize {
    if n > 256 {
        let x = choose((n + 255) / 256) * 256 + choose(256);
        assume(x < n);
        return x;
    }
    let x = fill8(0) as usize;
    assume(x < n);
    x
}
pub fn boolean() -> bool {
    choose(2) == 1
}
pub fn set_join(on: bool) {
    JOIN.with(|j| j.set(on));
}
/// Byte-wise representation of a span: real spans have no equality of their own.
pub fn same_span(a: Span, b: Span) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}
pub fn is_call_site(a: Span) -> bool {
    same_span(a, Span::call_site())
}
/// Spans that can be joined lie in one file, others in a file each.
fn the_span(k: u32) -> Span {
    if JOIN.with(|j| j.get()) {
        LINE.with(|l| {
            let mut l = l.borrow_mut();
            if l.is_empty() {
                let text = "xx ".repeat(32768);
                *l = text.parse::<TokenStream>().unwrap().into_iter().map(|t| t.span()).collect();
            }
            l[k as usize]
        })
    } else {
        SPANS.with(|s| {
            *s.borrow_mut()
                .entry(k)
                .or_insert_with(|| "xx".parse::<TokenStream>().unwrap().into_iter().next().unwrap().span())
        })
    }
}
pub fn span() -> Span {
    the_span(fill32(5))
}
fn mk_ident(t: &str, s: Span) -> Ident {
    match t.strip_prefix("r#") {
        Some(x) => Ident::new_raw(x, s),
        None => Ident::new(t, s),
    }
}
pub fn any_ident() -> Ident {
    let t = fill_text(6);
    let s = span();
    mk_ident(&t, s)
}
pub fn ident() -> Ident {
    let t = fill_text(11);
    let s = span();
    mk_ident(&t, s)
}
pub fn plain_ident() -> Ident {
    let t = fill_text(9);
    let s = span();
    mk_ident(&t, s)
}
fn mk_literal(t: &str, s: Span) -> Literal {
    let mut l: Literal = t.parse().unwrap();
    l.set_span(s);
    l
}
pub fn literal() -> Literal {
    let t = fill_text(7);
    let s = span();
    mk_literal(&t, s)
}
pub fn string() -> Literal {
    let t = fill_text(10);
    let s = span();
    mk_literal(&t, s)
}
pub fn any_punct_char() -> char {
    fill8(3) as char
}
fn spacing_of(b: u8) -> Spacing {
    if b == 1 {
        Spacing::Joint
    } else {
        Spacing::Alone
    }
}
pub fn any_spacing() -> Spacing {
    spacing_of(fill8(2))
}
pub fn any_punct() -> Punct {
    let ch = fill8(3) as char;
    let sp = spacing_of(fill8(2));
    let s = span();
    let mut p = Punct::new(ch, sp);
    p.set_span(s);
    p
}

fn any_raws(max: usize, depth: usize) -> Vec<TokenTree> {
    let mut v = vec![];
    for _ in 0..max {
        let kind = fill8(1);
        let text = fill_text(6);
        let lit = fill_text(7);
        let ch = fill8(3) as char;
        let spacing = spacing_of(fill8(2));
        let delim = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None][fill8(4) as usize];
        let sp = the_span(fill32(5));
        let mut stream = TokenStream::new();
        if depth > 0 {
            let len = fill8(0) as usize;
            let m = param(7);
            assume(len <= m);
            stream = any_raws(m, depth - 1).into_iter().take(len).collect();
        }
        v.push(match kind {
            0 => mk_ident(&text, sp).into(),
            1 => {
                let mut p = Punct::new(ch, spacing);
                p.set_span(sp);
                p.into()
            }
            3 => mk_literal(&lit, sp).into(),
            _ => {
                let mut g = Group::new(delim, stream);
                g.set_span(sp);
                g.into()
            }
        });
    }
    v
}
pub fn any_stream(max: usize, depth: usize) -> TokenStream {
    let n = fill8(0) as usize;
    assume(n <= max);
    any_raws(max, depth).into_iter().take(n).collect()
}
pub fn any_token(depth: usize) -> TokenStream {
    any_raws(1, depth).into_iter().collect()
}
fn same_tree(a: &TokenTree, b: &TokenTree, spans: bool) -> bool {
    (match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x.to_string() == y.to_string(),
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char() && x.spacing() == y.spacing(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        (TokenTree::Group(x), TokenTree::Group(y)) => {
            x.delimiter() == y.delimiter() && same(&x.stream(), &y.stream(), spans)
        }
        _ => false,
    }) && (!spans || same_span(a.span(), b.span()))
}
pub fn same(a: &TokenStream, b: &TokenStream, spans: bool) -> bool {
    let a: Vec<TokenTree> = a.clone().into_iter().collect();
    let b: Vec<TokenTree> = b.clone().into_iter().collect();
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| same_tree(x, y, spans))
}
pub fn tail(a: &TokenStream, from: usize) -> TokenStream {
    a.clone().into_iter().skip(from).collect()
}
pub fn head(a: &TokenStream, n: usize) -> TokenStream {
    a.clone().into_iter().take(n).collect()
}
pub fn len(a: &TokenStream) -> usize {
    a.clone().into_iter().count()
}
pub fn span_at(a: &TokenStream, i: usize) -> Span {
    a.clone().into_iter().nth(i).unwrap().span()
}
/// The text of a string literal, the value of an unsuffixed integer.
pub fn literal_is_string(l: &Literal, s: &str) -> bool {
    l.to_string() == Literal::string(s).to_string()
}
pub fn literal_is_integer(l: &Literal, n: usize) -> bool {
    l.to_string() == n.to_string()
}
thread_local! {
    static LOG: RefCell<String> = RefCell::new(String::new());
}
/// For the report of a counterexample.
pub fn note(label: &str, s: &TokenStream) {
    LOG.with(|l| l.borrow_mut().push_str(&format!("  {}: {}\n", label, s)));
}
pub fn take_log() -> String {
    LOG.with(|l| l.borrow().clone())
}
pub fn left(it: &std::iter::Peekable<token_stream::IntoIter>) -> usize {
    it.clone().count()
}
