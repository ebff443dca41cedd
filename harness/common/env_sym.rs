//! Symbolic backend: inputs are symbolic variables of the executor.
use proc_macro2::raw::{self, Raw};
use proc_macro2::*;
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn __sx_fill(p: *mut u8, n: usize, class: u32);
    fn __sx_assume(b: bool);
    fn __sx_assert(b: bool, id: u32);
    fn __sx_reach(id: u32);
    fn __sx_panic_mode(m: u32);
    fn __sx_param(i: u32) -> u32;
    fn __sx_conc(x: u64) -> u64;
    fn __sx_alloc(n: usize, a: usize) -> *mut u8;
    fn __sx_realloc(p: *mut u8, old: usize, a: usize, n: usize) -> *mut u8;
}

struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        __sx_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, _p: *mut u8, _l: Layout) {}
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        __sx_realloc(p, l.size(), l.align(), n)
    }
}
#[global_allocator]
static GLOBAL: Arena = Arena;

pub const NATIVE: bool = false;

#[inline(always)]
fn fill8(class: u32) -> u8 {
    let mut x = 0u8;
    unsafe { __sx_fill(&mut x, 1, class) };
    x
}
#[inline(always)]
fn fill32(class: u32) -> u32 {
    let mut x = 0u32;
    unsafe { __sx_fill(&mut x as *mut u32 as *mut u8, 4, class) };
    x
}
#[inline(always)]
fn fill_text(class: u32) -> [u64; 2] {
    let mut x = [0u64; 2];
    unsafe { __sx_fill(&mut x as *mut _ as *mut u8, 16, class) };
    x
}

pub fn param(i: u32) -> usize {
    unsafe { __sx_param(i) as usize }
}
pub fn assume(b: bool) {
    unsafe { __sx_assume(b) }
}
/// The property: must hold for every value of the inputs.
#[inline(never)]
pub fn check(b: bool, id: u32) {
    unsafe { __sx_assert(b, id) }
}
pub fn reach(id: u32) {
    unsafe { __sx_reach(id) }
}
/// From here on the program may reject its input by panicking.
pub fn panics_allowed() {
    unsafe { __sx_panic_mode(0) }
}
/// From here on a panic is a violation, reported under this number.
pub fn no_panic(id: u32) {
    unsafe { __sx_panic_mode(id) }
}
#[inline(never)]
pub fn choose(n: usize) -> usize {
    if n > 256 {
        let x = choose((n + 255) / 256) * 256 + choose(256);
        assume(x < n);
        return x;
    }
    let x = fill8(0);
    assume((x as usize) < n);
    unsafe { __sx_conc(x as u64) as usize }
}
pub fn boolean() -> bool {
    choose(2) == 1
}
pub fn set_join(on: bool) {
    unsafe { JOIN_SUPPORTED = on }
}
pub fn same_span(a: Span, b: Span) -> bool {
    a.0 == b.0
}

#[inline(never)]
pub fn span() -> Span {
    Span(fill32(5))
}
/// An identifier that may be anything, keywords included.
pub fn any_ident() -> Ident {
    let text = fill_text(6);
    let s = span();
    Ident::from_text(text, s)
}
/// An identifier that is not a keyword; it may be a weak one, like `union`.
#[inline(never)]
pub fn ident() -> Ident {
    let text = fill_text(11);
    let s = span();
    Ident::from_text(text, s)
}
/// An identifier that is not even a weak keyword.
#[inline(never)]
pub fn plain_ident() -> Ident {
    let text = fill_text(9);
    let s = span();
    Ident::from_text(text, s)
}
fn lit_of(class: u32) -> Literal {
    let text = fill_text(class);
    let s = span();
    let mut r = Raw::zero();
    r.kind = raw::LITERAL;
    r.lit = text;
    r.span = s.0;
    match TokenTree::from_raw(&r) {
        TokenTree::Literal(l) => l,
        _ => unreachable!(),
    }
}
#[inline(never)]
pub fn literal() -> Literal {
    lit_of(7)
}
/// A string literal.
#[inline(never)]
pub fn string() -> Literal {
    lit_of(10)
}
pub fn any_punct_char() -> char {
    fill8(3) as char
}
#[inline(never)]
pub fn any_spacing() -> Spacing {
    let b = fill8(2);
    unsafe { std::mem::transmute::<u8, Spacing>(b) }
}
#[inline(never)]
pub fn any_punct() -> Punct {
    let ch = fill8(3);
    let spacing = fill8(2);
    let s = span();
    let mut r = Raw::zero();
    r.kind = raw::PUNCT;
    r.ch = ch;
    r.spacing = spacing;
    r.span = s.0;
    match TokenTree::from_raw(&r) {
        TokenTree::Punct(l) => l,
        _ => unreachable!(),
    }
}

fn any_raws(max: usize, depth: usize) -> usize {
    let mut v: Vec<Raw> = Vec::with_capacity(max);
    for _ in 0..max {
        let mut r = Raw::zero();
        r.kind = fill8(1);
        r.text = fill_text(6);
        r.lit = fill_text(7);
        r.ch = fill8(3);
        r.spacing = fill8(2);
        r.delim = fill8(4);
        r.span = fill32(5);
        if depth > 0 {
            let len = fill8(0) as usize;
            let m = child_max(max, depth);
            assume(len <= m);
            r.child_len = len;
            r.child = any_raws(m, depth - 1);
        }
        v.push(r);
    }
    let p = v.as_ptr() as usize;
    std::mem::forget(v);
    p
}
fn child_max(_max: usize, _depth: usize) -> usize {
    param(7)
}
/// Any stream of at most `max` tokens, whose groups nest at most `depth` deep; nested
/// streams have at most param(7) tokens each.
#[inline(never)]
pub fn any_stream(max: usize, depth: usize) -> TokenStream {
    let len = fill8(0) as usize;
    assume(len <= max);
    TokenStream::from_raw_parts(any_raws(max, depth), len)
}
/// Any single token.
pub fn any_token(depth: usize) -> TokenStream {
    TokenStream::from_raw_parts(any_raws(1, depth), 1)
}

fn raws(s: &TokenStream) -> (*const Raw, usize) {
    (s.base(), s.raw_len())
}
fn same_raw(a: &Raw, b: &Raw, spans: bool) -> bool {
    let is = |k: u8| a.kind == k;
    let text = ((a.text[0] ^ b.text[0]) | (a.text[1] ^ b.text[1])) == 0;
    let lit = ((a.lit[0] ^ b.lit[0]) | (a.lit[1] ^ b.lit[1])) == 0;
    let mut ok = a.kind == b.kind;
    ok &= !is(raw::IDENT) | text;
    ok &= !is(raw::LITERAL) | (lit & (a.lit_tag == b.lit_tag));
    ok &= !is(raw::PUNCT) | ((a.ch == b.ch) & (a.spacing == b.spacing));
    ok &= !is(raw::GROUP) | (a.delim == b.delim);
    if spans {
        ok &= a.span == b.span;
    }
    ok
}
/// Same tokens (texts, spacings, delimiters, nesting, and spans if asked for).
#[inline(never)]
pub fn same(a: &TokenStream, b: &TokenStream, spans: bool) -> bool {
    let ((pa, na), (pb, nb)) = (raws(a), raws(b));
    same_raws(pa, na, pb, nb, spans)
}
fn same_raws(pa: *const Raw, na: usize, pb: *const Raw, nb: usize, spans: bool) -> bool {
    if na != nb {
        return false;
    }
    if pa as usize == pb as usize {
        return true;
    }
    let mut ok = true;
    let mut i = 0;
    while i < na {
        let (x, y) = unsafe { (&*pa.add(i), &*pb.add(i)) };
        ok &= same_raw(x, y, spans);
        if x.child as usize != y.child as usize || x.child_len != y.child_len {
            if x.kind == raw::GROUP {
                if y.kind != raw::GROUP {
                    return false;
                }
                ok &= same_raws(x.child as *const Raw, x.child_len, y.child as *const Raw, y.child_len, spans);
            }
        }
        i += 1;
    }
    ok
}
/// The stream from position `from` on.
pub fn tail(a: &TokenStream, from: usize) -> TokenStream {
    let (p, n) = raws(a);
    TokenStream::from_raw_parts(unsafe { p.add(from) } as usize, n - from)
}
pub fn len(a: &TokenStream) -> usize {
    unsafe { __sx_conc(a.raw_len() as u64) as usize }
}
pub fn span_at(a: &TokenStream, i: usize) -> Span {
    unsafe { Span((*a.base().add(i)).span) }
}
pub fn head(a: &TokenStream, n: usize) -> TokenStream {
    let (p, _) = raws(a);
    TokenStream::from_raw_parts(p as usize, n)
}
pub fn is_call_site(a: Span) -> bool {
    a.0 == 0
}
pub fn literal_is_string(l: &Literal, s: &str) -> bool {
    l.as_string() == Some(s)
}
pub fn literal_is_integer(l: &Literal, n: usize) -> bool {
    l.as_integer() == Some(n as u64)
}
pub fn note(_label: &str, _s: &TokenStream) {}
/// How many tokens are left.
pub fn left(it: &std::iter::Peekable<token_stream::IntoIter>) -> usize {
    unsafe {
        EXACT_HINTS = true;
        let n = it.size_hint().0;
        EXACT_HINTS = false;
        __sx_conc(n as u64) as usize
    }
}
