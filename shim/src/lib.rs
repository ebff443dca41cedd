//! Model ("environment stub") of the public contract of `proc_macro2`, used only
//! when venial is executed symbolically.
//!
//! * A token is a flat `Raw` record whose fields may be symbolic.  A `Raw` is turned
//!   into a `TokenTree` when an iterator hands it out, so the *kind* of a token is only
//!   decided (forked on) once the program looks at that token.
//! * The length of a stream may be symbolic too: the end of the stream is decided when
//!   the program reaches it.
//! * Streams are immutable shared buffers; nothing is ever freed.
//! * Identifiers and literals are up to 16 bytes of text, zero padded, in two words.
//!   Longer texts built by the program are represented by a hash with the top bit set.
//! * A span is a 32-bit number.  0 is `call_site()`.
#![allow(clippy::all)]

use std::cmp::Ordering;
use std::error::Error;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::ops::RangeBounds;
use std::str::FromStr;

pub mod extra {
    use crate::Span;
    #[derive(Copy, Clone)]
    pub struct DelimSpan {
        pub(crate) open: Span,
        pub(crate) close: Span,
        pub(crate) whole: Span,
    }
    impl DelimSpan {
        pub fn join(&self) -> Span {
            self.whole
        }
        pub fn open(&self) -> Span {
            self.open
        }
        pub fn close(&self) -> Span {
            self.close
        }
    }
    impl std::fmt::Debug for DelimSpan {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("DelimSpan")
        }
    }
}
use extra::DelimSpan;

// ---------------------------------------------------------------- raw tokens

pub mod raw {
    pub const IDENT: u8 = 0;
    pub const PUNCT: u8 = 1;
    pub const GROUP: u8 = 2;
    pub const LITERAL: u8 = 3;

    /// One token.  Which fields mean something depends on `kind`.
    #[derive(Copy, Clone)]
    #[repr(C)]
    pub struct Raw {
        pub text: [u64; 2], // IDENT
        pub lit: [u64; 2],  // LITERAL
        pub child: usize,   // GROUP: address of the first token
        pub child_len: usize,
        pub span: u32,
        pub kind: u8,
        pub ch: u8,      // PUNCT
        pub spacing: u8, // PUNCT: 0 alone, 1 joint
        pub delim: u8,   // GROUP: 0 paren, 1 brace, 2 bracket, 3 none
        pub lit_tag: u8, // LITERAL: 0 text, 1 unsuffixed integer, 2 string at (ptr,len)
    }
    impl Raw {
        pub const fn zero() -> Raw {
            Raw { text: [0, 0], lit: [0, 0], child: 0, child_len: 0, span: 0, kind: 0, ch: 0, spacing: 0, delim: 0, lit_tag: 0 }
        }
    }
}
use raw::Raw;

/// Packs a text into two words.
#[inline(never)]
fn pack(s: &str) -> [u64; 2] {
    let b = s.as_bytes();
    let mut w = [0u64; 2];
    if b.len() <= 16 {
        // Little endian: byte i of the text is byte i of the two words.
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), w.as_mut_ptr() as *mut u8, b.len()) };
    } else {
        let mut h: u64 = 0xcbf29ce484222325;
        let mut g: u64 = b.len() as u64;
        for c in b {
            h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
            g = (g.rotate_left(5) ^ *c as u64).wrapping_mul(0x9E3779B97F4A7C15);
        }
        w[0] = h | (1 << 63);
        w[1] = g | (1 << 63);
    }
    w
}

#[inline(always)]
fn same_text(a: &[u64; 2], b: &[u64; 2]) -> bool {
    ((a[0] ^ b[0]) | (a[1] ^ b[1])) == 0
}

/// Number of bytes before the padding.  Branch-free, so that it stays one expression.
fn text_len(w: &[u64; 2]) -> usize {
    let mut n = 0usize;
    let mut i = 0;
    while i < 8 {
        n += (((w[0] >> (i * 8)) & 0xff) != 0) as usize;
        n += (((w[1] >> (i * 8)) & 0xff) != 0) as usize;
        i += 1;
    }
    n
}

fn text_to_string(w: &[u64; 2]) -> String {
    let mut v: Vec<u8> = Vec::with_capacity(16);
    unsafe {
        let p = v.as_mut_ptr() as *mut u64;
        p.write_unaligned(w[0]);
        p.add(1).write_unaligned(w[1]);
        v.set_len(text_len(w));
        String::from_utf8_unchecked(v)
    }
}

// ---------------------------------------------------------------- Span

#[derive(Copy, Clone)]
pub struct Span(pub u32);

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct LineColumn {
    pub line: usize,
    pub column: usize,
}

/// 0: spans cannot be joined (stable compilers); 1: they can.
pub static mut JOIN_SUPPORTED: bool = false;
/// Set by the harness while it looks at how many tokens an iterator has left.
pub static mut EXACT_HINTS: bool = false;

impl Span {
    pub fn call_site() -> Self {
        Span(0)
    }
    pub fn mixed_site() -> Self {
        Span(0)
    }
    pub fn def_site() -> Self {
        Span(0)
    }
    pub fn resolved_at(&self, _other: Span) -> Span {
        *self
    }
    pub fn located_at(&self, other: Span) -> Span {
        other
    }
    /// Input spans are 1..2^15, each two places wide (2k and 2k + 1) on one line; a span of any
    /// other extent is `last place << 16 | first place`.  Where joining is supported, the call site still joins with nothing.
    pub fn join(&self, other: Span) -> Option<Span> {
        if unsafe { JOIN_SUPPORTED } {
            if (self.0 == 0) | (other.0 == 0) {
                return if (self.0 | other.0) == 0 { Some(Span(0)) } else { None };
            }
            let (al, ah) = self.ends();
            let (bl, bh) = other.ends();
            let lo = if al < bl { al } else { bl };
            let hi = if ah > bh { ah } else { bh };
            Some(Span(if (lo & 1 == 0) & (hi == lo + 1) { lo >> 1 } else { (hi << 16) | lo }))
        } else {
            None
        }
    }
    fn ends(&self) -> (u32, u32) {
        let lo = self.0 & 0xffff;
        let hi = self.0 >> 16;
        if hi == 0 {
            (lo << 1, (lo << 1) | 1)
        } else {
            (lo, hi)
        }
    }
    fn first(&self) -> Span {
        let lo = self.ends().0;
        Span(if self.0 == 0 { 0 } else { (lo << 16) | lo })
    }
    fn last(&self) -> Span {
        let hi = self.ends().1;
        Span(if self.0 == 0 { 0 } else { (hi << 16) | hi })
    }
    pub fn start(&self) -> LineColumn {
        LineColumn { line: 1, column: self.0 as usize }
    }
    pub fn end(&self) -> LineColumn {
        LineColumn { line: 1, column: self.0 as usize + 1 }
    }
    pub fn byte_range(&self) -> std::ops::Range<usize> {
        self.0 as usize..self.0 as usize + 1
    }
    pub fn source_text(&self) -> Option<String> {
        None
    }
    pub fn eq(&self, other: &Span) -> bool {
        self.0 == other.0
    }
}
impl Debug for Span {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Span")
    }
}

// ---------------------------------------------------------------- TokenStream

/// `cap` is the capacity of the buffer if this value may append in place, else 0.
pub struct TokenStream {
    base: usize,
    len: usize,
    cap: usize,
}

impl Clone for TokenStream {
    #[inline]
    fn clone(&self) -> Self {
        TokenStream { base: self.base, len: self.len, cap: 0 }
    }
}

pub struct LexError(());

impl LexError {
    pub fn span(&self) -> Span {
        Span(0)
    }
}
impl Debug for LexError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("LexError")
    }
}
impl Display for LexError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("LexError")
    }
}
impl Error for LexError {}

impl TokenStream {
    pub fn new() -> Self {
        TokenStream { base: 0, len: 0, cap: 0 }
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn from_raw_parts(base: usize, len: usize) -> Self {
        TokenStream { base, len, cap: 0 }
    }
    pub fn base(&self) -> *const Raw {
        self.base as *const Raw
    }
    pub fn raw_len(&self) -> usize {
        self.len
    }
    #[inline(never)]
    pub fn push_raw(&mut self, r: &Raw) {
        if self.len >= self.cap {
            let cap = if self.len < 4 { 8 } else { self.len * 2 };
            let mut v: Vec<Raw> = Vec::with_capacity(cap);
            let p = v.as_mut_ptr();
            std::mem::forget(v);
            let mut i = 0;
            while i < self.len {
                unsafe { *p.add(i) = *(self.base as *const Raw).add(i) };
                i += 1;
            }
            self.base = p as usize;
            self.cap = cap;
        }
        unsafe { *(self.base as *mut Raw).add(self.len) = *r };
        self.len += 1;
    }
    fn push(&mut self, t: TokenTree) {
        let r = t.to_raw();
        self.push_raw(&r);
    }
}
impl Default for TokenStream {
    fn default() -> Self {
        TokenStream::new()
    }
}
impl FromStr for TokenStream {
    type Err = LexError;
    fn from_str(_src: &str) -> Result<TokenStream, LexError> {
        unimplemented!("lexing is outside the model")
    }
}
impl From<TokenTree> for TokenStream {
    fn from(token: TokenTree) -> Self {
        let mut s = TokenStream::new();
        s.push(token);
        s
    }
}
impl Extend<TokenTree> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenTree>>(&mut self, streams: I) {
        for t in streams {
            self.push(t);
        }
    }
}
impl Extend<TokenStream> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenStream>>(&mut self, streams: I) {
        for s in streams {
            let mut i = 0;
            while i < s.len {
                let r = unsafe { &*(s.base as *const Raw).add(i) };
                self.push_raw(r);
                i += 1;
            }
        }
    }
}
impl FromIterator<TokenTree> for TokenStream {
    fn from_iter<I: IntoIterator<Item = TokenTree>>(streams: I) -> Self {
        let mut s = TokenStream::new();
        s.extend(streams);
        s
    }
}
impl FromIterator<TokenStream> for TokenStream {
    fn from_iter<I: IntoIterator<Item = TokenStream>>(streams: I) -> Self {
        let mut s = TokenStream::new();
        s.extend(streams);
        s
    }
}
impl Display for TokenStream {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (i, t) in self.clone().into_iter().enumerate() {
            if i > 0 {
                f.write_str(" ")?;
            }
            Display::fmt(&t, f)?;
        }
        Ok(())
    }
}
impl Debug for TokenStream {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("TokenStream ")?;
        f.debug_list().entries(self.clone()).finish()
    }
}

pub mod token_stream {
    pub use crate::TokenStream;
    use crate::{raw::Raw, TokenTree};
    use std::fmt::{self, Debug};

    #[derive(Clone)]
    pub struct IntoIter {
        base: usize,
        len: usize,
        pos: usize,
    }
    impl Iterator for IntoIter {
        type Item = TokenTree;
        #[inline(never)]
        fn next(&mut self) -> Option<TokenTree> {
            if self.pos >= self.len {
                return None;
            }
            let r = unsafe { &*(self.base as *const Raw).add(self.pos) };
            self.pos += 1;
            Some(TokenTree::from_raw(r))
        }
        // The real iterator gives exact hints; (0, None) keeps symbolic lengths out of
        // allocation sizes and is within `Iterator`'s contract.  The harness asks for exact
        // ones to see how much is left.
        fn size_hint(&self) -> (usize, Option<usize>) {
            if unsafe { super::EXACT_HINTS } {
                (self.len - self.pos, Some(self.len - self.pos))
            } else {
                (0, None)
            }
        }
    }
    impl Debug for IntoIter {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("TokenStream ")?;
            f.debug_list().entries(self.clone()).finish()
        }
    }
    impl IntoIterator for TokenStream {
        type Item = TokenTree;
        type IntoIter = IntoIter;
        fn into_iter(self) -> IntoIter {
            IntoIter { base: self.base as usize, len: self.len, pos: 0 }
        }
    }
}

// ---------------------------------------------------------------- TokenTree

#[derive(Clone)]
pub enum TokenTree {
    Group(Group),
    Ident(Ident),
    Punct(Punct),
    Literal(Literal),
}

impl TokenTree {
    pub fn span(&self) -> Span {
        match self {
            TokenTree::Group(t) => t.span(),
            TokenTree::Ident(t) => t.span(),
            TokenTree::Punct(t) => t.span(),
            TokenTree::Literal(t) => t.span(),
        }
    }
    pub fn set_span(&mut self, span: Span) {
        match self {
            TokenTree::Group(t) => t.set_span(span),
            TokenTree::Ident(t) => t.set_span(span),
            TokenTree::Punct(t) => t.set_span(span),
            TokenTree::Literal(t) => t.set_span(span),
        }
    }
    pub fn from_raw(r: &Raw) -> TokenTree {
        if r.kind == raw::IDENT {
            TokenTree::Ident(Ident { text: r.text, span: r.span })
        } else if r.kind == raw::PUNCT {
            TokenTree::Punct(Punct { ch: r.ch as u32, spacing: r.spacing, span: r.span })
        } else if r.kind == raw::GROUP {
            TokenTree::Group(Group {
                delim: r.delim,
                span: r.span,
                stream: TokenStream { base: r.child, len: r.child_len, cap: 0 },
            })
        } else {
            TokenTree::Literal(Literal { text: r.lit, tag: r.lit_tag, span: r.span })
        }
    }
    #[inline(never)]
    pub fn to_raw(&self) -> Raw {
        let mut r = Raw::zero();
        match self {
            TokenTree::Ident(i) => {
                r.kind = raw::IDENT;
                r.text = i.text;
                r.span = i.span;
            }
            TokenTree::Punct(p) => {
                r.kind = raw::PUNCT;
                r.ch = p.ch as u8;
                r.spacing = p.spacing;
                r.span = p.span;
            }
            TokenTree::Group(g) => {
                r.kind = raw::GROUP;
                r.delim = g.delim;
                r.span = g.span;
                r.child = g.stream.base;
                r.child_len = g.stream.len;
            }
            TokenTree::Literal(l) => {
                r.kind = raw::LITERAL;
                r.lit = l.text;
                r.lit_tag = l.tag;
                r.span = l.span;
            }
        }
        r
    }
}
impl From<Group> for TokenTree {
    fn from(g: Group) -> Self {
        TokenTree::Group(g)
    }
}
impl From<Ident> for TokenTree {
    fn from(g: Ident) -> Self {
        TokenTree::Ident(g)
    }
}
impl From<Punct> for TokenTree {
    fn from(g: Punct) -> Self {
        TokenTree::Punct(g)
    }
}
impl From<Literal> for TokenTree {
    fn from(g: Literal) -> Self {
        TokenTree::Literal(g)
    }
}
impl Display for TokenTree {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            TokenTree::Group(t) => Display::fmt(t, f),
            TokenTree::Ident(t) => Display::fmt(t, f),
            TokenTree::Punct(t) => Display::fmt(t, f),
            TokenTree::Literal(t) => Display::fmt(t, f),
        }
    }
}
impl TokenTree {
    pub fn to_string(&self) -> String {
        match self {
            TokenTree::Ident(t) => t.to_string(),
            TokenTree::Punct(t) => t.to_string(),
            TokenTree::Group(t) => ToString::to_string(t),
            TokenTree::Literal(t) => ToString::to_string(t),
        }
    }
}
impl Debug for TokenTree {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            TokenTree::Group(t) => Debug::fmt(t, f),
            TokenTree::Ident(t) => Debug::fmt(t, f),
            TokenTree::Punct(t) => Debug::fmt(t, f),
            TokenTree::Literal(t) => Debug::fmt(t, f),
        }
    }
}

// ---------------------------------------------------------------- Group

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
#[repr(u8)]
pub enum Delimiter {
    Parenthesis = 0,
    Brace = 1,
    Bracket = 2,
    None = 3,
}

// `delim` is a plain byte so that the enum niche is not used for TokenTree's tag.
#[derive(Clone)]
pub struct Group {
    delim: u8,
    span: u32,
    stream: TokenStream,
}

impl Group {
    pub fn new(delimiter: Delimiter, stream: TokenStream) -> Self {
        Group { delim: delimiter as u8, span: 0, stream }
    }
    pub fn delimiter(&self) -> Delimiter {
        // Within 0..4: written from a Delimiter, or a symbolic byte constrained to it.
        unsafe { std::mem::transmute::<u8, Delimiter>(self.delim) }
    }
    pub fn stream(&self) -> TokenStream {
        self.stream.clone()
    }
    pub fn span(&self) -> Span {
        Span(self.span)
    }
    pub fn span_open(&self) -> Span {
        Span(self.span).first()
    }
    pub fn span_close(&self) -> Span {
        Span(self.span).last()
    }
    pub fn delim_span(&self) -> DelimSpan {
        DelimSpan { open: self.span_open(), close: self.span_close(), whole: self.span() }
    }
    pub fn set_span(&mut self, span: Span) {
        self.span = span.0;
    }
}
impl Display for Group {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (a, b) = match self.delimiter() {
            Delimiter::Parenthesis => ("(", ")"),
            Delimiter::Brace => ("{ ", "}"),
            Delimiter::Bracket => ("[", "]"),
            Delimiter::None => ("", ""),
        };
        f.write_str(a)?;
        Display::fmt(&self.stream, f)?;
        f.write_str(b)
    }
}
impl Debug for Group {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut d = f.debug_struct("Group");
        d.field("delimiter", &self.delimiter());
        d.field("stream", &self.stream);
        d.finish()
    }
}

// ---------------------------------------------------------------- Punct

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
#[repr(u8)]
pub enum Spacing {
    Alone = 0,
    Joint = 1,
}

#[derive(Clone)]
pub struct Punct {
    ch: u32,
    spacing: u8,
    span: u32,
}

impl Punct {
    pub fn new(ch: char, spacing: Spacing) -> Self {
        // proc_macro::Punct::new panics on any other character.
        if !"=<>!~+-*/%^&|@.,;:#$?'".contains(ch) {
            panic!("unsupported character `{:?}`", ch);
        }
        Punct { ch: ch as u32, spacing: spacing as u8, span: 0 }
    }
    pub fn as_char(&self) -> char {
        unsafe { char::from_u32_unchecked(self.ch) }
    }
    pub fn spacing(&self) -> Spacing {
        unsafe { std::mem::transmute::<u8, Spacing>(self.spacing) }
    }
    pub fn span(&self) -> Span {
        Span(self.span)
    }
    pub fn set_span(&mut self, span: Span) {
        self.span = span.0;
    }
    pub fn to_string(&self) -> String {
        let mut v: Vec<u8> = Vec::with_capacity(4);
        v.push(self.ch as u8);
        unsafe { String::from_utf8_unchecked(v) }
    }
}
impl Display for Punct {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.to_string())
    }
}
impl Debug for Punct {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut d = f.debug_struct("Punct");
        d.field("char", &self.as_char());
        d.field("spacing", &self.spacing());
        d.finish()
    }
}

// ---------------------------------------------------------------- Ident

#[derive(Clone)]
pub struct Ident {
    text: [u64; 2],
    span: u32,
}

impl Ident {
    pub fn new(string: &str, span: Span) -> Self {
        // The real constructor panics on anything that is not an identifier; the model
        // rejects the ASCII cases.
        let b = string.as_bytes();
        if b.is_empty() || b[0].is_ascii_digit() {
            panic!("not a valid Ident");
        }
        for c in b {
            if !(c.is_ascii_alphanumeric() || *c == b'_' || *c >= 0x80) {
                panic!("not a valid Ident");
            }
        }
        Ident { text: pack(string), span: span.0 }
    }
    pub fn new_raw(string: &str, span: Span) -> Self {
        let mut s = String::from("r#");
        s.push_str(string);
        Ident { text: pack(&s), span: span.0 }
    }
    pub fn span(&self) -> Span {
        Span(self.span)
    }
    pub fn set_span(&mut self, span: Span) {
        self.span = span.0;
    }
    pub fn from_text(text: [u64; 2], span: Span) -> Self {
        Ident { text, span: span.0 }
    }
    pub fn text(&self) -> [u64; 2] {
        self.text
    }
    /// Takes precedence over `ToString`, without going through `fmt`.
    pub fn to_string(&self) -> String {
        text_to_string(&self.text)
    }
}
impl PartialEq for Ident {
    fn eq(&self, other: &Ident) -> bool {
        same_text(&self.text, &other.text)
    }
}
impl<T> PartialEq<T> for Ident
where
    T: ?Sized + AsRef<str>,
{
    fn eq(&self, other: &T) -> bool {
        same_text(&self.text, &pack(other.as_ref()))
    }
}
impl Eq for Ident {}
impl PartialOrd for Ident {
    fn partial_cmp(&self, other: &Ident) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for Ident {
    fn cmp(&self, other: &Ident) -> Ordering {
        self.to_string().cmp(&other.to_string())
    }
}
impl Hash for Ident {
    fn hash<H: Hasher>(&self, hasher: &mut H) {
        self.to_string().hash(hasher);
    }
}
impl Display for Ident {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.to_string())
    }
}
impl Debug for Ident {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut d = f.debug_struct("Ident");
        d.field("sym", &format_args!("{}", self));
        d.finish()
    }
}

// ---------------------------------------------------------------- Literal

#[derive(Clone)]
pub struct Literal {
    text: [u64; 2],
    tag: u8,
    span: u32,
}

macro_rules! ints {
    ($($suffixed:ident $unsuffixed:ident $t:ty,)*) => {$(
        pub fn $suffixed(n: $t) -> Literal {
            Literal { text: [n as u64, 1], tag: 3, span: 0 }
        }
        pub fn $unsuffixed(n: $t) -> Literal {
            Literal { text: [n as u64, 0], tag: 1, span: 0 }
        }
    )*};
}

impl Literal {
    ints! {
        u8_suffixed u8_unsuffixed u8,
        u16_suffixed u16_unsuffixed u16,
        u32_suffixed u32_unsuffixed u32,
        u64_suffixed u64_unsuffixed u64,
        u128_suffixed u128_unsuffixed u128,
        usize_suffixed usize_unsuffixed usize,
        i8_suffixed i8_unsuffixed i8,
        i16_suffixed i16_unsuffixed i16,
        i32_suffixed i32_unsuffixed i32,
        i64_suffixed i64_unsuffixed i64,
        i128_suffixed i128_unsuffixed i128,
        isize_suffixed isize_unsuffixed isize,
    }
    pub fn f64_unsuffixed(f: f64) -> Literal {
        Literal { text: [f.to_bits(), 2], tag: 3, span: 0 }
    }
    pub fn f64_suffixed(f: f64) -> Literal {
        Literal { text: [f.to_bits(), 3], tag: 3, span: 0 }
    }
    pub fn f32_unsuffixed(f: f32) -> Literal {
        Literal { text: [f.to_bits() as u64, 4], tag: 3, span: 0 }
    }
    pub fn f32_suffixed(f: f32) -> Literal {
        Literal { text: [f.to_bits() as u64, 5], tag: 3, span: 0 }
    }
    pub fn string(string: &str) -> Literal {
        let s: &'static str = Box::leak(string.to_owned().into_boxed_str());
        Literal { text: [s.as_ptr() as usize as u64, s.len() as u64], tag: 2, span: 0 }
    }
    pub fn character(ch: char) -> Literal {
        Literal { text: [ch as u64, 6], tag: 3, span: 0 }
    }
    pub fn byte_string(_s: &[u8]) -> Literal {
        unimplemented!("byte strings are outside the model")
    }
    pub fn span(&self) -> Span {
        Span(self.span)
    }
    pub fn set_span(&mut self, span: Span) {
        self.span = span.0;
    }
    pub fn subspan<R: RangeBounds<usize>>(&self, _range: R) -> Option<Span> {
        None
    }
    /// For the harness: the value of an unsuffixed integer literal.
    pub fn as_integer(&self) -> Option<u64> {
        if self.tag == 1 {
            Some(self.text[0])
        } else {
            None
        }
    }
    /// For the harness: the text of a string literal made by `Literal::string`.
    pub fn as_string(&self) -> Option<&'static str> {
        if self.tag == 2 {
            unsafe {
                Some(std::str::from_utf8_unchecked(std::slice::from_raw_parts(
                    self.text[0] as usize as *const u8,
                    self.text[1] as usize,
                )))
            }
        } else {
            None
        }
    }
}
impl FromStr for Literal {
    type Err = LexError;
    fn from_str(_repr: &str) -> Result<Self, LexError> {
        unimplemented!("lexing is outside the model")
    }
}
impl Debug for Literal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Display for Literal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.tag {
            0 => f.write_str(&text_to_string(&self.text)),
            1 => Display::fmt(&self.text[0], f),
            2 => Debug::fmt(self.as_string().unwrap(), f),
            _ => f.write_str("literal"),
        }
    }
}
