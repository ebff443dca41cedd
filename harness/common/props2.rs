//! More properties: what is left in the stream, spans, accessors, edits, errors.
use crate::env;
use crate::gram::*;
use crate::props::{any_framed, iter_of, B};
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

fn any_kind() -> usize {
    match env::param(6) {
        0 => env::choose(KINDS),
        k => k - 1,
    }
}
/// A generated declaration, parsed.
fn parsed(kind: usize, id: u32) -> (G, Item) {
    let mut g = G::new();
    g.item(kind);
    let s = g.b.0.clone();
    env::note("input", &s);
    env::no_panic(id);
    match parse_item(s) {
        Ok(item) => (g, item),
        Err(_) => {
            env::check(false, id + 1);
            unreachable!()
        }
    }
}

// ------------------------------------------------------------------ C01, on declarations

/// A declaration of the grammar prints back token for token, and so does every part.
pub fn h_reprint() {
    let kind = any_kind();
    let (g, item) = parsed(kind, 110);
    env::reach(10 + kind as u32);
    let out = item.to_token_stream();
    env::note("printed", &out);
    env::check(env::same(&out, &g.b.0, false), 104);
    // a copy prints the same, and printing twice does too
    let again = item.clone().into_token_stream();
    env::check(env::same(&again, &g.b.0, false), 105);
}

// ------------------------------------------------------------------ C02 what is left

/// A declaration followed by anything: exactly the declaration is taken.
pub fn h_tail() {
    let mut g = G::new();
    let kind = any_kind();
    g.item(kind);
    let n = env::len(&g.b.0);
    let mut whole = B(g.b.0.clone());
    let rest = env::any_stream(env::param(5), 0);
    whole.append(&rest);
    let m = env::len(&rest);
    env::note("input", &whole.0);
    env::note("of that, after the declaration", &rest);
    env::no_panic(301);
    let mut it = iter_of(&whole.0);
    let r = consume_item(&mut it);
    env::check(r.is_ok(), 302);
    env::reach(10 + kind as u32);
    env::check(env::left(&it) == m, 303);
    let left: TokenStream = it.collect();
    env::check(env::same(&left, &rest, true), 304);
    if let Ok(item) = r {
        let out = item.to_token_stream();
        env::note("printed", &out);
        env::check(env::same(&out, &env::head(&whole.0, n), true), 305);
    }
    // with leftovers, parse_item must not return
    if m > 0 {
        env::panics_allowed();
        let r = parse_item(whole.0);
        env::check(r.is_err() && false, 306);
    } else {
        let r = parse_item(whole.0);
        env::check(r.is_ok(), 307);
    }
}

/// Declarations one after the other: each call takes the next one.
pub fn h_sequence() {
    let mut g = G::new();
    let n = env::param(5);
    let mut at = vec![0];
    for _ in 0..n {
        g.item(env::choose(KINDS));
        at.push(env::len(&g.b.0));
    }
    let s = g.b.0.clone();
    env::note("input", &s);
    env::no_panic(301);
    let mut it = iter_of(&s);
    for i in 0..n {
        match consume_item(&mut it) {
            Ok(item) => {
                let part = env::tail(&env::head(&s, at[i + 1]), at[i]);
                env::check(env::same(&item.to_token_stream(), &part, true), 305);
            }
            Err(_) => env::check(false, 302),
        }
        env::check(env::left(&it) == at[n] - at[i + 1], 303);
    }
    env::check(it.peek().is_none(), 304);
    env::reach(1);
}

/// Arbitrary tokens: what is taken is a prefix, the rest is untouched, and taking the
/// rest away changes nothing (nor does parse_item see anything else).
pub fn h_prefix() {
    let s = any_framed();
    let n = env::len(&s);
    env::panics_allowed();
    let mut it = iter_of(&s);
    let r = consume_item(&mut it);
    env::no_panic(310);
    let rest = env::left(&it);
    let left: TokenStream = it.collect();
    env::check(env::same(&left, &env::tail(&s, n - rest), true), 304);
    if r.is_ok() {
        env::reach(1);
        env::check(rest < n, 311);
        if rest == 0 {
            env::check(parse_item(s).is_ok(), 307);
        } else {
            env::panics_allowed();
            let r = parse_item(s);
            env::check(r.is_err() && false, 306);
        }
    } else {
        env::reach(2);
    }
}

// ------------------------------------------------------------------ C03 spans

/// The span of a sequence of tokens: all of it where spans can be joined, else its start.
fn span_of(t: &TokenStream) -> Span {
    let n = env::len(t);
    if n == 0 {
        return Span::call_site();
    }
    let first = env::span_at(t, 0);
    first.join(env::span_at(t, n - 1)).unwrap_or(first)
}
struct Spans;
impl Spans {
    fn at(&self, got: Span, t: &impl ToTokens) {
        env::check(env::same_span(got, span_of(&t.to_token_stream())), 322);
    }
    fn attrs(&self, v: &[Attribute]) {
        for a in v {
            self.at(a.span(), a);
            self.at(a.value.span(), &a.value);
        }
    }
    fn vis(&self, v: &Option<VisMarker>) {
        if let Some(v) = v {
            self.at(v.span(), v);
        }
    }
    fn ty(&self, t: &TypeExpr) {
        self.at(t.span(), t);
    }
    fn generics(&self, g: &Option<GenericParamList>) {
        if let Some(g) = g {
            self.at(g.span(), g);
            for p in g.params.items() {
                self.at(p.span(), p);
                if let Some(b) = &p.bound {
                    self.at(b.span(), b);
                }
            }
            let a = g.as_inline_args();
            self.at(a.span(), &a);
        }
    }
    fn where_clause(&self, w: &Option<WhereClause>) {
        if let Some(w) = w {
            self.at(w.span(), w);
            for p in w.items.items() {
                self.at(p.span(), p);
                self.at(p.bound.span(), &p.bound);
            }
        }
    }
    fn named(&self, n: &NamedFields) {
        for f in n.fields.items() {
            self.at(f.span(), f);
            self.attrs(&f.attributes);
            self.vis(&f.vis_marker);
            self.ty(&f.ty);
        }
    }
    fn fields(&self, f: &Fields) {
        self.at(f.span(), f);
        match f {
            Fields::Unit => {}
            Fields::Tuple(t) => {
                for f in t.fields.items() {
                    self.at(f.span(), f);
                    self.attrs(&f.attributes);
                    self.vis(&f.vis_marker);
                    self.ty(&f.ty);
                }
            }
            Fields::Named(n) => self.named(n),
        }
    }
    fn function(&self, f: &Function) {
        self.at(f.span(), f);
        self.attrs(&f.attributes);
        self.vis(&f.vis_marker);
        self.generics(&f.generic_params);
        self.where_clause(&f.where_clause);
        for p in f.params.items() {
            if let FnParam::Typed(t) = p {
                self.ty(&t.ty);
            }
        }
        if let Some(t) = &f.return_ty {
            self.ty(t);
        }
    }
    fn item(&self, i: &Item) {
        self.at(i.span(), i);
        self.attrs(i.attributes());
        match i {
            Item::Struct(s) => {
                self.at(s.span(), s);
                self.vis(&s.vis_marker);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                self.fields(&s.fields);
            }
            Item::Enum(s) => {
                self.at(s.span(), s);
                self.vis(&s.vis_marker);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                for v in s.variants.items() {
                    self.at(v.span(), v);
                    self.attrs(&v.attributes);
                    self.fields(&v.fields);
                    if let Some(x) = &v.value {
                        self.at(x.span(), x);
                    }
                }
            }
            Item::Union(s) => {
                self.at(s.span(), s);
                self.vis(&s.vis_marker);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                self.named(&s.fields);
            }
            Item::Function(f) => self.function(f),
            Item::Impl(s) => {
                self.generics(&s.impl_generic_params);
                self.where_clause(&s.where_clause);
                self.ty(&s.self_ty);
                for m in &s.body_items {
                    if let ImplMember::AssocFunction(f) = m {
                        self.function(f);
                    }
                }
            }
            Item::Trait(s) => {
                self.vis(&s.vis_marker);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                for m in &s.body_items {
                    if let TraitMember::AssocFunction(f) = m {
                        self.function(f);
                    }
                }
            }
            Item::Module(s) => {
                for m in &s.members {
                    self.item(m);
                }
            }
            Item::TypeAlias(t) => {
                if let Some(i) = &t.initializer_ty {
                    self.ty(i);
                }
            }
            Item::Constant(c) => self.ty(&c.ty),
            _ => {}
        }
    }
}

/// Printing keeps every span, every part holds the tokens of the input with their spans,
/// and the span of a part covers it.
pub fn h_spans() {
    let join = env::boolean();
    env::set_join(join);
    let kind = any_kind();
    let (g, item) = parsed(kind, 320);
    env::reach(if join { 2 } else { 1 });
    let out = item.to_token_stream();
    env::note("printed", &out);
    env::check(env::same(&out, &g.b.0, true), 323);
    env::check(env::same_span(item.span(), span_of(&g.b.0)), 324);
    let mut o = O(Vec::new());
    o.item(&item);
    // only pieces that hold tokens of the input; which ones there are is for others to say
    if o.0.len() == g.e.len() {
        for (x, y) in g.e.iter().zip(o.0.iter()) {
            if x.0 == y.0 && env::len(&x.1) == env::len(&y.1) {
                env::check(env::same(&x.1, &y.1, true), 325);
            }
        }
    }
    Spans.item(&item);
}

// ------------------------------------------------------------------ C04 total on what is accepted

struct Walk;
impl Walk {
    fn ty(&self, t: &TypeExpr) {
        let _ = t.span();
        let _ = t.to_token_stream();
        let _ = t.as_path();
    }
    fn attrs(&self, v: &[Attribute]) {
        for a in v {
            let _ = (a.span(), a.value.span());
            let _ = a.get_single_path_segment();
            let _ = a.get_value_tokens();
            let _ = a.to_token_stream();
        }
    }
    fn vis(&self, v: &Option<VisMarker>) {
        if let Some(v) = v {
            let _ = v.span();
            let _ = v.to_token_stream();
        }
    }
    fn generics(&self, g: &Option<GenericParamList>) {
        if let Some(g) = g {
            let _ = g.span();
            for p in g.params.items() {
                env::check(p.is_lifetime() as u32 + p.is_ty() as u32 + p.is_const() as u32 == 1, 332);
                let _ = p.span();
            }
            let a = g.as_inline_args();
            let _ = a.span();
            let _ = a.to_token_stream();
            let _ = a.to_owned_args().to_token_stream();
        }
    }
    fn where_clause(&self, w: &Option<WhereClause>) {
        if let Some(w) = w {
            let _ = w.span();
            for p in w.items.items() {
                let _ = p.span();
            }
        }
    }
    fn fields(&self, f: &Fields) {
        let _ = f.span();
        match f {
            Fields::Unit => {}
            Fields::Tuple(t) => {
                for f in t.fields.items() {
                    let _ = f.span();
                    self.attrs(&f.attributes);
                    self.vis(&f.vis_marker);
                    self.ty(&f.ty);
                }
            }
            Fields::Named(n) => self.named(n),
        }
    }
    fn named(&self, n: &NamedFields) {
        for f in n.fields.items() {
            let _ = f.span();
            self.attrs(&f.attributes);
            self.vis(&f.vis_marker);
            self.ty(&f.ty);
        }
    }
    fn function(&self, f: &Function) {
        let _ = f.span();
        self.attrs(&f.attributes);
        self.vis(&f.vis_marker);
        self.generics(&f.generic_params);
        self.where_clause(&f.where_clause);
        for p in f.params.items() {
            if let FnParam::Typed(t) = p {
                self.ty(&t.ty);
            }
        }
        if let Some(t) = &f.return_ty {
            self.ty(t);
        }
    }
    fn constant(&self, c: &Constant) {
        let _ = c.is_static();
        self.attrs(&c.attributes);
        self.vis(&c.vis_marker);
        self.ty(&c.ty);
    }
    fn type_alias(&self, t: &TypeAlias) {
        self.attrs(&t.attributes);
        self.vis(&t.vis_marker);
        if let Some(i) = &t.initializer_ty {
            self.ty(i);
        }
    }
    fn impl_members(&self, v: &[ImplMember]) {
        for m in v {
            match m {
                ImplMember::AssocFunction(f) => self.function(f),
                ImplMember::AssocConstant(c) => self.constant(c),
                ImplMember::AssocType(t) => self.type_alias(t),
                ImplMember::Macro(m) => self.attrs(&m.attributes),
                _ => {}
            }
        }
    }
    fn item(&self, i: &mut Item) {
        let _ = i.span();
        let _ = i.name();
        let n = i.attributes().len();
        env::check(i.attributes_mut().len() == n, 333);
        env::check(i.generic_params().is_some() == i.generic_params_mut().is_some(), 334);
        let _ = i.clone().into_token_stream();
        match i {
            Item::Struct(s) => {
                let _ = s.span();
                self.attrs(&s.attributes);
                self.vis(&s.vis_marker);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                self.fields(&s.fields);
                let n = s.field_types().into_iter().count();
                env::check(s.field_tokens().into_iter().count() == n, 335);
                env::check(s.field_names().into_iter().count() == n, 335);
                let _ = s.get_lifetime_params().count() + s.get_type_params().count() + s.get_const_params().count();
                let _ = s.get_inline_generic_args().map(|a| a.to_token_stream());
                let _ = s.create_derive_where_clause(TokenStream::new()).to_token_stream();
            }
            Item::Enum(s) => {
                let _ = s.span();
                self.attrs(&s.attributes);
                self.vis(&s.vis_marker);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                let _ = s.is_c_enum();
                for v in s.variants.items() {
                    let _ = (v.span(), v.is_empty_variant());
                    let _ = v.get_single_type();
                    self.attrs(&v.attributes);
                    self.fields(&v.fields);
                    if let Some(x) = &v.value {
                        let _ = x.span();
                    }
                }
                let _ = s.get_inline_generic_args().map(|a| a.to_token_stream());
                let _ = s.create_derive_where_clause(TokenStream::new()).to_token_stream();
            }
            Item::Union(s) => {
                let _ = s.span();
                self.attrs(&s.attributes);
                self.vis(&s.vis_marker);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                self.named(&s.fields);
                let _ = s.get_inline_generic_args().map(|a| a.to_token_stream());
                let _ = s.create_derive_where_clause(TokenStream::new()).to_token_stream();
            }
            Item::Function(f) => self.function(f),
            Item::Impl(s) => {
                self.attrs(&s.attributes);
                self.attrs(&s.inner_attributes);
                self.generics(&s.impl_generic_params);
                self.where_clause(&s.where_clause);
                if let Some(t) = &s.trait_ty {
                    self.ty(t);
                }
                self.ty(&s.self_ty);
                self.impl_members(&s.body_items);
            }
            Item::Trait(s) => {
                self.attrs(&s.attributes);
                self.attrs(&s.inner_attributes);
                self.vis(&s.vis_marker);
                self.generics(&s.generic_params);
                self.where_clause(&s.where_clause);
                for m in &s.body_items {
                    match m {
                        TraitMember::AssocFunction(f) => self.function(f),
                        TraitMember::AssocConstant(c) => self.constant(c),
                        TraitMember::AssocType(t) => self.type_alias(t),
                        TraitMember::Macro(m) => self.attrs(&m.attributes),
                        _ => {}
                    }
                }
            }
            Item::Module(s) => {
                self.attrs(&s.inner_attributes);
                for m in &mut s.members {
                    self.item(m);
                }
            }
            Item::TypeAlias(t) => self.type_alias(t),
            Item::Constant(c) => self.constant(c),
            Item::UseDeclaration(u) => {
                let _ = u.import_tree.to_token_stream();
            }
            Item::Macro(m) => self.attrs(&m.attributes),
            Item::ExternBlock(x) => {
                self.attrs(&x.inner_attributes);
                self.impl_members(&x.body_items);
            }
            Item::ExternCrate(x) => self.attrs(&x.attributes),
            _ => {}
        }
    }
}

/// Parsing ends, and whatever it accepts every accessor copes with.
pub fn h_total() {
    total(&any_framed());
}

/// The same of valid declarations, which are longer than arbitrary tokens can be here.
pub fn h_total_item() {
    let mut g = G::new();
    let kind = any_kind();
    g.item(kind);
    env::note("input", &g.b.0);
    total(&g.b.0);
}

fn total(s: &TokenStream) {
    env::panics_allowed();
    let mut it = iter_of(s);
    let r = consume_item(&mut it);
    env::no_panic(331);
    match r {
        Ok(mut item) => {
            env::reach(1);
            Walk.item(&mut item);
        }
        Err(e) => {
            env::reach(2);
            let _ = e.span();
            env::check(env::len(&e.to_compile_error()) == 3, 336);
        }
    }
}

// ------------------------------------------------------------------ C10 discriminants

/// `= v`: one token is the value, more are an error (not a panic) that points at them.
pub fn h_discriminant() {
    let mut b = B::new();
    let mut body = B::new();
    let before = env::boolean();
    if before {
        body.id();
        if env::boolean() {
            body.p('=');
            body.lit();
        }
        body.p(',');
    }
    body.id();
    match env::choose(3) {
        0 => {}
        1 => {
            let mut i = B::new();
            i.id();
            body.parens(&i.0);
        }
        _ => {
            let mut i = B::new();
            i.id();
            i.p(':');
            i.id();
            body.braces(&i.0);
        }
    }
    body.p('=');
    let v = env::any_stream(env::param(0), env::param(7));
    let n = env::len(&v);
    env::assume(n > 0);
    for i in 0..n.min(2) {
        env::assume(!is_comma(&v, i));
    }
    body.append(&v);
    let after = env::choose(3);
    if after > 0 {
        body.p(',');
    }
    if after > 1 {
        body.id();
    }
    b.kw("enum");
    b.id();
    b.braces(&body.0);
    // inside modules too
    let depth = env::choose(env::param(5) + 1);
    for _ in 0..depth {
        let mut m = B::new();
        let other = env::choose(3);
        if other == 1 {
            m.kw("struct");
            m.id();
            m.p(';');
        }
        m.append(&b.0);
        if other == 2 {
            m.kw("mod");
            m.id();
            m.p(';');
        }
        b = B::new();
        b.kw("mod");
        b.id();
        b.braces(&m.0);
    }
    env::note("input", &b.0);
    env::no_panic(601);
    let r = parse_item(b.0.clone());
    if n == 1 {
        env::reach(1);
        match &r {
            Err(_) => env::check(false, 602),
            Ok(i) => {
                let mut i = i;
                for _ in 0..depth {
                    match i {
                        Item::Module(m) => {
                            let mut e = None;
                            for x in &m.members {
                                if matches!(x, Item::Enum(_)) || (matches!(x, Item::Module(m) if m.tk_braces.is_some())) {
                                    e = Some(x);
                                }
                            }
                            match e {
                                Some(e) => i = e,
                                None => return env::check(false, 603),
                            }
                        }
                        _ => return env::check(false, 603),
                    }
                }
                match i {
                    Item::Enum(e) => {
                        let x = e.variants.items().nth(before as usize);
                        match x.and_then(|x| x.value.as_ref()) {
                            Some(x) => env::check(env::same(&x.value.to_token_stream(), &v, true), 604),
                            None => env::check(false, 605),
                        }
                        if after > 1 {
                            let x = e.variants.items().nth(before as usize + 1);
                            env::check(x.map_or(false, |x| x.value.is_none()), 606);
                        }
                    }
                    _ => env::check(false, 603),
                }
            }
        }
    } else {
        env::reach(2);
        match r {
            Ok(_) => env::check(false, 607),
            Err(e) => {
                let s = e.span();
                // it starts where the discriminant starts
                env::check(env::same_span(s, span_of(&v)) | env::same_span(s, env::span_at(&v, 0)), 608);
                env::check(env::len(&e.to_compile_error()) == 3, 336);
            }
        }
    }
}
pub fn is_comma(s: &TokenStream, i: usize) -> bool {
    match s.clone().into_iter().nth(i) {
        Some(TokenTree::Punct(p)) => p.as_char() == ',',
        _ => false,
    }
}

// ------------------------------------------------------------------ C08 WhereClausePredicate::parse

/// A predicate on its own: the text before its colon, and all that follows.
pub fn h_predicate() {
    let mut g = G::new();
    g.predicate();
    let s = g.b.0.clone();
    env::note("input", &s);
    env::no_panic(401);
    let p = WhereClausePredicate::parse(s.clone());
    env::reach(1);
    let mut o = O(Vec::new());
    o.0.push((PRED_LEFT, p.left_side.iter().cloned().collect()));
    o.0.push((PRED_BOUND, p.bound.tokens.iter().cloned().collect()));
    agree(&g.e, &o.0, 0, 402);
    env::check(env::same(&p.to_token_stream(), &s, true), 405);
    // and as part of a clause made of it
    let w = WhereClause::from_predicate(p).to_token_stream();
    env::check(env::same(&env::tail(&w, 1), &s, true), 406);
    env::check(starts_with_ident(&w, "where"), 406);
}

// ------------------------------------------------------------------ C13 paths

/// What a list of tokens is as a path: segments and, for each, the arguments.
struct Seg {
    name: TokenStream,
    turbofish: bool,
    args: Option<Vec<TokenStream>>,
}
fn punct_is(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
fn colon2_at(t: &[TokenTree], i: usize) -> bool {
    matches!(t.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == Spacing::Joint) && punct_is(t.get(i + 1), ':')
}
fn spec_path(t: &[TokenTree]) -> Option<(bool, Vec<Seg>)> {
    let mut i = 0;
    let mut segs = Vec::new();
    let lead = colon2_at(t, 0);
    if lead {
        i = 2;
    }
    loop {
        let name = match t.get(i) {
            Some(TokenTree::Ident(x)) => x.to_token_stream(),
            _ => return None,
        };
        i += 1;
        let turbofish = colon2_at(t, i) && punct_is(t.get(i + 2), '<');
        let mut args = None;
        if turbofish || punct_is(t.get(i), '<') {
            i += if turbofish { 3 } else { 1 };
            let mut list = Vec::new();
            let mut arg = TokenStream::new();
            let mut n = 0;
            let mut depth = 1;
            let mut dash = false;
            loop {
                let x = match t.get(i) {
                    Some(x) => x,
                    None => return None,
                };
                i += 1;
                let mut is_dash = false;
                if let TokenTree::Punct(p) = x {
                    match p.as_char() {
                        '<' => depth += 1,
                        '>' if !dash => {
                            depth -= 1;
                            if depth == 0 {
                                if n > 0 {
                                    list.push(arg);
                                }
                                break;
                            }
                        }
                        '-' => is_dash = true,
                        ',' if depth == 1 => {
                            if n == 0 {
                                return None;
                            }
                            list.push(arg);
                            arg = TokenStream::new();
                            n = 0;
                            dash = false;
                            continue;
                        }
                        _ => {}
                    }
                }
                arg.extend(std::iter::once(x.clone()));
                n += 1;
                dash = is_dash;
            }
            args = Some(list);
        }
        segs.push(Seg { name, turbofish, args });
        if i == t.len() {
            return Some((lead, segs));
        }
        if !colon2_at(t, i) {
            return None;
        }
        i += 2;
    }
}
fn arg_kind(t: &TokenStream) -> u32 {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    if v.len() == 2 && punct_is(v.first(), '\'') && matches!(v[1], TokenTree::Ident(_)) {
        return 0;
    }
    if matches!(v.first(), Some(TokenTree::Ident(_))) && punct_is(v.get(1), '=') {
        return 1;
    }
    2
}
/// `- >`, `= =`: not something a type has; nothing is said about them.
fn odd(v: &[TokenTree]) -> bool {
    let mut bad = false;
    for i in 0..v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            let c = p.as_char();
            bad |= c == '-' && p.spacing() == Spacing::Alone && punct_is(v.get(i + 1), '>');
            bad |= c == '=' && (punct_is(v.get(i + 1), '=') || punct_is(v.get(i + 1), '>'));
            bad |= c == '\'' && p.spacing() == Spacing::Alone;
        }
        bad |= matches!(&v[i], TokenTree::Ident(x) if x == "_");
    }
    bad
}
fn check_path(ty: &TypeExpr, v: &[TokenTree]) {
    let mixed = v.iter().any(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::None));
    env::no_panic(131);
    let got = ty.as_path();
    env::no_panic(132);
    if let Some(p) = &got {
        // lossless whatever it was
        let all: TokenStream = v.iter().cloned().collect();
        env::check(env::same(&p.to_token_stream(), &all, true), 133);
    }
    if mixed || odd(v) {
        return;
    }
    match (spec_path(v), got) {
        (None, None) => env::reach(1),
        (None, Some(_)) => env::check(false, 134),
        (Some(_), None) => env::check(false, 135),
        (Some((lead, want)), Some(p)) => {
            env::reach(2);
            env::check(p.segments.len() == want.len(), 136);
            for (i, (w, g)) in want.iter().zip(p.segments.iter()).enumerate() {
                env::check(g.tk_separator_colons.is_some() == (lead || i > 0), 137);
                env::check(env::same(&w.name, &g.ident.to_token_stream(), true), 137);
                match (&w.args, &g.generic_args) {
                    (None, None) => {}
                    (Some(w_args), Some(a)) => {
                        env::reach(3);
                        env::check(a.tk_turbofish_colons.is_some() == w.turbofish, 138);
                        env::check(a.args.len() == w_args.len(), 138);
                        for (x, y) in w_args.iter().zip(a.args.items()) {
                            env::check(env::same(x, &y.to_token_stream(), true), 138);
                            let (kind, parts) = match y {
                                GenericArg::Lifetime { lifetime } => (0, lifetime.to_token_stream()),
                                GenericArg::Binding { ty, .. } => (1, ty.to_token_stream()),
                                GenericArg::TypeOrConst { expr } => (2, expr.to_token_stream()),
                            };
                            let k = arg_kind(x);
                            env::check(kind == k, 139);
                            env::check(env::same(&env::tail(x, if k == 1 { 2 } else { 0 }), &parts, true), 139);
                        }
                    }
                    _ => env::check(false, 138),
                }
            }
        }
    }
}
/// Any tokens as a type.
pub fn h_path() {
    let s = env::any_stream(env::param(0), env::param(1));
    env::note("input", &s);
    let v: Vec<TokenTree> = s.clone().into_iter().collect();
    let ty = TypeExpr { tokens: v.clone() };
    if let [TokenTree::Group(g)] = v.as_slice() {
        if g.delimiter() == Delimiter::None {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            env::reach(4);
            return check_path(&ty, &inner);
        }
    }
    check_path(&ty, &v);
}
/// Paths with arguments, as a frame around arbitrary tokens.
pub fn h_path_args() {
    let mut b = B::new();
    if env::boolean() {
        b.colon2();
    }
    b.id();
    match env::choose(3) {
        0 => {
            b.p('<');
            b.append(&env::any_stream(env::param(0), 0));
        }
        1 => {
            b.p('<');
            b.append(&env::any_stream(env::param(0), 0));
            b.pa('>');
        }
        _ => {
            b.colon2();
            b.pa('<');
            b.append(&env::any_stream(env::param(0), 0));
            b.pa('>');
            b.colon2();
            b.id();
        }
    }
    let wrapped = env::boolean();
    let v: Vec<TokenTree> = b.0.clone().into_iter().collect();
    let ty = if wrapped {
        let mut o = B::new();
        o.group(Delimiter::None, &b.0);
        TypeExpr { tokens: o.0.into_iter().collect() }
    } else {
        TypeExpr { tokens: v.clone() }
    };
    env::note("input", &b.0);
    check_path(&ty, &v);
}

/// Arbitrary tokens behind the beginnings of paths, and before their ends.
pub fn h_path_frame() {
    let mut b = B::new();
    let begin = env::choose(6);
    let end = env::choose(4);
    if begin == 0 {
        b.colon2();
    }
    if begin == 1 || begin == 2 || begin == 3 {
        b.id();
    }
    if begin == 2 {
        b.pa('<');
        b.id();
        b.pa('>');
    }
    if begin == 3 {
        b.colon2();
        b.pa('<');
        b.id();
        b.pa('>');
    }
    if begin == 1 || begin == 2 || begin == 3 {
        b.colon2();
    }
    if begin == 4 {
        // a path already
        b.id();
        b.colon2();
        b.id();
    }
    b.append(&env::any_stream(env::param(0), 0));
    if end == 1 || end == 2 {
        b.colon2();
    }
    if end > 0 {
        b.id();
    }
    if end == 2 {
        b.pa('<');
        b.pj('\'');
        b.id();
        b.pa('>');
    }
    let v: Vec<TokenTree> = b.0.clone().into_iter().collect();
    let ty = TypeExpr { tokens: v.clone() };
    env::note("input", &b.0);
    check_path(&ty, &v);
}

/// Types of known shapes: types in types, and long and deep ones.
pub fn h_path_types() {
    let mut g = G::new();
    let s = g.any_shape(env::param(0));
    let v: Vec<TokenTree> = s.clone().into_iter().collect();
    env::note("input", &s);
    if env::boolean() {
        let mut o = B::new();
        o.group(Delimiter::None, &s);
        let ty = TypeExpr { tokens: o.0.into_iter().collect() };
        env::assume(!matches!(v.as_slice(), [TokenTree::Group(g)] if g.delimiter() == Delimiter::None));
        return check_path(&ty, &v);
    }
    let ty = TypeExpr { tokens: v.clone() };
    if let [TokenTree::Group(g)] = v.as_slice() {
        if g.delimiter() == Delimiter::None {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            return check_path(&ty, &inner);
        }
    }
    check_path(&ty, &v);
}
