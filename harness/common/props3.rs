//! Accessors, edits, comma lists, errors.
use crate::env;
use crate::gram::*;
use crate::props::B;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

fn tts(v: &[TokenTree]) -> TokenStream {
    v.iter().cloned().collect()
}
fn one(t: impl ToTokens) -> TokenStream {
    t.to_token_stream()
}
fn parse(s: &TokenStream, id: u32) -> Item {
    env::no_panic(id);
    match parse_item(s.clone()) {
        Ok(i) => i,
        Err(_) => {
            env::check(false, id + 1);
            unreachable!()
        }
    }
}
/// Parameters of the pieces of a declaration: kind and name.
fn params_of(e: &Pieces) -> Vec<(u32, TokenStream)> {
    e.iter().filter(|p| p.0 == GP_LIFETIME || p.0 == GP_TYPE || p.0 == GP_CONST).cloned().collect()
}

// ------------------------------------------------------------------ C07 generics API

trait Typed {
    fn lifetimes(&self) -> Vec<&GenericParam>;
    fn types(&self) -> Vec<&GenericParam>;
    fn consts(&self) -> Vec<&GenericParam>;
    fn inline(&self) -> Option<InlineGenericArgs<'_>>;
    fn list(&self) -> Option<&GenericParamList>;
    fn clause(&self) -> Option<&WhereClause>;
    fn derive(&self, t: TokenStream) -> WhereClause;
    fn add(self, p: GenericParam) -> Self;
    fn add_where(self, p: WhereClausePredicate) -> Self;
    fn wrap(self) -> Item;
}
macro_rules! typed {
    ($($t:ident)*) => {$(
        impl Typed for $t {
            fn lifetimes(&self) -> Vec<&GenericParam> { self.get_lifetime_params().collect() }
            fn types(&self) -> Vec<&GenericParam> { self.get_type_params().collect() }
            fn consts(&self) -> Vec<&GenericParam> { self.get_const_params().collect() }
            fn inline(&self) -> Option<InlineGenericArgs<'_>> { self.get_inline_generic_args() }
            fn list(&self) -> Option<&GenericParamList> { self.generic_params.as_ref() }
            fn clause(&self) -> Option<&WhereClause> { self.where_clause.as_ref() }
            fn derive(&self, t: TokenStream) -> WhereClause { self.create_derive_where_clause(t) }
            fn add(self, p: GenericParam) -> Self { self.with_param(p) }
            fn add_where(self, p: WhereClausePredicate) -> Self { self.with_where_predicate(p) }
            fn wrap(self) -> Item { Item::$t(self) }
        }
    )*};
}
typed! { Struct Enum Union }

fn only(want: &[(u32, TokenStream)], label: u32, got: &[&GenericParam]) {
    let w: Vec<_> = want.iter().filter(|p| p.0 == label).collect();
    env::check(w.len() == got.len(), 342);
    for (x, y) in w.iter().zip(got.iter()) {
        env::check(env::same(&x.1, &one(&y.name), true), 342);
    }
}
/// `<`, the names in order, commas between them, `>`.
fn inline_args(want: &[(u32, TokenStream)], t: &TokenStream, id: u32) {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    let is = |i: usize, c: char| matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    env::check(is(0, '<'), id);
    let mut i = 1;
    for (k, w) in want.iter().enumerate() {
        if w.0 == GP_LIFETIME {
            env::check(is(i, '\''), id);
            // the apostrophe touches the name
            env::check(matches!(v.get(i), Some(TokenTree::Punct(p)) if p.spacing() == Spacing::Joint), id);
            i += 1;
        }
        match v.get(i) {
            Some(t @ TokenTree::Ident(_)) => env::check(env::same(&w.1, &one(t), true), id),
            _ => env::check(false, id),
        }
        i += 1;
        if k + 1 < want.len() {
            env::check(is(i, ','), id);
        }
        if is(i, ',') {
            i += 1;
        }
    }
    env::check(is(i, '>'), id);
    env::check(v.len() == i + 1, id);
}
fn generics_api(d: &impl Typed, want: &[(u32, TokenStream)], present: bool, trailing: bool) {
    env::check(d.list().is_some() == present, 343);
    only(want, GP_LIFETIME, &d.lifetimes());
    only(want, GP_TYPE, &d.types());
    only(want, GP_CONST, &d.consts());
    match d.inline() {
        None => env::check(!present, 344),
        Some(a) => {
            env::check(present, 344);
            inline_args(want, &one(&a), 345);
            let o = a.to_owned_args();
            env::check(o.tk_turbofish_colons.is_none(), 346);
            env::check(o.args.len() == want.len(), 346);
            for (w, g) in want.iter().zip(o.args.items()) {
                match g {
                    GenericArg::Lifetime { lifetime } => {
                        env::check(w.0 == GP_LIFETIME, 347);
                        env::check(env::same(&w.1, &one(&lifetime.name), true), 347);
                    }
                    GenericArg::TypeOrConst { expr } => {
                        env::check(w.0 != GP_LIFETIME, 347);
                        env::check(env::same(&w.1, &tts(&expr.tokens), true), 347);
                    }
                    _ => env::check(false, 347),
                }
            }
            let t = one(&o);
            inline_args(want, &t, 348);
            // the commas are those of the parameters
            let n = env::len(&t);
            env::check(trailing == (n > 2 && crate::props2::is_comma(&t, n - 2)), 349);
        }
    }
}
/// The parameters sorted by kind, and the arguments made of them.
pub fn h_generics() {
    let kind = env::choose(3);
    let mut g = G::new();
    g.item(kind);
    let s = g.b.0.clone();
    env::note("input", &s);
    let present = g.e.iter().any(|p| p.0 == GENERICS);
    let want = params_of(&g.e);
    let trailing = match g.e.iter().find(|p| p.0 == GENERICS) {
        None => false,
        Some(p) => {
            let n = env::len(&p.1);
            n > 2 && crate::props2::is_comma(&p.1, n - 2)
        }
    };
    let item = parse(&s, 340);
    env::reach(10 + kind as u32);
    env::check(item.generic_params().is_some() == present, 343);
    match item {
        Item::Struct(d) => generics_api(&d, &want, present, trailing),
        Item::Enum(d) => generics_api(&d, &want, present, trailing),
        Item::Union(d) => generics_api(&d, &want, present, trailing),
        _ => env::check(false, 341),
    }
}

// ------------------------------------------------------------------ C14 comma lists

/// Any history of pushes and inserts.
pub fn h_punctuated() {
    let mut p: Punctuated<Ident> = Punctuated::new();
    let mut m: Vec<(Ident, Option<Punct>)> = Vec::new();
    let n = env::param(0);
    env::no_panic(141);
    // a longer list to begin with
    for i in 0..env::param(2) {
        let x = env::any_ident();
        let comma = if i % 2 == 0 { Some(Punct::new(',', env::any_spacing())) } else { None };
        m.push((x.clone(), comma.clone()));
        p.push(x, comma);
    }
    for _ in 0..n {
        let op = env::choose(3);
        let x = env::any_ident();
        let comma = if env::boolean() {
            let mut c = Punct::new(',', env::any_spacing());
            c.set_span(env::span());
            Some(c)
        } else {
            None
        };
        if op == 0 {
            m.push((x.clone(), comma.clone()));
            p.push(x, comma);
        } else if op == 1 {
            let i = env::choose(m.len() + 1);
            m.insert(i, (x.clone(), comma.clone()));
            p.insert(i, x, comma);
        } else {
            break;
        }
        compare(&m, &p);
        compare(&m, &p.clone());
    }
    env::reach(1);
    // an item replaced in place
    if env::param(3) == 1 && !m.is_empty() {
        let i = env::choose(m.len());
        let x = env::any_ident();
        m[i].0 = x.clone();
        p[i].0 = x;
        compare(&m, &p);
    }
    // out of range is refused
    if env::param(1) == 1 {
        let i = m.len() + 1 + env::choose(2);
        env::panics_allowed();
        p.insert(i, env::any_ident(), None);
        env::check(false, 147);
    }
}
fn compare(m: &[(Ident, Option<Punct>)], p: &Punctuated<Ident>) {
    env::check(p.len() == m.len(), 142);
    env::check(p.is_empty() == m.is_empty(), 142);
    let mut want = B::new();
    let mut commas = B::new();
    for (i, (x, c)) in m.iter().enumerate() {
        want.put(x.clone());
        let last = i + 1 == m.len();
        if let Some(c) = c {
            want.put(c.clone());
            commas.put(c.clone());
        } else if !last {
            want.put(Punct::new(',', Spacing::Alone));
            commas.put(Punct::new(',', Spacing::Alone));
        }
    }
    let got: TokenStream = p.items().cloned().map(TokenTree::from).collect();
    let items: TokenStream = m.iter().map(|x| TokenTree::from(x.0.clone())).collect();
    env::check(env::same(&items, &got, true), 143);
    let mut by_index = B::new();
    for i in 0..p.len() {
        by_index.put(p[i].0.clone());
    }
    env::check(env::same(&items, &by_index.0, true), 144);
    env::check(env::same(&want.0, &one(p), true), 145);
    let got: TokenStream = p.punct().cloned().map(TokenTree::from).collect();
    env::check(env::same(&commas.0, &got, true), 146);
}

// ------------------------------------------------------------------ C15 edits

/// A parameter to add, and what it says.
fn new_param() -> (u32, String, Vec<TokenTree>, bool, GenericParam) {
    let name = ["a", "Xy_1"][env::choose(2)].to_string();
    let mut b = B::new();
    b.id();
    if env::boolean() {
        b.p('+');
        b.id();
    }
    let bound: Vec<TokenTree> = b.0.into_iter().collect();
    match env::choose(4) {
        0 => (GP_LIFETIME, name.clone(), vec![], false, GenericParam::lifetime(&name)),
        1 => (GP_TYPE, name.clone(), vec![], false, GenericParam::ty(&name)),
        2 => (GP_TYPE, name.clone(), bound.clone(), true, GenericParam::bounded_ty(&name, bound)),
        _ => (GP_CONST, name.clone(), bound.clone(), true, GenericParam::const_param(&name, bound)),
    }
}
fn same_params(a: &GenericParam, b: &GenericParam) -> bool {
    env::same(&one(a), &one(b), true)
}
fn edits<T: Typed + Clone + ToTokens>(d: T, kind: usize) {
    let before: Vec<GenericParam> = d.list().map_or(vec![], |l| l.params.items().cloned().collect());
    let preds: Vec<WhereClausePredicate> = d.clause().map_or(vec![], |w| w.items.items().cloned().collect());
    let had_clause = d.clause().is_some();
    let had_list = d.list().is_some();
    let what = env::choose(3);
    let times = 1 + env::choose(env::param(5).max(1));
    env::reach(20 + what as u32);
    match what {
        0 => {
            // parameters: lifetimes to the front, others to the back, nothing lost
            let mut e = d.clone();
            let mut front: Vec<GenericParam> = vec![];
            let mut back: Vec<GenericParam> = vec![];
            for _ in 0..times {
                let (label, name, bound, has_bound, p) = new_param();
                env::check(p.is_lifetime() == (label == GP_LIFETIME), 352);
                env::check(p.is_ty() == (label == GP_TYPE), 352);
                env::check(p.is_const() == (label == GP_CONST), 352);
                env::check(p.name == name, 352);
                env::check(p.bound.is_some() == has_bound, 352);
                if let Some(b) = &p.bound {
                    env::check(env::same(&tts(&b.tokens), &tts(&bound), true), 352);
                }
                if label == GP_LIFETIME {
                    front.push(p.clone());
                } else {
                    back.push(p.clone());
                }
                e = e.add(p);
            }
            let l: Vec<GenericParam> = e.list().map_or(vec![], |l| l.params.items().cloned().collect());
            env::check(l.len() == before.len() + front.len() + back.len(), 353);
            let f = front.len();
            // each new lifetime is somewhere at the front
            for p in &front {
                env::check(l[..f].iter().any(|x| same_params(x, p)), 354);
            }
            for (x, y) in before.iter().chain(back.iter()).zip(l[f..].iter()) {
                env::check(same_params(x, y), 355);
            }
            // the old commas are there, and no new one at the end
            if let Some(l) = e.list() {
                if let Some(old) = d.list() {
                    env::check(env::same(&one(&old.tk_l_bracket), &one(&l.tk_l_bracket), true), 380);
                    env::check(env::same(&one(&old.tk_r_bracket), &one(&l.tk_r_bracket), true), 380);
                }
                let old: Vec<Punct> = d.list().map_or(vec![], |l| l.params.punct().cloned().collect());
                for (i, c) in old.iter().enumerate() {
                    env::check(env::same(&one(c), &one(&l.params[f + i].1), true), 380);
                }
                env::check(!ends_with_comma(&one(&l.params)) || (old.len() == before.len() && old.len() > 0), 380);
            }
            elsewhere(&d.clone().wrap(), &e.clone().wrap(), 3);
            // what it prints says the same
            reparse(e.wrap(), &l, &preds, kind);
        }
        1 => {
            let mut e = d.clone();
            let mut all = preds.clone();
            for _ in 0..times {
                let mut b = B::new();
                b.id();
                b.p(':');
                b.id();
                let p = WhereClausePredicate::parse(b.0);
                all.push(p.clone());
                e = e.add_where(p);
            }
            env::check(e.clause().is_some(), 356);
            let got: Vec<WhereClausePredicate> = e.clause().map_or(vec![], |w| w.items.items().cloned().collect());
            env::check(got.len() == all.len(), 356);
            for (x, y) in all.iter().zip(got.iter()) {
                env::check(env::same(&one(x), &one(y), true), 356);
            }
            env::check(e.list().is_some() == had_list, 357);
            if let Some(w) = e.clause() {
                if let Some(old) = d.clause() {
                    env::check(env::same(&one(&old.tk_where), &one(&w.tk_where), true), 380);
                }
                let old: Vec<Punct> = d.clause().map_or(vec![], |w| w.items.punct().cloned().collect());
                for (i, c) in old.iter().enumerate() {
                    env::check(env::same(&one(c), &one(&w.items[i].1), true), 380);
                }
                env::check(!ends_with_comma(&one(&w.items)) || (old.len() == preds.len() && old.len() > 0), 380);
            }
            elsewhere(&d.clone().wrap(), &e.clone().wrap(), 4);
            reparse(e.wrap(), &before, &all, kind);
        }
        _ => {
            // the clause for a derived impl
            let mut b = B::new();
            b.id();
            if env::boolean() {
                b.colon2();
                b.id();
            }
            let t = b.0;
            let w = d.derive(t.clone());
            let types: Vec<GenericParam> = before.iter().filter(|p| p.is_ty()).cloned().collect();
            let got: Vec<WhereClausePredicate> = w.items.items().cloned().collect();
            env::check(got.len() == preds.len() + types.len(), 358);
            // the old ones in order, the new ones in order, one block after the other
            let n = preds.len();
            let m = types.len();
            let old = |i: usize, p: &WhereClausePredicate| env::same(&one(p), &one(&preds[i]), true);
            let new = |i: usize, p: &WhereClausePredicate| {
                env::same(&tts(&p.left_side), &one(&types[i].name), true) && env::same(&tts(&p.bound.tokens), &t, true)
            };
            let mut a = true;
            let mut c = true;
            for (i, p) in got.iter().enumerate() {
                a &= if i < n { old(i, p) } else { new(i - n, p) };
                c &= if i < m { new(i, p) } else { old(i - m, p) };
            }
            env::check(a || c, 359);
            env::check(d.clause().is_some() == had_clause, 357);
            // printed, with something behind it, it reads as the same clause
            let mut b = B::new();
            b.kw("struct");
            b.id();
            b.append(&one(&w));
            b.p(';');
            env::note("clause", &b.0);
            match parse(&b.0, 360) {
                Item::Struct(s) => {
                    let back: Vec<WhereClausePredicate> = s.clause().map_or(vec![], |w| w.items.items().cloned().collect());
                    env::check(back.len() == got.len(), 362);
                    for (x, y) in got.iter().zip(back.iter()) {
                        env::check(env::same(&one(x), &one(y), true), 362);
                    }
                }
                _ => env::check(false, 361),
            }
        }
    }
}
fn ends_with_comma(t: &TokenStream) -> bool {
    let n = env::len(t);
    n > 0 && crate::props2::is_comma(t, n - 1)
}
/// All parts but those of one group (3 parameters, 4 where clause) are the same.
fn elsewhere(before: &Item, after: &Item, group: u32) {
    let parts = |i: &Item| {
        let mut o = O(Vec::new());
        o.item(i);
        o.0.into_iter().filter(|p| p.0 / 100 != group).collect::<Vec<_>>()
    };
    agree(&parts(before), &parts(after), 0, 381);
}
/// The edited declaration, printed and parsed again.
fn reparse(i: Item, params: &[GenericParam], preds: &[WhereClausePredicate], kind: usize) {
    let s = one(&i);
    env::note("edited", &s);
    let again = parse(&s, 363);
    let mut o = O(Vec::new());
    o.item(&i);
    let mut p = O(Vec::new());
    p.item(&again);
    agree(&o.0, &p.0, 0, 366);
    let (l, w) = match &again {
        Item::Struct(d) => (d.list(), d.clause()),
        Item::Enum(d) => (d.list(), d.clause()),
        Item::Union(d) => (d.list(), d.clause()),
        _ => return env::check(false, 364),
    };
    let _ = kind;
    let l: Vec<&GenericParam> = l.map_or(vec![], |l| l.params.items().collect());
    env::check(l.len() == params.len(), 365);
    for (x, y) in params.iter().zip(l.iter()) {
        env::check(same_params(x, y), 365);
    }
    let w: Vec<&WhereClausePredicate> = w.map_or(vec![], |w| w.items.items().collect());
    env::check(w.len() == preds.len(), 365);
    for (x, y) in preds.iter().zip(w.iter()) {
        env::check(env::same(&one(x), &one(*y), true), 365);
    }
}
pub fn h_edit() {
    let kind = env::choose(3);
    let mut g = G::new();
    g.item(kind);
    let s = g.b.0.clone();
    env::note("input", &s);
    let item = parse(&s, 350);
    match item {
        Item::Struct(d) => edits(d, kind),
        Item::Enum(d) => edits(d, kind),
        Item::Union(d) => edits(d, kind),
        _ => env::check(false, 351),
    }
}

/// Attributes and parameters changed through the item show in the print, and nowhere else.
pub fn h_edit_item() {
    let kind = env::choose(KINDS);
    let mut g = G::new();
    g.item(kind);
    let s = g.b.0.clone();
    env::note("input", &s);
    let mut item = parse(&s, 350);
    env::reach(10 + kind as u32);
    // how many tokens the outer attributes take
    let n: usize = item.attributes().iter().map(|a| env::len(&one(a))).sum();
    let mut b = B::new();
    b.p('#');
    let mut i = B::new();
    i.id();
    b.brackets(&i.0);
    b.kw("struct");
    b.id();
    b.p(';');
    let extra = parse(&b.0, 350).attributes()[0].clone();
    let replace = env::boolean();
    if replace {
        *item.attributes_mut() = vec![extra.clone()];
    } else {
        item.attributes_mut().push(extra.clone());
    }
    let mut want = B::new();
    if !replace {
        want.append(&env::head(&s, n));
    }
    want.append(&one(&extra));
    want.append(&env::tail(&s, n));
    env::check(env::same(&one(&item), &want.0, true), 368);
    // the first parameter renamed through the item
    let name = env::ident();
    let mut done = false;
    if let Some(l) = item.generic_params_mut() {
        if l.params.len() > 0 {
            l.params[0].0.name = name.clone();
            done = true;
        }
    }
    if done {
        let l = item.generic_params().unwrap();
        env::check(env::same(&one(&l.params[0].0.name), &one(&name), true), 369);
        env::reach(2);
        let out = one(&item);
        env::check(env::len(&out) == env::len(&want.0), 369);
    } else {
        env::check(env::same(&one(&item), &want.0, true), 369);
    }
}

// ------------------------------------------------------------------ C16 errors

const TEXTS: [&str; 5] = [
    "",
    "plain",
    "a \"quoted\" \\ back\nslash \u{2603} {brace}",
    " \tspace around \n",
    "a text that is long enough to be cut short somewhere, if anybody ever thought of cutting texts short: \
     it goes on and on, over more than one line of a terminal, and then it goes on for yet another line \
     until at last it has more than 256 bytes, which is a number that people like to use as a limit.",
];

/// What one error stands for.
struct E {
    text: String,
    start: Option<Span>,
    end: Option<Span>,
}
fn new_error() -> (Error, E) {
    let text = if env::param(2) == 1 { env::any_ident().to_string() } else { TEXTS[env::choose(TEXTS.len())].to_string() };
    match env::choose(3) {
        0 => (Error::new(text.as_str()), E { text, start: None, end: None }),
        1 => {
            let s = env::span();
            (Error::new_at_span(s, text.as_str()), E { text, start: Some(s), end: Some(s) })
        }
        _ => {
            let t = env::any_stream(env::param(1), 0);
            let n = env::len(&t);
            let e = if n == 0 {
                E { text: text.clone(), start: None, end: None }
            } else {
                E { text: text.clone(), start: Some(env::span_at(&t, 0)), end: Some(env::span_at(&t, n - 1)) }
            };
            (Error::new_at_tokens(t, text.as_str()), e)
        }
    }
}
fn at(got: Span, want: Option<Span>) -> bool {
    match want {
        None => env::is_call_site(got),
        Some(s) => env::same_span(got, s),
    }
}
fn error_says(e: &Error, all: &[E]) {
    // Display and span: the first
    env::check(e.to_string() == all[0].text, 162);
    let want = match (all[0].start, all[0].end) {
        (Some(a), Some(b)) => Some(a.join(b).unwrap_or(a)),
        _ => None,
    };
    env::check(at(e.span(), want), 163);
    // compile_error! { "text" }, once for each
    let v: Vec<TokenTree> = e.to_compile_error().into_iter().collect();
    env::check(v.len() == 3 * all.len(), 164);
    for (i, x) in all.iter().enumerate() {
        match &v[3 * i..3 * i + 3] {
            [TokenTree::Ident(name), TokenTree::Punct(bang), TokenTree::Group(g)] => {
                env::check(name == "compile_error", 165);
                env::check(bang.as_char() == '!', 165);
                env::check(at(bang.span(), x.start) || at(bang.span(), x.end), 166);
                // only with braces it needs no semicolon and is a declaration, a statement and an expression
                env::check(g.delimiter() == Delimiter::Brace, 165);
                env::check(at(name.span(), x.start), 166);
                env::check(at(g.span(), x.end), 166);
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match inner.as_slice() {
                    [TokenTree::Literal(l)] => {
                        env::check(env::literal_is_string(l, &x.text), 167);
                        env::check(at(l.span(), x.end), 166);
                    }
                    _ => env::check(false, 167),
                }
            }
            _ => env::check(false, 165),
        }
    }
}
/// Any tree of combined errors renders every message, in order, where it belongs.
pub fn h_error() {
    env::set_join(env::boolean());
    env::no_panic(161);
    let (mut e, x) = new_error();
    let mut all = vec![x];
    error_says(&e, &all);
    let n = env::choose(env::param(0) + 1);
    for _ in 0..n {
        let (f, x) = new_error();
        if env::boolean() {
            // the other way round
            let mut f = f;
            f.combine(e);
            e = f;
            all.insert(0, x);
        } else {
            e.combine(f);
            all.push(x);
        }
    }
    error_says(&e, &all);
    error_says(&e.clone(), &all);
    env::reach(1 + n as u32);
}

/// Long chains, and chains of chains.
pub fn h_error_long() {
    env::set_join(true);
    env::no_panic(161);
    // exactly as many, or any number up to that
    let exactly = env::param(2) == 1;
    let groups = if exactly { env::param(0) } else { 1 + env::choose(env::param(0)) };
    let backwards = env::boolean();
    let mut e: Option<Error> = None;
    let mut all: Vec<E> = vec![];
    for i in 0..groups {
        let mut f: Option<Error> = None;
        let mut mine: Vec<E> = vec![];
        let n = if exactly { env::param(1) } else { 1 + env::choose(env::param(1)) };
        for j in 0..n {
            let s = env::span();
            let text = format!("{}.{}", i, j / 2);
            let one = Error::new_at_span(s, &text);
            mine.push(E { text, start: Some(s), end: Some(s) });
            match &mut f {
                None => f = Some(one),
                Some(f) => f.combine(one),
            }
        }
        let mut f = f.unwrap();
        match e.take() {
            None => {
                e = Some(f);
                all = mine;
            }
            Some(x) if backwards => {
                f.combine(x);
                mine.append(&mut all);
                all = mine;
                e = Some(f);
            }
            Some(mut x) => {
                x.combine(f);
                all.append(&mut mine);
                e = Some(x);
            }
        }
    }
    let e = e.unwrap();
    error_says(&e, &all);
    error_says(&e.clone(), &all);
    env::reach(all.len() as u32);
}

// ------------------------------------------------------------------ C17 accessors

/// The item-level accessors say what the declaration says.
pub fn h_accessors() {
    let kind = match env::param(6) {
        0 => env::choose(KINDS),
        k => k - 1,
    };
    let mut g = G::new();
    g.item(kind);
    let s = g.b.0.clone();
    env::note("input", &s);
    let item = parse(&s, 170);
    env::reach(10 + kind as u32);
    // exactly the cast that fits succeeds
    let casts = [
        item.as_struct().is_some(),
        item.as_enum().is_some(),
        item.as_union().is_some(),
        item.as_function().is_some(),
        item.as_impl().is_some(),
        item.as_trait().is_some(),
        item.as_module().is_some(),
        item.as_type_alias().is_some(),
        item.as_constant().is_some(),
        item.as_use_declaration().is_some(),
        item.as_macro().is_some(),
        item.as_extern_block().is_some(),
        item.as_extern_crate().is_some(),
    ];
    for (i, c) in casts.iter().enumerate() {
        env::check(*c == (i == kind), 172);
    }
    // the name of the item itself comes first among the names
    let named = kind != IMPL && kind != USE && kind != EXTERN_BLOCK;
    match item.name() {
        None => env::check(!named, 173),
        Some(n) => {
            env::check(named, 173);
            if named {
                let w = g.e.iter().find(|p| p.0 == NAME).unwrap();
                env::check(env::same(&w.1, &one(n), true), 173);
            }
        }
    }
    // outer attributes: the pieces before the kind
    let mut attrs: Vec<&TokenStream> = vec![];
    for p in &g.e {
        if p.0 / 100 == 1 {
            break;
        }
        if p.0 == ATTR {
            attrs.push(&p.1);
        }
    }
    env::check(attrs.len() == item.attributes().len(), 174);
    for (x, y) in attrs.iter().zip(item.attributes()) {
        env::check(env::same(x, &one(y), true), 174);
    }
    // generic parameters: of the item, not of a member
    let mut list = None;
    for p in &g.e {
        if p.0 == FN_PARAMS || p.0 == MEMBERS {
            break;
        }
        if p.0 == GENERICS {
            list = Some(&p.1);
        }
    }
    match (list, item.generic_params()) {
        (None, None) => {}
        (Some(x), Some(y)) => env::check(env::same(x, &one(y), true), 175),
        _ => env::check(false, 175),
    }
    if let Item::Struct(d) = &item {
        let types: Vec<&TokenStream> = g.e.iter().filter(|p| p.0 == F_TY).map(|p| &p.1).collect();
        let names: Vec<&TokenStream> = g.e.iter().filter(|p| p.0 == F_NAME).map(|p| &p.1).collect();
        let tuple = g.e.iter().any(|p| p.0 == F_TUPLE);
        let got: Vec<&TypeExpr> = d.field_types().into_iter().collect();
        env::check(got.len() == types.len(), 176);
        for (x, y) in types.iter().zip(got.iter()) {
            env::check(env::same(x, &tts(&y.tokens), true), 176);
        }
        let toks: Vec<TokenTree> = d.field_tokens().into_iter().collect();
        // the texts of many names at once are too much: long lists, tuples only
        let texts = tuple || env::param(8) == 0;
        let strs: Vec<String> = if texts { d.field_names().into_iter().collect() } else { vec![String::new(); types.len()] };
        env::check(toks.len() == types.len() && strs.len() == types.len(), 177);
        for i in 0..types.len() {
            if tuple {
                match &toks[i] {
                    TokenTree::Literal(l) => env::check(env::literal_is_integer(l, i), 178),
                    _ => env::check(false, 178),
                }
                env::check(strs[i] == i.to_string(), 178);
            } else {
                env::check(env::same(names[i], &one(&toks[i]), true), 178);
                match &toks[i] {
                    TokenTree::Ident(x) => env::check(!texts || *x == strs[i], 178),
                    _ => env::check(false, 178),
                }
            }
        }
    }
    if let Item::Enum(d) = &item {
        // per variant: unit or not, and how many fields a tuple has
        let mut v: Vec<(u32, usize)> = vec![];
        for p in &g.e {
            match p.0 {
                F_UNIT | F_TUPLE | F_NAMED => v.push((p.0, 0)),
                FIELD => v.last_mut().unwrap().1 += 1,
                _ => {}
            }
        }
        env::check(d.is_c_enum() == v.iter().all(|x| x.0 == F_UNIT), 179);
        env::check(d.variants.len() == v.len(), 179);
        let mut k = 0;
        let types: Vec<&TokenStream> = g.e.iter().filter(|p| p.0 == F_TY).map(|p| &p.1).collect();
        for (w, x) in v.iter().zip(d.variants.items()) {
            env::check(x.is_empty_variant() == (w.0 == F_UNIT), 179);
            match x.get_single_type() {
                None => env::check(!(w.0 == F_TUPLE && w.1 == 1), 179),
                Some(f) => {
                    env::check(w.0 == F_TUPLE && w.1 == 1, 179);
                    env::check(env::same(types[k], &tts(&f.ty.tokens), true), 179);
                }
            }
            k += w.1;
        }
    }
}

// ------------------------------------------------------------------ findings that stand

/// Valid declarations that are refused: one form per known finding.
pub fn h_kf_syntax() {
    let form = env::param(0);
    let mut b = B::new();
    let mut i = B::new();
    match form {
        0 => {
            // struct I<I = I>;
            b.kw("struct");
            b.id();
            b.p('<');
            b.id();
            b.p('=');
            b.id();
            b.p('>');
            b.p(';');
        }
        1 => {
            // type I<I> = I;
            b.kw("type");
            b.id();
            b.p('<');
            b.id();
            b.p('>');
            b.p('=');
            b.id();
            b.p(';');
        }
        2 => {
            // I::I! {}
            b.id();
            b.colon2();
            b.id();
            b.p('!');
            b.braces(&i.0);
        }
        3 => {
            // struct I<#[I] I>;
            b.kw("struct");
            b.id();
            b.p('<');
            b.p('#');
            i.id();
            b.brackets(&i.0);
            b.id();
            b.p('>');
            b.p(';');
        }
        4 => {
            // impl I for I { default const I: I = 1; }
            b.kw("impl");
            b.id();
            b.kw("for");
            b.id();
            i.kw("default");
            i.kw("const");
            i.id();
            i.p(':');
            i.id();
            i.p('=');
            i.lit();
            i.p(';');
            b.braces(&i.0);
        }
        5 => {
            // unsafe extern "C" { safe fn I(); }
            b.kw("unsafe");
            b.kw("extern");
            b.abi();
            i.kw("safe");
            i.kw("fn");
            i.id();
            i.parens(&TokenStream::new());
            i.p(';');
            b.braces(&i.0);
        }
        8 => {
            // unsafe extern "C" { unsafe static I: I; }
            b.kw("unsafe");
            b.kw("extern");
            b.abi();
            i.kw("unsafe");
            i.kw("static");
            i.id();
            i.p(':');
            i.id();
            i.p(';');
            b.braces(&i.0);
        }
        _ => {
            // impl I { type I<'a> = I; }
            b.kw("impl");
            b.id();
            i.kw("type");
            i.id();
            i.p('<');
            i.pj('\'');
            i.id();
            i.p('>');
            i.p('=');
            i.id();
            i.p(';');
            b.braces(&i.0);
        }
    }
    env::note("input", &b.0);
    env::no_panic(211 + form as u32);
    let r = parse_item(b.0.clone());
    env::check(r.is_ok(), 211 + form as u32);
    if let Ok(x) = r {
        env::check(env::same(&one(x), &b.0, true), 104);
    }
}
/// The apostrophe of a lifetime has to touch its name.
pub fn h_kf_bounded_lifetime() {
    env::no_panic(370);
    let mut b = B::new();
    b.pj('\'');
    b.id();
    let bound: Vec<TokenTree> = b.0.into_iter().collect();
    let p = GenericParam::bounded_lifetime("a", bound.clone());
    env::check(p.is_lifetime() && !p.is_ty() && !p.is_const(), 352);
    env::check(p.name == "a", 352);
    env::check(p.bound.as_ref().map_or(false, |b| env::same(&tts(&b.tokens), &tts(&bound), true)), 352);
    match &p.tk_prefix {
        Some(TokenTree::Punct(p)) => env::check(p.spacing() == Spacing::Joint, 371),
        _ => env::check(false, 352),
    }
}
