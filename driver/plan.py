"""What each check runs: harnesses, bounds, labels."""
import re

ASSERTS = {
    101: "printing an accepted item panics",
    102: "an item was accepted without consuming a token",
    103: "the print has another number of tokens than were consumed",
    104: "the print differs from the tokens consumed",
    105: "a copy prints differently",
    110: "a valid declaration is refused with a panic",
    111: "a valid declaration is refused with an error",
    131: "as_path panics",
    132: "printing a path panics",
    133: "a path prints other tokens than the type has",
    134: "as_path takes something for a path that is none",
    135: "as_path does not recognise a path",
    136: "a path has the wrong number of segments",
    137: "a path segment is wrong",
    138: "the generic arguments of a path segment are wrong",
    139: "a generic argument has the wrong kind or value",
    141: "a list operation panics",
    142: "a list has the wrong length",
    143: "a list yields the wrong items",
    144: "a list indexes wrongly",
    145: "a list prints wrongly",
    146: "a list yields the wrong commas",
    147: "an insert out of range is accepted",
    161: "an error operation panics",
    162: "an error displays the wrong message",
    163: "an error has the wrong span",
    164: "an error renders the wrong number of messages",
    165: "an error does not render as compile_error!",
    166: "a rendered error is in the wrong place",
    167: "a rendered error has the wrong text",
    170: "a valid declaration is refused with a panic",
    171: "a valid declaration is refused with an error",
    172: "the casts of an item disagree with its kind",
    173: "an item reports the wrong name",
    174: "an item reports the wrong attributes",
    175: "an item reports the wrong generic parameters",
    176: "a struct reports the wrong field types",
    177: "a struct reports the wrong number of fields",
    178: "a struct reports the wrong field names",
    179: "an enum reports its variants wrongly",
    201: "a valid declaration is refused with a panic",
    202: "the parts of the declaration are not where they belong (wrong, missing or extra part)",
    203: "a part of the declaration holds the wrong tokens",
    204: "parts of the declaration are missing or too many",
    205: "a valid declaration is refused with an error",
    206: "Item::attributes differs from the attributes of the declaration",
    207: "Item::name differs from the name of the declaration",
    208: "Item::generic_params differs from the parameters of the declaration",
    211: "a type parameter with a default but no bound is refused",
    212: "a type alias with generic parameters is refused",
    213: "a macro called by a path is refused",
    214: "a generic parameter with an attribute is refused",
    215: "a `default const` member is refused",
    216: "a `safe fn` in an extern block is refused",
    218: "an associated type with generic parameters is refused",
    219: "an `unsafe static` in an extern block is refused",
    301: "a valid declaration with something behind it panics",
    302: "a valid declaration with something behind it is refused",
    303: "the wrong number of tokens is left",
    304: "the tokens left are not those that follow the declaration",
    305: "the item is not the declaration at the front",
    306: "parse_item returns although tokens are left over",
    307: "parse_item refuses a stream without leftovers",
    310: "the rest of the stream is unusable",
    311: "an item was accepted without consuming a token",
    320: "a valid declaration is refused with a panic",
    321: "a valid declaration is refused with an error",
    322: "the span of a part does not cover its tokens",
    323: "printing changes a token or its span",
    324: "the span of the item does not cover it",
    325: "a part holds a token with another span than in the input",
    331: "an accessor panics on an accepted item",
    332: "a generic parameter is not exactly one of lifetime, type, const",
    333: "attributes and attributes_mut disagree",
    334: "generic_params and generic_params_mut disagree",
    335: "the field accessors disagree on the number of fields",
    336: "an error does not render as one compile_error!",
    340: "a valid declaration is refused with a panic",
    341: "a valid declaration is refused or taken for something else",
    342: "the parameters of a kind are wrong",
    343: "generic parameters are reported where there are none, or the reverse",
    344: "inline arguments are reported where there are no parameters, or the reverse",
    345: "the inline arguments print wrongly",
    346: "the owned arguments are wrong",
    347: "an owned argument has the wrong kind or name",
    348: "the owned arguments print wrongly",
    349: "the owned arguments have other commas than the parameters",
    350: "a valid declaration is refused with a panic",
    351: "a valid declaration is refused or taken for something else",
    352: "a new generic parameter is wrong",
    353: "adding a parameter loses or invents one",
    354: "an added lifetime is not at the front",
    355: "adding a parameter disturbs the others",
    356: "adding a predicate loses, changes or invents one",
    357: "an edit touches what it should not",
    358: "a derived where clause has the wrong number of predicates",
    359: "a derived where clause has a wrong predicate",
    360: "a derived where clause does not parse",
    361: "a derived where clause does not parse",
    362: "a derived where clause prints wrongly",
    363: "an edited declaration does not parse again",
    364: "an edited declaration is refused or taken for something else",
    365: "an edited declaration says something else when parsed again",
    366: "an edited declaration says something else when parsed again",
    367: "an edited declaration says something else when parsed again",
    368: "an edit of the attributes shows wrongly in the print",
    380: "an edit changed a comma or bracket of the list, or added a comma at its end",
    381: "an edit changed another part of the declaration",
    382: "an edit changed another part of the declaration",
    383: "an edit changed another part of the declaration",
    369: "an edit of the parameters shows wrongly",
    370: "building a lifetime parameter panics",
    371: "the apostrophe of a bounded lifetime does not touch its name",
    401: "a valid predicate is refused",
    402: "a predicate has other parts",
    403: "a predicate has the wrong tokens",
    404: "a predicate has other parts",
    405: "a predicate prints wrongly",
    406: "a clause made of a predicate prints wrongly",
    501: "a function has an arrow without return type, or the reverse",
    601: "an enum with a discriminant panics",
    602: "a one-token discriminant is refused",
    603: "an enum is not where it was",
    604: "a discriminant has the wrong value or span",
    605: "a discriminant is lost",
    606: "a discriminant shows up where there is none",
    607: "a discriminant of several tokens is accepted",
    608: "the error about a discriminant points elsewhere",
    801: "an impl has `for` without a trait, or the reverse",
}

# Findings that stand: not repaired, see known-findings.txt.
KNOWN = [
    {"property": "C05", "entry": "h_kf_syntax", "params": [0], "id": 211,
     "what": "`struct A<T = X>;`: a type parameter with a default but no bound makes the parser panic"},
    {"property": "C05", "entry": "h_kf_syntax", "params": [1], "id": 212,
     "what": "`type A<T> = X;`: a type alias with generic parameters makes the parser panic"},
    {"property": "C05", "entry": "h_kf_syntax", "params": [2], "id": 213,
     "what": "`a::b! {}`: a macro called by a path makes the parser panic"},
    {"property": "C05", "entry": "h_kf_syntax", "params": [3], "id": 214,
     "what": "`struct A<#[x] T>;`: an attribute on a generic parameter makes the parser panic"},
    {"property": "C05", "entry": "h_kf_syntax", "params": [4], "id": 215,
     "what": "`impl A for B { default const X: T = 1; }`: a `default const` (or `default type`) member makes the parser panic"},
    {"property": "C05", "entry": "h_kf_syntax", "params": [5], "id": 216,
     "what": "`unsafe extern \"C\" { safe fn f(); }`: the `safe` qualifier makes the parser panic"},
    {"property": "C05", "entry": "h_kf_syntax", "params": [7], "id": 218,
     "what": "`impl A { type B<'a> = C; }`: an associated type with generic parameters makes the parser panic"},
    {"property": "C05", "entry": "h_kf_syntax", "params": [8], "id": 219,
     "what": "`unsafe extern \"C\" { unsafe static X: T; }`: the `unsafe` (or `safe`) qualifier of a static makes the parser panic"},
    {"property": "C15", "entry": "h_kf_bounded_lifetime", "params": [0], "id": 371,
     "what": "GenericParam::bounded_lifetime(\"a\", ..) separates the apostrophe from the name, so that it does not print as a lifetime"},
]

OUTSIDE = [
    "streams with more free tokens, deeper nesting or more features at once than the runs state",
    "identifiers and literals of more than 16 bytes, identifiers with characters outside ASCII other than the letters à to ö",
    "declarations that venial documents as refused (patterns and variadics in parameters, macros in place of fields, variants or predicates)",
    "the syntax listed in known-findings.txt",
    "the text of panic messages and of Debug output",
    "proc-macro2 itself and the compiler's token streams: the executor runs venial on a model of proc-macro2's documented behaviour",
]
ASSUMPTIONS = [
    "the proc-macro2 model (shim/) behaves like proc-macro2 1.0.79 on the operations venial and quote use; every run replays a sample of its paths, and every counterexample, on the real one",
    "rustc's LLVM IR at opt-level 2 stands for the code (undefined behaviour that the optimiser exploits is not looked for)",
    "the executor (symex/) implements the semantics of that IR, and z3 4.8.12 answers correctly",
    "memory allocation succeeds; the stack suffices",
]


def demangle(f):
    """The path of a v0-mangled Rust symbol, without type arguments: for the evidence."""
    if not f.startswith("_R"):
        return f
    s = re.sub(r"(?<=[CMXvN])s[0-9A-Za-z]*_", "", f[2:])
    s = re.sub(r"B[0-9A-Za-z]{1,2}_", "", s)
    out, i = [], 0
    while i < len(s):
        m = re.match(r"([1-9]\d*)_?", s[i:])
        if m and i + m.end() + int(m.group(1)) <= len(s):
            out.append(s[i + m.end():i + m.end() + int(m.group(1))])
            i += m.end() + int(m.group(1))
        else:
            i += 1
    return "::".join(out)


GROUPS = {
    0: "any", 100: "kind and name", 200: "fields and variants", 300: "generic parameters", 400: "where clauses", 500: "functions",
    600: "discriminants", 700: "attributes and visibility", 800: "members, impl, trait, mod, extern", 900: "const, static, type, use, macro, extern crate",
}


def get(p, i):
    return p[i] if i < len(p) else 0


def b_frames(p):
    return ("streams of up to %d arbitrary tokens (any kind, text, spacing, delimiter; a group holds up to %d tokens) in each of 26 places: "
            "the start of an item and inside every construct the parser enters" % (p[0], get(p, 7)))


def b_gram(p):
    s = "every kind of item, lists of up to 2 elements, members of members %s; all identifiers, literals, spans and free spacings symbolic; " % (
        "one level deep" if not get(p, 10) else "%d levels deep" % (1 + get(p, 10)))
    s += "any combination of %d feature(s)" % get(p, 4)
    if get(p, 3):
        s += " and %d feature(s) of the group '%s'" % (get(p, 3), GROUPS[get(p, 2)])
    if get(p, 1):
        s += "; %d piece(s) (type, bound, body, value) an arbitrary sequence of up to %d tokens" % (get(p, 1), p[0])
    if get(p, 8):
        s += "; the first list of the group '%s' has %d elements" % (GROUPS[get(p, 2)], get(p, 8))
    if get(p, 9) == 2:
        s += "; the types are one of 16 forms around one of 47 forms, the bounds one of 5 around one of those 47"
    elif get(p, 9) == 3:
        s += "; long and deep forms: 12 shapes of types, 6 of bounds, values, paths, import trees, attributes and macro bodies, of 3 to 40 elements or levels"
    elif get(p, 9) == 4:
        s += "; long and deep forms: the same shapes, of 130 elements or levels"
    elif get(p, 9):
        s += "; the second set of forms (28 of types, 12 of bounds, all 36 of function qualifiers, negative impls, ...)"
    return s


def gram(entry, *levels, more=0, forced=0, deep=0, **kw):
    """levels: (free_len, free, focus, focus features, other features, param5)"""
    out = []
    for l in levels:
        l = list(l) + [0] * (8 - len(l)) + [forced, more, deep]
        while len(l) > 7 and l[-1] == 0:
            l.pop()
        out.append(l)
    return dict(entry=entry, levels=out, bounds=kw.pop("bounds", b_gram), **kw)


def lists(group, entry="h_structure", n=(4, 12)):
    """Longer lists than two."""
    out = []
    for k in n:
        out += gram(entry, (0, 0, group, 1, 0), forced=k)["levels"]
    out += gram(entry, (0, 0, group, 2, 0), forced=5)["levels"]
    return dict(entry=entry, levels=out, bounds=b_gram)


def huge(group, entry="h_structure", n=260, deep=33, p5=0, **kw):
    """Very long lists.  No samples: a model of a thousand variables takes longer than the proof."""
    out = gram(entry, (0, 0, group, 0, 0, p5), forced=n)["levels"]
    if deep:
        out += gram(entry, (0, 0, group, 1, 0, p5), forced=deep)["levels"]
    kw.setdefault("bounds", b_gram)
    return dict(entry=entry, levels=out, samples=0, growth=40, cap=20, steps=40000000, **kw)


def vast(group, entry="h_structure", **kw):
    """Very long and deep forms."""
    r = gram(entry, (0, 0, group, 1, 0) if group else (0, 0, 0, 0, 1), more=4, **kw)
    r.update(samples=0, cap=20, steps=40000000)
    return r


def more(group, *levels, entry="h_structure", **kw):
    """The second set of forms."""
    return gram(entry, *[(0, 0, group, f, o) for f, o in levels], more=1, **kw)


def nested(group, *levels, entry="h_structure", **kw):
    """Types in types."""
    return gram(entry, *[(0, 0, group, f, o) for f, o in levels], more=2, **kw)


def big(group, *levels, entry="h_structure", **kw):
    """Long and deep forms."""
    return gram(entry, *[(0, 0, group, f, o) for f, o in levels], more=3, **kw)


def frames(entry, *ns, spans=0, child=1, **kw):
    return dict(entry=entry, levels=[[n, 1, 0, 0, 0, 0, spans, child] for n in ns], bounds=b_frames, **kw)


CHECKS = {
    "C01": {"runs": [
        frames("h_roundtrip", 4, 5, 6, 7),
        gram("h_reprint", (0, 0, 0, 0, 2), (0, 0, 0, 0, 3), (0, 0, 0, 0, 4), growth=11),
        gram("h_reprint", (0, 0, 0, 0, 1), (0, 0, 0, 0, 2), (0, 0, 0, 0, 3), more=1, growth=14),
        gram("h_reprint", (0, 0, 0, 0, 1), more=2),
        gram("h_reprint", (0, 0, 0, 0, 1), more=3),
        huge(200, entry="h_reprint", deep=0),
        huge(300, entry="h_reprint", deep=0),
        huge(400, entry="h_reprint", deep=0),
        huge(500, entry="h_reprint", deep=0),
        huge(700, entry="h_reprint", deep=0),
        huge(800, entry="h_reprint", deep=0),
        vast(0, entry="h_reprint"),
    ]},
    "C02": {"runs": [
        gram("h_tail", (0, 0, 0, 0, 1, 2), (0, 0, 0, 0, 2, 1), (0, 0, 0, 0, 2, 3), growth=11,
             bounds=lambda p: b_gram(p) + "; followed by up to %d arbitrary tokens" % p[5]),
        gram("h_sequence", (0, 0, 0, 0, 1, 2), (0, 0, 0, 0, 0, 3), (0, 0, 0, 0, 1, 3), growth=11,
             bounds=lambda p: "%d declarations in a row, each: " % p[5] + b_gram(p)),
        gram("h_tail", (0, 0, 0, 0, 1, 1), (0, 0, 0, 0, 2, 1), more=1, growth=14,
             bounds=lambda p: b_gram(p) + "; followed by up to %d arbitrary tokens" % p[5]),
        frames("h_prefix", 4, 5, 6),
        huge(200, entry="h_tail", deep=0),
        huge(500, entry="h_tail", deep=0),
        huge(800, entry="h_tail", deep=0),
        vast(0, entry="h_tail"),
    ]},
    "C03": {"runs": [
        gram("h_spans", (0, 0, 0, 0, 2), (0, 0, 0, 0, 3), growth=11,
             bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        gram("h_spans", (0, 0, 0, 0, 1), (0, 0, 0, 0, 2), more=1, growth=14,
             bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        gram("h_spans", (0, 0, 0, 0, 1), more=2, bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        gram("h_spans", (0, 0, 0, 0, 1), more=3, bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        frames("h_roundtrip", 4, 5, 6, spans=1),
        huge(200, entry="h_spans", deep=0, n=130, bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        huge(300, entry="h_spans", deep=0, n=130, bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        huge(400, entry="h_spans", deep=0, n=130, bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        huge(500, entry="h_spans", deep=0, n=130, bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        huge(800, entry="h_spans", deep=0, n=130, bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
        vast(0, entry="h_spans", bounds=lambda p: b_gram(p) + "; spans that can be joined, and spans that cannot"),
    ]},
    "C04": {"runs": [
        frames("h_total", 4, 5, 6),
        frames("h_total", 3, 4, 5, child=2),
        gram("h_total_item", (0, 0, 0, 0, 1), (0, 0, 0, 0, 2), (0, 0, 0, 0, 3), growth=14),
        gram("h_total_item", (0, 0, 0, 0, 1), (0, 0, 0, 0, 2), more=1, growth=14),
        gram("h_total_item", (0, 0, 0, 0, 1), more=3),
        huge(200, entry="h_total_item", deep=0),
        huge(300, entry="h_total_item", deep=0),
        huge(400, entry="h_total_item", deep=0),
        huge(500, entry="h_total_item", deep=0),
        huge(700, entry="h_total_item", deep=0),
        huge(800, entry="h_total_item", deep=0),
        vast(0, entry="h_total_item"),
    ]},
    "C05": {"runs": [
        gram("h_structure", (0, 0, 100, 0, 2), (0, 0, 100, 0, 3), (0, 0, 100, 0, 4), growth=11),
        gram("h_structure", (0, 0, 0, 0, 2), (0, 0, 0, 0, 3), growth=11),
        gram("h_structure", (0, 0, 0, 0, 1), (0, 0, 0, 0, 2), (0, 0, 0, 0, 3), more=1, growth=14),
        gram("h_structure", (0, 0, 800, 3, 0), (0, 0, 800, 3, 1), deep=2),
        gram("h_structure", (0, 0, 0, 0, 1), more=2),
        gram("h_structure", (0, 0, 0, 0, 1), more=3),
        vast(0),
    ]},
    "C06": {"runs": [
        gram("h_structure", (0, 0, 200, 3, 0), (0, 0, 200, 3, 1), (0, 0, 200, 4, 1)),
        gram("h_structure", (2, 1, 200, 2, 0), (3, 1, 200, 2, 0), (3, 1, 200, 2, 1), (3, 2, 200, 3, 0), (4, 2, 200, 3, 1)),
        more(200, (2, 0), (3, 0)),
        nested(200, (1, 0), (2, 0), (3, 0)),
        big(200, (2, 0), (3, 0)),
        lists(200),
        huge(200),
        vast(200),
    ]},
    "C07": {"runs": [
        gram("h_structure", (0, 0, 300, 3, 0), (0, 0, 300, 3, 1), (0, 0, 300, 4, 0)),
        gram("h_structure", (2, 1, 300, 2, 0), (3, 1, 300, 2, 0), (3, 2, 300, 3, 0)),
        gram("h_generics", (0, 0, 300, 4, 0), (2, 1, 300, 5, 0)),
        more(300, (2, 0), (3, 0), (3, 1)),
        nested(300, (2, 0), (3, 0)),
        big(300, (2, 0), (3, 0)),
        more(300, (2, 0), (3, 0), (4, 0), entry="h_generics"),
        lists(300),
        lists(300, entry="h_generics", n=(4, 9)),
        huge(300),
        vast(300),
        huge(300, entry="h_generics"),
    ]},
    "C08": {"runs": [
        gram("h_structure", (0, 0, 400, 2, 0), (0, 0, 400, 2, 1), (0, 0, 400, 3, 0)),
        gram("h_structure", (2, 1, 400, 1, 0), (3, 1, 400, 1, 0), (3, 1, 400, 2, 0)),
        gram("h_predicate", (3, 2, 400, 3, 0), (4, 2, 400, 3, 0), (4, 2, 400, 4, 0)),
        more(400, (1, 0), (2, 0), (2, 1)),
        nested(400, (1, 0), (2, 0)),
        big(400, (1, 0), (2, 0), growth=25),
        big(400, (2, 0), (3, 0), entry="h_predicate"),
        nested(400, (1, 0), (2, 0), entry="h_predicate", growth=80),
        more(400, (3, 0), (4, 0), entry="h_predicate"),
        lists(400, n=(4, 8)),
        huge(400),
        vast(400),
    ]},
    "C09": {"runs": [
        gram("h_structure", (0, 0, 500, 2, 1), (0, 0, 500, 3, 0), (0, 0, 500, 3, 1), (0, 0, 500, 4, 0)),
        gram("h_structure", (2, 1, 500, 2, 0), (3, 1, 500, 2, 0), (3, 2, 500, 3, 0)),
        more(500, (2, 0), (2, 1), (3, 0), (3, 1)),
        nested(500, (1, 0), (2, 0)),
        big(500, (2, 0), (3, 0)),
        lists(500),
        huge(500),
        vast(500),
    ]},
    "C10": {"runs": [
        dict(entry="h_discriminant", levels=[[3, 0, 0, 0, 0, 1, 0], [4, 0, 0, 0, 0, 2, 0], [5, 0, 0, 0, 0, 3, 0]],
             bounds=lambda p: "an enum of up to 3 variants, one with a discriminant of 1 to %d arbitrary tokens, inside up to %d modules" % (p[0], p[5])),
        dict(entry="h_discriminant", levels=[[1, 0, 0, 0, 0, 1, 0, 2], [2, 0, 0, 0, 0, 1, 0, 2], [3, 0, 0, 0, 0, 1, 0, 2]], growth=20,
             bounds=lambda p: "an enum of up to 3 variants, one with a discriminant of 1 to %d arbitrary tokens, a group holding up to %d, inside up to %d modules" % (p[0], p[7], p[5])),
        gram("h_structure", (0, 0, 600, 3, 1), (0, 0, 600, 3, 2), (2, 1, 600, 4, 2), growth=20),
    ]},
    "C11": {"runs": [
        gram("h_structure", (0, 0, 700, 2, 1), (0, 0, 700, 3, 0), (0, 0, 700, 3, 1), growth=12),
        gram("h_structure", (2, 1, 700, 2, 0), (3, 1, 700, 3, 0), (4, 2, 700, 3, 0)),
        more(700, (2, 0), (2, 1), (3, 0), growth=12),
        big(700, (2, 0), (3, 0), growth=12),
        lists(700),
        huge(700),
        vast(700),
    ]},
    "C12": {"runs": [
        gram("h_structure", (0, 0, 800, 2, 1), (0, 0, 800, 3, 0), (0, 0, 800, 3, 1), (0, 0, 800, 4, 1)),
        gram("h_structure", (2, 1, 800, 2, 0), (3, 1, 800, 3, 0), (3, 2, 800, 3, 0)),
        more(800, (2, 0), (2, 1), (3, 0), (3, 1)),
        nested(800, (1, 0), (2, 0), (3, 0)),
        big(800, (2, 0), (3, 0)),
        gram("h_structure", (0, 0, 800, 2, 0), (0, 0, 800, 3, 0), (0, 0, 800, 4, 0), deep=2),
        lists(800, n=(4, 10)),
        huge(800),
        vast(800),
    ]},
    "C13": {"runs": [
        dict(entry="h_path", levels=[[4, 0], [5, 0], [6, 0], [7, 0]], bounds=lambda p: "types of up to %d arbitrary tokens" % p[0]),
        dict(entry="h_path_frame", levels=[[2], [3], [4], [5], [6]],
             bounds=lambda p: "types of up to %d arbitrary tokens after each of the beginnings and before each of the ends a path can have" % p[0]),
        dict(entry="h_path", levels=[[2, 1, 0, 0, 0, 0, 0, 3], [2, 1, 0, 0, 0, 0, 0, 4], [4, 1, 0, 0, 0, 0, 0, 3], [5, 1, 0, 0, 0, 0, 0, 4], [6, 1, 0, 0, 0, 0, 0, 5]],
             bounds=lambda p: "types of up to %d arbitrary tokens, also wrapped in an invisible group of up to %d" % (p[0], get(p, 7))),
        dict(entry="h_path_types", levels=[[0]], bounds="types that are one of 16 forms around one of 47 forms"),
        dict(entry="h_path_types", levels=[[1]], bounds="12 shapes of long and deep types, of 3 to 40 elements or levels"),
        dict(entry="h_path_args", levels=[[3, 0], [4, 0], [5, 0], [6, 0]],
             bounds=lambda p: "paths with a list of arguments of up to %d arbitrary tokens" % p[0]),
    ]},
    "C14": {"runs": [
        dict(entry="h_punctuated", levels=[[4, 1, 0, 1], [5, 1], [6, 1]],
             bounds=lambda p: "all histories of up to %d pushes and inserts, each with or without a comma, at any index" % p[0]),
        dict(entry="h_punctuated", levels=[[2, 1, 9, 1], [3, 1, 5, 1], [2, 1, 17, 1]],
             bounds=lambda p: "a list of %d items, then all histories of up to %d pushes and inserts, then an item replaced" % (p[2], p[0])),
        dict(entry="h_punctuated", levels=[[1, 1, 130, 0], [1, 1, 260, 0]], samples=0, cap=40, steps=40000000,
             bounds=lambda p: "a list of %d items, then one push or insert at any index" % p[2]),
    ]},
    "C15": {"runs": [
        gram("h_edit", (0, 0, 300, 2, 0, 1), (0, 0, 300, 1, 1, 2), (0, 0, 300, 2, 1, 2), growth=20,
             bounds=lambda p: b_gram(p) + "; structs, enums and unions; up to %d edits" % p[5]),
        gram("h_edit", (0, 0, 400, 1, 0, 1), (0, 0, 400, 1, 0, 2), (0, 0, 400, 2, 0, 2),
             bounds=lambda p: b_gram(p) + "; structs, enums and unions; up to %d edits" % p[5]),
        gram("h_edit", (0, 0, 300, 1, 0, 1), (0, 0, 300, 2, 0, 1), more=1,
             bounds=lambda p: b_gram(p) + "; structs, enums and unions; up to %d edits" % p[5]),
        gram("h_edit", (0, 0, 300, 1, 0, 1), (0, 0, 300, 1, 0, 2), forced=4,
             bounds=lambda p: b_gram(p) + "; structs, enums and unions; up to %d edits" % p[5]),
        gram("h_edit", (0, 0, 700, 2, 0, 1), (0, 0, 700, 2, 1, 1), forced=2, growth=20,
             bounds=lambda p: b_gram(p) + "; structs, enums and unions; up to %d edits" % p[5]),
        gram("h_edit", (0, 0, 200, 2, 0, 1), (0, 0, 200, 2, 1, 1), growth=20,
             bounds=lambda p: b_gram(p) + "; structs, enums and unions; up to %d edits" % p[5]),
        gram("h_edit", (0, 0, 600, 2, 0, 1), growth=20,
             bounds=lambda p: b_gram(p) + "; structs, enums and unions; up to %d edits" % p[5]),
        gram("h_edit_item", (0, 0, 700, 1, 1), (0, 0, 700, 2, 1)),
        huge(300, entry="h_edit", deep=0, n=130, p5=1, bounds=lambda p: b_gram(p) + "; structs, enums and unions; up to %d edits" % p[5]),
        huge(700, entry="h_edit_item", deep=0, n=130),
    ]},
    "C16": {"runs": [
        dict(entry="h_error", levels=[[1, 2, 0], [2, 1, 0], [2, 2, 0], [3, 1, 0]], growth=70,
             bounds=lambda p: "up to %d combinations in any order; errors at no place, at a span, at up to %d arbitrary tokens" % (p[0], p[1])),
        dict(entry="h_error_long", levels=[[3, 3], [5, 4], [6, 6]], growth=50,
             bounds=lambda p: "chains of up to %d errors, each itself a chain of up to %d" % (p[0], p[1])),
        dict(entry="h_error_long", levels=[[2, 35, 1], [2, 130, 1]], samples=0, cap=40, steps=40000000,
             bounds=lambda p: "a chain of %d chains of %d errors each" % (p[0], p[1])),
        dict(entry="h_error", levels=[[0, 3, 1]], bounds="one error with an arbitrary identifier of up to 16 bytes as its text"),
    ]},
    "C17": {"runs": [
        gram("h_accessors", (0, 0, 0, 0, 1), (0, 0, 0, 0, 2), growth=20),
        gram("h_accessors", (0, 0, 200, 3, 0), (0, 0, 200, 4, 0), growth=12),
        gram("h_accessors", (0, 0, 600, 2, 2, 0, 2), (0, 0, 600, 2, 3, 0, 2),
             bounds=lambda p: "enums; " + b_gram(p)),
        gram("h_accessors", (0, 0, 0, 0, 1), (0, 0, 0, 0, 2), more=1, growth=20),
        lists(200, entry="h_accessors", n=(4, 11)),
        huge(200, entry="h_accessors"),
        huge(300, entry="h_accessors"),
    ]},
    "C18": {"runs": [
        gram("h_structure", (0, 0, 900, 3, 0), (0, 0, 900, 3, 1), (0, 0, 900, 4, 1)),
        gram("h_structure", (2, 1, 900, 3, 0), (3, 1, 900, 3, 0), (3, 2, 900, 3, 0), growth=10),
        more(900, (2, 0), (2, 1), (3, 0)),
        nested(900, (1, 0), (2, 0), (3, 0)),
        big(900, (2, 0), (3, 0)),
        vast(900),
    ]},
}
