//! C18 map literals, C19 calls.
use super::common::*;
use super::language::big_case;
use crate::big::{self, Big};
use crate::engine::{CaseResult, Ctx, Prop, Src, Sub};
use crate::gen::{self, Cfg, Gen, Z};
use crate::refparse::Start;
use crate::refscan::Places;
use crate::render::{render, Choice, Style};
use crate::tree::{self, E, FK, S};
use crate::{render, sut};
use unicode_segmentation::UnicodeSegmentation;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "Lists of entries (identifier and string keys of any text, simple and nested values) are written in every style of map literal and in every context, some within lists of other items; the tree has to hold exactly the entries in order. Keys are then repeated in any spelling, and the error has to be at the second occurrence. Non-trivial: at least two entries.",
            assumptions: &["braced maps with entries on lines of their own, deeper than the surrounding code and without commas, are a known finding and not written"],
            subs: vec![
                Sub { name: "styles", quick: 150_000, thorough: 6_000_000, run: c18_styles },
                Sub { name: "lists", quick: 60_000, thorough: 3_000_000, run: c18_lists },
                Sub { name: "duplicates", quick: 100_000, thorough: 4_000_000, run: c18_dups },
                Sub { name: "programs", quick: 60_000, thorough: 3_000_000, run: c18_programs },
                Sub { name: "large", quick: 600, thorough: 20_000, run: c18_large },
            ],
            guided: true,
            known: vec![(
                "braced-map-lines",
                "a map in braces with its entries on indented lines of their own, without commas, is rejected",
                || {
                    expect_map("var m = {\n  a: 1\n  b: 2\n}\n")
                },
            )],
        },
        Prop {
            id: "C19",
            rule: "Calls are drawn as callee and arguments and written both ways (touching parentheses, or after a space), in every statement and expression context; the calls have to be equal, with the arguments in order. Every kind of callee is followed, after every kind of gap, by everything that might start an argument and by what cannot; the outcome has to be that of a reference parser. All list lengths from 0 to 300 are enumerated for every kind of function and call, and drawn with arguments of all kinds and with one flaw. Non-trivial: at least one argument.",
            assumptions: &[],
            subs: vec![
                Sub { name: "styles", quick: 150_000, thorough: 6_000_000, run: c19_styles },
                Sub { name: "parentheses", quick: 80_000, thorough: 3_000_000, run: c19_parens },
                Sub { name: "what follows", quick: 12 * FOLLOW, thorough: 600 * FOLLOW, run: c19_follow },
                Sub { name: "limits", quick: 301 * LIMIT_KINDS, thorough: 301 * LIMIT_KINDS, run: c19_limits },
                Sub { name: "broken lists", quick: 40_000, thorough: 2_000_000, run: c19_broken },
                Sub { name: "long lists", quick: 4_000, thorough: 200_000, run: c19_long },
                Sub { name: "programs", quick: 60_000, thorough: 3_000_000, run: c19_programs },
                Sub { name: "extremes", quick: 300, thorough: 20_000, run: c19_big },
            ],
            guided: true,
            known: vec![],
        },
    ]
}

fn expect_map(s: &str) -> CaseResult {
    let t = must_parse(s)?;
    match t.as_slice() {
        [S::Var(_, _, E::Map(m), _)] if m.len() == 2 => Ok(()),
        _ => Err(format!("{t:?}")),
    }
}

/// Deeper than any line a value is put on.
const IN: &str = "                    ";

// -------------------------------------------------------------------- C18

struct Entry {
    key: String,
    /// The key as written.
    written: String,
    value: String,
    tree: E,
}

fn value(src: &mut Src, depth: usize) -> (String, E) {
    let v = |s: &str, e: E| (s.to_owned(), e);
    match src.below(if depth > 0 { 14 } else { 9 }) {
        0 => {
            let n = src.below(100) as u32;
            (n.to_string(), gen::num(n))
        }
        1 => v("a", gen::var("a")),
        2 => v("\"s, t\"", E::Str("s, t".into())),
        3 => v("nil", E::Nil),
        4 => v(
            "b + -1",
            gen::bin(
                tree::BOp::Plus,
                gen::var("b"),
                E::Un(tree::UOp::Minus, Box::new(gen::num(1)), Z),
            ),
        ),
        5 => v(
            "f(a, b)",
            E::Call(
                Box::new(gen::var("f")),
                vec![gen::var("a"), gen::var("b")],
                Z,
            ),
        ),
        6 => v(
            "[a, 1]",
            E::Array(vec![gen::var("a"), gen::num(1)]),
        ),
        7 => v("{}", E::Map(vec![])),
        8 => v("c.d", E::Get(Box::new(gen::var("c")), "d".into(), Z)),
        9 => v(
            "fun (x) { while (x) { } }",
            E::Fun(Box::new(tree::FunD {
                params: vec![("x".into(), Z)],
                body: vec![S::While(gen::var("x"), Box::new(S::Block(vec![])))],
                kind: FK::Plain,
                loc: Z,
            })),
        ),
        10 => v(
            "a = b",
            E::Assign("a".into(), None, Box::new(gen::var("b")), Z),
        ),
        11 => {
            let e = entries(src, 3, depth - 1);
            let s = e.iter().map(text).collect::<Vec<_>>().join(", ");
            (format!("{{{s}}}"), map_of(e))
        }
        12 => {
            let e = entries(src, 3, depth - 1);
            let s = e.iter().map(text).collect::<Vec<_>>().join(&format!(",\n{IN}"));
            (format!("{{\n{IN}{s},\n{IN}}}"), map_of(e))
        }
        _ => {
            let (s, e) = value(src, depth - 1);
            (format!("({s})"), E::Group(Box::new(e)))
        }
    }
}

fn text(e: &Entry) -> String {
    format!("{}: {}", e.written, e.value)
}

fn map_of(e: Vec<Entry>) -> E {
    E::Map(e.into_iter().map(|e| (e.key, e.tree)).collect())
}

fn a_key(src: &mut Src) -> (String, String) {
    match src.weighted(&[4, 3, 2, 2]) {
        0 => {
            let n = gen::name_of(src, false);
            (n.clone(), n)
        }
        1 => {
            let n = gen::name_of(src, false);
            let w = format!("\"{n}\"");
            (n, w)
        }
        2 => {
            let mut s = gen::string(src, true);
            s.retain(|c| c != '"');
            if s.starts_with('\u{301}') {
                s.insert(0, 'x');
            }
            let w = format!("\"{s}\"");
            (s, w)
        }
        _ => {
            let s = (*src.pick(&["if", "true", "", "1", "a b", "k", "this", "A", "é"])).to_owned();
            let w = format!("\"{s}\"");
            (s, w)
        }
    }
}

/// Another key much like the given one.
fn like(src: &mut Src, key: &str) -> (String, String) {
    let key = match key.chars().count() {
        0..=8 if src.chance(1, 2) => format!("{key}longer{key}Name"),
        _ => key.to_owned(),
    };
    let k = match src.below(9) {
        0 => key.to_uppercase(),
        1 => key.to_lowercase(),
        2 => {
            let mut c: Vec<char> = key.chars().collect();
            let n = c.len();
            if n > 0 {
                let i = src.below(n as u64) as usize;
                c[i] = match c[i] {
                    x if x.is_ascii_uppercase() => x.to_ascii_lowercase(),
                    x => x.to_ascii_uppercase(),
                };
            }
            c.into_iter().collect()
        }
        3 => format!("{key}{}", src.pick(&["", "_", " ", "0", "s", "\u{200b}"])),
        4 => format!("{}{key}", src.pick(&["_", " ", "0", "x"])),
        5 => key.trim().to_owned(),
        6 => key.chars().rev().collect(),
        7 => {
            let mut k = key.clone();
            k.pop();
            k
        }
        _ => key,
    };
    let w = format!("\"{k}\"");
    // Quotes within, or grown together with the text.
    if w.graphemes(true).filter(|g| *g == "\"").count() != 2 || k.contains('"') {
        return ("z".into(), "z".into());
    }
    (k, w)
}

fn entries(src: &mut Src, max: usize, depth: usize) -> Vec<Entry> {
    let n = src.range(1, max);
    let mut out: Vec<Entry> = Vec::new();
    for i in 0..n {
        let (mut key, mut written) = a_key(src);
        if !out.is_empty() && src.chance(1, 6) {
            let other = &out[src.below(out.len() as u64) as usize];
            (key, written) = like(src, &other.key);
        }
        if out.iter().any(|e| e.key == key) {
            key = format!("u{i}");
            while out.iter().any(|e| e.key == key) {
                key.push('_');
            }
            written = key.clone();
        }
        let (value, tree) = value(src, depth);
        out.push(Entry {
            key,
            written,
            value,
            tree,
        });
    }
    out
}

/// Contexts that a map without braces may stand in, up to its line's end.
fn line_context(src: &mut Src) -> (&'static str, &'static str, fn(E) -> S) {
    *src.pick(&[
        ("var m = ", "\n", (|e| S::Var("m".into(), None, e, Z)) as fn(E) -> S),
        ("print ", "\n", S::Print),
        ("return ", "\n", |e| S::Return(e, Z)),
        ("x = ", "\n", |e| {
            S::Expr(E::Assign("x".into(), None, Box::new(e), Z))
        }),
        ("f ", "\n", |e| {
            S::Expr(E::Call(Box::new(gen::var("f")), vec![e], Z))
        }),
        ("f(", ")\n", |e| {
            S::Expr(E::Call(Box::new(gen::var("f")), vec![e], Z))
        }),
        ("a[", "]\n", |e| {
            S::Expr(E::Index(Box::new(gen::var("a")), Box::new(e), Z))
        }),
        ("a.b = ", "\n", |e| {
            S::Expr(E::Set(Box::new(gen::var("a")), "b".into(), Box::new(e), Z))
        }),
        ("if (", ") 1\n", |e| {
            S::If(e, Box::new(S::Expr(gen::num(1))), None)
        }),
        ("print (", ")\n", |e| S::Print(E::Group(Box::new(e)))),
    ])
}

fn c18_styles(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = *src.pick(&[2, 4, 8, 30]);
    let e = entries(src, max, 2);
    let n = e.len();
    let texts: Vec<String> = e.iter().map(text).collect();
    let (s, want) = style(src, ctx, &texts, e);
    // In a statement of its own among others.
    let before = src.pick(&["", "a\n", "var m = 1\n", "// c\n"]).to_string();
    let s = format!("{before}{s}print 0\n");
    ctx.input("source", &s);
    ctx.case(&s, n > 1);
    let t = tree::no_locs(must_parse(&s)?);
    let b = tree::no_locs(must_parse(&before)?);
    let mut all = b;
    all.push(want);
    all.push(S::Print(gen::num(0)));
    if t != all {
        return Err(tree::diff("trees", &all, &t));
    }
    Ok(())
}

fn style(src: &mut Src, ctx: &mut Ctx, texts: &[String], e: Vec<Entry>) -> (String, S) {
    let trailing = if src.chance(1, 2) { "," } else { "" };
    let m = map_of(e);
    match src.below(8) {
        0 => {
            ctx.label("braces on one line");
            let (a, b, f) = line_context(src);
            let s = texts.join(", ");
            (format!("{a}{{{s}{trailing}}}{b}"), f(m))
        }
        1 => {
            ctx.label("braces on several lines, with commas");
            let (a, b, f) = line_context(src);
            let ind = " ".repeat(src.range(0, 5));
            let s = texts.join(&format!(",\n{ind}"));
            let end = match src.below(3) {
                // Without a comma, a line end at the same indentation.
                0 => format!("{trailing}}}"),
                1 => format!("{trailing} }}"),
                _ => ",\n}".to_string(),
            };
            (format!("{a}{{\n{ind}{s}{end}{b}"), f(m))
        }
        2 => {
            ctx.label("braces, with line ends");
            let (a, b, f) = line_context(src);
            let s = texts.join("\n");
            let end = if src.chance(1, 2) { "\n}" } else { "}" };
            (format!("{a}{{{s}{end}{b}"), f(m))
        }
        3 => {
            ctx.label("no braces on one line");
            let (a, b, f) = line_context(src);
            let s = texts.join(", ");
            (format!("{a}{s}{b}"), f(m))
        }
        4 => {
            ctx.label("no braces, with commas and line breaks");
            let (a, b, f) = line_context(src);
            let ind = " ".repeat(src.range(1, 5));
            let s = texts.join(&format!(",\n{ind}"));
            (format!("{a}{s}{b}"), f(m))
        }
        5 => {
            ctx.label("indented, with line ends");
            let ind = " ".repeat(src.range(1, 8));
            let gap = src.pick(&["", "\n", "// c\n", "   \n"]);
            let s = texts.join(&format!("\n{gap}{ind}"));
            (
                format!("var m =\n{gap}{ind}{s}\n{gap}"),
                S::Var("m".into(), None, m, Z),
            )
        }
        6 => {
            ctx.label("indented, commas and line ends mixed");
            let ind = " ".repeat(src.range(1, 8));
            let mut s = format!("var m =\n{ind}");
            for (i, t) in texts.iter().enumerate() {
                if i > 0 {
                    match src.below(4) {
                        0 => s.push_str(", "),
                        1 => s.push_str(&format!(",\n{ind}")),
                        _ => s.push_str(&format!("\n{ind}")),
                    }
                }
                s.push_str(t);
            }
            s.push_str("\n");
            (s, S::Var("m".into(), None, m, Z))
        }
        _ => {
            ctx.label("within blocks");
            // Indented in an indented body.
            let s = texts.join("\n     ");
            (
                format!("while (a)\n  var m =\n     {s}\n  b\n"),
                S::While(
                    gen::var("a"),
                    Box::new(S::Block(vec![
                        S::Var("m".into(), None, m, Z),
                        S::Expr(gen::var("b")),
                    ])),
                ),
            )
        }
    }
}

/// Maps without braces among the items of a list.
fn c18_lists(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 5);
    let mut items: Vec<(String, E, bool)> = Vec::new();
    for _ in 0..n {
        let after_map = items.last().is_some_and(|i| i.2);
        if src.chance(1, 2) && !after_map {
            let e = entries(src, 4, 1);
            let sep = *src.pick(&[", ", ",\n  "]);
            let s = e.iter().map(text).collect::<Vec<_>>().join(sep);
            items.push((s, map_of(e), true));
        } else {
            let (s, e) = value(src, 1);
            // After a map, an assignment could not be told from an operand.
            items.push((s, e, false));
        }
    }
    let s = items
        .iter()
        .map(|i| i.0.as_str())
        .collect::<Vec<_>>()
        .join(src.pick(&[", ", ",", ",\n "]));
    let list: Vec<E> = items.iter().map(|i| i.1.clone()).collect();
    let f = || Box::new(gen::var("f"));
    let (s, want) = match src.below(3) {
        0 => (
            format!("print [{s}{}]\n", if src.chance(1, 2) { "," } else { "" }),
            S::Print(E::Array(list)),
        ),
        1 => (format!("f({s})\n"), S::Expr(E::Call(f(), list, Z))),
        _ => {
            // The first argument decides whether parentheses may go.
            let s = format!("f 0, {s}\n");
            let mut l = vec![gen::num(0)];
            l.extend(list);
            (s, S::Expr(E::Call(f(), l, Z)))
        }
    };
    ctx.input("source", &s);
    ctx.case(&s, items.iter().any(|i| i.2));
    let t = tree::no_locs(must_parse(&s)?);
    if t != [want.clone()] {
        return Err(tree::diff("trees", &vec![want], &t));
    }
    Ok(())
}

fn c18_dups(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = *src.pick(&[2, 3, 6, 40]);
    let mut e = entries(src, max, 1);
    if e.len() < 2 {
        e.push(Entry {
            key: "zz".into(),
            written: "zz".into(),
            value: "1".into(),
            tree: gen::num(1),
        });
    }
    let b = src.range(1, e.len() - 1);
    let a = src.idx(b);
    let key = e[a].key.clone();
    let written = if render::is_ident(&key) && src.chance(1, 2) {
        key.clone()
    } else {
        format!("\"{key}\"")
    };
    if written != e[a].written {
        ctx.label("spelled differently");
    }
    e[b].key = key;
    e[b].written = written;
    // Find the second occurrence by a mark that is replaced after.
    let mark = "@@";
    e[b].written = format!("{mark}{}", e[b].written);
    let texts: Vec<String> = e.iter().map(text).collect();
    let (s, _) = style(src, ctx, &texts, e);
    let at = s.find(mark).unwrap();
    let s = s.replacen(mark, "", 1);
    let at = Places::new(&s).at(at);
    ctx.input("source", &s);
    ctx.case(&s, true);
    match sut::parse(&s)? {
        Ok(_) => Err("accepted a map with a repeated key".into()),
        Err(c) if c[0].loc == at => Ok(()),
        Err(c) => Err(format!("errors {}; expected one at {at:?}", brief(&c))),
    }
}

fn c18_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = *src.pick(&[10, 20, 40]);
    let p = {
        let mut g = Gen::new(src, Cfg::new(f));
        let mut p = g.program();
        g.refuel(20);
        let m = g.map();
        p.push(S::Var("m9".into(), None, E::Map(m), Z));
        p
    };
    let mut st = Style::random(src);
    if src.chance(1, 2) {
        st.bare_maps = Choice::Always;
        st.vary = true;
    }
    let r = render(src, &p, &st);
    ctx.input("source", &r.text);
    note_used(ctx, &r);
    ctx.case(&r.text, r.used.bare_maps > 0 || r.text.contains('{'));
    let t = must_parse(&r.text)?;
    if t != r.tree {
        return Err(tree::diff("trees", &r.tree, &t));
    }
    Ok(())
}

fn c18_large(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &[Big::Map], 100);
    big_case(ctx, k, &s);
    if let Some(toks) = lex_agree(&s)? {
        let _ = parse_agree(&s, &toks, Start::File)?;
    }
    Ok(())
}

// -------------------------------------------------------------------- C19

fn callee(src: &mut Src) -> (&'static str, E) {
    let v = gen::var;
    let b = Box::new;
    match src.below(8) {
        0 | 1 => ("f", v("f")),
        2 => ("a.m", E::Get(b(v("a")), "m".into(), Z)),
        3 => ("a[0]", E::Index(b(v("a")), b(gen::num(0)), Z)),
        4 => ("f(1)", E::Call(b(v("f")), vec![gen::num(1)], Z)),
        5 => ("super.m", E::Super(None, "m".into(), Z)),
        6 => ("(g)", E::Group(b(v("g")))),
        _ => ("this.p", E::Get(b(v("this")), "p".into(), Z)),
    }
}

/// An argument; the first may only start with certain tokens.
fn argument(src: &mut Src, first: bool) -> (String, E) {
    let v = |s: &str, e: E| (s.to_owned(), e);
    let b = Box::new;
    let n = if first { 12 } else { 17 };
    match src.below(n) {
        0 => {
            let n = src.below(1000) as u32;
            (n.to_string(), gen::num(n))
        }
        1 => {
            let n = gen::name_of(src, false);
            let e = gen::var(&n);
            (n, e)
        }
        2 => v("\"s\"", E::Str("s".into())),
        3 => v("true", E::Bool(true)),
        4 => v("nil", E::Nil),
        5 => v("(a)", E::Group(b(gen::var("a")))),
        6 => v("{k: 1}", E::Map(vec![("k".into(), gen::num(1))])),
        7 => v("super.q", E::Super(None, "q".into(), Z)),
        8 => v(
            "fun (x) { while (x) { } }",
            E::Fun(Box::new(tree::FunD {
                params: vec![("x".into(), Z)],
                body: vec![S::While(gen::var("x"), Box::new(S::Block(vec![])))],
                kind: FK::Plain,
                loc: Z,
            })),
        ),
        9 => v(
            "a = 1",
            E::Assign("a".into(), None, b(gen::num(1)), Z),
        ),
        10 => v(
            "a + b * 2",
            gen::bin(
                tree::BOp::Plus,
                gen::var("a"),
                gen::bin(tree::BOp::Mul, gen::var("b"), gen::num(2)),
            ),
        ),
        11 => v(
            "g(a, b)",
            E::Call(b(gen::var("g")), vec![gen::var("a"), gen::var("b")], Z),
        ),
        12 => v("-1", E::Un(tree::UOp::Minus, b(gen::num(1)), Z)),
        13 => v("!a", E::Un(tree::UOp::Not, b(gen::var("a")), Z)),
        14 => v("[a]", E::Array(vec![gen::var("a")])),
        15 => v("this", gen::var("this")),
        _ => v("[]", E::Array(vec![])),
    }
}

fn context(src: &mut Src) -> (&'static str, &'static str, fn(E) -> S) {
    *src.pick(&[
        ("", "\n", S::Expr as fn(E) -> S),
        ("print ", "\n", S::Print),
        ("return ", "\n", |e| S::Return(e, Z)),
        ("var v = ", "\n", |e| S::Var("v".into(), None, e, Z)),
        ("x = ", "\n", |e| {
            S::Expr(E::Assign("x".into(), None, Box::new(e), Z))
        }),
        ("print (", ")\n", |e| S::Print(E::Group(Box::new(e)))),
        ("print [", "]\n", |e| S::Print(E::Array(vec![e]))),
        ("a[", "]\n", |e| {
            S::Expr(E::Index(Box::new(gen::var("a")), Box::new(e), Z))
        }),
        ("h(1, ", ")\n", |e| {
            S::Expr(E::Call(
                Box::new(gen::var("h")),
                vec![gen::num(1), e],
                Z,
            ))
        }),
        ("while (", ") b\n", |e| {
            S::While(e, Box::new(S::Expr(gen::var("b"))))
        }),
        ("1 + ", "\n", |e| {
            S::Expr(gen::bin(tree::BOp::Plus, gen::num(1), e))
        }),
        ("!", "\n", |e| {
            S::Expr(E::Un(tree::UOp::Not, Box::new(e), Z))
        }),
        ("a or ", "\n", |e| {
            S::Expr(gen::logic(tree::LOp::Or, gen::var("a"), e))
        }),
        ("fun f()\n  return ", "\n", |e| {
            S::Fun(
                "f".into(),
                tree::FunD {
                    params: vec![],
                    body: vec![S::Return(e, Z)],
                    kind: FK::Plain,
                    loc: Z,
                },
            )
        }),
        ("outer ", "\n", |e| {
            S::Expr(E::Call(Box::new(gen::var("outer")), vec![e], Z))
        }),
    ])
}

fn c19_styles(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (c, ce) = callee(src);
    let n = match src.weighted(&[6, 6, 4, 2, 1]) {
        4 => src.range(1, 60),
        n => n + 1,
    };
    let a: Vec<(String, E)> = (0..n).map(|i| argument(src, i == 0)).collect();
    let (pre, post, f) = context(src);
    let starts_this = c.starts_with("this");
    if pre == "outer " && starts_this {
        // A call's bare argument cannot start so.
        return Ok(());
    }
    let sep = *src.pick(&[", ", ",", " , ", ",\n      "]);
    let args = a.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(sep);
    let gap = " ".repeat(src.range(1, 3));
    let pad = " ".repeat(src.idx(2));
    let touching = format!("{pre}{c}({pad}{args}{pad}){post}");
    let spaced = format!("{pre}{c}{gap}{args}{post}");
    let want = f(E::Call(
        Box::new(ce),
        a.into_iter().map(|x| x.1).collect(),
        Z,
    ));
    ctx.input("with parentheses", &touching);
    ctx.input("without", &spaced);
    ctx.case(&spaced, true);
    for s in [touching, spaced] {
        let t = tree::no_locs(must_parse(&s)?);
        if t != [want.clone()] {
            return Err(format!(
                "{}: {}",
                show(&s),
                tree::diff("trees", &vec![want], &t)
            ));
        }
    }
    Ok(())
}

/// A parenthesis that touches is the call's; one that doesn't starts the first
/// argument.
fn c19_parens(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (c, ce) = callee(src);
    let touch = src.chance(1, 2);
    let gap = if touch {
        ""
    } else {
        *src.pick(&[" ", "  ", "\\\n", " \\\n  ", " \\  \n\n (x)\\\n".split('(').next().unwrap()])
    };
    let (a, ae) = argument(src, false);
    let b = Box::new;
    let v = gen::var;
    // What comes after the closing parenthesis.
    let (after, more): (&str, fn(E) -> E) = *src.pick(&[
        ("", (|e| e) as fn(E) -> E),
        (".p", |e| E::Get(Box::new(e), "p".into(), Z)),
        ("[1]", |e| E::Index(Box::new(e), Box::new(gen::num(1)), Z)),
        ("(2)", |e| E::Call(Box::new(e), vec![gen::num(2)], Z)),
        (" + 1", |e| gen::bin(tree::BOp::Plus, e, gen::num(1))),
        (" and b", |e| gen::logic(tree::LOp::And, e, gen::var("b"))),
        (".p = 3", |e| {
            E::Set(Box::new(e), "p".into(), Box::new(gen::num(3)), Z)
        }),
    ]);
    let s = format!("{c}{gap}({a}){after}\n");
    let want = if touch {
        more(E::Call(b(ce), vec![ae], Z))
    } else {
        E::Call(b(ce), vec![more(E::Group(b(ae)))], Z)
    };
    let _ = v;
    ctx.label(if touch { "touching" } else { "apart" });
    ctx.input("source", &s);
    ctx.case(&s, true);
    let t = tree::no_locs(must_parse(&s)?);
    let want = vec![S::Expr(want)];
    if t != want {
        return Err(tree::diff("trees", &want, &t));
    }
    Ok(())
}

const HEADS: [&str; 18] = [
    "f", "a.m", "a[0]", "f(1)", "super.m", "(g)", "this.p", "this", "nil", "1", "\"s\"",
    "true", "false", "-f", "!f", "f.x = g", "fun (x) {x}", "f g",
];
const GAPS: [&str; 6] = ["", " ", "   ", " \\\n  ", "\n", "\n  "];
const NEXT: [&str; 43] = [
    "!", "!x", "-", "-x", "--x", "!!x", "not", "x", "1", "1.5", ".5", "\"s\"", "nil", "true", "false",
    "this", "super", "super.m", "fun", "fun ()", "fun () {y}", "(x)", "()", "(", "[1]", "[]",
    "{a: 1}", "{}", "{x}", "a: 1", "\"a\": 1", "x: 1", ",", ".p", "=", "==", "*", "/", "+", "and",
    "or", "if", "print",
];
const FOLLOW: u64 = (HEADS.len() * GAPS.len() * NEXT.len()) as u64;

/// Which tokens start the argument of a call, and which don't.
fn c19_follow(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = (src.index % FOLLOW) as usize;
    let head = HEADS[i % HEADS.len()];
    let i = i / HEADS.len();
    let (gap, next) = (GAPS[i % GAPS.len()], NEXT[i / GAPS.len()]);
    let tail = *src.pick(&["", "", " x", ", y", "(1)", " + 1", " = 1", "[0]", ".p", " = b = 2", " \\\n z", "\n  b: 2"]);
    let (pre, post) = *src.pick(&[
        ("", ""), ("", ""), ("var v = ", ""), ("print ", ""), ("if (", ") b"), ("c = ", ""), ("g(", ")"),
        ("fun h() {", "}\\\n"), ("g ", ""), ("[", "]"), ("{k: ", "}"), ("1 + ", ""), ("while (", ") b"),
        ("class A {m() {return ", "} } c"), ("g(1, ", ", 2)"), ("g 1, ", ", 2"),
    ]);
    let s = format!("{pre}{head}{gap}{next}{tail}{post}\n");
    ctx.input("source", &s);
    let Some(toks) = lex_agree(&s)? else {
        return Ok(());
    };
    let r = parse_agree(&s, &toks, Start::File)?;
    ctx.label(if r.is_ok() { "accepted" } else { "rejected" });
    ctx.case(&s, gap.starts_with(' '));
    Ok(())
}

const LIMIT_KINDS: u64 = 14;

fn c19_limits(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = (src.index / LIMIT_KINDS) as usize % 301;
    let kind = src.index % LIMIT_KINDS;
    let item = |i: usize| match kind {
        0..=6 => format!("p{i}"),
        _ => match i % 4 {
            0 => format!("{i}"),
            1 => format!("a{i}"),
            2 => format!("({i})"),
            _ => format!("\"{i}\""),
        },
    };
    let list = (0..n).map(item).collect::<Vec<_>>().join(", ");
    let (a, b) = match kind {
        0 => ("fun f(", ")\n  p0\n"),
        1 => ("fun f(", ") {}"),
        2 => ("class A\n  m(", ")\n    p0\n"),
        3 => ("class A\n  init(", ")\n    p0\n"),
        4 => ("class A\n  class m(", ")\n    p0\n"),
        5 => ("class A { m() {} n(", ") {} }"),
        6 => ("print fun (", ") {}\n"),
        7 => ("f(", ")\n"),
        8 => ("a.b(", ")\n"),
        9 => ("super.m(", ")\n"),
        10 => ("f()(", ")\n"),
        11 => ("f ", "\n"),
        12 => ("print a.b ", "\n"),
        _ => ("g(f ", ")\n"),
    };
    let s = format!("{a}{list}{b}");
    ctx.input("source", &s);
    ctx.case(&s, n > 0);
    let r = sut::parse(&s)?;
    if n <= 255 {
        let t = r.map_err(|c| format!("{n} items rejected: {}", brief(&c)))?;
        let got = count_items(&t);
        if n > 0 || kind < 11 {
            let want: Vec<String> = (0..n).map(item).collect();
            if got != want {
                return Err(format!("{n} items written, read {got:?}"));
            }
        }
        return Ok(());
    }
    let at = a.len() + (0..255).map(|i| item(i).len() + 2).sum::<usize>();
    let at = Places::new(&s).at(at);
    match r {
        Ok(_) => Err(format!("{n} items accepted")),
        Err(c) if c[0].loc == at => Ok(()),
        Err(c) => Err(format!("{n} items: {}; expected an error at {at:?}", brief(&c))),
    }
}

/// Lists of arguments and parameters that mostly have one flaw.
fn c19_broken(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = super::language::broken_list(src, 7);
    super::language::c04_agree(&s, ctx)
}

/// Long lists of arguments of every kind.
fn c19_long(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match src.below(4) {
        0 => src.range(1, 300),
        1 => src.range(1, 20),
        _ => src.range(254, 258),
    };
    let (a, b, wrap, bare) = *src.pick(&[
        ("f(", ")\n", (|c, a| S::Expr(c(gen::var("f"), a))) as fn(fn(E, Vec<E>) -> E, Vec<E>) -> S, false),
        ("f ", "\n", |c, a| S::Expr(c(gen::var("f"), a)), true),
        ("print a.b(", ")\n", |c, a| {
            S::Print(c(E::Get(Box::new(gen::var("a")), "b".into(), Z), a))
        }, false),
        ("var m = a.b ", "\n", |c, a| {
            let f = E::Get(Box::new(gen::var("a")), "b".into(), Z);
            S::Var("m".into(), None, c(f, a), Z)
        }, true),
        ("return super.m(", ")\n", |c, a| {
            S::Return(c(E::Super(None, "m".into(), Z), a), Z)
        }, false),
        ("a = [f(", ")]\n", |c, a| {
            let e = E::Array(vec![c(gen::var("f"), a)]);
            S::Expr(E::Assign("a".into(), None, Box::new(e), Z))
        }, false),
        ("if (f()(", ")) { } \\\nelse { }\\\n", |c, a| {
            let f = c(gen::var("f"), vec![]);
            S::If(
                c(f, a),
                Box::new(S::Block(vec![])),
                Some(Box::new(S::Block(vec![]))),
            )
        }, false),
        ("g((f ", "))\n", |c, a| {
            S::Expr(c(gen::var("g"), vec![E::Group(Box::new(c(gen::var("f"), a)))]))
        }, true),
    ]);
    // Mostly one kind, with others at the ends and here and there.
    let main = value(src, 0);
    let rare = src.below(30);
    let mut text = a.to_owned();
    let mut starts = Vec::new();
    let mut items = Vec::new();
    for i in 0..n {
        let (mut t, mut e) = match (253..=256).contains(&i) || src.below(30) < rare {
            true => value(src, 1),
            false => main.clone(),
        };
        if i == 0 && bare && t.starts_with(['[', '-', '!']) {
            (t, e) = ("1".into(), gen::num(1));
        }
        if i > 0 {
            text.push_str(*src.pick(&[", ", ",", " , ", ", ", ",\n                    "]));
        }
        starts.push(text.len());
        text.push_str(&t);
        items.push(e);
    }
    text.push_str(b);
    text.push_str("print 0\n");
    ctx.input("source", &text);
    ctx.case(&text, n > 1);
    let r = sut::parse(&text)?;
    if n <= 255 {
        ctx.label("within the limit");
        let t = tree::no_locs(r.map_err(|c| format!("{n} items rejected: {}", brief(&c)))?);
        let want = vec![
            wrap(|c, a| E::Call(Box::new(c), a, Z), items),
            S::Print(gen::num(0)),
        ];
        if t != want {
            return Err(tree::diff("trees", &want, &t));
        }
        return Ok(());
    }
    ctx.label("beyond the limit");
    let at = Places::new(&text).at(starts[255]);
    match r {
        Ok(_) => Err(format!("{n} items accepted")),
        Err(c) if c[0].loc == at => Ok(()),
        Err(c) => Err(format!("{n} items: {}; expected an error at {at:?}", brief(&c))),
    }
}

/// The texts of the parameters or arguments in the first list found.
fn count_items(t: &[S]) -> Vec<String> {
    let show = |e: &E| match e {
        E::Num(b) => format!("{}", f64::from_bits(*b)),
        E::Var(n, ..) => n.clone(),
        E::Str(s) => format!("\"{s}\""),
        E::Group(x) => match &**x {
            E::Num(b) => format!("({})", f64::from_bits(*b)),
            _ => "?".into(),
        },
        _ => "?".into(),
    };
    fn of_expr(e: &E, show: &dyn Fn(&E) -> String) -> Vec<String> {
        match e {
            E::Call(c, a, _) if a.len() == 1 && matches!(a[0], E::Call(..)) => {
                let _ = c;
                of_expr(&a[0], show)
            }
            E::Call(_, a, _) => a.iter().map(show).collect(),
            E::Fun(f) => f.params.iter().map(|p| p.0.clone()).collect(),
            // `f` without arguments.
            _ => Vec::new(),
        }
    }
    match t.first() {
        Some(S::Fun(_, f)) => f.params.iter().map(|p| p.0.clone()).collect(),
        Some(S::Class(c)) => c
            .methods
            .last()
            .map(|m| m.1.params.iter().map(|p| p.0.clone()).collect())
            .unwrap_or_default(),
        Some(S::Expr(e) | S::Print(e)) => of_expr(e, &show),
        _ => Vec::new(),
    }
}

fn c19_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = *src.pick(&[10, 20, 40, 80]);
    let p = gen::program(src, Cfg::new(f));
    let mut st = Style::random(src);
    // The same program in both styles.
    st.bare_calls = Choice::Always;
    let a = render(src, &p, &st);
    st.bare_calls = Choice::Never;
    let b = render(src, &p, &st);
    ctx.input("without parentheses", &a.text);
    ctx.input("with", &b.text);
    ctx.case(&a.text, a.used.bare_calls > 0);
    let ta = must_parse(&a.text)?;
    let tb = must_parse(&b.text)?;
    if ta != a.tree {
        return Err(tree::diff("trees", &a.tree, &ta));
    }
    if tb != b.tree {
        return Err(tree::diff("trees", &b.tree, &tb));
    }
    let (ta, tb) = (tree::no_locs(ta), tree::no_locs(tb));
    if ta != tb {
        return Err(tree::diff("trees of both styles", &tb, &ta));
    }
    Ok(())
}

fn c19_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &[Big::Params, Big::Args], 100);
    big_case(ctx, k, &s);
    if let Some(toks) = lex_agree(&s)? {
        let _ = parse_agree(&s, &toks, Start::File)?;
    }
    Ok(())
}
