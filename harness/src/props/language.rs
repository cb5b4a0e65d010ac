//! C02 round trip, C03 operators, C04 grammar, C05 tokens, C10 literals.
use super::common::*;
use crate::big::{self, Big};
use crate::engine::{CaseResult, Ctx, Prop, Src, Sub};
use crate::gen::{self, Cfg, Gen};
use crate::refparse::{self, Start};
use crate::refscan::{self, Places, Tok, K, KEYWORDS};
use crate::render::{self, render, render_expr, Style};
use crate::tree::{BOp, LOp, UOp, E, S};
use crate::{soup, sut, tree};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "Programs are drawn as trees (scopes, classes, loops, maps, calls and so on) and written out in a random legal layout (indentation or braces, calls with or without parentheses, maps with or without braces, comments, blank lines, CRLF, broken lines, spacing); the library's tree has to equal the drawn one including all locations. Non-trivial: at least 6 nodes.",
            assumptions: &[
                "layouts listed as known findings of C06, C18 and C25 are not written",
            ],
            subs: vec![
                Sub { name: "programs", quick: 250_000, thorough: 12_000_000, run: c02_programs },
                Sub { name: "large programs", quick: 2_000, thorough: 100_000, run: c02_large },
                Sub { name: "extremes", quick: 1_500, thorough: 30_000, run: c02_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C03",
            rule: "Expressions without parentheses are drawn as sequences of operands and operators; a splitting algorithm (not a descending one) groups them by the table, and the library's tree has to equal that grouping, and the tree of the fully parenthesised text. All triples of binary operators with all prefixes are enumerated. Non-trivial: at least two operators.",
            assumptions: &[],
            subs: vec![
                Sub { name: "triples", quick: TRIPLES, thorough: TRIPLES, run: c03_triples },
                Sub { name: "sequences", quick: 250_000, thorough: 10_000_000, run: c03_flat },
                Sub { name: "layouts", quick: 100_000, thorough: 4_000_000, run: c03_layout },
                Sub { name: "long chains", quick: 1_500, thorough: 20_000, run: c03_chain },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C04",
            rule: "Token sequences (all short ones enumerated), token soups, mutated programs, lists of every kind and length with one flaw, and extremes go to the library's file, REPL and expression parsers and to an independent reference parser without error recovery; acceptance, the tree and the place of the first error have to agree. Non-trivial: at least two tokens, lexically valid.",
            assumptions: &["the reference parser states the grammar, quirks included; known findings of C06, C18 and C25 are part of it"],
            subs: vec![
                Sub { name: "short sequences", quick: c04_short_count(3), thorough: c04_short_count(4), run: c04_short },
                Sub { name: "soups and mutations", quick: 300_000, thorough: 15_000_000, run: c04_soup },
                Sub { name: "mutated programs", quick: 150_000, thorough: 8_000_000, run: c04_mutated },
                Sub { name: "sloppy programs", quick: 300_000, thorough: 15_000_000, run: c04_loose },
                Sub { name: "broken lists", quick: 60_000, thorough: 3_000_000, run: c04_lists },
                Sub { name: "extremes", quick: 1_200, thorough: 30_000, run: c04_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C05",
            rule: "Texts (all short strings over a telling alphabet, soups of tokens and characters, any Unicode, mutated programs, extremes) are scanned; tokens have to be ordered pieces of the source at their own line and column with only blank pieces between them, and to equal those of an independent reference scanner. Non-trivial: at least two tokens, lexically valid.",
            assumptions: &[],
            subs: vec![
                Sub { name: "short strings", quick: c05_short_count(4), thorough: c05_short_count(5), run: c05_short },
                Sub { name: "texts", quick: 300_000, thorough: 15_000_000, run: c05_any },
                Sub { name: "extremes", quick: 800, thorough: 20_000, run: c05_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C10",
            rule: "Number texts (shortest texts of doubles, random digits, texts next to the midpoint of two doubles), strings of any Unicode text, names of letters, digits and underscores of many scripts and words close to keywords are put in programs; values are checked with exact big-integer arithmetic, and texts for equality. Non-trivial: the literal or name has at least two characters.",
            assumptions: &["strings whose first or last character fuses with the quote into one grapheme cluster are left out"],
            subs: vec![
                Sub { name: "numbers", quick: 150_000, thorough: 6_000_000, run: c10_numbers },
                Sub { name: "strings", quick: 150_000, thorough: 6_000_000, run: c10_strings },
                Sub { name: "names", quick: 100_000, thorough: 4_000_000, run: c10_names },
                Sub { name: "side by side", quick: 100_000, thorough: 4_000_000, run: c10_abut },
                Sub { name: "long", quick: 300, thorough: 10_000, run: c10_big },
            ],
            guided: true,
            known: vec![],
        },
    ]
}

// -------------------------------------------------------------------- C02

fn round_trip(r: &render::Rendered) -> CaseResult {
    let t = must_parse(&r.text)?;
    if t != r.tree {
        return Err(tree::diff("trees", &r.tree, &t));
    }
    // Keeps the reference honest, too.
    match refparse::parse(&r.text, Start::File) {
        Some(Ok(t)) if t == r.tree => Ok(()),
        Some(Ok(t)) => panic!("reference: {}", tree::diff("trees", &r.tree, &t)),
        Some(Err(b)) => panic!("reference rejects {b:?} {:?}", r.text),
        None => panic!("reference: lexical errors in {:?}", r.text),
    }
}

fn c02_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let (_, r) = program(src, ctx, f);
    ctx.case(&r.text, tree::size(&r.tree) > 5);
    round_trip(&r)
}

fn c02_large(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = Cfg {
        max_depth: 14,
        ..Cfg::new(2000)
    };
    let n = src.range(1, 60);
    let mut g = Gen::new(src, cfg);
    let mut p = Vec::new();
    for _ in 0..n {
        g.refuel(120);
        p.push(g.stmt());
    }
    let st = Style::random(src);
    let r = render(src, &p, &st);
    ctx.input("source", &r.text);
    note_used(ctx, &r);
    ctx.case(&r.text, tree::size(&r.tree) > 100);
    round_trip(&r)
}

fn c02_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &big::ALL, 200);
    big_case(ctx, k, &s);
    if let Some(toks) = lex_agree(&s)? {
        if parse_agree(&s, &toks, Start::File)?.is_ok() {
            ctx.label("accepted");
        }
    }
    Ok(())
}

pub fn big_case(ctx: &mut Ctx, k: Big, s: &str) {
    ctx.input("source", s);
    ctx.case(s, s.len() > 100);
    ctx.label(match k {
        Big::LongLine => "long line",
        Big::DeepIndent => "deep indentation",
        Big::ManyLines => "many lines",
        Big::Nest => "nested expressions",
        Big::NestBlocks => "nested blocks",
        Big::NestLoops => "nested loops",
        Big::NestFuns => "nested functions",
        Big::Params => "many parameters",
        Big::Args => "many arguments",
        Big::Vars => "many variables",
        Big::Map => "large map",
        Big::List => "long list",
        Big::Chain => "long chain",
        Big::LongToken => "long token",
        Big::LexErrors => "many lexical errors",
        Big::SyntaxErrors => "many syntax errors",
        Big::ScopeErrors => "many scoping errors",
    });
}

// -------------------------------------------------------------------- C03

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Assign,
    Logic(LOp),
    Bin(BOp),
}

/// The one fixed table: binary operators, loosest level first.
const TABLE: [(&str, Op, u8); 13] = [
    ("=", Op::Assign, 0),
    ("or", Op::Logic(LOp::Or), 1),
    ("and", Op::Logic(LOp::And), 2),
    ("==", Op::Bin(BOp::Eq), 3),
    ("!=", Op::Bin(BOp::Ne), 3),
    ("<", Op::Bin(BOp::Lt), 4),
    ("<=", Op::Bin(BOp::Le), 4),
    (">", Op::Bin(BOp::Gt), 4),
    (">=", Op::Bin(BOp::Ge), 4),
    ("+", Op::Bin(BOp::Plus), 5),
    ("-", Op::Bin(BOp::Minus), 5),
    ("*", Op::Bin(BOp::Mul), 6),
    ("/", Op::Bin(BOp::Div), 6),
];

struct Operand {
    text: String,
    /// The same with parentheses around every operation.
    paren: String,
    tree: E,
}

fn atom(src: &mut Src) -> Operand {
    if src.chance(1, 6) {
        let bits = gen::number(src);
        let text = render::number_text(bits);
        return Operand {
            text: text.clone(),
            paren: text,
            tree: E::Num(bits),
        };
    }
    let (text, tree) = match src.below(7) {
        0 => ("a", gen::var("a")),
        1 => ("b", gen::var("b")),
        2 => ("1", gen::num(1)),
        3 => ("2.5", E::Num(2.5f64.to_bits())),
        4 => ("\"s\"", E::Str("s".into())),
        5 => ("nil", E::Nil),
        _ => ("this", gen::var("this")),
    };
    Operand {
        text: text.into(),
        paren: text.into(),
        tree,
    }
}

/// An operand with brackets or a body of its own.
fn enclosed(src: &mut Src, depth: usize) -> Operand {
    let list = |src: &mut Src, low: usize| -> Vec<Operand> {
        (0..src.range(low, 2)).map(|_| inner(src, depth)).collect()
    };
    let join = |xs: &[Operand], f: fn(&Operand) -> &str| {
        xs.iter().map(f).collect::<Vec<_>>().join(", ")
    };
    match src.below(6) {
        0 => {
            let x = list(src, 0);
            Operand {
                text: format!("[{}]", join(&x, |x| &x.text)),
                paren: format!("[{}]", join(&x, |x| &x.paren)),
                tree: E::Array(x.into_iter().map(|x| x.tree).collect()),
            }
        }
        1 => {
            let x = inner(src, depth);
            Operand {
                text: format!("{{k: {}}}", x.text),
                paren: format!("{{k: {}}}", x.paren),
                tree: E::Map(vec![("k".into(), x.tree)]),
            }
        }
        2 => {
            let x = inner(src, depth);
            Operand {
                text: format!("({})", x.text),
                paren: format!("({})", x.paren),
                tree: E::Group(Box::new(x.tree)),
            }
        }
        3 => Operand {
            text: "super.m".into(),
            paren: "super.m".into(),
            tree: E::Super(None, "m".into(), gen::Z),
        },
        4 => {
            let b = src.chance(1, 2);
            Operand {
                text: b.to_string(),
                paren: b.to_string(),
                tree: E::Bool(b),
            }
        }
        _ => Operand {
            text: "fun (p) { }".into(),
            paren: "fun (p) { }".into(),
            tree: E::Fun(Box::new(tree::FunD {
                params: vec![("p".into(), gen::Z)],
                body: vec![],
                kind: tree::FK::Plain,
                loc: gen::Z,
            })),
        },
    }
}

/// An atom with accesses and calls after it.
fn postfixed(src: &mut Src, depth: usize) -> Operand {
    let o = match src.chance(1, 6) {
        true if depth > 0 => enclosed(src, depth - 1),
        _ => atom(src),
    };
    let n = src.weighted(&[6, 3, 2, 1]);
    steps(src, o, n, depth)
}

fn steps(src: &mut Src, mut o: Operand, n: usize, depth: usize) -> Operand {
    for _ in 0..n {
        match src.below(3) {
            0 => {
                o.text = format!("{}.p", o.text);
                o.paren = format!("({}).p", o.paren);
                o.tree = E::Get(Box::new(o.tree), "p".into(), gen::Z);
            }
            1 => {
                let i = inner(src, depth);
                o.text = format!("{}[{}]", o.text, i.text);
                o.paren = format!("({})[{}]", o.paren, i.paren);
                o.tree = E::Index(Box::new(o.tree), Box::new(i.tree), gen::Z);
            }
            _ => {
                let n = src.idx(3);
                let a: Vec<_> = (0..n).map(|_| inner(src, depth)).collect();
                let j = |f: fn(&Operand) -> &str| {
                    a.iter().map(f).collect::<Vec<_>>().join(", ")
                };
                o.text = format!("{}({})", o.text, j(|x| &x.text));
                o.paren = format!("({})({})", o.paren, j(|x| &x.paren));
                o.tree = E::Call(
                    Box::new(o.tree),
                    a.into_iter().map(|x| x.tree).collect(),
                    gen::Z,
                );
            }
        }
    }
    o
}

fn inner(src: &mut Src, depth: usize) -> Operand {
    if depth == 0 {
        atom(src)
    } else {
        let n = src.idx(3);
        sequence(src, n, depth - 1)
    }
}

fn prefixed(mut o: Operand, ops: &[UOp]) -> Operand {
    for op in ops.iter().rev() {
        let s = match op {
            UOp::Minus => "-",
            UOp::Not => "!",
        };
        o = Operand {
            text: format!("{s}{}", o.text),
            paren: format!("({s}{})", o.paren),
            tree: E::Un(*op, Box::new(o.tree), gen::Z),
        };
    }
    o
}

/// Groups by splitting at the operator that binds loosest.
fn group(mut xs: Vec<Operand>, mut ops: Vec<usize>) -> Operand {
    if ops.is_empty() {
        return xs.pop().unwrap();
    }
    let low = ops.iter().map(|o| TABLE[*o].2).min().unwrap();
    let at = |o: &usize| TABLE[*o].2 == low;
    let i = if low == 0 {
        ops.iter().position(at).unwrap()
    } else {
        ops.iter().rposition(at).unwrap()
    };
    let right_xs = xs.split_off(i + 1);
    let right_ops = ops.split_off(i + 1);
    let (name, op, _) = TABLE[ops.pop().unwrap()];
    let l = group(xs, ops);
    let r = group(right_xs, right_ops);
    let text = format!("{} {name} {}", l.text, r.text);
    let right = Box::new(r.tree);
    // The left side of an assignment is no operand: not parenthesised.
    if op == Op::Assign {
        let tree = match l.tree {
            E::Var(n, _, _) => E::Assign(n, None, right, gen::Z),
            E::Get(o, n, _) => E::Set(o, n, right, gen::Z),
            E::Index(o, i, _) => E::SetIndex(o, i, right, gen::Z),
            _ => unreachable!(),
        };
        return Operand {
            text,
            paren: format!("({} = {})", l.paren, r.paren),
            tree,
        };
    }
    let left = Box::new(l.tree);
    Operand {
        text,
        paren: format!("({} {name} {})", l.paren, r.paren),
        tree: match op {
            Op::Logic(o) => E::Logic(left, o, right),
            Op::Bin(o) => E::Bin(left, o, right, gen::Z),
            Op::Assign => unreachable!(),
        },
    }
}

fn target(src: &mut Src, depth: usize) -> Operand {
    let mut o = postfixed(src, depth);
    let ok = match &o.tree {
        E::Var(n, ..) => n != "this",
        E::Get(..) | E::Index(..) => true,
        _ => false,
    };
    if !ok {
        o.text = format!("{}.q", o.text);
        o.paren = format!("({}).q", o.paren);
        o.tree = E::Get(Box::new(o.tree), "q".into(), gen::Z);
    }
    o
}

fn sequence(src: &mut Src, n: usize, depth: usize) -> Operand {
    let pool: Vec<usize> = match src.below(6) {
        // One operator only, or those of one level.
        0 => vec![src.range(1, 12)],
        1 => {
            let l = src.range(1, 6) as u8;
            (1..TABLE.len()).filter(|i| TABLE[*i].2 == l).collect()
        }
        _ => (1..TABLE.len()).collect(),
    };
    let targets = src.weighted(&[10, 2, 1]);
    sequence_of(src, n, depth, &pool, targets)
}

fn sequence_of(
    src: &mut Src,
    n: usize,
    depth: usize,
    pool: &[usize],
    targets: usize,
) -> Operand {
    let mut xs = Vec::new();
    let mut ops = Vec::new();
    for _ in 0..targets {
        xs.push(target(src, depth));
        ops.push(0);
    }
    for i in 0..=n {
        let p = src.weighted(&[6, 2, 1]);
        let u: Vec<UOp> = (0..p)
            .map(|_| *src.pick(&[UOp::Minus, UOp::Not]))
            .collect();
        xs.push(prefixed(postfixed(src, depth), &u));
        if i < n {
            ops.push(*src.pick(pool));
        }
    }
    group(xs, ops)
}

fn check_grouping(o: &Operand, ctx: &mut Ctx) -> CaseResult {
    ctx.input("expression", &o.text);
    ctx.input("parenthesised", &o.paren);
    let flat = sut::parse_expr(&o.text)?
        .map_err(|c| format!("rejected: {}", brief(&c)))?;
    let got = tree::no_locs(vec![S::Expr(flat)]);
    let want = vec![S::Expr(o.tree.clone())];
    if got != want {
        return Err(tree::diff("groupings", &want, &got));
    }
    let par = sut::parse_expr(&o.paren)?
        .map_err(|c| format!("parenthesised form rejected: {}", brief(&c)))?;
    let par = tree::no_groups(tree::no_locs(vec![S::Expr(par)]));
    let bare = tree::no_groups(want);
    if par != bare {
        return Err(tree::diff("the tree of the parenthesised form", &bare, &par));
    }
    Ok(())
}

fn c03_flat(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.weighted(&[1, 2, 4, 6, 5, 4, 3, 2, 2, 1, 1]);
    let o = sequence(src, n, 2);
    ctx.case(&o.text, n >= 2);
    check_grouping(&o, ctx)
}

fn c03_chain(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = big::size(src, 400);
    let o = match src.below(8) {
        0 => sequence_of(src, 0, 1, &[1], n),
        1 => {
            let u: Vec<UOp> = (0..n)
                .map(|_| *src.pick(&[UOp::Minus, UOp::Not]))
                .collect();
            prefixed(postfixed(src, 1), &u)
        }
        2 => {
            let o = atom(src);
            steps(src, o, n, 0)
        }
        _ => sequence(src, n, 1),
    };
    ctx.case(&o.text, n >= 2);
    check_grouping(&o, ctx)
}

/// 12 binary operators in three places, and no, one or two prefixes in four.
const TRIPLES: u64 = 12 * 12 * 12 * 3 * 3 * 3 * 3;

fn c03_triples(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut i = src.index as usize % TRIPLES as usize;
    let mut take = |n: usize| {
        let r = i % n;
        i /= n;
        r
    };
    let ops: Vec<usize> = (0..3).map(|_| 1 + take(12)).collect();
    let xs = (0..4)
        .map(|k| {
            let u: &[UOp] = match take(3) {
                0 => &[],
                1 => &[UOp::Minus],
                _ => &[UOp::Not, UOp::Minus],
            };
            let n = ["a", "b", "c", "d"][k];
            prefixed(
                Operand {
                    text: n.into(),
                    paren: n.into(),
                    tree: gen::var(n),
                },
                u,
            )
        })
        .collect();
    let o = group(xs, ops);
    ctx.case(&o.text, true);
    check_grouping(&o, ctx)
}

/// Operators in random spacing, over several lines, within programs.
fn c03_layout(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 6);
    let o = sequence(src, n, 2);
    let st = Style::random(src);
    let (text, want) = render_expr(src, &o.tree, &st);
    ctx.input("expression", &text);
    ctx.case(&text, n >= 2);
    let got = sut::parse_expr(&text)?
        .map_err(|c| format!("rejected: {}", brief(&c)))?;
    if got != want {
        return Err(tree::diff("trees", &want, &got));
    }
    Ok(())
}

// -------------------------------------------------------------------- C04

const SHORT: [&str; 48] = [
    "a", "\"s\"", "1", "(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "+",
    ";", "/", "*", "!", "==", "=", "!=", "<", "<=", ">", ">=", "\n", "\n  ",
    "and", "or", "break", "class", "continue", "else", "false", "for", "fun",
    "if", "nil", "print", "return", "super", "this", "true", "var", "while",
    "b", "if (a)", "while (a)",
];

const fn c04_short_count(len: u32) -> u64 {
    let n = SHORT.len() as u64;
    let mut t = 0;
    let mut l = 1;
    while l <= len {
        t += n.pow(l);
        l += 1;
    }
    // With and without spaces between the tokens.
    2 * t
}

fn c04_short(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let spaced = src.index % 2 == 0;
    let mut i = src.index / 2;
    let n = SHORT.len() as u64;
    let mut len = 1;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    let mut s = String::new();
    for k in 0..len {
        if spaced && k > 0 {
            s.push(' ');
        }
        s.push_str(SHORT[(i % n) as usize]);
        i /= n;
    }
    // Alone as an expression and a REPL line, with a line end as a file.
    for end in ["\n", ""] {
        let t = format!("{s}{end}");
        ctx.inputs.clear();
        c04_agree(&t, ctx)?;
    }
    Ok(())
}

/// A list of any kind and length (the first kinds: arguments and parameters),
/// mostly with one flaw.
pub fn broken_list(src: &mut Src, kinds: usize) -> String {
    const KINDS: [(&str, &str, &str, u8); 16] = [
        ("f(", ", ", ")\n", 0),
        ("f ", ", ", "\n", 0),
        ("print a.b(", ", ", ")\n", 0),
        ("x = g 1, ", ", ", "\n", 0),
        ("fun f(", ", ", ")\n  a\n", 1),
        ("class A\n  m(", ", ", ")\n    a\n", 1),
        ("g(fun (", ", ", ") { })\n", 1),
        ("a = [", ", ", "]\n", 0),
        ("var m = {", ", ", "}\n", 2),
        ("print ", ", ", "\n", 2),
        ("var m =\n  ", "\n  ", "\n", 2),
        ("f(", ", ", ")\n", 2),
        ("if (a) {", "\n", "\n}\\\n", 3),
        ("while (a)\n  ", "\n  ", "\n", 3),
        ("class A {", " ", "}\\\n", 4),
        ("class A < B\n  ", "\n  ", "\n", 5),
    ];
    let (a, sep, b, kind) = KINDS[src.idx(kinds.min(KINDS.len()))];
    let n = match src.below(4) {
        0 => src.range(0, 4),
        1 => src.range(0, 20),
        2 => src.range(0, 70),
        _ => big::size(src, 270),
    };
    let main = src.below(8);
    let flaw = src.below(12);
    let place = src.range(0, n);
    let mut s = a.to_owned();
    for i in 0..n {
        if i > 0 {
            match flaw {
                // Missing, doubled or another one.
                1 if i == place => s.push(' '),
                2 if i == place => {
                    s.push_str(sep);
                    s.push_str(sep.trim());
                }
                3 if i == place => {
                    s.push_str(*src.pick(&[";", ":", ".", "\n", " \n  ", ", ", "=", ")", "}"]))
                }
                4 => s.push_str(*src.pick(&[sep, sep.trim_end(), " , ", ","])),
                _ => s.push_str(sep),
            }
        } else if flaw == 5 {
            s.push_str(sep);
        }
        let k = if src.chance(1, 5) { src.below(8) } else { main };
        if flaw == 6 && i == place {
            s.push_str(*src.pick(&["", ")", "if", "else", "-", "[", "a b", "1 2", ":", "class", "\"\""]));
            continue;
        }
        match kind {
            0 => s.push_str(
                ["1", "a", "\"s\"", "{}", "[1]", "(a)", "-1", "fun () { }"][k as usize],
            ),
            1 => s.push_str(&format!("p{i}")),
            2 => {
                let v = ["1", "a", "\"s\"", "{}", "[1]", "a = 1", "!a", "fun () { }"][k as usize];
                match k % 2 {
                    0 => s.push_str(&format!("k{i}: {v}")),
                    _ => s.push_str(&format!("\"k{i}\": {v}")),
                }
            }
            3 => s.push_str(
                ["a", "print a", "var a", "a = 1", "return a", "f a", "var a = 1", "a.b"][k as usize],
            ),
            4 => s.push_str(&format!(
                "{}m{i}({}) {{ }}",
                ["", "class "][(k == 7) as usize],
                ["", "a"][k as usize % 2],
            )),
            _ => s.push_str(&format!(
                "{}m{i}({})\n    a",
                ["", "class "][(k == 7) as usize],
                ["", "a"][k as usize % 2],
            )),
        }
    }
    match flaw {
        7 => s.push_str(sep),
        8 => s.push_str(sep.trim()),
        9 => s.push_str(*src.pick(&[",", ", ", ";", ":", ")", "}", "]", ",,", " a", "\n"])),
        _ => (),
    }
    match flaw {
        10 => s.push_str(&b[1..]),
        _ => s.push_str(b),
    }
    if src.chance(1, 2) {
        s.push_str("print 0\n");
    }
    s
}

fn c04_lists(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = broken_list(src, usize::MAX);
    c04_agree(&s, ctx)
}

pub fn c04_agree(s: &str, ctx: &mut Ctx) -> CaseResult {
    ctx.input("source", s);
    let rs = refscan::scan(s);
    let lexical = !rs.errs.is_empty();
    ctx.case(s, !lexical && rs.toks.len() > 2);
    if lexical {
        ctx.label("lexically invalid");
        return match sut::parse(s)? {
            Ok(_) => Err("accepted a source with lexical errors".into()),
            Err(_) => Ok(()),
        };
    }
    let mut accepted = false;
    for st in [Start::File, Start::Repl, Start::Expr] {
        match parse_agree(s, &rs.toks, st)? {
            Ok(_) => accepted = true,
            Err(b) => {
                if st == Start::File {
                    ctx.label(b.why);
                }
            }
        }
    }
    if accepted {
        ctx.label("accepted");
    }
    Ok(())
}

fn c04_soup(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = if src.chance(2, 3) {
        soup::token_soup(src)
    } else {
        soup::any(src)
    };
    c04_agree(&s, ctx)
}

fn c04_mutated(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = *src.pick(&[5, 10, 20, 40]);
    let s = soup::mutated(src, f);
    c04_agree(&s, ctx)
}

fn c04_loose(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = crate::loose::loose(src);
    c04_agree(&s, ctx)
}

fn c04_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(
        src,
        &[
            Big::Params,
            Big::Params,
            Big::Args,
            Big::Args,
            Big::Map,
            Big::Map,
            Big::Nest,
            Big::NestBlocks,
            Big::NestLoops,
            Big::NestFuns,
            Big::Chain,
            Big::List,
            Big::SyntaxErrors,
            Big::ManyLines,
        ],
        200,
    );
    big_case(ctx, k, &s);
    c04_agree(&s, ctx)
}

// -------------------------------------------------------------------- C05

const ALPHABET: [&str; 24] = [
    "a", "é", "1", ".", " ", "\n", "\r", "\t", "\\", "\"", "(", "{", ":", "/",
    "!", "=", "<", ">", "-", "_", "@", "if", ",", "\u{301}",
];

const fn c05_short_count(len: u32) -> u64 {
    let n = ALPHABET.len() as u64;
    let mut t = 0;
    let mut l = 1;
    while l <= len {
        t += n.pow(l);
        l += 1;
    }
    t
}

fn c05_short(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut i = src.index;
    let n = ALPHABET.len() as u64;
    let mut len = 1;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(ALPHABET[(i % n) as usize]);
        i /= n;
    }
    c05_check(&s, ctx)
}

/// What may lie between tokens.
fn blank_gap(mut g: &str) -> bool {
    while !g.is_empty() {
        if let Some(r) = g.strip_prefix([' ', '\r', '\n']) {
            g = r;
        } else if g.starts_with("//") {
            g = g.find('\n').map_or("", |i| &g[i..]);
        } else if let Some(r) = g.strip_prefix('\\') {
            let r = r.trim_start_matches(' ');
            match r.trim_start_matches('\r').strip_prefix('\n') {
                Some(r) => g = r,
                None => return false,
            }
        } else {
            return false;
        }
    }
    true
}

/// The tokens are ordered pieces of the source at their places, with nothing
/// but blanks between them.
pub fn partition(text: &str, toks: &[Tok]) -> Res<()> {
    let places = Places::new(text);
    let mut last = 0;
    for t in toks {
        if matches!(t.kind, K::Indent | K::Outdent | K::Term | K::Eof) {
            continue;
        }
        if t.start < last || t.end > text.len() || t.start >= t.end {
            return Err(format!("the token {t:?} is out of order or no piece of the source"));
        }
        if text[t.start..t.end] != t.text {
            return Err(format!("the text of {t:?} is not that of the source"));
        }
        if places.at(t.start) != (t.line, t.col) {
            return Err(format!(
                "the token {t:?} is at {:?}",
                places.at(t.start)
            ));
        }
        if !blank_gap(&text[last..t.start]) {
            return Err(format!(
                "{:?} before {t:?} is part of no token",
                &text[last..t.start]
            ));
        }
        if matches!(t.kind, K::LParen | K::LParenTouch) {
            let touch = last == t.start && last > 0;
            if touch != (t.kind == K::LParenTouch) {
                return Err(format!("{t:?}: touching should be {touch}"));
            }
        }
        last = t.end;
    }
    if !blank_gap(&text[last..]) {
        return Err(format!("{:?} at the end is part of no token", &text[last..]));
    }
    Ok(())
}

fn c05_check(s: &str, ctx: &mut Ctx) -> CaseResult {
    ctx.input("source", s);
    if let Ok(t) = sut::scan(s)? {
        ctx.case(s, t.len() > 2);
        partition(s, &t)?;
        ctx.label("lexically valid");
    }
    lex_agree(s)?;
    Ok(())
}

fn c05_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = match src.weighted(&[3, 3, 2, 3]) {
        0 => {
            let f = fuel(src);
            soup::program_text(src, f).text
        }
        1 => soup::any(src),
        2 => soup::char_soup(src),
        _ => spaced_soup(src),
    };
    c05_check(&s, ctx)
}

/// Lexically valid pieces, with and without blanks between them.
fn spaced_soup(src: &mut Src) -> String {
    let n = src.range(1, 25);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[6, 2, 1, 1]) {
            0 => s.push_str(src.pick(&soup::TOKENS)),
            1 => s.push_str(&gen::odd_name(src)),
            2 => s.push_str(&format!("\"{}\"", gen::string(src, true))),
            _ => s.push_str(&render::number_text(gen::number(src))),
        }
        match src.weighted(&[5, 4, 1, 1, 1, 1]) {
            0 => (),
            1 => s.push(' '),
            2 => s.push_str("\n"),
            3 => s.push_str(" \\\n"),
            4 => s.push_str(" // c\n  "),
            _ => s.push_str("\r\n    "),
        }
    }
    s
}

fn c05_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(
        src,
        &[
            Big::LongLine,
            Big::DeepIndent,
            Big::ManyLines,
            Big::LongToken,
            Big::NestBlocks,
            Big::List,
        ],
        300,
    );
    big_case(ctx, k, &s);
    c05_check(&s, ctx)
}

// -------------------------------------------------------------------- C10

/// Natural numbers of any size.
#[derive(Clone, PartialEq, Eq)]
struct Nat(Vec<u32>);

impl Nat {
    fn from_decimal(s: &str) -> Nat {
        let mut n = Nat(Vec::new());
        for c in s.bytes() {
            n.mul_add(10, u32::from(c - b'0'));
        }
        n
    }

    fn from_u64(v: u64) -> Nat {
        Nat(vec![v as u32, (v >> 32) as u32]).trim()
    }

    fn trim(mut self) -> Nat {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }

    fn mul_add(&mut self, m: u32, a: u32) {
        let mut carry = u64::from(a);
        for d in &mut self.0 {
            let v = u64::from(*d) * u64::from(m) + carry;
            *d = v as u32;
            carry = v >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }

    fn times(mut self, base: u32, n: u32) -> Nat {
        for _ in 0..n {
            self.mul_add(base, 0);
        }
        self.trim()
    }

    fn cmp(&self, o: &Nat) -> std::cmp::Ordering {
        self.0
            .len()
            .cmp(&o.0.len())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

/// Compares the decimal d / 10^k with m * 2^e.
fn cmp_decimal(d: &Nat, k: u32, m: u64, e: i32) -> std::cmp::Ordering {
    let l = d.clone().times(2, (-e).max(0) as u32);
    let r = Nat::from_u64(m).times(10, k).times(2, e.max(0) as u32);
    l.cmp(&r)
}

/// Whether r is the double nearest to the decimal text (ties to even).
fn is_nearest(text: &str, r: f64) -> bool {
    use std::cmp::Ordering::*;
    let (i, f) = text.split_once('.').unwrap_or((text, ""));
    let d = Nat::from_decimal(&format!("{i}{f}")).trim();
    let k = f.len() as u32;
    if r.is_nan() || r < 0.0 || r.is_sign_negative() {
        return false;
    }
    if r.is_infinite() {
        // The midpoint of the largest double and the next power of two.
        return cmp_decimal(&d, k, (1 << 54) - 1, 970) != Less;
    }
    let bits = r.to_bits();
    let raw = (bits >> 52) as i32;
    let frac = bits & ((1 << 52) - 1);
    let (m, e) = if raw == 0 {
        (frac, -1074)
    } else {
        (frac | 1 << 52, raw - 1075)
    };
    let even = m % 2 == 0;
    let hi = cmp_decimal(&d, k, 2 * m + 1, e - 1);
    let lo = if m == 0 {
        Greater
    } else if frac == 0 && raw > 1 {
        // The double below is closer.
        cmp_decimal(&d, k, 4 * m - 1, e - 2)
    } else {
        cmp_decimal(&d, k, 2 * m - 1, e - 1)
    };
    (hi == Less || hi == Equal && even) && (lo == Greater || lo == Equal && even)
}

fn c10_numbers(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let digits = |src: &mut Src, n: usize| -> String {
        (0..n)
            .map(|_| (b'0' + src.below(10) as u8) as char)
            .collect()
    };
    let text = match src.weighted(&[4, 4, 3, 2, 1]) {
        0 => render::number_text(gen::number(src)),
        1 => {
            let n = src.range(1, 20);
            let mut t = digits(src, n);
            if src.chance(1, 2) {
                let n = src.range(1, 20);
                t.push('.');
                t.push_str(&digits(src, n));
            }
            t
        }
        2 => {
            // Around the midpoint of two neighbouring doubles.
            let e = src.range(0, 8) as u32;
            let m = (1u128 << 53) + u128::from(src.below(1 << 20));
            let mid = (2 * m + 1) << e;
            match src.below(3) {
                0 => format!("{mid}"),
                1 => format!("{mid}.{}1", "0".repeat(src.range(0, 30))),
                _ => format!("{}.{}9", mid - 1, "9".repeat(src.range(0, 30))),
            }
        }
        3 => {
            // Fractions next to a midpoint between 1 and 2: (2m+1) / 2^54.
            let m = (1u64 << 52) + src.below(1 << 52);
            let mut n = Nat::from_u64(2 * m + 1).times(5, 53);
            let mut ds = Vec::new();
            // Decimal digits of n, lowest first.
            while !n.0.is_empty() {
                let mut rem = 0u64;
                for d in n.0.iter_mut().rev() {
                    let v = rem << 32 | u64::from(*d);
                    *d = (v / 10) as u32;
                    rem = v % 10;
                }
                n = n.trim();
                ds.push((b'0' + rem as u8) as char);
            }
            while ds.len() < 54 {
                ds.push('0');
            }
            let s: String = ds.iter().rev().collect();
            let (i, f) = s.split_at(s.len() - 53);
            let extra = *src.pick(&["", "0", "0000001"]);
            format!("{i}.{f}{extra}")
        }
        _ => {
            let n = src.range(280, 340);
            digits(src, n)
        }
    };
    let want_std: f64 = text.parse().unwrap();
    ctx.input("number", &text);
    ctx.case(&text, text.len() > 1);
    let s = format!("print {text}\n");
    let t = must_parse(&s)?;
    match t.as_slice() {
        [S::Print(E::Num(b))] => {
            let r = f64::from_bits(*b);
            if !is_nearest(&text, r) {
                return Err(format!("{text} was read as {r:?} (nearest: {want_std:?})"));
            }
            assert_eq!(*b, want_std.to_bits());
        }
        _ => return Err(format!("not a number: {t:?}")),
    }
    // What follows a number does not belong to it.
    let s = format!("{text}.x\n");
    let t = must_parse(&s)?;
    match t.as_slice() {
        [S::Expr(E::Get(n, p, _))]
            if **n == E::Num(want_std.to_bits()) && p == "x" =>
        {
            Ok(())
        }
        _ => Err(format!("{s:?} was read as {t:?}")),
    }
}

/// Whether the quotes stay grapheme clusters of their own.
fn no_fusing(s: &str) -> bool {
    let t = format!("\"{s}\"");
    let (g, _) = refscan::graphemes(&t);
    g.first().is_some_and(|x| x.text == "\"")
        && g.last().is_some_and(|x| x.text == "\"")
}

fn c10_strings(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = match src.weighted(&[3, 2, 2]) {
        0 => {
            let mut s = gen::string(src, true);
            s.push_str(&gen::string(src, true));
            s
        }
        1 => soup::unicode_soup(src),
        _ => soup::char_soup(src),
    };
    s.retain(|c| c != '"');
    // A quote inside of a cluster does not end a string.
    if !no_fusing(&s) {
        s = format!("x{s}x");
    }
    if !no_fusing(&s) {
        s = "x".into();
    }
    ctx.input("string", &s);
    ctx.case(&s, s.chars().count() > 1);
    let text = format!("f(\"{s}\", {{\"{s}\": \"{s}\"}})\nprint \"{s}\" + b\n");
    let t = must_parse(&text)?;
    let l = || E::Str(s.clone());
    let want = vec![
        S::Expr(E::Call(
            Box::new(gen::var("f")),
            vec![l(), E::Map(vec![(s.clone(), l())])],
            gen::Z,
        )),
        S::Print(gen::bin(BOp::Plus, l(), gen::var("b"))),
    ];
    let got = tree::no_locs(t);
    if got != want {
        return Err(tree::diff("trees", &want, &got));
    }
    Ok(())
}

const LETTERS: [&str; 24] = [
    "a", "z", "A", "Z", "_", "e", "é", "ß", "Ω", "ж", "א", "ع", "ह", "日", "語",
    "한", "ǆ", "ﬁ", "𝔘", "ⅷ", "e\u{301}", "ñ", "x", "s",
];
const DIGITS: [&str; 8] = ["0", "1", "9", "5", "٣", "४", "²", "½"];

fn word(src: &mut Src) -> String {
    match src.weighted(&[4, 5, 1]) {
        0 => {
            let mut w = (*src.pick(&LETTERS)).to_owned();
            for _ in 0..src.range(0, 8) {
                w.push_str(if src.chance(1, 4) {
                    src.pick(&DIGITS)
                } else {
                    src.pick(&LETTERS)
                });
            }
            w
        }
        1 => {
            // Close to a keyword.
            let k = src.pick(&KEYWORDS).0;
            let cs: Vec<char> = k.chars().collect();
            let i = src.idx(cs.len() + 1);
            let mut c = cs.clone();
            match src.below(7) {
                6 => c.push(*src.pick(&[
                    '\u{301}', '\u{200d}', '\u{fe0f}', '\u{308}', '\u{20e3}', '\u{200c}',
                    'ſ', 'ı', '\u{345}', 'Ⅰ', '²', '٣',
                ])),
                0 => c.insert(i, *src.pick(&['_', 'x', 'é', 's'])),
                1 if i < c.len() && c.len() > 1 => {
                    c.remove(i);
                }
                2 if i < c.len() => {
                    c[i] = c[i].to_ascii_uppercase();
                }
                3 => c.push(*src.pick(&['1', '0', '_', 'e', 'S'])),
                4 => c = k.to_uppercase().chars().collect(),
                _ => {
                    let k2 = src.pick(&KEYWORDS).0;
                    c.extend(k2.chars());
                }
            }
            c.into_iter().collect()
        }
        _ => {
            gen::odd_name(src)
        }
    }
}

fn c10_names(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let w = word(src);
    ctx.input("word", &w);
    ctx.case(&w, w.chars().count() > 1);
    if let Some((_, k)) = KEYWORDS.iter().find(|k| k.0 == w) {
        let t = sut::scan(&format!("{w}\n"))?
            .map_err(|c| format!("lexical error: {}", brief(&c)))?;
        ctx.label("keyword");
        return if t[0].kind == *k {
            Ok(())
        } else {
            Err(format!("{w} was read as {:?}", t[0].kind))
        };
    }
    ctx.label("name");
    let n = || w.clone();
    let z = gen::Z;
    let text = format!(
        "var {w} = {w}2\n{w}.{w}({w})\n{w} {w}, 1\nfun {w}({w}, a)\n  {w} = {w}[{w}]\nclass {w} < {w}B\n  {w}()\n    super.{w}\nprint {{{w}: {w}}}\n{w}\n"
    );
    let t = must_parse(&text)?;
    let v = || gen::var(&w);
    let f = |params: Vec<&str>, body: Vec<S>, kind| tree::FunD {
        params: params.iter().map(|p| ((*p).to_owned(), z)).collect(),
        body,
        kind,
        loc: z,
    };
    let kind = if w == "init" {
        tree::FK::Init
    } else {
        tree::FK::Method
    };
    let want = vec![
        S::Var(n(), None, gen::var(&format!("{w}2")), z),
        S::Expr(E::Call(
            Box::new(E::Get(Box::new(v()), n(), z)),
            vec![v()],
            z,
        )),
        S::Expr(E::Call(Box::new(v()), vec![v(), gen::num(1)], z)),
        S::Fun(
            n(),
            f(
                vec![&w, "a"],
                vec![S::Expr(E::Assign(
                    n(),
                    None,
                    Box::new(E::Index(Box::new(v()), Box::new(v()), z)),
                    z,
                ))],
                tree::FK::Plain,
            ),
        ),
        S::Class(tree::ClassD {
            name: n(),
            sup: Some(Box::new(gen::var(&format!("{w}B")))),
            methods: vec![(
                n(),
                f(vec![], vec![S::Expr(E::Super(None, n(), z))], kind),
            )],
            loc: z,
        }),
        S::Print(E::Map(vec![(n(), v())])),
        S::Expr(v()),
    ];
    let got = tree::no_locs(t);
    if got != want {
        return Err(tree::diff("trees", &want, &got));
    }
    Ok(())
}

/// Literals and words without anything between them.
fn c10_abut(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 5);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[4, 4, 2, 2, 1]) {
            0 => {
                for _ in 0..src.range(1, 4) {
                    s.push(*src.pick(&['0', '1', '7', '9', '.', '_', 'e', 'x']));
                }
            }
            1 => s.push_str(&word(src)),
            2 => s.push_str(&render::number_text(gen::number(src))),
            3 => s.push_str(&format!("\"{}\"", gen::string(src, true))),
            _ => s.push_str(src.pick(&[
                "'", "e-5", "E+1", "f", "n", "L", "u8", "\u{301}", "\u{200d}", "٣", "..", "0x1F",
                "0b1", "-", "$", "%",
            ])),
        }
    }
    if src.chance(2, 3) {
        s.push_str(src.pick(&["\n", "\r\n", " ", ")\n", ": 1\n"]));
    }
    ctx.input("source", &s);
    ctx.case(&s, s.chars().count() > 2);
    let mut kinds = 0;
    if let Some(toks) = lex_agree(&s)? {
        kinds = toks.len();
        let _ = parse_agree(&s, &toks, Start::File)?;
    }
    ctx.label(if kinds > 3 { "several tokens" } else { "few tokens" });
    Ok(())
}

fn c10_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &[Big::LongToken, Big::Map], 100);
    big_case(ctx, k, &s);
    if let Some(toks) = lex_agree(&s)? {
        let _ = parse_agree(&s, &toks, Start::File)?;
    }
    Ok(())
}
