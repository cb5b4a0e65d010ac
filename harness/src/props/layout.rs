//! C06 indentation, C07 comments and spacing, C08 line breaks, C09 positions,
//! C25 braces.
use std::collections::HashMap;

use super::common::*;
use super::language::big_case;
use crate::big::{self, Big};
use crate::engine::{CaseResult, Ctx, Prop, Src, Sub};
use crate::gen::{self, Cfg, Z};
use crate::refparse::Start;
use crate::refscan::{self, continues, Tok, K};
use crate::render::{self, render, Choice, Style};
use crate::tree::{self, ClassD, FunD, Loc, E, FK, S};
use crate::{soup, sut};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "Lines are drawn as headers of every kind, simple statements and members, with random indentation, blank and comment-only lines; often one or more lines are re-indented. A model that keeps the stack of open indentations gives the tree, or the lines at fault. Programs with re-indented lines go to the reference parser, and all texts have to have balanced blocks. Non-trivial: at least two levels of indentation.",
            assumptions: &["function expressions with an indented body that end a statement are a known finding and not written"],
            subs: vec![
                Sub { name: "structures", quick: 200_000, thorough: 8_000_000, run: c06_structures },
                Sub { name: "re-indented programs", quick: 120_000, thorough: 6_000_000, run: c06_programs },
                Sub { name: "balance", quick: 120_000, thorough: 6_000_000, run: c06_balance },
                Sub { name: "extremes", quick: 400, thorough: 20_000, run: c06_big },
            ],
            guided: true,
            known: vec![(
                "fun-expr-statement",
                "a function expression with an indented body cannot end a statement without taking the next line along or being rejected",
                || {
                    let t = must_parse("var f = fun(x)\n  return x\n")?;
                    let f = FunD {
                        params: vec![("x".into(), Z)],
                        body: vec![S::Return(gen::var("x"), Z)],
                        kind: FK::Plain,
                        loc: Z,
                    };
                    let want = vec![S::Var("f".into(), None, E::Fun(Box::new(f)), Z)];
                    if tree::no_locs(t.clone()) == want {
                        Ok(())
                    } else {
                        Err(format!("{t:?}"))
                    }
                },
            )],
        },
        Prop {
            id: "C07",
            rule: "Sources (random programs, also with scoping errors, token soups, mutations) have their comments, blank and comment-only lines, trailing spaces, spaces between tokens, line-end style and unit of indentation changed at random outside of strings; acceptance, the parsed tree and the resolved tree (without locations) have to stay. Non-trivial: at least one change, on a source with at least two tokens.",
            assumptions: &["only lexically valid sources are changed: the reference scanner says where tokens and strings are"],
            subs: vec![
                Sub { name: "programs", quick: 120_000, thorough: 6_000_000, run: c07_programs },
                Sub { name: "any sources", quick: 120_000, thorough: 6_000_000, run: c07_any },
                Sub { name: "single changes", quick: 80_000, thorough: 4_000_000, run: c07_single },
                Sub { name: "extremes", quick: 200, thorough: 10_000, run: c07_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C08",
            rule: "All pairs of tokens are scanned with every kind of line break between them, and the tokens in between compared with the rule. In programs, token soups and mutations, random gaps become line breaks (after a continuing token, or with a backslash; across blank lines, comments and trailing spaces, the next line at least as deep), and the tree has to stay; other gaps become plain line ends, where the reference parser gives the result. Non-trivial: at least one line was broken.",
            assumptions: &[],
            subs: vec![
                Sub { name: "pairs", quick: pair_count(), thorough: pair_count(), run: c08_pairs },
                Sub { name: "broken programs", quick: 120_000, thorough: 6_000_000, run: c08_programs },
                Sub { name: "broken sources", quick: 120_000, thorough: 6_000_000, run: c08_any },
                Sub { name: "ended lines", quick: 100_000, thorough: 5_000_000, run: c08_ends },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C09",
            rule: "Every location in the trees of random programs in odd layouts has to be that of the token as written, and in the tree of any accepted source has to be the start of a token of the text it describes; every error of any source, from any entry point, has to lie in the source and quote the text there. Non-trivial: more than three locations, or an error.",
            assumptions: &["columns saturate at 65535, so tokens further right are not compared", "an assignment with a name beyond the limit is reported at its operator: a known finding"],
            subs: vec![
                Sub { name: "programs", quick: 120_000, thorough: 6_000_000, run: c09_programs },
                Sub { name: "accepted sources", quick: 150_000, thorough: 8_000_000, run: c09_accepted },
                Sub { name: "errors", quick: 200_000, thorough: 10_000_000, run: c09_errors },
                Sub { name: "scoping errors", quick: 80_000, thorough: 4_000_000, run: c09_scoping },
                Sub { name: "extremes", quick: 600, thorough: 20_000, run: c09_big },
                Sub { name: "far down", quick: 160, thorough: 8_000, run: c09_far },
            ],
            guided: true,
            known: vec![(
                "assigned-too-many",
                "an assignment that takes a name beyond the limit of 256 is reported at the operator, but quotes the name",
                || {
                    let mut s: String = (0..256).map(|i| format!("var v{i}\n")).collect();
                    s.push_str("v256 = 1\n");
                    let Err(c) = sut::parse(&s)? else {
                        return Err("accepted".into());
                    };
                    match &c[0].token {
                        Some(t) if t == "v256" && c[0].loc == (257, 6) => {
                            Err(format!("{:?} quotes {t:?}", c[0].loc))
                        }
                        _ => Ok(()),
                    }
                },
            )],
        },
        Prop {
            id: "C25",
            rule: "A random program is written with all its bodies indented, all in braces, and mixed (other layout equal in kind); all have to be accepted and give the drawn program. Non-trivial: at least one body in braces and two statements.",
            assumptions: &["blocks in braces directly followed by a line end, and several statements on indented lines in braces, are known findings and not written"],
            subs: vec![
                Sub { name: "styles", quick: 120_000, thorough: 6_000_000, run: c25_styles },
                Sub { name: "headers", quick: 100_000, thorough: 5_000_000, run: c25_headers },
                Sub { name: "extremes", quick: 300, thorough: 10_000, run: c25_big },
            ],
            guided: true,
            known: vec![
                ("brace-line-end", "a block in braces followed by a line end is rejected", || {
                    let t = must_parse("while (a) {\n  b\n}\nc\n")?;
                    let want = vec![
                        S::While(gen::var("a"), blk(vec![S::Expr(gen::var("b"))])),
                        S::Expr(gen::var("c")),
                    ];
                    same(&want, &tree::no_locs(t))
                }),
                ("brace-indented-lines", "several statements on indented lines in braces are rejected", || {
                    let t = must_parse("while (a) {\n  b\n  c\n}")?;
                    let want = vec![S::While(
                        gen::var("a"),
                        blk(vec![S::Expr(gen::var("b")), S::Expr(gen::var("c"))]),
                    )];
                    same(&want, &tree::no_locs(t))
                }),
            ],
        },
    ]
}

fn blk(b: Vec<S>) -> Box<S> {
    Box::new(S::Block(b))
}

fn same(want: &Vec<S>, got: &Vec<S>) -> CaseResult {
    if want == got {
        Ok(())
    } else {
        Err(tree::diff("trees", want, got))
    }
}

// -------------------------------------------------------------------- C06

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ln {
    Simple(u8),
    If,
    Else,
    ElseIf,
    While,
    For,
    ForVar,
    Fun,
    Class,
    Sub,
    Method,
    ClassMethod,
    /// g(fun (x)
    Arg,
    /// )
    Close,
}

impl Ln {
    fn text(self) -> &'static str {
        match self {
            Ln::Simple(0) => "a",
            Ln::Simple(1) => "print b",
            Ln::Simple(2) => "c = 1",
            Ln::Simple(3) => "m(x, y)",
            Ln::Simple(_) => "var v",
            Ln::If => "if (a)",
            Ln::Else => "else",
            Ln::ElseIf => "else if (b)",
            Ln::While => "while (a)",
            Ln::For => "for (;;)",
            Ln::ForVar => "for (var i = 0; i; i)",
            Ln::Fun => "fun f(x)",
            Ln::Class => "class A",
            Ln::Sub => "class B < A",
            Ln::Method => "m(x, y)",
            Ln::ClassMethod => "class k()",
            Ln::Arg => "g(fun (x)",
            Ln::Close => ")",
        }
    }
}

struct Lines {
    l: Vec<(usize, Ln)>,
}

impl Lines {
    fn step(src: &mut Src) -> usize {
        match src.weighted(&[6, 4, 1]) {
            0 => 2,
            1 => src.range(1, 9),
            _ => src.range(10, 60),
        }
    }

    fn body(&mut self, src: &mut Src, w: usize, depth: usize) {
        let w = w + Lines::step(src);
        let n = 1 + src.weighted(&[5, 3, 1]);
        self.stmts(src, w, depth, n);
    }

    fn stmts(&mut self, src: &mut Src, w: usize, depth: usize, n: usize) {
        for _ in 0..n {
            self.stmt(src, w, depth)
        }
    }

    fn stmt(&mut self, src: &mut Src, w: usize, depth: usize) {
        if depth == 0 || self.l.len() > 60 {
            let k = Ln::Simple(src.below(5) as u8);
            return self.l.push((w, k));
        }
        let d = depth - 1;
        match src.weighted(&[4, 3, 2, 1, 1, 2, 2, 2]) {
            0 => {
                let k = Ln::Simple(src.below(5) as u8);
                self.l.push((w, k));
            }
            1 => {
                self.l.push((w, Ln::If));
                self.body(src, w, d);
                while src.chance(1, 4) {
                    self.l.push((w, Ln::ElseIf));
                    self.body(src, w, d);
                }
                if src.chance(1, 2) {
                    self.l.push((w, Ln::Else));
                    self.body(src, w, d);
                }
            }
            2 => {
                self.l.push((w, Ln::While));
                self.body(src, w, d);
            }
            3 => {
                self.l.push((w, Ln::For));
                self.body(src, w, d);
            }
            4 => {
                self.l.push((w, Ln::ForVar));
                self.body(src, w, d);
            }
            5 => {
                self.l.push((w, Ln::Fun));
                self.body(src, w, d);
            }
            6 => {
                let k = if src.chance(1, 2) { Ln::Sub } else { Ln::Class };
                self.l.push((w, k));
                let w = w + Lines::step(src);
                for _ in 0..src.range(1, 3) {
                    let k = if src.chance(1, 3) {
                        Ln::ClassMethod
                    } else {
                        Ln::Method
                    };
                    self.l.push((w, k));
                    self.body(src, w, d);
                }
            }
            _ => {
                self.l.push((w, Ln::Arg));
                self.body(src, w, d);
                self.l.push((w, Ln::Close));
            }
        }
    }
}

/// Where the model finds a fault.
enum Fault {
    /// These lines return to no open indentation.
    Outdents(Vec<usize>),
    /// The line is indented without a header.
    Indented(usize),
    /// Some other error, of which only that it exists is checked.
    Other,
}

struct Model<'a> {
    l: &'a [(usize, Ln)],
    level: Vec<usize>,
    i: usize,
}

type M<T> = Result<T, Fault>;

fn model(l: &[(usize, Ln)]) -> M<Vec<S>> {
    let mut open = vec![0usize];
    let mut bad = Vec::new();
    let mut level = Vec::new();
    for (i, (w, _)) in l.iter().enumerate() {
        if *w > *open.last().unwrap() {
            open.push(*w);
        } else {
            while *open.last().unwrap() > *w {
                open.pop();
            }
            if *open.last().unwrap() != *w {
                bad.push(i);
            }
        }
        level.push(open.len() - 1);
    }
    if !bad.is_empty() {
        return Err(Fault::Outdents(bad));
    }
    let mut m = Model { l, level, i: 0 };
    let r = m.stmts(0)?;
    assert!(m.i == l.len());
    Ok(r)
}

impl Model<'_> {
    fn kind(&self) -> Option<Ln> {
        self.l.get(self.i).map(|x| x.1)
    }

    fn stmts(&mut self, lv: usize) -> M<Vec<S>> {
        let mut r = Vec::new();
        while self.i < self.l.len() && self.level[self.i] >= lv {
            if self.level[self.i] > lv {
                return Err(Fault::Indented(self.i));
            }
            r.push(self.stmt(lv)?);
        }
        Ok(r)
    }

    /// The lines under the header at hand.
    fn body(&mut self, lv: usize) -> M<Vec<S>> {
        self.i += 1;
        if self.i < self.l.len() && self.level[self.i] > lv {
            self.stmts(lv + 1)
        } else {
            Err(Fault::Other)
        }
    }

    fn fun(&mut self, lv: usize, params: &[&str], kind: FK) -> M<FunD> {
        Ok(FunD {
            params: params.iter().map(|p| ((*p).to_owned(), Z)).collect(),
            body: self.body(lv)?,
            kind,
            loc: Z,
        })
    }

    fn if_(&mut self, lv: usize, c: &str) -> M<S> {
        let t = blk(self.body(lv)?);
        let here = self.i < self.l.len() && self.level[self.i] == lv;
        let e = match self.kind() {
            Some(Ln::Else) if here => Some(blk(self.body(lv)?)),
            Some(Ln::ElseIf) if here => Some(Box::new(self.if_(lv, "b")?)),
            _ => None,
        };
        Ok(S::If(gen::var(c), t, e))
    }

    fn stmt(&mut self, lv: usize) -> M<S> {
        let v = gen::var;
        let k = self.l[self.i].1;
        Ok(match k {
            Ln::Simple(_) | Ln::Method => {
                self.i += 1;
                match k {
                    Ln::Simple(0) => S::Expr(v("a")),
                    Ln::Simple(1) => S::Print(v("b")),
                    Ln::Simple(2) => {
                        S::Expr(E::Assign("c".into(), None, Box::new(gen::num(1)), Z))
                    }
                    Ln::Simple(3) | Ln::Method => {
                        S::Expr(E::Call(Box::new(v("m")), vec![v("x"), v("y")], Z))
                    }
                    _ => S::Var("v".into(), None, E::Nil, Z),
                }
            }
            Ln::If => self.if_(lv, "a")?,
            Ln::While => S::While(v("a"), blk(self.body(lv)?)),
            Ln::For => S::While(E::Bool(true), blk(self.body(lv)?)),
            Ln::ForVar => {
                let b = blk(self.body(lv)?);
                S::Block(vec![
                    S::Var("i".into(), None, gen::num(0), Z),
                    S::WhileInc(v("i"), b, Box::new(v("i"))),
                ])
            }
            Ln::Fun => S::Fun("f".into(), self.fun(lv, &["x"], FK::Plain)?),
            Ln::Class | Ln::Sub => {
                self.i += 1;
                let mut methods = Vec::new();
                while self.i < self.l.len() && self.level[self.i] > lv {
                    if self.level[self.i] > lv + 1 {
                        return Err(Fault::Indented(self.i));
                    }
                    methods.push(match self.l[self.i].1 {
                        Ln::Method | Ln::Simple(3) => (
                            "m".to_owned(),
                            self.fun(lv + 1, &["x", "y"], FK::Method)?,
                        ),
                        Ln::ClassMethod => {
                            ("k".to_owned(), self.fun(lv + 1, &[], FK::ClassMethod)?)
                        }
                        _ => return Err(Fault::Other),
                    });
                }
                if methods.is_empty() {
                    return Err(Fault::Other);
                }
                let (name, sup) = if k == Ln::Class {
                    ("A", None)
                } else {
                    ("B", Some(Box::new(v("A"))))
                };
                S::Class(ClassD {
                    name: name.into(),
                    sup,
                    methods,
                    loc: Z,
                })
            }
            Ln::Arg => {
                let f = self.fun(lv, &["x"], FK::Plain)?;
                let here = self.i < self.l.len() && self.level[self.i] == lv;
                if !here || self.kind() != Some(Ln::Close) {
                    return Err(Fault::Other);
                }
                self.i += 1;
                S::Expr(E::Call(Box::new(v("g")), vec![E::Fun(Box::new(f))], Z))
            }
            Ln::Else | Ln::ElseIf | Ln::ClassMethod | Ln::Close => {
                return Err(Fault::Other)
            }
        })
    }
}

fn c06_structures(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut ls = Lines { l: Vec::new() };
    let depth = src.range(1, 7);
    let n = src.range(1, 4);
    ls.stmts(src, 0, depth, n);
    let mut l = ls.l;
    let mut moved = 0;
    if src.chance(2, 3) {
        let widths: Vec<usize> = l.iter().map(|x| x.0).collect();
        for _ in 0..1 + src.weighted(&[4, 2, 1]) {
            let i = src.idx(l.len());
            l[i].0 = match src.below(3) {
                0 => *src.pick(&widths),
                1 => *src.pick(&widths) + 1,
                _ => src.range(0, 12),
            };
            moved += 1;
        }
    }
    // Write the lines, with blank ones in between.
    let blanks = *src.pick(&[0, 0, 1, 3]);
    let crlf = src.chance(1, 8);
    let mut text = String::new();
    let mut rows = Vec::new();
    let mut row = 1;
    let nl = if crlf { "\r\n" } else { "\n" };
    for (w, k) in &l {
        while blanks > 0 && src.chance(blanks, 10) {
            text.push_str(&" ".repeat(gen::width(src, 0, 12)));
            if src.chance(1, 2) {
                text.push_str(&render::comment_text(src));
            }
            text.push_str(nl);
            row += 1;
        }
        text.push_str(&" ".repeat(*w));
        text.push_str(k.text());
        if blanks > 0 && src.chance(blanks, 10) {
            text.push_str("  ");
            if src.chance(1, 2) {
                text.push_str(&render::comment_text(src));
            }
        }
        text.push_str(nl);
        rows.push(row);
        row += 1;
    }
    ctx.input("source", &text);
    let levels = l.iter().filter(|x| x.0 > 0).count();
    ctx.case(&text, levels > 1);
    if moved > 0 {
        ctx.label("with re-indented lines");
    }
    let got = sut::parse(&text)?;
    match (model(&l), got) {
        (Ok(want), Ok(t)) => {
            ctx.label("accepted");
            same(&want, &tree::no_locs(t))
        }
        (Ok(_), Err(c)) => Err(format!("rejected a program: {}", brief(&c))),
        (Err(f), Err(c)) => match f {
            Fault::Outdents(b) => {
                ctx.label("outdent to no open level");
                let want: Vec<Loc> =
                    b.iter().map(|i| (rows[*i], l[*i].0 as u32 + 1)).collect();
                if locs(&c) == want {
                    Ok(())
                } else {
                    Err(format!("errors [{}]; expected {want:?}", brief(&c)))
                }
            }
            Fault::Indented(i) => {
                ctx.label("indented without a header");
                // An indented expression is an expression, but no statement:
                // the error may be at its end.
                if c[0].loc.0 >= rows[i] {
                    Ok(())
                } else {
                    Err(format!(
                        "first error at {:?} ({}); expected it from line {} on, which is indented without a header",
                        c[0].loc,
                        brief(&c),
                        rows[i]
                    ))
                }
            }
            Fault::Other => {
                ctx.label("other errors");
                Ok(())
            }
        },
        (Err(f), Ok(t)) => Err(match f {
            Fault::Outdents(b) => format!(
                "accepted a source in which line {} returns to no open indentation: {t:?}",
                rows[b[0]]
            ),
            Fault::Indented(i) => format!(
                "accepted a source in which line {} is indented without a header: {t:?}",
                rows[i]
            ),
            Fault::Other => format!("accepted a header without a body: {t:?}"),
        }),
    }
}

/// Changes the indentation of some lines.
fn reindent(src: &mut Src, text: &str) -> String {
    let mut lines: Vec<String> =
        text.split_inclusive('\n').map(str::to_owned).collect();
    if lines.is_empty() {
        return text.to_owned();
    }
    let width = |l: &str| l.len() - l.trim_start_matches(' ').len();
    let ws: Vec<usize> = lines.iter().map(|l| width(l)).collect();
    for _ in 0..1 + src.weighted(&[5, 2, 1]) {
        let i = src.idx(lines.len());
        let w = match src.below(3) {
            0 => *src.pick(&ws),
            1 => *src.pick(&ws) + 1,
            _ => src.range(0, 10),
        };
        // Move it alone, or with all deeper lines that follow.
        let old = width(&lines[i]);
        let mut j = i;
        let group = src.chance(1, 2);
        loop {
            let cur = width(&lines[j]);
            let new = (cur + w).saturating_sub(old);
            lines[j] =
                format!("{}{}", " ".repeat(new), lines[j].trim_start_matches(' '));
            j += 1;
            if !group || j >= lines.len() || ws[j] <= old {
                break;
            }
        }
    }
    lines.concat()
}

fn c06_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = gen::program(src, Cfg::new(40));
    let st = Style {
        braces: *src.pick(&[Choice::Never, Choice::Never, Choice::Mixed]),
        ..Style::random(src)
    };
    let r = render(src, &p, &st);
    let text = reindent(src, &r.text);
    ctx.input("source", &text);
    ctx.case(&text, r.used.max_depth > 1);
    let Some(toks) = lex_agree(&text)? else {
        ctx.label("outdent to no open level");
        return Ok(());
    };
    match parse_agree(&text, &toks, Start::File)? {
        Ok(_) => ctx.label("accepted"),
        Err(_) => ctx.label("rejected"),
    }
    Ok(())
}

fn c06_balance(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let text = match src.below(3) {
        0 => soup::any(src),
        1 => soup::mutated(src, 40),
        _ => {
            let t = soup::token_soup(src);
            reindent(src, &t)
        }
    };
    ctx.input("source", &text);
    let Ok(toks) = sut::scan(&text)? else {
        ctx.case(&text, false);
        return Ok(());
    };
    let opens = toks.iter().filter(|t| t.kind == K::Indent).count();
    ctx.case(&text, opens > 1);
    balanced(&toks)?;
    lex_agree(&text)?;
    Ok(())
}

fn balanced(toks: &[Tok]) -> CaseResult {
    let mut open = 0usize;
    for (i, t) in toks.iter().enumerate() {
        match t.kind {
            K::Indent => open += 1,
            K::Outdent => {
                open = open
                    .checked_sub(1)
                    .ok_or(format!("token {i} closes a block that is not open"))?
            }
            K::Eof if open > 0 => {
                return Err(format!("{open} blocks are never closed"));
            }
            _ => (),
        }
    }
    match toks.last() {
        Some(t) if t.kind == K::Eof => Ok(()),
        t => Err(format!("the last token is {t:?}")),
    }
}

fn c06_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let kinds = [
        Big::DeepIndent,
        Big::DeepIndent,
        Big::NestBlocks,
        Big::NestLoops,
        Big::NestFuns,
        Big::ManyLines,
    ];
    let (k, s) = big::big(src, &kinds, 200);
    let s = if src.chance(1, 3) { reindent(src, &s) } else { s };
    big_case(ctx, k, &s);
    if let Ok(t) = sut::scan(&s)? {
        balanced(&t)?;
    }
    if let Some(toks) = lex_agree(&s)? {
        if parse_agree(&s, &toks, Start::File)?.is_ok() {
            ctx.label("accepted");
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C07

/// A line of what lies between two tokens.
struct Seg {
    comment: bool,
    /// Spaces, if it's not followed by a line end: an indentation or a gap.
    spaces: usize,
    backslash: bool,
    crlf: bool,
}

fn segs(gap: &str) -> Vec<Seg> {
    let mut r: Vec<Seg> = Vec::new();
    for line in gap.split('\n') {
        let crlf = line.ends_with('\r');
        let c = line.find("//");
        let b = line.find('\\');
        let comment = c.is_some_and(|c| b.is_none_or(|b| c < b));
        r.push(Seg {
            comment,
            spaces: line.chars().filter(|c| *c == ' ').count(),
            backslash: b.is_some() && !comment,
            crlf,
        });
    }
    r
}

/// What may be changed.
#[derive(Clone, Copy, Default, Debug)]
struct Changes {
    comments: bool,
    lines: bool,
    trailing: bool,
    gaps: bool,
    crlf: bool,
    scale: (usize, usize),
}

struct Rewriter<'a> {
    src: &'a mut Src,
    ch: Changes,
    /// Chance in 100 of changing any one place.
    pct: u64,
    changed: usize,
}

impl Rewriter<'_> {
    fn hit(&mut self, on: bool) -> bool {
        let h = on && self.src.chance(self.pct, 100);
        if h {
            self.changed += 1;
        }
        h
    }

    fn nl(&mut self, was: bool) -> &'static str {
        let crlf = if self.hit(self.ch.crlf) { !was } else { was };
        if crlf {
            "\r\n"
        } else {
            "\n"
        }
    }

    /// The rest of a line after its last token, before the line end.
    fn tail(&mut self, out: &mut String, s: &Seg) {
        if s.backslash {
            out.push_str(" \\");
            if self.hit(self.ch.trailing) {
                out.push_str(&" ".repeat(gen::width(self.src, 1, 4)));
            }
            return;
        }
        let comment = if self.hit(self.ch.comments) {
            self.src.chance(2, 3)
        } else {
            s.comment
        };
        if self.hit(self.ch.trailing) || comment {
            out.push_str(&" ".repeat(gen::width(self.src, 1, 4)));
        }
        if comment {
            out.push_str(&render::comment_text(self.src));
        }
    }

    fn blank_line(&mut self, out: &mut String, was: &Seg) {
        if was.backslash {
            out.push_str("   \\");
        } else {
            out.push_str(&" ".repeat(gen::width(self.src, 0, 9)));
            if self.src.chance(1, 2) {
                out.push_str(&render::comment_text(self.src));
            }
        }
        let nl = self.nl(was.crlf);
        out.push_str(nl);
    }

    fn new_lines(&mut self, out: &mut String, crlf: bool) {
        while self.hit(self.ch.lines) {
            let s = Seg {
                comment: false,
                spaces: 0,
                backslash: false,
                crlf,
            };
            self.blank_line(out, &s);
        }
    }

    fn gap(&mut self, out: &mut String, gap: &str, prev: Option<&Tok>, next: Option<&Tok>) {
        let ss = segs(gap);
        let n = ss.len();
        for (i, s) in ss.iter().enumerate() {
            let first = i == 0 && prev.is_some();
            if i + 1 < n {
                if first {
                    self.tail(out, s);
                    let nl = self.nl(s.crlf);
                    out.push_str(nl);
                    self.new_lines(out, s.crlf);
                } else if s.backslash {
                    self.blank_line(out, s);
                } else {
                    // A blank or comment-only line.
                    if !self.hit(self.ch.lines) {
                        out.push_str(&" ".repeat(s.spaces.min(400)));
                        if s.comment && !self.hit(self.ch.comments) {
                            out.push_str("// x");
                        }
                        let nl = self.nl(s.crlf);
                        out.push_str(nl);
                    }
                    self.new_lines(out, s.crlf);
                }
                continue;
            }
            // The last part: an indentation, a gap within a line, or the end.
            match next {
                None if first => {
                    let mut e = String::new();
                    self.tail(&mut e, s);
                    out.push_str(&e);
                }
                None => {
                    self.new_lines(out, false);
                    if s.comment || self.hit(self.ch.lines) {
                        out.push_str("  // end");
                    }
                }
                Some(_) if !first => {
                    if i == 0 {
                        self.new_lines(out, false);
                    }
                    let (m, d) = self.ch.scale;
                    out.push_str(&" ".repeat(s.spaces * m / d));
                }
                Some(next) => {
                    let prev = prev.unwrap();
                    let w = if self.hit(self.ch.gaps) {
                        let solid = |k: K| {
                            matches!(
                                k,
                                K::RParen
                                    | K::LBracket
                                    | K::RBracket
                                    | K::LBrace
                                    | K::RBrace
                                    | K::Comma
                                    | K::Semi
                                    | K::Colon
                            )
                        };
                        match next.kind {
                            K::LParenTouch => s.spaces,
                            K::LParen => gen::width(self.src, 1, 4),
                            k if solid(k) || solid(prev.kind) => gen::width(self.src, 0, 4),
                            _ => gen::width(self.src, 1, 4),
                        }
                    } else {
                        s.spaces
                    };
                    // Something that isn't a space may have held two apart.
                    let w = if w == 0 && !gap.is_empty() { 1 } else { w };
                    out.push_str(&" ".repeat(w));
                }
            }
        }
    }
}

/// Source tokens only: no layout.
pub fn real(toks: &[Tok]) -> Vec<&Tok> {
    toks.iter()
        .filter(|t| !matches!(t.kind, K::Indent | K::Outdent | K::Term | K::Eof))
        .collect()
}

fn rewrite(src: &mut Src, text: &str, toks: &[Tok], mut ch: Changes) -> (String, usize) {
    let toks = real(toks);
    let widths: Vec<usize> = text
        .split('\n')
        .map(|l| l.len() - l.trim_start_matches(' ').len())
        .collect();
    let max = widths.iter().max().copied().unwrap_or(0);
    if max * ch.scale.0 > 60_000 {
        ch.scale = (1, 1);
    }
    let pct = *src.pick(&[3, 10, 30, 60]);
    let scaled = ch.scale.0 != ch.scale.1 && max > 0;
    let mut rw = Rewriter {
        src,
        ch,
        pct,
        changed: usize::from(scaled),
    };
    let mut out = String::new();
    let mut at = 0;
    for (i, t) in toks.iter().enumerate() {
        let prev = if i > 0 { Some(toks[i - 1]) } else { None };
        rw.gap(&mut out, &text[at..t.start], prev, Some(t));
        out.push_str(&text[t.start..t.end]);
        at = t.end;
    }
    rw.gap(&mut out, &text[at..], toks.last().copied(), None);
    (out, rw.changed)
}

enum Out {
    Lexical,
    Syntax,
    Scoping(Vec<S>),
    Fine(Vec<S>, Vec<S>),
}

fn outcome(text: &str) -> Res<(Out, String)> {
    if let Err(c) = sut::scan(text)? {
        return Ok((Out::Lexical, brief(&c)));
    }
    Ok(match sut::parse(text)? {
        Err(c) => (Out::Syntax, brief(&c)),
        Ok(t) => match sut::front(text)? {
            Err(c) => (Out::Scoping(tree::no_locs(t)), brief(&c)),
            Ok(r) => (
                Out::Fine(tree::no_locs(t), tree::no_locs(r)),
                "accepted".into(),
            ),
        },
    })
}

fn same_outcome(a: &str, b: &str) -> Res<&'static str> {
    let (x, xs) = outcome(a)?;
    let (y, ys) = outcome(b)?;
    match (&x, &y) {
        (Out::Lexical, Out::Lexical) => Ok("lexical error"),
        (Out::Syntax, Out::Syntax) => Ok("syntax error"),
        (Out::Scoping(s), Out::Scoping(t)) => {
            same(s, t)?;
            Ok("scoping error")
        }
        (Out::Fine(s, u), Out::Fine(t, v)) => {
            same(s, t)?;
            same(u, v).map_err(|e| format!("resolved {e}"))?;
            Ok("accepted")
        }
        _ => Err(format!("before the change: {xs}; after it: {ys}")),
    }
}

fn c07_check(src: &mut Src, ctx: &mut Ctx, text: &str, ch: Changes) -> CaseResult {
    ctx.input("source", text);
    let sc = refscan::scan(text);
    if !sc.errs.is_empty() {
        ctx.case(text, false);
        return Ok(());
    }
    let (new, changed) = rewrite(src, text, &sc.toks, ch);
    ctx.input("changed", &new);
    ctx.case(&new, changed > 0 && sc.toks.len() > 2);
    let l = same_outcome(text, &new)?;
    ctx.label(l);
    Ok(())
}

fn scale(src: &mut Src) -> (usize, usize) {
    *src.pick(&[(1, 1), (1, 1), (2, 1), (3, 1), (5, 1), (4, 1), (17, 1)])
}

fn all_changes(src: &mut Src) -> Changes {
    Changes {
        comments: src.chance(1, 2),
        lines: src.chance(1, 2),
        trailing: src.chance(1, 2),
        gaps: src.chance(1, 2),
        crlf: src.chance(1, 4),
        scale: scale(src),
    }
}

fn c07_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let mut cfg = Cfg::new(f);
    if src.chance(1, 4) {
        cfg.mischief = 30;
    }
    let p = gen::program(src, cfg);
    let st = Style::random(src);
    let r = render(src, &p, &st);
    let ch = all_changes(src);
    c07_check(src, ctx, &r.text, ch)
}

fn c07_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let t = match src.below(3) {
        0 => soup::token_soup(src),
        1 => soup::mutated(src, 40),
        _ => {
            let r = soup::program_text(src, 40);
            reindent(src, &r.text)
        }
    };
    let ch = all_changes(src);
    c07_check(src, ctx, &t, ch)
}

/// Only one kind of change at a time, on plain programs.
fn c07_single(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = gen::program(src, Cfg::new(40));
    let r = render(src, &p, &Style::plain());
    let mut ch = Changes {
        scale: (1, 1),
        ..Changes::default()
    };
    match src.below(6) {
        0 => ch.comments = true,
        1 => ch.lines = true,
        2 => ch.trailing = true,
        3 => ch.gaps = true,
        4 => ch.crlf = true,
        _ => {
            ch.scale = match src.below(4) {
                // One space per level.
                0 => (1, 2),
                _ => (src.range(3, 40), 2),
            }
        }
    }
    c07_check(src, ctx, &r.text, ch)
}

fn c07_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let kinds = [
        Big::LongLine,
        Big::DeepIndent,
        Big::ManyLines,
        Big::NestBlocks,
        Big::List,
        Big::Map,
    ];
    let (k, s) = big::big(src, &kinds, 100);
    big_case(ctx, k, "");
    let mut ch = all_changes(src);
    // Widths beyond the largest column are all alike.
    ch.scale = (1, 1);
    c07_check(src, ctx, &s, ch)
}

// -------------------------------------------------------------------- C08

const KINDS: [&str; 50] = [
    "a", "1", "2.5", "\"s\"", "\"\"", "(", ")", "{", "}", "[", "]", ":", ",", ".", "-",
    "+", ";", "/", "*", "!", "!=", "=", "==", ">", ">=", "<", "<=", "and",
    "break", "class", "continue", "else", "false", "for", "fun", "if", "nil",
    "or", "print", "return", "super", "this", "true", "var", "while", "_",
    "é", "\"\n\"", "x9", "\"//\"",
];

const CONTINUING: [&str; 14] =
    ["(", "{", "[", ":", ",", ".", "+", "-", "*", "/", "<", "<=", ">", ">="];

/// Line breaks, and whether they are broken lines.
const BREAKS: [(&str, bool); 14] = [
    ("\n", false),
    ("\r\n", false),
    ("  \n", false),
    (" // c\n", false),
    (" // c \\\n", false),
    ("\n\n", false),
    ("\n    // c\n   \n", false),
    (" // c\r\n\r\n//\r\n", false),
    ("\\\n", true),
    (" \\\n", true),
    ("\\  \n", true),
    (" \\\r\n", true),
    ("\\\n\n", true),
    (" \\\n   // c\n", true),
];

const INDENTS: [usize; 4] = [0, 1, 2, 7];

fn pair_count() -> u64 {
    (KINDS.len() * KINDS.len() * BREAKS.len() * INDENTS.len()) as u64
}

fn c08_pairs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut i = src.index as usize;
    let mut next = |n: usize| {
        let r = i % n;
        i /= n;
        r
    };
    let a = KINDS[next(KINDS.len())];
    let b = KINDS[next(KINDS.len())];
    let (brk, broken) = BREAKS[next(BREAKS.len())];
    let w = INDENTS[next(INDENTS.len())];
    // A slash and a comment would be another comment.
    let text = format!("{a}{brk}{}{b}\n", " ".repeat(w));
    ctx.input("source", &text);
    ctx.case(&text, true);
    let toks = match sut::scan(&text)? {
        Ok(t) => t,
        Err(c) => return Err(format!("lexical errors: {}", brief(&c))),
    };
    let goes_on = broken || CONTINUING.contains(&a);
    let mut want: Vec<K> = Vec::new();
    if !goes_on {
        want.push(K::Term);
        if w > 0 {
            want.push(K::Indent);
        }
    }
    let between: Vec<K> = toks
        .iter()
        .skip(1)
        .take_while(|t| matches!(t.kind, K::Indent | K::Outdent | K::Term))
        .map(|t| t.kind)
        .collect();
    let got_b = toks.get(1 + between.len()).map(|t| t.text.clone());
    if toks[0].text != a || got_b.as_deref() != Some(b) {
        return Err(format!("tokens {toks:?}"));
    }
    if between != want {
        return Err(format!(
            "between {a:?} and {b:?} stand {between:?}; expected {want:?}"
        ));
    }
    Ok(())
}

fn leading(text: &str, at: usize) -> usize {
    let ls = text[..at].rfind('\n').map_or(0, |i| i + 1);
    text[ls..]
        .chars()
        .take_while(|c| matches!(c, ' ' | '\r'))
        .filter(|c| *c == ' ')
        .count()
}

/// Breaks lines where that makes no difference.
fn break_lines(src: &mut Src, text: &str, toks: &[Tok]) -> (String, usize, usize) {
    let toks = real(toks);
    let pct = *src.pick(&[3, 10, 30, 80]);
    let mut out = String::new();
    let (mut plain, mut slashes) = (0, 0);
    let mut at = 0;
    let mut base = 0;
    for (i, t) in toks.iter().enumerate() {
        let gap = &text[at..t.start];
        if i == 0 || gap.contains('\n') {
            base = leading(text, t.start);
        }
        let can = i > 0
            && !gap.contains('\n')
            && gap.bytes().all(|b| b == b' ')
            && t.kind != K::LParenTouch;
        if can && src.chance(pct, 100) {
            let backslash = !continues(toks[i - 1].kind) || src.chance(1, 4);
            if backslash {
                slashes += 1;
                out.push_str(*src.pick(&[" \\", "\\", "  \\ ", "\\   "]));
            } else {
                plain += 1;
                out.push_str(*src.pick(&["", "", " ", "  ", " // c", "   // \"\\"]));
            }
            out.push_str(*src.pick(&["\n", "\n", "\n", "\r\n"]));
            while src.chance(1, 8) {
                out.push_str(&" ".repeat(gen::width(src, 0, 4)));
                out.push_str(*src.pick(&["\n", "\n", "// c\n", "// c\r\n"]));
            }
            out.push_str(&" ".repeat(gen::width(src, base, base + 9)));
        } else {
            out.push_str(gap);
        }
        out.push_str(&text[t.start..t.end]);
        at = t.end;
    }
    out.push_str(&text[at..]);
    (out, plain, slashes)
}

fn c08_check(src: &mut Src, ctx: &mut Ctx, text: &str) -> CaseResult {
    ctx.input("source", text);
    let sc = refscan::scan(text);
    if !sc.errs.is_empty() {
        ctx.case(text, false);
        return Ok(());
    }
    let (new, plain, slashes) = break_lines(src, text, &sc.toks);
    ctx.input("broken", &new);
    ctx.case(&new, plain + slashes > 0);
    if plain > 0 {
        ctx.label("broken after continuing tokens");
    }
    if slashes > 0 {
        ctx.label("broken with backslashes");
    }
    let l = same_outcome(text, &new)?;
    ctx.label(l);
    Ok(())
}

fn c08_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let p = gen::program(src, Cfg::new(f));
    let st = Style::random(src);
    let r = render(src, &p, &st);
    c08_check(src, ctx, &r.text)
}

fn c08_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let t = match src.below(2) {
        0 => soup::token_soup(src),
        _ => soup::mutated(src, 40),
    };
    c08_check(src, ctx, &t)
}

fn c08_ends(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let r = soup::program_text(src, 40);
    if r.toks.len() < 2 {
        ctx.case(&r.text, false);
        return Ok(());
    }
    let mut text = r.text.clone();
    let n = 1 + src.weighted(&[6, 2, 1]);
    let mut picks: Vec<usize> =
        (0..n).map(|_| 1 + src.idx(r.toks.len() - 1)).collect();
    picks.sort();
    picks.dedup();
    for i in picks.into_iter().rev() {
        let (s, _) = r.toks[i];
        let e = r.toks[i - 1].1;
        let gap = &r.text[e..s];
        if gap.contains('\n') {
            continue;
        }
        let w = leading(&r.text, s);
        let w = match src.below(3) {
            0 => gen::width(src, w + 1, w + 3),
            _ => w,
        };
        let brk = *src.pick(&["\n", " \n", "\r\n", " // c\n", "\n\n"]);
        text = format!("{}{brk}{}{}", &text[..e], " ".repeat(w), &text[s..]);
    }
    ctx.input("source", &text);
    ctx.case(&text, text != r.text);
    let Some(toks) = lex_agree(&text)? else {
        return Ok(());
    };
    match parse_agree(&text, &toks, Start::File)? {
        Ok(_) => ctx.label("accepted"),
        Err(_) => ctx.label("rejected"),
    }
    Ok(())
}

// -------------------------------------------------------------------- C09

fn c09_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let p = gen::program(src, Cfg::new(f));
    let mut st = Style::random(src);
    if src.chance(1, 2) {
        st.comments = 30;
        st.breaks = 15;
        st.spaces = 40;
    }
    let r = render(src, &p, &st);
    ctx.input("source", &r.text);
    note_used(ctx, &r);
    let t = must_parse(&r.text)?;
    let toks = refscan::scan(&r.text).toks;
    let n = points_at(&t, &toks)?;
    ctx.case(&r.text, n > 3);
    if t != r.tree {
        return Err(tree::diff("trees", &r.tree, &t));
    }
    // Resolving keeps all of them.
    match sut::front(&r.text)? {
        Ok(t) => {
            let t = tree::no_anns(t);
            if t != r.tree {
                return Err(tree::diff("resolved trees", &r.tree, &t));
            }
            Ok(())
        }
        Err(c) => Err(format!("scoping error in a valid program: {}", brief(&c))),
    }
}

/// Every location is the start of a token with the text it describes.
pub fn points_at(t: &[S], toks: &[Tok]) -> Res<usize> {
    let by: HashMap<Loc, &Tok> = real(toks)
        .into_iter()
        .map(|t| ((t.line, t.col), t))
        .collect();
    let mut c = Claims {
        by,
        n: 0,
        err: None,
    };
    for s in t {
        c.stmt(s);
    }
    match c.err {
        Some(e) => Err(e),
        None => Ok(c.n),
    }
}

struct Claims<'a> {
    by: HashMap<Loc, &'a Tok>,
    n: usize,
    err: Option<String>,
}

impl Claims<'_> {
    fn at(&mut self, l: Loc, text: Option<&str>, what: &str) {
        self.n += 1;
        if l.1 >= 65535 || self.err.is_some() {
            return;
        }
        let got = self.by.get(&l).map(|t| t.text.as_str());
        if got.is_none() || text.is_some() && got != text {
            self.err = Some(format!(
                "the location {}:{} of {what} {:?} is where {:?} stands",
                l.0, l.1, text.unwrap_or(""), got
            ));
        }
    }

    fn fun(&mut self, f: &FunD, text: &str) {
        self.at(f.loc, Some(text), "the function");
        for (n, l) in &f.params {
            self.at(*l, Some(n), "the parameter");
        }
        for s in &f.body {
            self.stmt(s);
        }
    }

    fn stmt(&mut self, s: &S) {
        match s {
            S::Block(b) => b.iter().for_each(|s| self.stmt(s)),
            S::Break(l) => self.at(*l, Some("break"), "the keyword"),
            S::Continue(l) => self.at(*l, Some("continue"), "the keyword"),
            S::Class(c) => {
                self.at(c.loc, Some(&c.name), "the class");
                if let Some(e) = &c.sup {
                    self.expr(e);
                }
                for (n, f) in &c.methods {
                    self.fun(f, n);
                }
            }
            S::Expr(e) | S::Print(e) => self.expr(e),
            S::Fun(n, f) => self.fun(f, n),
            S::If(c, t, e) => {
                self.expr(c);
                self.stmt(t);
                if let Some(e) = e {
                    self.stmt(e);
                }
            }
            S::Return(e, l) => {
                self.at(*l, Some("return"), "the keyword");
                self.expr(e);
            }
            S::Var(n, _, e, l) => {
                self.at(*l, Some(n), "the variable");
                self.expr(e);
            }
            S::While(c, b) => {
                self.expr(c);
                self.stmt(b);
            }
            S::WhileInc(c, b, i) => {
                self.expr(c);
                self.stmt(b);
                self.expr(i);
            }
        }
    }

    fn expr(&mut self, e: &E) {
        match e {
            E::Assign(_, _, v, l) => {
                self.at(*l, Some("="), "the operator");
                self.expr(v);
            }
            E::Call(c, a, l) => {
                self.expr(c);
                self.at(*l, None, "a call");
                a.iter().for_each(|x| self.expr(x));
            }
            E::Bin(x, op, y, l) => {
                self.expr(x);
                self.at(*l, Some(render::bop(*op).1), "the operator");
                self.expr(y);
            }
            E::Fun(f) => self.fun(f, "fun"),
            E::Get(x, _, l) => {
                self.expr(x);
                self.at(*l, Some("."), "the access");
            }
            E::Index(x, i, l) => {
                self.expr(x);
                self.at(*l, Some("["), "the access");
                self.expr(i);
            }
            E::Group(x) => self.expr(x),
            E::Array(a) => a.iter().for_each(|x| self.expr(x)),
            E::Map(m) => m.iter().for_each(|x| self.expr(&x.1)),
            E::Bool(_) | E::Num(_) | E::Nil | E::Str(_) => (),
            E::Logic(x, _, y) => {
                self.expr(x);
                self.expr(y);
            }
            E::Set(x, _, v, l) => {
                self.expr(x);
                self.at(*l, Some("="), "the operator");
                self.expr(v);
            }
            E::SetIndex(x, i, v, l) => {
                self.expr(x);
                self.expr(i);
                self.at(*l, Some("="), "the operator");
                self.expr(v);
            }
            E::Super(_, _, l) => self.at(*l, Some("super"), "the keyword"),
            E::Var(n, _, l) => self.at(*l, Some(n), "the variable"),
            E::Un(op, x, l) => {
                let s = match op {
                    tree::UOp::Minus => "-",
                    tree::UOp::Not => "!",
                };
                self.at(*l, Some(s), "the operator");
                self.expr(x);
            }
        }
    }
}

fn c09_accepted(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let text = match src.below(3) {
        0 => soup::token_soup(src),
        1 => soup::mutated(src, 40),
        _ => {
            let r = soup::program_text(src, 60);
            reindent(src, &r.text)
        }
    };
    ctx.input("source", &text);
    match sut::parse(&text)? {
        Err(c) => {
            ctx.case(&text, true);
            ctx.label("rejected");
            errors_in_source(&text, &c)
        }
        Ok(t) => {
            let toks = refscan::scan(&text).toks;
            let n = points_at(&t, &toks)?;
            ctx.case(&text, n > 3);
            ctx.label("accepted");
            Ok(())
        }
    }
}

fn c09_errors(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let text = soup::any(src);
    ctx.input("source", &text);
    let mut any = false;
    let mut check = |c: &sut::Causes| {
        any = true;
        errors_in_source(&text, c)
    };
    if let Err(c) = sut::scan(&text)? {
        check(&c)?;
    }
    if let Err(c) = sut::front(&text)? {
        check(&c)?;
    }
    if let Err(c) = sut::parse_repl(&text)? {
        check(&c)?;
    }
    if let Err(c) = sut::parse_expr(&text)? {
        check(&c)?;
    }
    ctx.case(&text, any);
    // The places of all lexical errors and of the first syntax error.
    if let Some(toks) = lex_agree(&text)? {
        parse_agree(&text, &toks, Start::File)?.ok();
    }
    Ok(())
}

fn c09_scoping(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let mut cfg = Cfg::new(f);
    cfg.mischief = *src.pick(&[10, 30, 100]);
    let p = gen::program(src, cfg);
    let st = Style::random(src);
    let r = render(src, &p, &st);
    ctx.input("source", &r.text);
    match front_agree(&r.text)? {
        Resolved::Scoping(_) => {
            ctx.case(&r.text, true);
            ctx.label("with scoping errors");
        }
        _ => ctx.case(&r.text, false),
    }
    if let Err(c) = sut::front(&r.text)? {
        errors_in_source(&r.text, &c)?;
    }
    Ok(())
}

fn c09_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &big::ALL, 150);
    // Columns from 65535 on are all the same.
    if s.lines().any(|l| l.len() > 65_000) {
        ctx.case(&s, false);
        return Ok(());
    }
    big_case(ctx, k, &s);
    match sut::front(&s)? {
        Err(c) => errors_in_source(&s, &c),
        Ok(t) => {
            points_at(&t, &refscan::scan(&s).toks)?;
            Ok(())
        }
    }
}

fn c09_far(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = big::far_down(src);
    let rest = match src.below(3) {
        0 => soup::program_text(src, 20).text,
        _ => soup::any(src),
    };
    s.push_str(&rest);
    ctx.input("source", &s);
    ctx.case(&rest, true);
    match sut::front(&s)? {
        Err(c) => errors_in_source(&s, &c)?,
        Ok(t) => {
            points_at(&t, &refscan::scan(&s).toks)?;
        }
    }
    if let Some(toks) = lex_agree(&s)? {
        parse_agree(&s, &toks, Start::File)?.ok();
    }
    Ok(())
}

// -------------------------------------------------------------------- C25

fn c25_styles(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let p = gen::program(src, Cfg::new(f));
    let want = tree::no_locs(p.clone());
    let mut st = Style::random(src);
    let mut brace = 0;
    let mut nest = 0;
    let mut shown = String::new();
    for (name, c) in [
        ("indented", Choice::Never),
        ("in braces", Choice::Always),
        ("mixed", Choice::Mixed),
    ] {
        st.braces = c;
        let r = render(src, &p, &st);
        ctx.input(name, &r.text);
        brace += r.used.brace_bodies;
        nest += usize::from(r.used.brace_bodies > 0 && r.used.indent_bodies > 0);
        shown = r.text.clone();
        let t = sut::parse(&r.text)?
            .map_err(|c| format!("{name}: rejected a program: {}", brief(&c)))?;
        same(&want, &tree::no_locs(t)).map_err(|e| format!("{name}: {e}"))?;
    }
    ctx.case(&shown, brace > 0 && tree::size(&want) > 3);
    if nest > 0 {
        ctx.label("both in one program");
    }
    Ok(())
}

/// A header with a body in braces and the same indented, in a context.
fn c25_headers(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    const HEADS: [(&str, &str, &str); 12] = [
        ("if (a)", "", ""),
        ("if (a) b\nelse", "", ""),
        ("while (a)", "", ""),
        ("for (;;)", "", ""),
        ("for (var i = 0; i < 3; i = i + 1)", "", ""),
        ("fun f(x)", "", ""),
        ("fun f()", "", ""),
        ("class A", "m(x)", ""),
        ("class A < B", "init()", ""),
        ("class A", "class k(x, y)", ""),
        ("g(fun (x)", "", ")\n"),
        ("v = [fun ()", "", ", 1]\n"),
    ];
    const STMTS: [&str; 12] = [
        "a\n",
        "b = 1\n",
        "print a: 1, b: 2\n",
        "var v = {k: 1}\n",
        "var w\n",
        "f x, y\n",
        "while (a) { }\\\n",
        "if (a) print b\n",
        "{ c\n}\\\n",
        "print \"\n\"\n",
        "fun h() { return 1\n}\\\n",
        "f k: 1\n",
    ];
    let (head, member, close) = *src.pick(&HEADS);
    let deep = src.below(3);
    let n = src.range(0, 4);
    let body: Vec<&str> = (0..n).map(|_| *src.pick(&STMTS)).collect();
    let pad = "  ".repeat(deep as usize);
    let mut outer = String::new();
    for i in 0..deep as usize {
        outer.push_str(&"  ".repeat(i));
        outer.push_str(*src.pick(&["while (q)\n", "if (q)\n", "for (;;)\n"]));
    }
    let ctx_before = src.chance(1, 2);
    // Indented lines; the strings' own lines stay.
    let lines = |w: &str| -> String {
        body.iter().map(|s| {
            s.strip_suffix('\n').map(|s| s.replace("\n}", &format!("\n{w}}}")))
                .map(|s| format!("{w}{s}\n")).unwrap()
        }).collect()
    };
    let before = if ctx_before { format!("{pad}p\n") } else { String::new() };
    let head = head.replace('\n', &format!("\n{pad}"));
    let deeper = format!("{pad}   ");
    let write = |style: u64| -> String {
        let mut s = format!("{outer}{before}{pad}{head}");
        let tail = if close.is_empty() {
            format!("\\\n{pad}z\n")
        } else {
            format!("{close}{pad}z\n")
        };
        match (style, member.is_empty()) {
            // Indented (only if there is something to indent).
            (0, true) => {
                s.push('\n');
                s.push_str(&lines(&deeper));
                if close.is_empty() {
                    s.push_str(&format!("{pad}z\n"));
                } else {
                    s.push_str(&format!("{pad}{close}{pad}z\n"));
                }
            }
            (_, true) => {
                s.push_str(" {");
                if !body.is_empty() {
                    s.push_str("\\\n");
                    s.push_str(&lines(&pad));
                    s.push_str(&pad);
                }
                s.push('}');
                s.push_str(&tail);
            }
            (0, false) => {
                let d2 = format!("{deeper} ");
                s.push_str(&format!("\n{deeper}{member}\n{}{pad}z\n", lines(&d2)));
            }
            // Only the method's body, only the class's, or both.
            (1, false) => {
                s.push_str(&format!("\n{deeper}{member} {{\\\n{}{deeper}}}\\\n{pad}z\n", lines(&deeper)));
            }
            (2, false) => {
                s.push_str(&format!(" {{\\\n{pad}{member}\n{}{pad}}}\\\n{pad}z\n", lines(&deeper)));
            }
            (_, false) => {
                s.push_str(&format!(" {{\\\n{pad}{member} {{\\\n{}{pad}}} }}\\\n{pad}z\n", lines(&pad)));
            }
        }
        s
    };
    let styles: u64 = if member.is_empty() { 2 } else { 4 };
    let first = u64::from(n == 0);
    let mut want: Option<Vec<S>> = None;
    for st in first..styles {
        // Without lines, nothing can be indented.
        if n == 0 && !member.is_empty() && (st == 0 || st == 2) {
            continue;
        }
        let text = write(st);
        ctx.input(&format!("style {st}"), &text);
        ctx.case(&text, n > 0);
        let t = sut::parse(&text)?
            .map_err(|c| format!("style {st}: rejected a program: {}", brief(&c)))?;
        let t = tree::no_locs(t);
        match &want {
            None => want = Some(t),
            Some(w) => same(w, &t).map_err(|e| format!("style {st}: {e}"))?,
        }
    }
    // The statement after the body is no part of it.
    let mut t = want.unwrap();
    for _ in 0..deep {
        t = match t.pop() {
            Some(S::While(_, b) | S::If(_, b, None)) => match *b {
                S::Block(b) => b,
                _ => return Err("the surrounding block is lost".into()),
            },
            _ => return Err("the surrounding statement is lost".into()),
        };
    }
    if t.last() != Some(&S::Expr(gen::var("z"))) || t.len() != 2 + usize::from(ctx_before) {
        return Err(format!("the statements around the body are {t:?}"));
    }
    Ok(())
}

fn c25_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &[Big::NestBlocks, Big::NestFuns, Big::NestLoops], 200);
    big_case(ctx, k, &s);
    if let Some(toks) = lex_agree(&s)? {
        parse_agree(&s, &toks, Start::File)?.ok();
    }
    Ok(())
}
