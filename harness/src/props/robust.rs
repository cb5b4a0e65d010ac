//! C01 termination, C20 concatenation, C21 lexical errors, C22 error recovery,
//! C26 entry points, C27 repeatability.
use super::common::*;
use super::language::big_case;
use crate::big;
use crate::engine::{guard, CaseResult, Ctx, Prop, Src, Sub};
use crate::gen::{self, Cfg, Gen};
use crate::refparse::{self, Start};
use crate::refscan::{self, Places, Tok, K};
use crate::render::{render, render_expr, Style, comment_text};
use crate::soup;
use crate::sut;
use crate::tree::{self, Loc, E, S};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "Arbitrary texts (mutated and cut-off programs, token, character and Unicode soups, bytes read as UTF-8, extreme sizes) go through the scanner, the three ways to parse, the resolver, and the printing of trees and errors, each in a process that is watched: it has to come back, without panicking, with a value or with errors. Extremes run on a stack of 8 MiB, as a program's main thread has. Non-trivial: at least three characters.",
            assumptions: &[
                "a case that takes 20 s of CPU time (they take milliseconds) and does so again in a fresh process is taken to hang",
                "up to 300 levels of nesting have to fit a stack of 8 MiB; without a limit on depth, far more overflow it (known findings)",
            ],
            subs: vec![
                Sub { name: "any sources", quick: 200_000, thorough: 20_000_000, run: c01_any },
                Sub { name: "unicode", quick: 100_000, thorough: 8_000_000, run: c01_unicode },
                Sub { name: "cut off", quick: 80_000, thorough: 6_000_000, run: c01_cut },
                Sub { name: "layout", quick: 150_000, thorough: 10_000_000, run: c01_layout },
                Sub { name: "extremes", quick: 1_200, thorough: 60_000, run: c01_big },
                Sub { name: "beyond all counters", quick: 60, thorough: 3_000, run: c01_far },
            ],
            guided: true,
            known: vec![
                (
                    "nested-parens",
                    "100000 nested parentheses overflow the stack",
                    || {
                        let n = 100_000;
                        let s = format!("{}a{}\n", "(".repeat(n), ")".repeat(n));
                        all_ways(&s)
                    },
                ),
                (
                    "long-sum",
                    "a sum of 100000 terms overflows the stack",
                    || all_ways(&format!("a{}\n", " + a".repeat(100_000))),
                ),
            ],
        },
        Prop {
            id: "C20",
            rule: "Two to four sources, each ending at the end of a statement at the top level, are written one after the other; the statements have to be those of the parts with lines shifted, and if a part fails, the first error has to be the first of the first part that fails (all errors, if the parts before it are programs; all lexical errors of all parts, if there are any). Non-trivial: at least two parts that are not empty.",
            assumptions: &["where a part does not end at the end of a statement, or fails only there, nothing is compared"],
            subs: vec![
                Sub { name: "programs", quick: 60_000, thorough: 4_000_000, run: c20_programs },
                Sub { name: "broken parts", quick: 120_000, thorough: 8_000_000, run: c20_broken },
                Sub { name: "lexical errors", quick: 40_000, thorough: 2_000_000, run: c20_lexical },
                Sub { name: "extremes", quick: 150, thorough: 8_000, run: c20_big },
                Sub { name: "far down", quick: 120, thorough: 6_000, run: c20_far },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C21",
            rule: "Lexical faults of every kind are put at random places of programs (none to a dozen, also next to one another, and look-alikes in strings and comments, which are none); the errors of scanning and of every way to parse have to be at exactly these places, in order. Arbitrary texts go to a reference scanner. Non-trivial: at least one fault or look-alike.",
            assumptions: &["an unterminated string is reported at the end of the source, where it would have had to end"],
            subs: vec![
                Sub { name: "injected", quick: 200_000, thorough: 10_000_000, run: c21_injected },
                Sub { name: "any sources", quick: 200_000, thorough: 10_000_000, run: c21_any },
                Sub { name: "faultless", quick: 60_000, thorough: 3_000_000, run: c21_faultless },
                Sub { name: "extremes", quick: 300, thorough: 15_000, run: c21_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C22",
            rule: "Lists of statements that start with a keyword, some of them one-liners broken at one place (a token dropped, doubled, swapped, replaced or put in), some compound and nested; the errors have to be one for each broken one, on its line, in order. The errors of any sources, broken anywhere, have to be in source order. Non-trivial: at least one broken statement, or two errors.",
            assumptions: &["a broken line is used if the reference grammar finds its first error on that line and any statement keyword after it starts a well-formed rest of the line"],
            subs: vec![
                Sub { name: "statements", quick: 120_000, thorough: 8_000_000, run: c22_statements },
                Sub { name: "order", quick: 100_000, thorough: 6_000_000, run: c22_order },
                Sub { name: "extremes", quick: 200, thorough: 8_000, run: c22_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C26",
            rule: "Arbitrary texts are parsed as a file and as a REPL line, programs ending in an expression statement with and without the last line end, and expressions on their own and as statements; results have to agree as stated. Non-trivial: at least two tokens.",
            assumptions: &[],
            subs: vec![
                Sub { name: "any sources", quick: 200_000, thorough: 10_000_000, run: c26_any },
                Sub { name: "last expressions", quick: 80_000, thorough: 5_000_000, run: c26_last },
                Sub { name: "expressions", quick: 100_000, thorough: 6_000_000, run: c26_exprs },
                Sub { name: "extremes", quick: 200, thorough: 10_000, run: c26_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C27",
            rule: "All results for a source (tokens, trees, resolved trees, errors, as text) are taken at first, again at once, after a history of other sources, and from several threads at once; they have to be the same. Non-trivial: at least three different sources in the history.",
            assumptions: &["threads are scheduled by the operating system; interleavings are not enumerated"],
            subs: vec![
                Sub { name: "histories", quick: 25_000, thorough: 1_500_000, run: c27_histories },
                Sub { name: "long histories", quick: 64, thorough: 4_000, run: c27_long },
                Sub { name: "threads", quick: 3_000, thorough: 150_000, run: c27_threads },
            ],
            guided: true,
            known: vec![],
        },
    ]
}

// -------------------------------------------------------------------- C01

/// Every way through the front end comes back.
fn all_ways(text: &str) -> CaseResult {
    if let Err(c) = sut::scan(text)? {
        if c.is_empty() {
            return Err("scanning failed without an error".into());
        }
    }
    let shown = |t: &[whitespace::ast::Stmt]| {
        guard("printing a tree", || format!("{t:?}")).map(|_| ())
    };
    if let Ok(t) = sut::parse_raw(text)? {
        shown(&t)?;
        if let Ok(t) = sut::resolve_raw(t)? {
            shown(&t)?;
        }
    }
    if let Ok(t) = sut::parse_repl_raw(text)? {
        let mut r = whitespace::resolver::Resolver::new();
        let _ = sut::resolve_with(&mut r, t)?;
        // The session goes on.
        if let Ok(t) = sut::parse_repl_raw("print a + b")? {
            if let Err(c) = sut::resolve_with(&mut r, t)? {
                // 256 globals may be there already.
                if !brimming(text) {
                    return Err(format!("after it, the session rejects a line: {}", brief(&c)));
                }
            }
        }
    }
    let _ = sut::parse_expr(text)?;
    // How errors are shown.
    if let Err(e) = guard("parsing", || whitespace::parser::parse(text))? {
        guard("printing errors", || format!("{e}\n{e:?}"))?;
    }
    Ok(())
}

/// Whether there may be so many variables that none can be added.
fn brimming(text: &str) -> bool {
    text.len() > 500
}

fn c01_case(ctx: &mut Ctx, text: &str) -> CaseResult {
    ctx.input("source", text);
    ctx.case(text, text.chars().count() > 2);
    all_ways(text)
}

fn c01_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = soup::any(src);
    c01_case(ctx, &s)
}

fn c01_unicode(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = match src.below(4) {
        0 => soup::unicode_soup(src),
        1 => soup::char_soup(src),
        2 => {
            // Bytes, read with replacements.
            let n = src.range(0, 60);
            let b: Vec<u8> = (0..n)
                .map(|_| {
                    if src.chance(1, 3) {
                        src.below(256) as u8
                    } else {
                        *src.pick(b" \n\t\\\"(){}[]:,.-+;/*!=<>_a1#\r")
                    }
                })
                .collect();
            String::from_utf8_lossy(&b).into_owned()
        }
        _ => {
            // A program with some characters replaced.
            let t = soup::program_text(src, 15).text;
            let mut out = String::new();
            for c in t.chars() {
                if src.chance(1, 30) {
                    out.push_str(&soup::unicode_soup(src));
                } else {
                    out.push(c);
                }
            }
            out
        }
    };
    c01_case(ctx, &s)
}

fn c01_cut(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let t = soup::program_text(src, 40).text;
    let b: Vec<usize> = t.char_indices().map(|x| x.0).collect();
    if b.is_empty() {
        return Ok(());
    }
    let i = *src.pick(&b);
    let s = match src.below(4) {
        0 | 1 => t[..i].to_owned(),
        2 => t[i..].to_owned(),
        _ => {
            let j = *src.pick(&b);
            t[i.min(j)..i.max(j)].to_owned()
        }
    };
    c01_case(ctx, &s)
}

/// Lines of any indentation.
fn c01_layout(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 10);
    let unit = *src.pick(&[1, 1, 2, 3]);
    let mut s = String::new();
    for _ in 0..n {
        let w = src.range(0, 6) * unit;
        s.push_str(&" ".repeat(w));
        s.push_str(src.pick(&[
            "if (a)", "else", "while (a)", "for (;;)", "fun f(x)", "class A", "m()", "b", "b +",
            "f(", ")", "", "// c", "\\", "{", "}", "a: 1", "a: 1,", "[", "]", "var m =", "\"s",
            "s\"", "break", "@", "\t", "return", "print fun (x)", "else if (b)", ";", "a \\",
            "class B < A", "f(fun ()", "init(x)", "if (a) b", "while (a) break", "x = 1",
        ]));
        s.push_str(src.pick(&["\n", "\n", "\n", "\r\n", " \n", "\n\n", " // c\n"]));
    }
    if src.chance(1, 4) {
        s.pop();
    }
    c01_case(ctx, &s)
}

/// On a stack as large as that of a main thread.
fn on_main_sized(text: String) -> CaseResult {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || all_ways(&text))
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| Err("the thread panicked".into()))
}

fn c01_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, mut s) = big::big(src, &big::ALL, 300);
    if src.chance(1, 4) {
        s.push_str(&big::big(src, &big::ALL, 200).1);
    }
    big_case(ctx, k, &s);
    on_main_sized(s)
}

fn c01_far(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = match src.below(5) {
        0 => big::long_line(src, 200_000, 1025),
        1 => big::deep_indent(src, 200_000),
        2 => big::many_lines(src, 200_000, 1025),
        3 => {
            // Around the end of 16 bits.
            let n = 65_530 + src.range(0, 12);
            let p = *src.pick(&[" ", "a", "+", "\n", "(", "\"", "1", "é", "[", "-", "!", "//", "{", "}", ":", "if (a)\n ", "\\\n", "@"]);
            // Brackets nest: no deeper than elsewhere.
            let n = if "({[-!\"".contains(p) { 300 } else { n };
            format!("{}{}", p.repeat(n), src.pick(&["", "a", "\n", "a\n", "\"", " b\n  c\n"]))
        }
        _ => {
            let n = 65_530 + src.range(0, 12);
            let m = 65_530 + src.range(0, 12);
            format!("if (a)\n{}b\n{}c\nd\n", " ".repeat(n), " ".repeat(m))
        }
    };
    ctx.input("source", &s);
    ctx.case(&s, true);
    // The signs' operators nest without a limit.
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || all_ways(&s))
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| Err("the thread panicked".into()))
}

// -------------------------------------------------------------------- C20

/// Whether what follows a text starts a statement of its own at the top level.
pub fn ends_clean(text: &str) -> bool {
    if !text.is_empty() && !text.ends_with('\n') {
        return false;
    }
    let r = refscan::scan(&format!("{text}zq"));
    let Some(i) = r.toks.iter().position(|t| t.start == text.len() && t.text == "zq") else {
        return false;
    };
    let open = r.toks[..i].iter().fold(0i64, |n, t| match t.kind {
        K::Indent => n + 1,
        K::Outdent => n - 1,
        _ => n,
    });
    open == 0
        && (i == 0
            || matches!(r.toks[i - 1].kind, K::Term | K::Outdent)
            || text.is_empty())
}

/// Whether a text may follow another.
fn starts_fresh(toks: &[Tok]) -> bool {
    let k = |i: usize| toks.get(i).map_or(K::Eof, |t| t.kind);
    // Not on a line that a backslash before it continues.
    if k(0) != K::Eof && toks[0].col != 1 {
        return false;
    }
    match k(0) {
        K::Indent | K::Outdent | K::Term | K::Else => false,
        K::Ident | K::Str => k(1) != K::Colon,
        _ => true,
    }
}

fn real_toks(t: &[Tok]) -> usize {
    t.iter()
        .filter(|t| !matches!(t.kind, K::Indent | K::Outdent | K::Term | K::Eof))
        .count()
}

/// Makes a program end at the end of a line.
pub fn closed(mut s: String) -> String {
    if !s.is_empty() && !s.ends_with('\n') {
        let t = format!("{s}\n");
        if refparse::parse(&t, Start::File).is_none_or(|r| r.is_ok()) {
            return t;
        }
        // After a brace. Not in a comment.
        let r = refscan::scan(&s);
        let end = r.toks.iter().rev().find(|t| {
            !matches!(t.kind, K::Indent | K::Outdent | K::Term | K::Eof)
        });
        s.truncate(end.map_or(0, |t| t.end));
        s.push_str("\\\n");
    }
    s
}

struct Part {
    text: String,
    lines: u32,
    lex: Vec<Loc>,
    parsed: Result<Vec<S>, Vec<Loc>>,
}

fn part(text: String, last: bool) -> Res<Option<Part>> {
    let r = refscan::scan(&text);
    let lex: Vec<Loc> = match sut::scan(&text)? {
        Ok(_) => vec![],
        Err(c) => locs(&c),
    };
    // Nor may something that is no token at all be indented.
    let first = r.toks.iter().find(|t| t.kind != K::Eof).map_or((u32::MAX, 1), |t| (t.line, t.col));
    if r.errs.first().is_some_and(|e| e.0 < first && e.0 .1 != 1) {
        return Ok(None);
    }
    if !starts_fresh(&r.toks) || !last && !ends_clean(&text) && sut::parse(&text)?.is_err() {
        return Ok(None);
    }
    let parsed = sut::parse(&text)?.map_err(|c| locs(&c));
    if let (Err(c), true, false) = (&parsed, lex.is_empty(), last) {
        // An error only at the end may be none with something after it.
        let end = r
            .toks
            .iter()
            .rfind(|t| !matches!(t.kind, K::Indent | K::Outdent | K::Term | K::Eof));
        if end.is_none_or(|t| c[0] > (t.line, t.col)) {
            return Ok(None);
        }
    }
    if parsed.is_ok() && !last && !text.is_empty() && !text.ends_with('\n') {
        return Ok(None);
    }
    // A trailing comma of a map continues the line.
    if let Some(t) = r.toks.iter().rfind(|t| !matches!(t.kind, K::Outdent | K::Eof)) {
        if !last && refscan::continues(t.kind) {
            return Ok(None);
        }
    }
    let lines = Places::new(&text).end().0 - 1;
    Ok(Some(Part {
        text,
        lines,
        lex,
        parsed,
    }))
}

fn compose(ctx: &mut Ctx, texts: Vec<String>) -> CaseResult {
    for (i, t) in texts.iter().enumerate() {
        ctx.input(["first", "second", "third", "fourth"][i.min(3)], t);
    }
    let n = texts.len();
    let mut parts = Vec::new();
    for (i, t) in texts.into_iter().enumerate() {
        match part(t, i + 1 == n)? {
            Some(p) => parts.push(p),
            None => {
                ctx.label("not at the end of a statement");
                return Ok(());
            }
        }
    }
    let whole: String = parts.iter().map(|p| p.text.as_str()).collect();
    ctx.case(
        &whole,
        parts.iter().filter(|p| !p.text.trim().is_empty()).count() > 1,
    );
    let mut before = 0;
    let mut lex = Vec::new();
    let mut stmts = Vec::new();
    let mut bad: Option<(Vec<Loc>, bool)> = None;
    for p in &parts {
        let sh = |l: &Loc| (l.0 + before, l.1);
        lex.extend(p.lex.iter().map(sh));
        match &p.parsed {
            Ok(t) => stmts.extend(tree::shift(t.clone(), before)),
            Err(c) => {
                if bad.is_none() {
                    bad = Some((c.iter().map(sh).collect(), false));
                } else if let Some(b) = &mut bad {
                    b.1 = true;
                }
            }
        }
        before += p.lines;
    }
    let got = sut::parse(&whole)?;
    if !lex.is_empty() {
        ctx.label("lexical errors");
        return match got {
            Ok(_) => Err("accepted, though a part has lexical errors".into()),
            Err(c) if locs(&c) == lex => Ok(()),
            Err(c) => Err(format!("errors [{}]; those of the parts: {lex:?}", brief(&c))),
        };
    }
    match (got, bad) {
        (Ok(t), None) => {
            ctx.label("accepted");
            if t != stmts {
                return Err(tree::diff("trees", &stmts, &t));
            }
            Ok(())
        }
        (Err(c), Some((want, more))) => {
            ctx.label("rejected");
            let got = locs(&c);
            let last = parts.last().is_some_and(|p| p.parsed.is_err());
            let ok = if last && !more {
                got == want
            } else {
                got.first() == want.first()
            };
            if !ok {
                return Err(format!("errors [{}]; of the failing part: {want:?}", brief(&c)));
            }
            Ok(())
        }
        (Ok(_), Some((want, _))) => {
            Err(format!("accepted, though a part has errors at {want:?}"))
        }
        (Err(c), None) => Err(format!(
            "rejected, though each part is accepted: {}",
            brief(&c)
        )),
    }
}

/// A program with no map where another one would go on.
fn whole_program(src: &mut Src) -> String {
    let f = *src.pick(&[3, 8, 15, 30, 60]);
    closed(soup::program_text(src, f).text)
}

fn c20_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(2, 4);
    let texts = (0..n).map(|_| whole_program(src)).collect();
    compose(ctx, texts)
}

fn broken_part(src: &mut Src) -> String {
    let mut s = match src.below(8) {
        0 => soup::token_soup(src),
        1 => broken_line(src).unwrap_or_default(),
        _ => soup::mutated(src, 20),
    };
    if !s.ends_with('\n') {
        s.push('\n');
    }
    s
}

fn c20_broken(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(2, 4);
    let which = src.idx(n);
    let texts = (0..n)
        .map(|i| {
            if i == which || src.chance(1, 8) {
                broken_part(src)
            } else {
                whole_program(src)
            }
        })
        .collect();
    compose(ctx, texts)
}

fn c20_lexical(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(2, 4);
    let texts = (0..n)
        .map(|i| match src.below(4) {
            0 => whole_program(src),
            1 if i + 1 == n => soup::char_soup(src),
            _ => {
                let (t, _) = inject(src, i + 1 == n);
                if i + 1 == n {
                    t
                } else {
                    closed(t)
                }
            }
        })
        .collect();
    compose(ctx, texts)
}

fn c20_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = 2;
    let which = src.idx(2);
    let texts = (0..n)
        .map(|i| {
            if i == which {
                closed(big::big(src, &big::ALL, 150).1)
            } else {
                whole_program(src)
            }
        })
        .collect();
    compose(ctx, texts)
}

fn c20_far(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut texts = vec![big::far_down(src)];
    texts.push(match src.below(3) {
        0 => broken_part(src),
        _ => whole_program(src),
    });
    compose(ctx, texts)
}

// -------------------------------------------------------------------- C21

const ILLEGAL: [&str; 26] = [
    "@", "#", "$", "%", "&", "'", "^", "`", "|", "~", "?", "→", "…", "\u{a0}", "€", "\0",
    "\u{7f}", "²", "٣", "👩‍👩‍👧", "🇫🇷", "\u{2028}", "½", "“", "\u{b}", "\u{c}",
];

/// A program with lexical faults, and where they are (byte offsets).
fn inject(src: &mut Src, last: bool) -> (String, Vec<usize>) {
    let f = *src.pick(&[5, 10, 20, 40]);
    let mut cfg = Cfg::new(f);
    cfg.wild_strings = src.chance(1, 2);
    let p = gen::program(src, cfg);
    let st = Style::random(src);
    let r = render(src, &p, &st);
    let text = r.text.clone();
    // Text to put before a byte offset, and where in it the faults are.
    let mut put: Vec<(usize, String, Vec<usize>)> = Vec::new();
    let k = match src.below(4) {
        0 => 0,
        1 => 1,
        _ => src.range(1, 8),
    };
    for _ in 0..k {
        if r.toks.is_empty() {
            break;
        }
        let (s, e) = *src.pick(&r.toks);
        let n = 1 + src.weighted(&[5, 2, 1]);
        // Before a token, after the line's indentation, or right after one.
        // A line's last token may make it go on.
        let rest = text[e..].split('\n').next().unwrap_or("");
        let rest = rest.split("//").next().unwrap_or("");
        let before = src.chance(2, 3) || rest.trim().is_empty();
        let at = if before { s } else { e };
        let mut t = String::new();
        let mut w = Vec::new();
        if !before {
            t.push_str(src.pick(&[" ", "", "  "]));
            // A comment is not meant.
            if text[..e].ends_with('/') {
                t.push(' ');
            }
        }
        for _ in 0..n {
            w.push(t.len());
            match src.weighted(&[5, 2, 2]) {
                0 => {
                    let c = *src.pick(&ILLEGAL);
                    // Some may go on a name, but not start one.
                    let prev = t.chars().last().or(text[..at].chars().last());
                    let word = |c: char| c.is_alphanumeric() || c == '_';
                    if c.chars().any(word)
                        && prev.is_some_and(|p| !p.is_ascii() || word(p))
                    {
                        w.pop();
                        t.push(' ');
                        w.push(t.len());
                    }
                    t.push_str(c);
                }
                1 => t.push('\t'),
                _ => {
                    t.push('\\');
                    // Something has to be on the line after it.
                    t.push_str(src.pick(&["", " ", "   "]));
                    w.push(t.len());
                    t.push_str(src.pick(&["#", "\t", "@"]));
                }
            }
            // Spaces after a tab may count as indentation.
            if !t.ends_with('\t') {
                t.push_str(src.pick(&["", "", " "]));
            }
        }
        put.push((at, t, w));
    }
    // One place once.
    put.sort_by_key(|x| x.0);
    put.dedup_by_key(|x| x.0);
    // A line between the indentations of the open blocks, between statements.
    if !r.starts.is_empty() && src.chance(1, 3) {
        let at = *src.pick(&r.starts);
        let clean = text[..at].rfind('\n').map_or(0, |i| i + 1) == at;
        if clean && !put.iter().any(|x| x.0 == at) && ends_clean(&text[..at]) {
            let a = src.range(2, 6);
            let b = src.range(1, a - 1);
            let (h, body) = *src.pick(&[
                ("if (a)\n", "b\n"),
                ("fun zf(x)\n", "return x\n"),
                ("while (a)\n", "break\n"),
                ("class Zc\n", "m()\n"),
                ("for (;;)\n", "// c\n"),
            ]);
            let mut t = h.to_owned();
            let mut w = Vec::new();
            t.push_str(&" ".repeat(a));
            t.push_str(body);
            if body.starts_with("//") {
                t.push_str(&" ".repeat(a));
                t.push_str("b\n");
            }
            if src.chance(1, 3) {
                // One level more.
                t.push_str(&" ".repeat(a));
                t.push_str("if (b)\n");
                t.push_str(&" ".repeat(a + 3));
                t.push_str("c\n");
            }
            t.push_str(&" ".repeat(b));
            w.push(t.len());
            t.push_str("print a\n");
            put.push((at, t, w));
            put.sort_by_key(|x| x.0);
        }
    }
    let mut out = String::new();
    let mut want = Vec::new();
    let mut from = 0;
    for (at, t, w) in put {
        out.push_str(&text[from..at]);
        from = at;
        for x in w {
            want.push(out.len() + x);
        }
        out.push_str(&t);
    }
    out.push_str(&text[from..]);
    if last && src.chance(1, 6) {
        if !out.ends_with('\n') {
            out.push('\n');
        }
        out.push_str(src.pick(&["\"", "\"abc", "print \"a\nb\n", "f(\"x\", \"// \t@\n", "\"\n\n", "x = \"é\u{301}日"]));
        want.push(usize::MAX);
    }
    (out, want)
}

/// Whether characters put next to one another stay apart.
fn apart(text: &str, want: &[usize]) -> bool {
    let (g, _) = refscan::graphemes(text);
    want.iter().all(|w| {
        *w == usize::MAX
            || g.binary_search_by_key(w, |g| g.off).is_ok_and(|i| {
                let t = g[i].text;
                ILLEGAL.contains(&t) || t == "\t" || t == "\\" || t.is_ascii()
            })
    })
}

fn same_errors(text: &str, want: &[Loc]) -> CaseResult {
    let check = |what: &str, got: Option<Vec<Loc>>| -> CaseResult {
        let got = got.unwrap_or_default();
        if got == want {
            Ok(())
        } else {
            Err(format!("{what}: errors at {got:?}; expected {want:?}"))
        }
    };
    check("scanning", sut::scan(text)?.err().map(|c| locs(&c)))?;
    if !want.is_empty() {
        check("parsing", sut::parse(text)?.err().map(|c| locs(&c)))?;
        check("parsing a REPL line", sut::parse_repl(text)?.err().map(|c| locs(&c)))?;
        check("parsing an expression", sut::parse_expr(text)?.err().map(|c| locs(&c)))?;
    }
    Ok(())
}

fn c21_injected(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (text, want) = inject(src, true);
    ctx.input("source", &text);
    if !apart(&text, &want) {
        ctx.label("fused characters");
        return Ok(());
    }
    ctx.case(&text, !want.is_empty());
    ctx.label(match want.len() {
        0 => "no fault",
        1 => "one fault",
        2..=4 => "two to four faults",
        _ => "five faults or more",
    });
    let places = Places::new(&text);
    let want: Vec<Loc> = want
        .iter()
        .map(|w| if *w == usize::MAX { places.end() } else { places.at(*w) })
        .collect();
    same_errors(&text, &want)
}

fn c21_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = if src.chance(1, 2) {
        soup::any(src)
    } else {
        // Lines with faults in any layout.
        let n = src.range(1, 8);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(&" ".repeat(src.range(0, 5)));
            for _ in 0..src.range(0, 4) {
                s.push_str(match src.below(5) {
                    0 => src.pick(&ILLEGAL),
                    1 => src.pick(&["\t", "\\", "\\ ", "\"", "\"a\"", "\r"]),
                    _ => src.pick(&soup::TOKENS),
                });
                s.push_str(src.pick(&["", " "]));
            }
            s.push_str(src.pick(&["\n", "\n", "\r\n", "\\\n", " // @\t\\\n"]));
        }
        s
    };
    ctx.input("source", &s);
    let r = refscan::scan(&s);
    ctx.case(&s, !r.errs.is_empty());
    ctx.label(match r.errs.len() {
        0 => "no fault",
        1 => "one fault",
        _ => "several faults",
    });
    let want: Vec<Loc> = r.errs.iter().map(|e| e.0).collect();
    same_errors(&s, &want)
}

/// Valid tokens in lines whose indentation is that of an open block, with
/// anything in strings and comments.
fn c21_faultless(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 10);
    let mut open = vec![0usize];
    let mut s = String::new();
    for _ in 0..n {
        let w = match src.below(4) {
            0 => open.last().unwrap() + 1 + src.idx(4),
            1 => *src.pick(&open),
            _ => *open.last().unwrap(),
        };
        // A line without tokens opens or closes nothing.
        let m = src.range(0, 5);
        let mut continued = false;
        s.push_str(&" ".repeat(w));
        for _ in 0..m {
            let t = match src.below(6) {
                0 => {
                    let mut t = soup::char_soup(src);
                    t.retain(|c| c != '"');
                    let t = format!("\"x{t}x\"");
                    let (g, _) = refscan::graphemes(&t);
                    if g.iter().filter(|g| g.text == "\"").count() != 2 {
                        "1".to_owned()
                    } else {
                        t
                    }
                }
                _ => (*src.pick(&soup::TOKENS)).to_owned(),
            };
            s.push_str(&t);
            s.push_str(src.pick(&[" ", " ", "  "]));
            continued = matches!(
                t.as_bytes()[t.len() - 1],
                b'(' | b'{' | b'[' | b':' | b',' | b'.' | b'-' | b'+' | b'*' | b'/' | b'<' | b'>'
            ) || t == "<="
                || t == ">=";
        }
        if m > 0 {
            while *open.last().unwrap() > w {
                open.pop();
            }
            if *open.last().unwrap() < w {
                open.push(w);
            }
        }
        if src.chance(1, 3) {
            let mut c = soup::char_soup(src);
            c.retain(|c| c != '\n' && c != '\r');
            s.push_str("// ");
            s.push_str(&c);
            s.push(' ');
        }
        let brk = src.chance(1, 6) && !s.ends_with("// ") && m > 0 && {
            let l = s.rfind('\n').map_or(0, |i| i + 1);
            !s[l..].contains("//")
        };
        if brk {
            s.push('\\');
        }
        s.push_str(src.pick(&["\n", "\r\n"]));
        if brk || continued {
            // A line that continues opens no block: end it at the same width.
            s.push_str(&" ".repeat(*open.last().unwrap()));
            s.push_str("a\n");
        }
    }
    ctx.input("source", &s);
    ctx.case(&s, s.len() > 8);
    match sut::scan(&s)? {
        Ok(_) => Ok(()),
        Err(c) => Err(format!("lexical errors in a source without any: {}", brief(&c))),
    }
}

fn c21_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(
        src,
        &[
            big::Big::LexErrors,
            big::Big::LexErrors,
            big::Big::DeepIndent,
            big::Big::ManyLines,
            big::Big::LongLine,
            big::Big::LongToken,
            big::Big::NestBlocks,
        ],
        150,
    );
    big_case(ctx, k, &s);
    let r = refscan::scan(&s);
    let want: Vec<Loc> = r.errs.iter().map(|e| e.0).collect();
    same_errors(&s, &want)
}

// -------------------------------------------------------------------- C22

fn starts_stmt(k: K) -> bool {
    matches!(
        k,
        K::Class | K::Fun | K::Var | K::For | K::If | K::While | K::Print | K::Return
    )
}

const LINES: [&str; 24] = [
    "var v = a + b",
    "var v",
    "var v = fun (x) {}",
    "var m = a: 1, \"b\": [2]",
    "print a . b . c",
    "print (a + b) * c",
    "print -a",
    "print f (a, b)",
    "print f a, b",
    "return",
    "return a [ 0 ]",
    "return {a: 1}",
    "if (a == b) c",
    "if (a) print b",
    "if (a) {} else {}",
    "while (a < b) c = d",
    "while (true) break",
    "for (var i = 0; i < n; i = i + 1) print i",
    "for (;;) continue",
    "for (i = 0; ; f(i)) {}",
    "fun f(a, b) {}",
    "fun f() {}",
    "class A < B {}",
    "class A { m(a) {} class n() {} }",
];

/// A one-line statement broken at one place, with its line end.
pub fn broken_line(src: &mut Src) -> Option<String> {
    let base = format!("{}\n", src.pick(&LINES));
    let r = refscan::scan(&base);
    let toks: Vec<(usize, usize)> = r
        .toks
        .iter()
        .filter(|t| !matches!(t.kind, K::Term | K::Eof))
        .map(|t| (t.start, t.end))
        .collect();
    // The first token stays.
    if toks.len() < 2 {
        let s = format!("{} {}\n", base.trim_end(), src.pick(&[")", "=", "]", "else", "a b c", "1 2", "1 1 )"]));
        return is_broken_line(&s).then_some(s);
    }
    let s = soup::mutate_tokens(src, &base, &toks[1..]);
    let mut s = s.trim_end().to_owned();
    if src.chance(1, 4) {
        s.push(' ');
        s.push_str(&comment_text(src));
    }
    s.push('\n');
    is_broken_line(&s).then_some(s)
}

fn is_broken_line(s: &str) -> bool {
    if s.matches('\n').count() != 1 {
        return false;
    }
    let r = refscan::scan(s);
    if !r.errs.is_empty() || !starts_stmt(r.toks[0].kind) || !ends_clean(s) {
        return false;
    }
    let Err(b) = refparse::parse_toks(&r.toks, Start::File) else {
        return false;
    };
    if b.at.iter().any(|l| l.0 != 1) {
        return false;
    }
    // What is left from a later keyword on is well-formed.
    let from = b.at.iter().min().unwrap();
    r.toks
        .iter()
        .skip(1)
        .filter(|t| starts_stmt(t.kind) && (t.line, t.col) >= *from)
        .all(|t| refparse::parse(&s[t.start..], Start::File).is_some_and(|r| r.is_ok()))
}

/// A statement that starts with a keyword, ending at the end of a line.
fn good_statement(src: &mut Src) -> Option<String> {
    let f = *src.pick(&[4, 10, 20, 40]);
    let mut g = Gen::new(src, Cfg::new(f));
    let s = g.stmt();
    let st = Style::random(src);
    let t = closed(render(src, &[s], &st).text);
    let toks = refscan::scan(&t).toks;
    starts_stmt(toks[0].kind).then_some(t)
}

fn c22_statements(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 7);
    let mut text = String::new();
    // Lines with errors.
    let mut want = Vec::new();
    let mut goods = 0;
    for _ in 0..n {
        if src.chance(1, 2) {
            let Some(s) = broken_line(src) else { continue };
            want.push(Places::new(&text).end().0);
            text.push_str(&s);
        } else if let Some(s) = good_statement(src) {
            goods += 1;
            text.push_str(&s);
        }
    }
    ctx.input("source", &text);
    ctx.case(&text, !want.is_empty());
    ctx.label(match (want.len(), goods) {
        (0, _) => "all well-formed",
        (1, 0) => "one broken statement",
        (1, _) => "one broken among others",
        (_, 0) => "only broken statements",
        _ => "several broken among others",
    });
    let got: Vec<Loc> = match sut::parse(&text)? {
        Ok(_) => vec![],
        Err(c) => {
            errors_in_source(&text, &c)?;
            locs(&c)
        }
    };
    let lines: Vec<u32> = got.iter().map(|l| l.0).collect();
    if lines != want {
        return Err(format!(
            "errors at {got:?}; expected one on each of the lines {want:?}"
        ));
    }
    Ok(())
}

fn c22_order(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.weighted(&[3, 2, 1, 1]) + 1;
    let s: String = (0..n).map(|_| soup::any(src)).collect();
    ctx.input("source", &s);
    let r = match src.below(3) {
        0 => sut::parse_repl(&s)?,
        _ => sut::parse(&s)?,
    };
    let c = match r {
        Ok(_) => Vec::new(),
        Err(c) => c,
    };
    ctx.case(&s, c.len() > 1);
    match c.windows(2).find(|w| w[0].loc > w[1].loc) {
        Some(_) => Err(format!("errors out of order: {}", brief(&c))),
        None => Ok(()),
    }
}

fn c22_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // Many broken statements, among few or many others.
    let n = big::size(src, 2000);
    let every = src.range(1, 40);
    let bad: Vec<String> = (0..6).filter_map(|_| broken_line(src)).collect();
    let good: Vec<String> = (0..6).filter_map(|_| good_statement(src)).collect();
    if bad.is_empty() || good.is_empty() {
        return Ok(());
    }
    let mut text = String::new();
    let mut want = Vec::new();
    let mut line = 1;
    for i in 0..n {
        let s = if i % every == every / 2 {
            want.push(line);
            &bad[i % bad.len()]
        } else {
            &good[(i / 2) % good.len()]
        };
        line += Places::new(s).end().0 - 1;
        text.push_str(s);
    }
    ctx.input("source", &text);
    ctx.case(&text, !want.is_empty());
    let got: Vec<u32> = match sut::parse(&text)? {
        Ok(_) => vec![],
        Err(c) => c.iter().map(|c| c.loc.0).collect(),
    };
    if got != want {
        return Err(format!(
            "{} errors; expected {}; first difference: {:?}",
            got.len(),
            want.len(),
            got.iter().zip(&want).find(|(a, b)| a != b)
        ));
    }
    Ok(())
}

// -------------------------------------------------------------------- C26

fn line_like_file(ctx: &mut Ctx, text: &str) -> CaseResult {
    let file = sut::parse(text)?;
    let line = sut::parse_repl(text)?;
    let r = refscan::scan(text);
    ctx.case(text, real_toks(&r.toks) > 1);
    match (file, line) {
        (Ok(a), Ok(b)) => {
            ctx.label("both accepted");
            if a != b {
                return Err(tree::diff("trees of the file and the REPL line", &a, &b));
            }
        }
        (Err(a), Err(b)) => {
            ctx.label("both rejected");
            // A last expression's missing line end may be one error more.
            let end = Places::new(text).end();
            let less = a.len() == b.len() + 1 && a.last().is_some_and(|c| c.loc == end);
            let short = if less { &a[..b.len()] } else { &a[..] };
            if locs(short) != locs(&b) {
                return Err(format!(
                    "errors of the file [{}], of the REPL line [{}]",
                    brief(&a),
                    brief(&b)
                ));
            }
        }
        (Ok(_), Err(c)) => {
            return Err(format!("accepted as a file but not as a REPL line: {}", brief(&c)))
        }
        (Err(c), Ok(t)) => {
            ctx.label("accepted as a line only");
            if !r.errs.is_empty() {
                return Err("accepted as a REPL line with lexical errors".into());
            }
            if c.len() != 1 || c[0].loc.0 < Places::new(text).end().0 && !text.ends_with('\n') {
                return Err(format!(
                    "accepted as a REPL line, but as a file has the errors [{}]",
                    brief(&c)
                ));
            }
            if !matches!(t.last(), Some(S::Expr(_))) && !ends_in_expr(t.last()) {
                return Err(format!(
                    "accepted as a REPL line without an expression at its end, but as a file has the errors [{}]",
                    brief(&c)
                ));
            }
            // The last line may be indented, or already be ended.
            let reals = real_toks(&r.toks);
            let plain = !r.toks.iter().rev().skip(1).take(1).any(|t| t.kind == K::Outdent);
            let whole = format!("{text}\n");
            let terms = |t: &[Tok]| t.iter().filter(|t| t.kind == K::Term).count();
            // There may be a backslash at the end.
            let ends = terms(&refscan::scan(&whole).toks) > terms(&r.toks);
            if reals > 0 && plain && ends {
                match sut::parse(&whole)? {
                    Ok(u) if u == t => (),
                    Ok(u) => return Err(tree::diff("trees with the line end and without", &u, &t)),
                    Err(c) => {
                        return Err(format!(
                            "accepted as a REPL line, but not as a file with the line end: {}",
                            brief(&c)
                        ))
                    }
                }
            } else {
                ctx.label("indented last line");
            }
        }
    }
    Ok(())
}

/// Whether the end of a statement is an expression.
fn ends_in_expr(s: Option<&S>) -> bool {
    match s {
        Some(S::Expr(_)) => true,
        Some(S::If(_, a, b)) => ends_in_expr(Some(b.as_deref().unwrap_or(a))),
        Some(S::While(_, b)) | Some(S::WhileInc(_, b, _)) => ends_in_expr(Some(b)),
        Some(S::Block(b)) => ends_in_expr(b.last()),
        Some(S::Fun(_, f)) => ends_in_expr(f.body.last()),
        Some(S::Class(c)) => c
            .methods
            .last()
            .is_some_and(|m| ends_in_expr(m.1.body.last())),
        _ => false,
    }
}

fn c26_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = soup::any(src);
    if src.chance(1, 2) {
        s = s.trim_end().to_owned();
    }
    ctx.input("source", &s);
    line_like_file(ctx, &s)
}

fn c26_last(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let mut p = gen::program(src, Cfg::new(f));
    if !matches!(p.last(), Some(S::Expr(_))) {
        let mut g = Gen::new(src, Cfg::new(10));
        let e = g.expr();
        p.push(gen::expr_stmt(e));
    }
    if matches!(p.last(), Some(S::Expr(E::Map(_)))) && p.len() > 1 {
        p.pop();
        p.push(gen::expr_stmt(gen::var("a")));
    }
    let st = Style::random(src);
    let r = render(src, &p, &st);
    let with = r.text.clone();
    // Up to the last token, maybe with something after it.
    let mut s = r.text[..r.toks.last().unwrap().1].to_owned();
    match src.below(6) {
        0 => s.push_str("  "),
        1 => s.push_str(" // c"),
        _ => (),
    }
    ctx.input("source", &s);
    line_like_file(ctx, &s)?;
    let t = match sut::parse_repl(&s)? {
        Ok(t) => t,
        Err(c) => return Err(format!("the REPL rejects it: {}", brief(&c))),
    };
    let u = must_parse(&with)?;
    if t != u {
        return Err(tree::diff("trees with the line end and without", &u, &t));
    }
    let u = must_parse(&format!("{s}\n"))?;
    if t != u {
        return Err(tree::diff("trees with a line end and without", &u, &t));
    }
    if sut::parse(&s)?.is_ok() && !matches!(p.last(), Some(S::Expr(E::Fun(_)))) {
        let closes = s.trim_end().ends_with('}');
        if !closes {
            return Err("as a file, the line end may not be missing".into());
        }
    }
    Ok(())
}

fn c26_exprs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let st = Style::random(src);
    let f = fuel(src);
    let text = match src.below(5) {
        0 => {
            // Any line.
            let s = soup::any(src);
            s.lines().next().unwrap_or("").trim().to_owned()
        }
        _ => {
            let mut g = Gen::new(src, Cfg::new(f));
            let e = g.expr();
            render_expr(src, &e, &st).0
        }
    };
    ctx.input("expression", &text);
    let toks = refscan::scan(&text).toks;
    ctx.case(&text, real_toks(&toks) > 1);
    let alone = sut::parse_expr(&text)?;
    // A statement that starts like this is none.
    if matches!(toks[0].kind, K::LBrace | K::Fun | K::Indent) {
        ctx.label("no statement");
        let pre = "print ";
        let whole = sut::parse(&format!("{pre}{text}\n"))?;
        let Ok(a) = alone else { return Ok(()) };
        if matches!(toks[0].kind, K::Indent) {
            return Ok(());
        }
        let whole = whole.map_err(|c| format!("rejected after print: {}", brief(&c)))?;
        let mut want = vec![S::Print(a)];
        tree::map_locs(&mut want, &mut |l: Loc| {
            if l.0 == 1 {
                (1, l.1 + pre.len() as u32)
            } else {
                l
            }
        });
        if whole != want {
            return Err(tree::diff("trees", &want, &whole));
        }
        return Ok(());
    }
    let terms = |t: &[Tok]| t.iter().filter(|t| t.kind == K::Term).count();
    if terms(&refscan::scan(&format!("{text}\n")).toks) == terms(&toks) {
        ctx.label("no line end after it");
        return Ok(());
    }
    let stmt = sut::parse(&format!("{text}\n"))?;
    let line = sut::parse_repl(&text)?;
    match alone {
        Ok(e) => {
            ctx.label("accepted");
            let want = vec![S::Expr(e)];
            for (what, got) in [("statement", stmt), ("REPL line", line)] {
                match got {
                    Ok(t) if t == want => (),
                    Ok(t) => {
                        return Err(format!("{what}: {}", tree::diff("trees", &want, &t)))
                    }
                    Err(c) => {
                        return Err(format!(
                            "an expression, but rejected as a {what}: {}",
                            brief(&c)
                        ))
                    }
                }
            }
        }
        Err(c) => {
            ctx.label("rejected");
            if let Ok(t) = stmt {
                if let [S::Expr(e)] = t.as_slice() {
                    // Without braces, maps are no expressions of their own.
                    if !matches!(e, E::Map(_)) && text.trim_end() == text {
                        return Err(format!(
                            "an expression as a statement, but rejected alone: {}",
                            brief(&c)
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

fn c26_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, mut s) = big::big(src, &big::ALL, 150);
    big_case(ctx, k, &s);
    if src.chance(1, 2) {
        s = s.trim_end().to_owned();
    }
    line_like_file(ctx, &s)
}

// -------------------------------------------------------------------- C27

/// All there is to see of a source, as text.
fn outcome(text: &str) -> Res<String> {
    guard("the front end", || {
        let mut o = String::new();
        let mut add = |n: &str, t: String| {
            o.push_str(n);
            o.push_str(": ");
            o.push_str(&t);
            o.push('\n');
        };
        add("tokens", format!("{:?}", whitespace::scanner::Scanner::new(text).scan_tokens()));
        let p = whitespace::parser::parse(text);
        add("parsed", format!("{p:?}"));
        if let Err(e) = &p {
            add("errors", e.to_string());
        }
        if let Ok(t) = p {
            add("resolved", format!("{:?}", whitespace::resolver::resolve(t)));
        }
        let p = whitespace::parser::parse_repl_line(text);
        add("line", format!("{p:?}"));
        if let Ok(t) = p {
            let mut r = whitespace::resolver::Resolver::new();
            add("session", format!("{:?}", r.resolve(t)));
        }
        add("expression", format!("{:?}", whitespace::parser::parse_expression(text)));
        o
    })
}

fn first_difference(a: &str, b: &str) -> String {
    let i = a
        .bytes()
        .zip(b.bytes())
        .take_while(|(x, y)| x == y)
        .count();
    let cut = |s: &str| {
        let mut lo = i.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        s[lo..].chars().take(140).collect::<String>()
    };
    format!("first {:?}, then {:?}", cut(a), cut(b))
}

fn some_source(src: &mut Src) -> String {
    match src.below(6) {
        0 | 1 => {
            let mut cfg = Cfg::new(20);
            cfg.mischief = 200;
            let p = gen::program(src, cfg);
            let st = Style::random(src);
            render(src, &p, &st).text
        }
        2 => inject(src, true).0,
        _ => soup::any(src),
    }
}

fn c27_histories(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 8);
    let texts: Vec<String> = (0..n).map(|_| some_source(src)).collect();
    for t in &texts {
        ctx.input("source", t);
    }
    ctx.case(&texts.join("\u{1}"), n > 2);
    let mut seen: Vec<String> = Vec::new();
    for t in &texts {
        let o = outcome(t)?;
        let again = outcome(t)?;
        if o != again {
            return Err(format!("{}: {}", show(t), first_difference(&o, &again)));
        }
        seen.push(o);
    }
    // In any order.
    for _ in 0..n {
        let i = src.idx(n);
        let again = outcome(&texts[i])?;
        if seen[i] != again {
            return Err(format!("{}: {}", show(&texts[i]), first_difference(&seen[i], &again)));
        }
    }
    Ok(())
}

fn c27_long(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let probes: Vec<String> = (0..6).map(|_| some_source(src)).collect();
    for t in &probes {
        ctx.input("source", t);
    }
    ctx.case(&probes.join("\u{1}"), true);
    let first: Vec<String> = probes.iter().map(|t| outcome(t)).collect::<Res<_>>()?;
    // Draws its own sources: a shrunk case keeps the history.
    let mut own = Src::random(src.below(1 << 32), 0);
    let n = src.range(0, 1500);
    for _ in 0..n {
        let t = some_source(&mut own);
        outcome(&t)?;
    }
    for (t, o) in probes.iter().zip(&first) {
        let again = outcome(t)?;
        if *o != again {
            return Err(format!(
                "after {n} sources, {}: {}",
                show(t),
                first_difference(o, &again)
            ));
        }
    }
    Ok(())
}

/// All results, to be compared without printing them.
type Values = (
    Result<Vec<whitespace::ast::Stmt>, whitespace::error::ParseError>,
    Option<Result<Vec<whitespace::ast::Stmt>, whitespace::error::ParseError>>,
    Result<Vec<whitespace::ast::Stmt>, whitespace::error::ParseError>,
    Result<whitespace::ast::Expr, whitespace::error::ParseError>,
);

fn values(text: &str) -> Res<Values> {
    guard("the front end", || {
        let p = whitespace::parser::parse(text);
        let r = match &p {
            Ok(t) => Some(whitespace::resolver::resolve(t.clone()).map(|c| c.statements)),
            Err(_) => None,
        };
        (
            p,
            r,
            whitespace::parser::parse_repl_line(text),
            whitespace::parser::parse_expression(text),
        )
    })
}

/// A source that keeps the parser inside of some constructs for long.
fn lengthy(src: &mut Src) -> String {
    let mut s = String::new();
    let n = src.range(1, 6);
    let mut at = 0;
    for _ in 0..n {
        let h = *src.pick(&[
            "while (a)\n",
            "for (;;)\n",
            "if (a)\n",
            "fun f(x)\n",
            "class A < B\n",
            "for (var i = 1; i < 3; i = i + 1)\n",
        ]);
        s.push_str(&" ".repeat(at));
        s.push_str(h);
        at += 1;
        if h.starts_with("class") {
            s.push_str(&" ".repeat(at));
            s.push_str(src.pick(&["m(x)\n", "init(x)\n", "class m(x)\n"]));
            at += 1;
        }
    }
    let line = *src.pick(&[
        "print c\n",
        "a = b\n",
        "f x, \"y\", 2\n",
        "break\n",
        "return\n",
        "print this\n",
        "super.m 1\n",
        "{ var z = 1\n}\\\n",
        "print [1, (2), a: 3]\n",
        "@\n",
    ]);
    let n = src.range(20, 1200);
    for _ in 0..n {
        s.push_str(&" ".repeat(at));
        s.push_str(line);
    }
    s.push_str(src.pick(&["", "", "a\n", ")\n", "var a = a\n", "break\n", "@\n"]));
    s
}

const JUMPS: [&str; 8] = [
    "break\n",
    "continue\n",
    "return 1\n",
    "print this\n",
    "super.m\n",
    "fun f()\n  break\n",
    "class A\n  m()\n    super.m\n",
    "var x = x\n",
];

fn c27_threads(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 4);
    let mut texts: Vec<String> = (0..n).map(|_| some_source(src)).collect();
    for _ in 0..src.range(0, 2) {
        texts.push((*src.pick(&JUMPS)).to_owned());
    }
    let lists: Vec<Vec<usize>> = {
        // One thread has a long source to itself, or all have all.
        let all: Vec<usize> = (0..texts.len()).collect();
        let threads = src.range(2, 4);
        let mut lists = vec![all; threads];
        for l in lists.iter_mut().take(src.range(0, 2).min(threads - 1)) {
            texts.push(lengthy(src));
            *l = vec![texts.len() - 1];
            ctx.label("a lengthy source");
        }
        lists
    };
    for t in &texts {
        ctx.input("source", t);
    }
    ctx.case(&texts.join("\u{1}"), texts.len() > 2);
    let first: Vec<Values> = texts.iter().map(|t| values(t)).collect::<Res<_>>()?;
    let gate = std::sync::Barrier::new(lists.len());
    let bad = std::thread::scope(|s| {
        let hs: Vec<_> = lists
            .iter()
            .map(|list| {
                let (texts, gate) = (&texts, &gate);
                let first: Vec<(usize, Values)> =
                    list.iter().map(|&i| (i, first[i].clone())).collect();
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        gate.wait();
                        // A fixed amount of text, enough to overlap.
                        let mut budget = 20_000usize;
                        while budget > 0 {
                            for (i, want) in &first {
                                let i = *i;
                                let o = values(&texts[i])?;
                                if o != *want {
                                    return Err(format!(
                                        "on a thread, {}: {}",
                                        show(&texts[i]),
                                        first_difference(
                                            &format!("{want:?}"),
                                            &format!("{o:?}")
                                        )
                                    ));
                                }
                                budget = budget.saturating_sub(texts[i].len() + 10);
                            }
                        }
                        Ok(())
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
            .find(|r| r.is_err())
    });
    bad.unwrap_or(Ok(()))
}
