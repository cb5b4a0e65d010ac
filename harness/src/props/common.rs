use std::collections::BTreeSet;

use crate::engine::{Ctx, Src};
use crate::gen::{self, Cfg};
use crate::refparse::{self, Bad, Start};
use crate::refresolve::{self, Offence};
use crate::refscan::{self, Places, Tok, K};
use crate::render::{render, Rendered, Style};
use crate::sut::{self, Cause, Causes};
use crate::tree::{self, Loc, S};

/// Shows a source in a message.
pub fn show(s: &str) -> String {
    crate::engine::clip(&format!("{s:?}"), 3000)
}

/// A scoping-valid program in a random layout.
pub fn program(src: &mut Src, ctx: &mut Ctx, fuel: usize) -> (Vec<S>, Rendered) {
    let p = gen::program(src, Cfg::new(fuel));
    let st = Style::random(src);
    let r = render(src, &p, &st);
    ctx.input("source", &r.text);
    note_used(ctx, &r);
    (p, r)
}

pub fn note_used(ctx: &mut Ctx, r: &Rendered) {
    let u = &r.used;
    for (n, l) in [
        (u.comments, "with comments"),
        (u.blanks, "with blank lines"),
        (u.crlf, "with CRLF"),
        (u.breaks, "with broken lines"),
        (u.brace_bodies, "with bodies in braces"),
        (u.indent_bodies, "with indented bodies"),
        (u.bare_calls, "with calls without parentheses"),
        (u.bare_maps, "with maps without braces"),
        (u.fors, "with for loops"),
        (u.inline_bodies, "with bodies on the header's line"),
        (u.max_depth / 3, "with three or more levels of indentation"),
    ] {
        if n > 0 {
            ctx.label(l);
        }
    }
}

/// How much of a program to draw: mostly small, some large.
pub fn fuel(src: &mut Src) -> usize {
    *src.pick(&[10, 20, 30, 40, 60, 60, 100, 200])
}

pub fn locs(c: &[Cause]) -> Vec<Loc> {
    c.iter().map(|c| c.loc).collect()
}

pub fn brief(c: &[Cause]) -> String {
    c.iter()
        .take(6)
        .map(|c| {
            format!(
                "{}:{} {:?} {}",
                c.loc.0,
                c.loc.1,
                c.token.as_ref().map(|t| crate::engine::clip(t, 60)),
                c.message
            )
        })
        .collect::<Vec<_>>()
        .join(" | ")
}

pub type Res<T> = Result<T, String>;

/// What the kind and place of layout tokens say; their text is not specified.
pub fn plain_layout(t: &mut [Tok]) {
    for x in t {
        if matches!(x.kind, K::Indent | K::Outdent | K::Term | K::Eof) {
            x.text.clear();
            x.start = 0;
            x.end = 0;
            if x.kind == K::Term {
                // A line's end has one place, but it's not looked at.
            }
        }
    }
}

/// Scanning agrees with the reference.  Gives the tokens if there are no
/// lexical errors.
pub fn lex_agree(text: &str) -> Res<Option<Vec<Tok>>> {
    let want = refscan::scan(text);
    match sut::scan(text)? {
        Err(c) => {
            let w: Vec<Loc> = want.errs.iter().map(|e| e.0).collect();
            if w.is_empty() {
                return Err(format!("lexical errors in a source without any: {}", brief(&c)));
            }
            if locs(&c) != w {
                return Err(format!(
                    "lexical errors [{}]; expected {:?}",
                    brief(&c),
                    &want.errs[..want.errs.len().min(8)]
                ));
            }
            Ok(None)
        }
        Ok(mut t) => {
            if !want.errs.is_empty() {
                return Err(format!(
                    "no lexical error; expected {:?}",
                    &want.errs[..want.errs.len().min(8)]
                ));
            }
            let mut w = want.toks.clone();
            plain_layout(&mut t);
            plain_layout(&mut w);
            if t != w {
                return Err(first_tok_diff(&w, &t));
            }
            Ok(Some(want.toks))
        }
    }
}

fn first_tok_diff(w: &[Tok], t: &[Tok]) -> String {
    let mut i = 0;
    while i < w.len() && i < t.len() && w[i] == t[i] {
        i += 1;
    }
    format!(
        "token {i} of {} is {:?}; expected {:?} (of {})",
        t.len(),
        t.get(i),
        w.get(i),
        w.len()
    )
}

/// The library's parse of a text.
pub fn lib_parse(text: &str, start: Start) -> sut::Guarded<Vec<S>> {
    match start {
        Start::File => sut::parse(text),
        Start::Repl => sut::parse_repl(text),
        Start::Expr => Ok(sut::parse_expr(text)?.map(|e| vec![S::Expr(e)])),
    }
}

/// Parsing agrees with the reference: the tree, or the place of the first
/// error.  `toks` are the reference's tokens.
pub fn parse_agree(text: &str, toks: &[Tok], start: Start) -> Res<Result<Vec<S>, Bad>> {
    let got = lib_parse(text, start)?;
    let want = refparse::parse_toks(toks, start);
    match (got, &want) {
        (Ok(a), Ok(b)) => {
            if a != *b {
                return Err(format!("{start:?}: {}", tree::diff("trees", b, &a)));
            }
        }
        (Err(c), Err(b)) => {
            if !b.at.contains(&c[0].loc) {
                return Err(format!(
                    "{start:?}: first error at {:?} ({}); expected it at {:?}: {}",
                    c[0].loc,
                    brief(&c),
                    b.at,
                    b.why
                ));
            }
        }
        (Ok(_), Err(b)) => {
            return Err(format!(
                "{start:?}: accepted a source with an error at {:?}: {}",
                b.at, b.why
            ))
        }
        (Err(c), Ok(_)) => {
            return Err(format!("{start:?}: rejected a program: {}", brief(&c)))
        }
    }
    Ok(want)
}

pub enum Resolved {
    Lexical,
    Syntax(Bad),
    /// A scope with exactly as many variables as slots: not specified.
    Brim,
    Scoping(Vec<Offence>),
    Ok(Vec<S>),
}

/// Scanning, parsing and resolving all agree with the reference.
pub fn front_agree(text: &str) -> Res<Resolved> {
    let Some(toks) = lex_agree(text)? else {
        match sut::front(text)? {
            Ok(_) => return Err("accepted a source with lexical errors".into()),
            Err(c) => {
                let want = refscan::scan(text);
                if locs(&c) != want.errs.iter().map(|e| e.0).collect::<Vec<_>>() {
                    return Err(format!(
                        "parsing reports [{}] for lexical errors {:?}",
                        brief(&c),
                        want.errs
                    ));
                }
            }
        }
        return Ok(Resolved::Lexical);
    };
    match parse_agree(text, &toks, Start::File)? {
        Err(b) => Ok(Resolved::Syntax(b)),
        Ok(t) => resolve_agree(text, t),
    }
}

/// Resolving a text the library accepts agrees with the reference.
pub fn resolve_agree(text: &str, parsed: Vec<S>) -> Res<Resolved> {
    let mut want = parsed;
    let mut rr = refresolve::Resolver::default();
    let r = rr.resolve(&mut want);
    let got = sut::front(text)?;
    if rr.brim {
        return Ok(Resolved::Brim);
    }
    match (got, r) {
        (Ok(a), Ok(())) => {
            if a != want {
                return Err(tree::diff("resolved trees", &want, &a));
            }
            Ok(Resolved::Ok(want))
        }
        (Err(c), Err(o)) => {
            same_offences(&c, &o)?;
            Ok(Resolved::Scoping(o))
        }
        (Ok(_), Err(o)) => Err(format!(
            "accepted a program with scoping errors {:?}",
            &o[..o.len().min(5)]
        )),
        (Err(c), Ok(())) => {
            Err(format!("scoping error in a valid program: {}", brief(&c)))
        }
    }
}

pub fn same_offences(c: &Causes, o: &[Offence]) -> Res<()> {
    let got: Vec<(Loc, Option<&str>)> =
        c.iter().map(|c| (c.loc, c.token.as_deref())).collect();
    let want: Vec<(Loc, Option<&str>)> =
        o.iter().map(|o| (o.at, Some(o.token.as_str()))).collect();
    // Too many variables: the place is not specified.
    let vague = o.iter().any(|o| o.kind == refresolve::Kind::TooMany);
    let ok = if vague {
        got.len() == want.len()
    } else {
        // The text an error quotes is checked where it is given.
        got.len() == want.len()
            && got
                .iter()
                .zip(&want)
                .all(|(g, w)| g.0 == w.0 && (g.1.is_none() || g.1 == w.1))
    };
    if ok {
        Ok(())
    } else {
        Err(format!(
            "scoping errors [{}]; expected {:?}",
            brief(c),
            &o[..o.len().min(5)]
        ))
    }
}

pub fn must_parse(text: &str) -> Res<Vec<S>> {
    sut::parse(text)?.map_err(|c| format!("rejected a program: {}", brief(&c)))
}

/// Known finding: an assignment that takes a name beyond the limit is reported
/// at its operator, with the name quoted.
fn assigned_too_many(text: &str, at: usize, name: &str) -> bool {
    let toks = refscan::scan(text).toks;
    let Some(i) = toks.iter().position(|t| t.start == at && t.kind == K::Eq) else {
        return false;
    };
    let names: BTreeSet<&str> =
        toks.iter().filter(|t| t.kind == K::Ident).map(|t| t.text.as_str()).collect();
    names.len() > 256
        && i > 0
        && toks[i - 1].text == name
        && (i < 2 || toks[i - 2].kind != K::Var)
}

/// Every error lies within the source and quotes its text.
pub fn errors_in_source(text: &str, c: &Causes) -> Res<()> {
    let places = Places::new(text);
    let toks = match c.iter().any(|c| c.token.is_some()) {
        true => refscan::scan(text).toks,
        false => vec![],
    };
    for c in c {
        let end = places.end();
        let start = places.starts_at(c.loc);
        if c.loc != end && start.is_none() {
            return Err(format!(
                "the error at {}:{} ({}) is not in the source, which ends at {end:?}",
                c.loc.0, c.loc.1, c.message
            ));
        }
        if let Some(t) = &c.token {
            let at = start.unwrap_or(text.len());
            let rest = &text[at..];
            // A key in quotes may be quoted without them.
            let mut ok = rest.starts_with(t.as_str())
                || rest.strip_prefix('"').is_some_and(|r| r.starts_with(t.as_str()));
            // A token is quoted as a whole.  (Where indentation begins or ends
            // there may be less of the text.)
            let here = &toks[toks.partition_point(|t| t.start < at)..];
            let here = here.iter().take_while(|t| t.start == at);
            let layout = |k| matches!(k, K::Indent | K::Outdent | K::Term | K::Eof);
            if !here.clone().any(|x| layout(x.kind)) {
                for x in here {
                    ok &= x.text == *t || x.string.as_deref() == Some(t);
                }
            }
            if !ok && !assigned_too_many(text, at, t) {
                return Err(format!(
                    "the error at {}:{} quotes {t:?}, but there stands {:?}",
                    c.loc.0,
                    c.loc.1,
                    rest.chars().take(20).collect::<String>()
                ));
            }
        }
    }
    Ok(())
}
