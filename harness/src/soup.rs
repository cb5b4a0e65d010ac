//! Sources that are not (always) programs.
use unicode_segmentation::UnicodeSegmentation;

use crate::engine::Src;
use crate::gen::{self, Cfg};
use crate::loose::loose;
use crate::magic::magic;
use crate::render::{render, Rendered, Style};

/// Pieces of sources: every token, layout, and some oddities.
pub const TOKENS: [&str; 62] = [
    "a", "b", "1", "\"s\"", "(", ")", "{", "}", "[", "]", ":", ",", ".", "-",
    "+", ";", "/", "*", "!", "!=", "=", "==", ">", ">=", "<", "<=", "and",
    "break", "class", "continue", "else", "false", "for", "fun", "if", "nil",
    "or", "print", "return", "super", "this", "true", "var", "while", "init",
    "x1", "2.5", "0", "foo", "\"k\"", "a: 1", "fun (x)", "while (a)",
    "if (a)", "for (;;)", "class A", "var v =", "super.m", "f(1)", "a.b",
    "a[0]", "else if (b)",
];

const LAYOUT: [&str; 10] = [
    "\n", "\n  ", "\n    ", "\n\n", "\r\n", " \\\n", "\n // c\n", " // c\n",
    "\n      ", " \\\n   ",
];

pub fn token_soup(src: &mut Src) -> String {
    let n = 1 + src.weighted(&[1, 2, 3, 4, 4, 3, 3, 2, 2, 2, 1, 1, 1]) * 2
        + src.idx(2);
    let mut s = String::new();
    // Often favours statements.
    let lines = src.below(4);
    for _ in 0..n {
        if src.chance(1, 40) {
            s.push_str(&gen::odd_name(src));
        } else if src.chance(1, 60) {
            s.push_str(src.pick(&magic().pieces));
        } else {
            s.push_str(src.pick(&TOKENS));
        }
        match src.below(8) {
            0 => (),
            x if x <= 1 + lines => {
                let l = *src.pick(&LAYOUT);
                s.push_str(l);
                if l.ends_with(' ') {
                    s.push_str(&" ".repeat(gen::width(src, 0, 0)));
                }
            }
            _ => s.push(' '),
        }
    }
    if src.chance(3, 4) {
        s.push('\n');
    }
    s
}

/// Characters for texts without any structure.
pub const CHARS: [&str; 64] = [
    "a", "Z", "_", "é", "e\u{301}", "日", "ß", "ǆ", "0", "9", "٣", "²", " ",
    " ", "\n", "\n", "\r\n", "\r", "\t", "\\", "\\\n", "\"", "\"", "(", ")",
    "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "/", "//", "*", "!",
    "=", "<", ">", "#", "$", "%", "&", "'", "@", "^", "`", "|", "~", "?",
    "\u{a0}", "\u{301}", "👩‍👩‍👧", "🇫🇷", "\u{feff}", "\0", "\u{2028}", "  ",
    "if", "var", "1.5",
];

pub fn char_soup(src: &mut Src) -> String {
    let n = src.range(0, 40);
    (0..n)
        .map(|_| {
            if src.chance(1, 40) {
                src.pick(&magic().pieces).as_str()
            } else {
                *src.pick(&CHARS)
            }
        })
        .collect()
}

/// Any Unicode text.
pub fn unicode_soup(src: &mut Src) -> String {
    let n = src.range(0, 30);
    let mut s = String::new();
    for _ in 0..n {
        let c = match src.weighted(&[4, 3, 2, 1]) {
            0 => src.below(0x80) as u32,
            1 => src.below(0x800) as u32,
            2 => src.below(0x1_0000) as u32,
            _ => src.below(0x11_0000) as u32,
        };
        s.push(char::from_u32(c).unwrap_or('\u{fffd}'));
    }
    s
}

pub fn program_text(src: &mut Src, fuel: usize) -> Rendered {
    let p = gen::program(src, Cfg::new(fuel));
    let st = Style::random(src);
    render(src, &p, &st)
}

/// A program with a few random changes.
pub fn mutated(src: &mut Src, fuel: usize) -> String {
    let r = program_text(src, fuel);
    let mut text = r.text;
    let n = 1 + src.weighted(&[6, 3, 1]);
    let mut toks = r.toks;
    for k in 0..n {
        text = if k == 0 && !toks.is_empty() && src.chance(3, 4) {
            let t = mutate_tokens(src, &text, &toks);
            toks.clear();
            t
        } else {
            mutate_text(src, &text)
        };
    }
    text
}

pub fn mutate_tokens(src: &mut Src, text: &str, toks: &[(usize, usize)]) -> String {
    let i = src.idx(toks.len());
    let (s, e) = toks[i];
    let tok = &text[s..e];
    match src.weighted(&[4, 4, 3, 2, 2, 1]) {
        // Delete.
        0 => format!("{}{}", &text[..s], &text[e..]),
        // Replace.
        1 => {
            let t = *src.pick(&TOKENS);
            format!("{}{}{}", &text[..s], t, &text[e..])
        }
        // Insert.
        2 => {
            let t = *src.pick(&TOKENS);
            format!("{}{} {}", &text[..s], t, &text[s..])
        }
        // Duplicate.
        3 => format!("{}{} {}", &text[..e], tok, &text[e..]),
        // Swap with the next.
        4 if i + 1 < toks.len() => {
            let (s2, e2) = toks[i + 1];
            format!(
                "{}{}{}{}{}",
                &text[..s],
                &text[s2..e2],
                &text[e..s2],
                tok,
                &text[e2..]
            )
        }
        // Cut off.
        _ => text[..e].to_owned(),
    }
}

pub fn mutate_text(src: &mut Src, text: &str) -> String {
    let bounds: Vec<usize> = text
        .grapheme_indices(true)
        .map(|x| x.0)
        .chain([text.len()])
        .collect();
    let at = *src.pick(&bounds);
    match src.weighted(&[3, 3, 3, 2, 2, 1]) {
        // Delete a character.
        0 => {
            let rest: String = text[at..].graphemes(true).skip(1).collect();
            format!("{}{rest}", &text[..at])
        }
        // Insert one.
        1 if src.chance(1, 20) => {
            format!("{}{}{}", &text[..at], src.pick(&magic().pieces), &text[at..])
        }
        1 => format!("{}{}{}", &text[..at], src.pick(&CHARS), &text[at..]),
        // Change a line's indentation.
        2 => {
            let lines: Vec<&str> = text.split_inclusive('\n').collect();
            if lines.is_empty() {
                return text.to_owned();
            }
            let i = src.idx(lines.len());
            let w = src.range(0, 8);
            let mut out = String::new();
            for (j, l) in lines.iter().enumerate() {
                if i == j {
                    out.push_str(&" ".repeat(w));
                    out.push_str(l.trim_start_matches(' '));
                } else {
                    out.push_str(l);
                }
            }
            out
        }
        // Remove or insert a line end.
        3 => match text[at..].find('\n') {
            Some(i) => format!("{}{}", &text[..at + i], &text[at + i + 1..]),
            None => format!("{}\n{}", &text[..at], &text[at..]),
        },
        4 => format!("{}\n{}", &text[..at], &text[at..]),
        // Cut off.
        _ => text[..at].to_owned(),
    }
}

pub fn any(src: &mut Src) -> String {
    match src.weighted(&[3, 3, 2, 1, 2, 2]) {
        0 => mutated(src, 30),
        1 => token_soup(src),
        2 => char_soup(src),
        3 => unicode_soup(src),
        4 => program_text(src, 30).text,
        _ => loose(src),
    }
}
