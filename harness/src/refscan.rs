//! Reference scanner, written from the description of the lexical grammar.
use unicode_segmentation::UnicodeSegmentation;

use crate::tree::Loc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Indent,
    Outdent,
    Term,
    LParen,
    LParenTouch,
    RParen,
    LBrace,
    RBrace,
    LBracket,
    RBracket,
    Colon,
    Comma,
    Dot,
    Minus,
    Plus,
    Semi,
    Slash,
    Star,
    Bang,
    BangEq,
    Eq,
    EqEq,
    Gt,
    Ge,
    Lt,
    Le,
    Ident,
    Str,
    Num,
    And,
    Break,
    Class,
    Continue,
    Else,
    False,
    Fun,
    For,
    If,
    Nil,
    Or,
    Print,
    Return,
    Super,
    This,
    True,
    Var,
    While,
    Eof,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: K,
    pub start: usize,
    pub end: usize,
    pub line: u32,
    pub col: u32,
    pub text: String,
    pub string: Option<String>,
    pub num: Option<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LexErr {
    Illegal,
    Tab,
    Backslash,
    Outdent,
    Unterminated,
}

pub const KEYWORDS: [(&str, K); 18] = [
    ("and", K::And),
    ("break", K::Break),
    ("class", K::Class),
    ("continue", K::Continue),
    ("else", K::Else),
    ("false", K::False),
    ("for", K::For),
    ("fun", K::Fun),
    ("if", K::If),
    ("nil", K::Nil),
    ("or", K::Or),
    ("print", K::Print),
    ("return", K::Return),
    ("super", K::Super),
    ("this", K::This),
    ("true", K::True),
    ("var", K::Var),
    ("while", K::While),
];

/// Whether a line break after this token is ignored.
pub fn continues(k: K) -> bool {
    matches!(
        k,
        K::LParen
            | K::LParenTouch
            | K::LBrace
            | K::LBracket
            | K::Colon
            | K::Comma
            | K::Dot
            | K::Minus
            | K::Plus
            | K::Star
            | K::Slash
            | K::Lt
            | K::Le
            | K::Gt
            | K::Ge
    )
}

/// A grapheme cluster with its place in the source.
#[derive(Clone, Copy)]
pub struct G<'a> {
    pub off: usize,
    pub text: &'a str,
    pub loc: Loc,
}

/// All grapheme clusters of a text, and the place of its end.
pub fn graphemes(src: &str) -> (Vec<G<'_>>, Loc) {
    let (mut line, mut col) = (1u32, 1u32);
    let mut out = Vec::new();
    for (off, text) in src.grapheme_indices(true) {
        out.push(G {
            off,
            text,
            loc: (line, col),
        });
        if text == "\n" || text == "\r\n" {
            line += 1;
            col = 1;
        } else {
            col = (col + 1).min(65535);
        }
    }
    (out, (line, col))
}

/// Maps byte offsets of token starts to places.
pub struct Places {
    by_off: Vec<(usize, Loc)>,
    end: Loc,
}

impl Places {
    pub fn new(src: &str) -> Places {
        let (g, end) = graphemes(src);
        Places {
            by_off: g.iter().map(|g| (g.off, g.loc)).collect(),
            end,
        }
    }

    pub fn at(&self, off: usize) -> Loc {
        match self.by_off.binary_search_by_key(&off, |x| x.0) {
            Ok(i) => self.by_off[i].1,
            Err(_) => self.end,
        }
    }

    pub fn end(&self) -> Loc {
        self.end
    }

    pub fn starts_at(&self, loc: Loc) -> Option<usize> {
        self.by_off
            .binary_search_by_key(&loc, |x| x.1)
            .ok()
            .map(|i| self.by_off[i].0)
    }
}

enum Raw {
    Space,
    /// Tabs, carriage returns and comments: ignored otherwise.
    Blank,
    Newline,
    BrokenLine,
    Tok(K, Option<u64>),
    Illegal,
    BadBackslash,
    Unterminated,
}

fn first(g: &str) -> char {
    g.chars().next().unwrap_or('\0')
}

fn digit(g: &str) -> bool {
    g.len() == 1 && g.as_bytes()[0].is_ascii_digit()
}

fn nl(g: &str) -> bool {
    g == "\n" || g == "\r\n"
}

pub struct Scanned {
    pub toks: Vec<Tok>,
    pub errs: Vec<(Loc, LexErr)>,
}

pub fn scan(src: &str) -> Scanned {
    let (g, end) = graphemes(src);
    let text = |i: usize| g.get(i).map_or("", |x| x.text);
    let mut raws: Vec<(Raw, usize, usize)> = Vec::new();
    let mut errs: Vec<(Loc, LexErr)> = Vec::new();

    // First pass: the pieces of the source by longest match.
    let mut i = 0;
    while i < g.len() {
        let s = i;
        let t = text(i);
        i += 1;
        let one = |k: K| Raw::Tok(k, None);
        let raw = match t {
            " " => Raw::Space,
            "\t" => {
                errs.push((g[s].loc, LexErr::Tab));
                Raw::Blank
            }
            "\r" => Raw::Blank,
            _ if nl(t) => Raw::Newline,
            "\\" => {
                while text(i) == " " {
                    i += 1;
                }
                if text(i) == "\r" {
                    i += 1;
                }
                if nl(text(i)) {
                    i += 1;
                    Raw::BrokenLine
                } else {
                    Raw::BadBackslash
                }
            }
            "(" => one(K::LParen),
            ")" => one(K::RParen),
            "{" => one(K::LBrace),
            "}" => one(K::RBrace),
            "[" => one(K::LBracket),
            "]" => one(K::RBracket),
            ":" => one(K::Colon),
            "," => one(K::Comma),
            "." => one(K::Dot),
            "-" => one(K::Minus),
            "+" => one(K::Plus),
            ";" => one(K::Semi),
            "*" => one(K::Star),
            "/" if text(i) == "/" => {
                while i < g.len() && !nl(text(i)) {
                    i += 1;
                }
                Raw::Blank
            }
            "/" => one(K::Slash),
            "!" | "=" | "<" | ">" => {
                let eq = text(i) == "=";
                if eq {
                    i += 1;
                }
                one(match (t, eq) {
                    ("!", false) => K::Bang,
                    ("!", true) => K::BangEq,
                    ("=", false) => K::Eq,
                    ("=", true) => K::EqEq,
                    ("<", false) => K::Lt,
                    ("<", true) => K::Le,
                    (_, false) => K::Gt,
                    (_, true) => K::Ge,
                })
            }
            "\"" => {
                while i < g.len() && text(i) != "\"" {
                    i += 1;
                }
                if i < g.len() {
                    i += 1;
                    one(K::Str)
                } else {
                    Raw::Unterminated
                }
            }
            _ if digit(t) => {
                while digit(text(i)) {
                    i += 1;
                }
                if text(i) == "." && digit(text(i + 1)) {
                    i += 1;
                    while digit(text(i)) {
                        i += 1;
                    }
                }
                let e = g.get(i).map_or(src.len(), |x| x.off);
                let v: f64 = src[g[s].off..e].parse().unwrap();
                Raw::Tok(K::Num, Some(v.to_bits()))
            }
            _ if first(t).is_alphabetic() || first(t) == '_' => {
                while i < g.len()
                    && (first(text(i)).is_alphanumeric() || first(text(i)) == '_')
                {
                    i += 1;
                }
                let e = g.get(i).map_or(src.len(), |x| x.off);
                let w = &src[g[s].off..e];
                one(KEYWORDS
                    .iter()
                    .find(|(k, _)| *k == w)
                    .map_or(K::Ident, |(_, k)| *k))
            }
            _ => Raw::Illegal,
        };
        raws.push((raw, s, i));
    }

    // Second pass: layout.
    let off = |i: usize| g.get(i).map_or(src.len(), |x| x.off);
    let at = |i: usize| g.get(i).map_or(end, |x| x.loc);
    let mut toks = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    let mut indent = 0usize;
    let mut blank = true; // nothing on this line yet
    let mut continued = false; // this line continues the one before
    let mut carries = false; // the last token continues over a line break
    let mut touching = false;
    for (raw, s, e) in raws {
        let mk = |kind: K, num: Option<u64>| Tok {
            kind,
            start: off(s),
            end: off(e),
            line: at(s).0,
            col: at(s).1,
            text: src[off(s)..off(e)].to_owned(),
            string: (kind == K::Str)
                .then(|| src[off(s) + 1..off(e) - 1].to_owned()),
            num,
        };
        // Indentation, at the first piece of a line that is not blank.
        if blank && matches!(raw, Raw::Tok(..) | Raw::Illegal | Raw::Unterminated) {
            blank = false;
            // The scanner under test takes the text of these tokens from the
            // piece of source read so far; only their kind and place matter.
            let mut layout = |kind: K| {
                toks.push(Tok {
                    text: String::new(),
                    string: None,
                    ..mk(kind, None)
                })
            };
            let width = indent.min(65535);
            let top = open.last().copied().unwrap_or(0);
            if width > top {
                if !continued {
                    open.push(width);
                    layout(K::Indent);
                }
            } else {
                while open.last().is_some_and(|t| *t > width) {
                    open.pop();
                    layout(K::Outdent);
                }
                if open.last().copied().unwrap_or(0) != width {
                    errs.push((at(s), LexErr::Outdent));
                }
            }
        }
        let mut touches = false;
        match raw {
            Raw::Space => {
                if blank {
                    indent += 1;
                }
            }
            Raw::Blank => (),
            Raw::Newline | Raw::BrokenLine => {
                let broken = matches!(raw, Raw::BrokenLine);
                if !blank {
                    if !broken && !carries {
                        toks.push(mk(K::Term, None));
                    }
                    continued = carries;
                    carries = false;
                }
                continued |= broken;
                blank = true;
                indent = 0;
            }
            Raw::Tok(k, num) => {
                let k = if k == K::LParen && touching {
                    K::LParenTouch
                } else {
                    k
                };
                carries = continues(k);
                toks.push(mk(k, num));
                touches = true;
            }
            Raw::Illegal => {
                errs.push((at(s), LexErr::Illegal));
                carries = false;
                touches = true;
            }
            Raw::BadBackslash => {
                errs.push((at(s), LexErr::Backslash));
                carries = false;
                touches = true;
            }
            Raw::Unterminated => errs.push((end, LexErr::Unterminated)),
        }
        touching = touches;
    }
    let mk_end = |kind: K| Tok {
        kind,
        start: src.len(),
        end: src.len(),
        line: end.0,
        col: end.1,
        text: String::new(),
        string: None,
        num: None,
    };
    for _ in 0..open.len() {
        toks.push(mk_end(K::Outdent));
    }
    toks.push(mk_end(K::Eof));
    errs.sort_by_key(|(l, _)| *l);
    Scanned { toks, errs }
}
