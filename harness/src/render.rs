//! Writes a program out in a random legal layout, and says where everything
//! ended up.  All layout choices are drawn from the case's `Src`.
use crate::engine::Src;
use crate::gen::{leftmost, starts_with_map};
use crate::refscan::{continues, Places, K, KEYWORDS};
use crate::tree::{self, BOp, ClassD, FunD, LOp, Loc, UOp, E, FK, S};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Choice {
    Never,
    Always,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Style {
    /// Chance in 100 of a comment (or odd trailing spaces) at a line's end.
    pub comments: u64,
    /// Chance in 100 of blank or comment-only lines between lines.
    pub blanks: u64,
    /// Line ends.
    pub crlf: Choice,
    /// Chance in 100 of breaking a line between two tokens.
    pub breaks: u64,
    /// Chance in 100 of unusual spacing between two tokens.
    pub spaces: u64,
    /// Whether bodies are in braces.
    pub braces: Choice,
    /// Whether calls are written without parentheses where possible.
    pub bare_calls: Choice,
    /// Whether maps are written without braces where possible.
    pub bare_maps: Choice,
    /// Whether loops that may be are written as for.
    pub fors: Choice,
    /// Allow omitting nil, true, trailing commas and such in varied ways.
    pub vary: bool,
    /// Width of each indentation step (max); 0 means always 2.
    pub max_width: usize,
}

impl Style {
    /// The plainest layout.
    pub fn plain() -> Style {
        Style {
            comments: 0,
            blanks: 0,
            crlf: Choice::Never,
            breaks: 0,
            spaces: 0,
            braces: Choice::Never,
            bare_calls: Choice::Never,
            bare_maps: Choice::Never,
            fors: Choice::Mixed,
            vary: false,
            max_width: 0,
        }
    }

    pub fn random(src: &mut Src) -> Style {
        if src.chance(1, 6) {
            return Style::plain();
        }
        let choice = |src: &mut Src| match src.weighted(&[2, 1, 4]) {
            0 => Choice::Never,
            1 => Choice::Always,
            _ => Choice::Mixed,
        };
        Style {
            comments: *src.pick(&[0, 0, 10, 40]),
            blanks: *src.pick(&[0, 0, 10, 40]),
            crlf: match src.weighted(&[6, 1, 1]) {
                0 => Choice::Never,
                1 => Choice::Always,
                _ => Choice::Mixed,
            },
            breaks: *src.pick(&[0, 0, 3, 10, 30]),
            spaces: *src.pick(&[0, 0, 20, 60]),
            braces: choice(src),
            bare_calls: choice(src),
            bare_maps: choice(src),
            fors: choice(src),
            vary: src.chance(3, 4),
            max_width: *src.pick(&[0, 0, 4, 9]),
        }
    }
}

pub struct Rendered {
    pub text: String,
    /// The program with the places of its parts.
    pub tree: Vec<S>,
    /// Byte ranges of the tokens written.
    pub toks: Vec<(usize, usize)>,
    /// Byte offsets at which the top-level statements start.
    pub starts: Vec<usize>,
    pub used: Used,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Used {
    pub comments: usize,
    pub blanks: usize,
    pub crlf: usize,
    pub breaks: usize,
    pub brace_bodies: usize,
    pub indent_bodies: usize,
    pub bare_calls: usize,
    pub bare_maps: usize,
    pub fors: usize,
    pub inline_bodies: usize,
    pub max_depth: usize,
}

/// What may stand at the end of an expression, by what follows it.
#[derive(Clone, Copy, Debug)]
struct Tail {
    /// A call without parentheses.
    call: bool,
    /// A map without braces.
    map: bool,
    /// A function whose body is indented.
    fun: bool,
}

const TERM: Tail = Tail {
    call: true,
    map: true,
    fun: false,
};
const CLOSE: Tail = Tail {
    call: true,
    map: true,
    fun: true,
};
const OPERAND: Tail = Tail {
    call: false,
    map: false,
    fun: false,
};
/// In a list, before the comma of another item.
const COMMA: Tail = Tail {
    call: false,
    map: true,
    fun: true,
};

#[derive(Clone, Copy, PartialEq, Eq)]
enum Sep {
    Auto,
    Touch,
}

pub struct Em<'a> {
    src: &'a mut Src,
    style: Style,
    out: String,
    levels: Vec<usize>,
    at_bol: bool,
    last: Option<K>,
    toks: Vec<(usize, usize)>,
    used: Used,
    bare_map_end: bool,
}

pub fn is_ident(s: &str) -> bool {
    !s.is_empty()
        && !s.starts_with(|c: char| c.is_numeric())
        && s.chars().all(|c| {
            c.is_alphanumeric() || c == '_' || ('\u{300}'..'\u{36f}').contains(&c) || c == '\u{200d}'
        })
        && s.starts_with(|c: char| c.is_alphabetic() || c == '_')
        && !KEYWORDS.iter().any(|k| k.0 == s)
}

fn wordish(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || ('\u{300}'..'\u{36f}').contains(&c) || c == '\u{200d}'
}

/// A comment: its text from the slashes on.
pub fn comment_text(src: &mut Src) -> String {
    if src.chance(1, 8) {
        format!("// {}", crate::gen::uni(src))
    } else {
        (*src.pick(&COMMENTS)).to_owned()
    }
}

const COMMENTS: [&str; 9] = [
    "//",
    "// x",
    "//if (a) {",
    "// \"quoted",
    "// é 日本 👩‍👩‍👧",
    "///",
    "// \ttab",
    "// back\\",
    "//  // twice  ",
];

pub fn render(src: &mut Src, prog: &[S], style: &Style) -> Rendered {
    let mut em = Em {
        src,
        style: style.clone(),
        out: String::new(),
        levels: Vec::new(),
        at_bol: true,
        last: None,
        toks: Vec::new(),
        used: Used::default(),
        bare_map_end: false,
    };
    let mut tree = Vec::new();
    let mut starts = Vec::new();
    for (i, s) in prog.iter().enumerate() {
        let n = em.toks.len();
        tree.push(em.stmt(s, i == 0));
        starts.push(em.toks[n].0);
    }
    em.finish();
    let places = Places::new(&em.out);
    tree::map_locs(&mut tree, &mut |l: Loc| {
        places.at(l.0 as usize)
    });
    Rendered {
        text: em.out,
        tree,
        toks: em.toks,
        starts,
        used: em.used,
    }
}

fn off(o: usize) -> Loc {
    (o as u32, 0)
}

impl Em<'_> {
    fn pct(&mut self, p: u64) -> bool {
        p > 0 && self.src.chance(p, 100)
    }

    fn choose(&mut self, c: Choice) -> bool {
        match c {
            Choice::Never => false,
            Choice::Always => true,
            Choice::Mixed => self.src.chance(1, 2),
        }
    }

    fn vary(&mut self) -> bool {
        self.style.vary && self.src.chance(1, 2)
    }

    fn top(&self) -> usize {
        self.levels.last().copied().unwrap_or(0)
    }

    // ----------------------------------------------------------- tokens

    fn spaces(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }

    fn raw_nl(&mut self) {
        if self.choose(self.style.crlf) {
            self.used.crlf += 1;
            self.out.push_str("\r\n");
        } else {
            self.out.push('\n');
        }
    }

    fn comment(&mut self) {
        self.used.comments += 1;
        let c = comment_text(self.src);
        self.out.push_str(&c);
    }

    /// What may follow the last token of a line.
    fn line_tail(&mut self) {
        if self.pct(self.style.comments) {
            // Two slashes and one more would make another comment.
            let touch = !self.out.ends_with('/');
            match self.src.below(if touch { 3 } else { 2 }) {
                0 => {
                    self.out.push(' ');
                    self.comment();
                }
                1 => {
                    let n = crate::gen::width(self.src, 1, 3);
                    self.spaces(n);
                }
                _ => {
                    // Nothing between the token and the comment.
                    self.comment();
                }
            }
        }
    }

    fn blank_lines(&mut self) {
        while self.pct(self.style.blanks) {
            self.used.blanks += 1;
            let n = crate::gen::width(self.src, 0, 9);
            self.spaces(n);
            if self.src.chance(1, 2) {
                self.comment();
            }
            self.raw_nl();
        }
    }

    /// A line break that is not the end of a statement.
    fn broken_line(&mut self, backslash: bool) {
        self.used.breaks += 1;
        if backslash {
            let n = self.src.below(2) as usize;
            self.spaces(n);
            self.out.push('\\');
            if self.src.chance(1, 4) {
                self.out.push(' ');
            }
        } else {
            self.line_tail();
        }
        self.raw_nl();
        self.blank_lines();
    }

    fn tok(&mut self, k: K, text: &str) -> usize {
        self.tok_sep(k, text, Sep::Auto)
    }

    fn tok_sep(&mut self, k: K, text: &str, sep: Sep) -> usize {
        if self.at_bol {
            self.blank_lines();
            let n = self.top();
            self.spaces(n);
            self.at_bol = false;
        } else if sep != Sep::Touch && self.last.is_some() {
            let prev = self.out.chars().last().unwrap_or(' ');
            let next = text.chars().next().unwrap();
            let need = wordish(prev) && wordish(next);
            if self.pct(self.style.breaks) {
                // Break the line here.
                let carries = self.last.is_some_and(continues);
                let backslash = !carries || self.src.chance(1, 4);
                self.broken_line(backslash);
                let n = self.top() + crate::gen::width(self.src, 0, 6);
                self.spaces(n);
            } else if self.pct(self.style.spaces) {
                let n = crate::gen::width(self.src, usize::from(need), 3);
                self.spaces(n);
            } else if need || self.usual_space(k) {
                self.out.push(' ');
            }
        }
        let o = self.out.len();
        self.out.push_str(text);
        self.toks.push((o, self.out.len()));
        self.last = Some(k);
        self.bare_map_end = false;
        o
    }

    /// The customary spacing, where it makes no difference.
    fn usual_space(&self, k: K) -> bool {
        let Some(l) = self.last else { return false };
        use K::*;
        match k {
            LParenTouch | RParen | RBracket | LBracket | Comma | Dot | Colon
            | Semi => false,
            _ => !matches!(
                l,
                LParen | LParenTouch | LBracket | Dot | Bang
            ),
        }
    }

    /// The end of a statement.
    fn newline(&mut self) {
        self.line_tail();
        self.raw_nl();
        self.at_bol = true;
    }

    /// Moves to a new line without ending a statement that has ended already.
    fn new_line_only(&mut self) {
        self.broken_line(true);
        self.at_bol = true;
    }

    fn finish(&mut self) {
        if self.at_bol {
            self.blank_lines();
            if self.pct(self.style.blanks) {
                let n = crate::gen::width(self.src, 0, 5);
                self.spaces(n);
                if self.src.chance(1, 2) {
                    self.comment();
                }
            }
        } else {
            match self.src.below(3) {
                _ if self.style.blanks == 0 => (),
                0 => (),
                1 => self.line_tail(),
                _ => {
                    self.new_line_only();
                    self.finish();
                }
            }
        }
    }

    // ------------------------------------------------------- statements

    fn stmts(&mut self, b: &[S]) -> Vec<S> {
        b.iter()
            .enumerate()
            .map(|(i, s)| self.stmt(s, i == 0))
            .collect()
    }

    fn ident(&mut self, n: &str) -> usize {
        self.tok(K::Ident, n)
    }

    fn end_stmt(&mut self) {
        let m = self.bare_map_end;
        self.newline();
        self.bare_map_end = m;
    }

    fn stmt(&mut self, s: &S, first: bool) -> S {
        match s {
            S::Block(b) => {
                if let Some(f) = self.as_for(s) {
                    return f;
                }
                S::Block(self.braced(b))
            }
            S::Break(_) => {
                let o = self.tok(K::Break, "break");
                self.newline();
                S::Break(off(o))
            }
            S::Continue(_) => {
                let o = self.tok(K::Continue, "continue");
                self.newline();
                S::Continue(off(o))
            }
            S::Expr(e) => {
                let after_map = self.bare_map_end;
                let e = match e {
                    E::Map(m) => {
                        // Only reads as a map without braces.
                        assert!(
                            first && !after_map && !m.is_empty(),
                            "a statement that is a map cannot be written here"
                        );
                        self.bare_map(m, TERM)
                    }
                    e => self.expr(e, TERM),
                };
                self.end_stmt();
                S::Expr(e)
            }
            S::Print(e) => {
                self.tok(K::Print, "print");
                let e = self.expr(e, TERM);
                self.end_stmt();
                S::Print(e)
            }
            S::Return(e, _) => {
                let o = self.tok(K::Return, "return");
                let e = if *e == E::Nil && !self.vary() {
                    E::Nil
                } else {
                    self.expr(e, TERM)
                };
                self.end_stmt();
                S::Return(e, off(o))
            }
            S::Var(n, _, e, _) => {
                self.tok(K::Var, "var");
                self.var_rest(n, e, false)
            }
            S::Fun(n, f) => {
                self.tok(K::Fun, "fun");
                let o = self.ident(n);
                S::Fun(n.clone(), self.fun_rest(f, o, true))
            }
            S::Class(c) => self.class(c),
            S::If(c, t, e) => {
                self.tok(K::If, "if");
                let c = self.header(c);
                let t = self.body(t);
                let e = e.as_ref().map(|e| {
                    self.tok(K::Else, "else");
                    Box::new(self.body(e))
                });
                S::If(c, Box::new(t), e)
            }
            S::While(c, b) => {
                if self.choose(self.style.fors) {
                    return self.for_loop(None, s);
                }
                self.tok(K::While, "while");
                let c = self.header(c);
                S::While(c, Box::new(self.body(b)))
            }
            S::WhileInc(..) => self.for_loop(None, s),
        }
    }

    /// Writes a block as a for loop, if it can and should be one.
    fn as_for(&mut self, s: &S) -> Option<S> {
        let S::Block(b) = s else { return None };
        let [i @ (S::Var(..) | S::Expr(_)), w @ (S::While(..) | S::WhileInc(..))] =
            b.as_slice()
        else {
            return None;
        };
        let must = matches!(i, S::Expr(e) if starts_with_map(e));
        if must || self.choose(self.style.fors) {
            Some(self.for_loop(Some(i), w))
        } else {
            None
        }
    }

    fn for_loop(&mut self, init: Option<&S>, w: &S) -> S {
        self.used.fors += 1;
        self.tok(K::For, "for");
        self.tok(K::LParen, "(");
        let init = match init {
            None => {
                self.tok(K::Semi, ";");
                None
            }
            Some(S::Var(n, _, e, _)) => {
                self.tok(K::Var, "var");
                Some(self.var_rest(n, e, true))
            }
            Some(S::Expr(e)) => {
                let e = self.expr(e, CLOSE);
                self.tok(K::Semi, ";");
                Some(S::Expr(e))
            }
            _ => unreachable!(),
        };
        let (c, b, i) = match w {
            S::While(c, b) => (c, b, None),
            S::WhileInc(c, b, i) => (c, b, Some(i)),
            _ => unreachable!(),
        };
        let c = if *c == E::Bool(true) && !self.vary() {
            E::Bool(true)
        } else {
            self.expr(c, CLOSE)
        };
        self.tok(K::Semi, ";");
        let i = i.map(|i| Box::new(self.expr(i, CLOSE)));
        self.tok(K::RParen, ")");
        let b = Box::new(self.body(b));
        let w = match i {
            None => S::While(c, b),
            Some(i) => S::WhileInc(c, b, i),
        };
        match init {
            None => w,
            Some(i) => S::Block(vec![i, w]),
        }
    }

    fn header(&mut self, c: &E) -> E {
        self.tok(K::LParen, "(");
        let c = self.expr(c, CLOSE);
        self.tok(K::RParen, ")");
        c
    }

    fn var_rest(&mut self, n: &str, e: &E, in_for: bool) -> S {
        let o = off(self.ident(n));
        let tail = if in_for { CLOSE } else { TERM };
        let mut done = false;
        let e = if *e == E::Nil && !self.vary() {
            E::Nil
        } else {
            self.tok(K::Eq, "=");
            if !in_for && self.vary() && self.src.chance(1, 2) {
                done = true;
                self.indented_value(e)
            } else {
                self.expr(e, tail)
            }
        };
        if in_for {
            self.tok(K::Semi, ";");
        } else if !done {
            self.end_stmt();
        }
        S::Var(n.to_owned(), None, e, o)
    }

    /// A value on lines of its own under its declaration.
    fn indented_value(&mut self, e: &E) -> E {
        // An assignment's left side alone would be the indented part.
        if matches!(e, E::Assign(..) | E::Set(..) | E::SetIndex(..)) {
            let e = self.expr(e, TERM);
            self.end_stmt();
            return e;
        }
        self.newline();
        if self.src.chance(1, 6) {
            // On a line of its own at the same indentation.
            let e = self.expr(e, TERM);
            self.end_stmt();
            return e;
        }
        self.indent();
        let e = match e {
            E::Map(m) if !m.is_empty() && self.choose(self.style.bare_maps) => {
                self.bare_map(m, TERM)
            }
            e => self.expr(e, TERM),
        };
        if !self.at_bol {
            self.newline();
        }
        self.outdent();
        e
    }

    fn indent(&mut self) {
        let step = if self.style.max_width == 0 {
            2
        } else {
            self.src.range(1, self.style.max_width)
        };
        self.levels.push(self.top() + step);
        self.used.max_depth = self.used.max_depth.max(self.levels.len());
    }

    fn outdent(&mut self) {
        if !self.at_bol {
            self.new_line_only();
        }
        self.levels.pop();
    }

    fn braced(&mut self, b: &[S]) -> Vec<S> {
        self.tok(K::LBrace, "{");
        let r = self.stmts(b);
        self.tok(K::RBrace, "}");
        r
    }

    /// A block after a header, in braces or indented.
    fn block(&mut self, b: &[S], may_indent: bool) -> Vec<S> {
        if !may_indent || b.is_empty() || self.choose(self.style.braces) {
            self.used.brace_bodies += 1;
            self.braced(b)
        } else {
            self.used.indent_bodies += 1;
            self.newline();
            self.indent();
            let r = self.stmts(b);
            self.outdent();
            r
        }
    }

    fn body(&mut self, s: &S) -> S {
        match s {
            S::Block(b) => {
                if self.vary() {
                    if let Some(f) = self.as_for(s) {
                        return f;
                    }
                }
                // A for loop's block with a bare map in it has to be one.
                if matches!(b.first(), Some(S::Expr(e)) if starts_with_map(e)) {
                    if let Some(f) = self.as_for(s) {
                        return f;
                    }
                }
                S::Block(self.block(b, true))
            }
            s => {
                self.used.inline_bodies += 1;
                self.stmt(s, true)
            }
        }
    }

    fn fun_rest(&mut self, f: &FunD, loc: usize, may_indent: bool) -> FunD {
        self.tok(K::LParen, "(");
        let mut params = Vec::new();
        for (i, (n, _)) in f.params.iter().enumerate() {
            if i > 0 {
                self.tok(K::Comma, ",");
            }
            let o = self.ident(n);
            params.push((n.clone(), off(o)));
        }
        self.tok(K::RParen, ")");
        FunD {
            params,
            body: self.block(&f.body, may_indent),
            kind: f.kind,
            loc: off(loc),
        }
    }

    fn class(&mut self, c: &ClassD) -> S {
        self.tok(K::Class, "class");
        let loc = self.ident(&c.name);
        let sup = c.sup.as_ref().map(|e| {
            let E::Var(n, _, _) = &**e else { unreachable!() };
            self.tok(K::Lt, "<");
            let o = self.ident(n);
            Box::new(E::Var(n.clone(), None, off(o)))
        });
        let indented = !c.methods.is_empty() && !self.choose(self.style.braces);
        if indented {
            self.newline();
            self.indent();
        } else {
            self.tok(K::LBrace, "{");
        }
        let mut methods = Vec::new();
        for (n, f) in &c.methods {
            if f.kind == FK::ClassMethod {
                self.tok(K::Class, "class");
            }
            let o = self.ident(n);
            methods.push((n.clone(), self.fun_rest(f, o, true)));
        }
        if indented {
            self.outdent();
        } else {
            self.tok(K::RBrace, "}");
        }
        S::Class(ClassD {
            name: c.name.clone(),
            sup,
            methods,
            loc: off(loc),
        })
    }

    // ------------------------------------------------------ expressions

    fn boxed(&mut self, e: &E, t: Tail) -> Box<E> {
        Box::new(self.expr(e, t))
    }

    fn expr(&mut self, e: &E, t: Tail) -> E {
        match e {
            E::Num(b) => {
                let text = self.number(*b);
                self.tok(K::Num, &text);
                e.clone()
            }
            E::Str(s) => {
                self.tok(K::Str, &format!("\"{s}\""));
                e.clone()
            }
            E::Bool(true) => {
                self.tok(K::True, "true");
                e.clone()
            }
            E::Bool(false) => {
                self.tok(K::False, "false");
                e.clone()
            }
            E::Nil => {
                self.tok(K::Nil, "nil");
                e.clone()
            }
            E::Var(n, _, _) => {
                let k = if n == "this" { K::This } else { K::Ident };
                let o = self.tok(k, n);
                E::Var(n.clone(), None, off(o))
            }
            E::Super(_, n, _) => {
                let o = self.tok(K::Super, "super");
                self.tok(K::Dot, ".");
                self.ident(n);
                E::Super(None, n.clone(), off(o))
            }
            E::Group(x) => {
                self.tok(K::LParen, "(");
                let x = self.boxed(x, CLOSE);
                self.tok(K::RParen, ")");
                E::Group(x)
            }
            E::Array(a) => {
                self.tok(K::LBracket, "[");
                let mut r = Vec::new();
                let trailing = !a.is_empty() && self.vary() && self.vary();
                let mut after_map = false;
                for (i, x) in a.iter().enumerate() {
                    let last = i + 1 == a.len();
                    let tail = if last && !trailing { CLOSE } else { COMMA };
                    r.push(self.item(x, tail, after_map));
                    after_map = self.bare_map_end;
                    if !last || trailing {
                        self.tok(K::Comma, ",");
                    }
                }
                self.tok(K::RBracket, "]");
                E::Array(r)
            }
            E::Map(m) => self.map(m, t),
            E::Fun(f) => {
                let o = self.tok(K::Fun, "fun");
                E::Fun(Box::new(self.fun_rest(f, o, t.fun)))
            }
            E::Get(x, n, _) => {
                let x = self.boxed(x, OPERAND);
                let o = self.tok(K::Dot, ".");
                self.ident(n);
                E::Get(x, n.clone(), off(o))
            }
            E::Index(x, i, _) => {
                let x = self.boxed(x, OPERAND);
                let o = self.tok(K::LBracket, "[");
                let i = self.boxed(i, CLOSE);
                self.tok(K::RBracket, "]");
                E::Index(x, i, off(o))
            }
            E::Call(c, a, _) => self.call(c, a, t),
            E::Un(op, x, _) => {
                let o = match op {
                    UOp::Minus => self.tok(K::Minus, "-"),
                    UOp::Not => self.tok(K::Bang, "!"),
                };
                E::Un(*op, self.boxed(x, t), off(o))
            }
            E::Bin(x, op, y, _) => {
                let x = self.boxed(x, OPERAND);
                let (k, s) = bop(*op);
                let o = self.tok(k, s);
                E::Bin(x, *op, self.boxed(y, t), off(o))
            }
            E::Logic(x, op, y) => {
                let x = self.boxed(x, OPERAND);
                match op {
                    LOp::And => self.tok(K::And, "and"),
                    LOp::Or => self.tok(K::Or, "or"),
                };
                E::Logic(x, *op, self.boxed(y, t))
            }
            E::Assign(n, _, v, _) => {
                self.ident(n);
                let o = self.tok(K::Eq, "=");
                E::Assign(n.clone(), None, self.boxed(v, t), off(o))
            }
            E::Set(x, n, v, _) => {
                let x = self.boxed(x, OPERAND);
                self.tok(K::Dot, ".");
                self.ident(n);
                let o = self.tok(K::Eq, "=");
                E::Set(x, n.clone(), self.boxed(v, t), off(o))
            }
            E::SetIndex(x, i, v, _) => {
                let x = self.boxed(x, OPERAND);
                self.tok(K::LBracket, "[");
                let i = self.boxed(i, CLOSE);
                self.tok(K::RBracket, "]");
                let o = self.tok(K::Eq, "=");
                E::SetIndex(x, i, self.boxed(v, t), off(o))
            }
        }
    }

    /// An item of a list.  After a map without braces, one more would read as
    /// more entries of it.
    fn item(&mut self, x: &E, t: Tail, after_map: bool) -> E {
        let map = t.map && !after_map;
        self.expr(x, Tail { map, ..t })
    }

    pub fn number(&mut self, bits: u64) -> String {
        let mut s = number_text(bits);
        if self.vary() && self.src.chance(1, 4) {
            match self.src.below(3) {
                0 => s.insert(0, '0'),
                1 if s.contains('.') => s.push('0'),
                1 => s.push_str(".0"),
                _ if s.contains('.') => s.push_str("000"),
                _ => s.insert_str(0, "00"),
            }
        }
        s
    }

    fn call(&mut self, c: &E, a: &[E], t: Tail) -> E {
        // What starts the first argument decides whether it may be bare.
        let bare_ok = t.call
            && !a.is_empty()
            && matches!(
                leftmost(&a[0]),
                E::Num(_)
                    | E::Str(_)
                    | E::Bool(_)
                    | E::Nil
                    | E::Super(..)
                    | E::Group(_)
                    | E::Fun(_)
                    | E::Map(_)
                    | E::Var(..)
                    | E::Assign(..)
            )
            && !matches!(leftmost(&a[0]), E::Var(n, _, _) if n == "this");
        let bare = bare_ok && self.choose(self.style.bare_calls);
        let c = self.boxed(c, OPERAND);
        if bare {
            self.used.bare_calls += 1;
            let first = self.toks.len();
            let mut r = Vec::new();
            // A parenthesis that touches would be the call's own.
            let group = matches!(leftmost(&a[0]), E::Group(_));
            let mut after_map = false;
            for (i, x) in a.iter().enumerate() {
                let last = i + 1 == a.len();
                let tail = if last { t } else { COMMA };
                if i == 0 && group {
                    self.apart();
                }
                r.push(self.item(x, tail, after_map));
                after_map = self.bare_map_end;
                if !last {
                    self.tok(K::Comma, ",");
                }
            }
            let o = self.toks[first].0;
            E::Call(Box::new(*c), r, off(o))
        } else {
            let o = self.tok_sep(K::LParenTouch, "(", Sep::Touch);
            let mut r = Vec::new();
            let mut after_map = false;
            for (i, x) in a.iter().enumerate() {
                let last = i + 1 == a.len();
                let tail = if last { CLOSE } else { COMMA };
                r.push(self.item(x, tail, after_map));
                after_map = self.bare_map_end;
                if !last {
                    self.tok(K::Comma, ",");
                }
            }
            self.tok(K::RParen, ")");
            E::Call(c, r, off(o))
        }
    }

    /// Makes sure that the next token does not touch the last one.
    fn apart(&mut self) {
        if self.pct(self.style.breaks) {
            self.broken_line(true);
            let n = self.top() + crate::gen::width(self.src, 0, 6);
            self.spaces(n);
        } else {
            self.out.push(' ');
        }
    }

    fn key(&mut self, k: &str) {
        if is_ident(k) && !self.vary() {
            self.ident(k);
        } else {
            self.tok(K::Str, &format!("\"{k}\""));
        }
        self.tok(K::Colon, ":");
    }

    fn map(&mut self, m: &[(String, E)], t: Tail) -> E {
        if t.map && !m.is_empty() && self.choose(self.style.bare_maps) {
            return self.bare_map(m, t);
        }
        self.tok(K::LBrace, "{");
        let trailing = !m.is_empty() && self.vary() && self.vary();
        let own_line = !m.is_empty() && !trailing && self.vary() && self.vary();
        let mut r = Vec::new();
        for (i, (k, v)) in m.iter().enumerate() {
            let last = i + 1 == m.len();
            self.key(k);
            let lines = !last && self.vary() && self.vary();
            let tail = if last && own_line || lines {
                Tail {
                    map: false,
                    ..TERM
                }
            } else if last && !trailing {
                CLOSE
            } else {
                Tail {
                    map: false,
                    ..COMMA
                }
            };
            r.push((k.clone(), self.expr(v, tail)));
            if lines || last && own_line {
                // A line end instead of a comma; at the current indentation.
                self.newline();
            } else if !last || trailing {
                self.tok(K::Comma, ",");
            }
        }
        self.tok(K::RBrace, "}");
        E::Map(r)
    }

    fn bare_map(&mut self, m: &[(String, E)], t: Tail) -> E {
        self.used.bare_maps += 1;
        let mut r = Vec::new();
        for (i, (k, v)) in m.iter().enumerate() {
            let last = i + 1 == m.len();
            self.key(k);
            let lines = !last && self.vary();
            let tail = if last {
                t
            } else if lines {
                Tail {
                    map: false,
                    ..TERM
                }
            } else {
                Tail {
                    map: false,
                    ..COMMA
                }
            };
            r.push((k.clone(), self.expr(v, tail)));
            if lines {
                self.newline();
            } else if !last {
                self.tok(K::Comma, ",");
            }
        }
        self.bare_map_end = true;
        E::Map(r)
    }
}

/// An expression on its own, without a line end, and the text's length before
/// it (none).
pub fn render_expr(src: &mut Src, e: &E, style: &Style) -> (String, E) {
    let mut em = Em {
        src,
        style: style.clone(),
        out: String::new(),
        levels: Vec::new(),
        at_bol: false,
        last: None,
        toks: Vec::new(),
        used: Used::default(),
        bare_map_end: false,
    };
    let e = em.expr(e, TERM);
    let places = Places::new(&em.out);
    let mut t = vec![S::Expr(e)];
    tree::map_locs(&mut t, &mut |l: Loc| places.at(l.0 as usize));
    let Some(S::Expr(e)) = t.pop() else {
        unreachable!()
    };
    (em.out, e)
}

pub fn number_text(bits: u64) -> String {
    let s = format!("{}", f64::from_bits(bits));
    // Display writes neither exponents nor signs here.
    assert!(s.chars().all(|c| c.is_ascii_digit() || c == '.'), "{s}");
    s
}

pub fn bop(op: BOp) -> (K, &'static str) {
    match op {
        BOp::Plus => (K::Plus, "+"),
        BOp::Minus => (K::Minus, "-"),
        BOp::Mul => (K::Star, "*"),
        BOp::Div => (K::Slash, "/"),
        BOp::Eq => (K::EqEq, "=="),
        BOp::Ne => (K::BangEq, "!="),
        BOp::Lt => (K::Lt, "<"),
        BOp::Le => (K::Le, "<="),
        BOp::Gt => (K::Gt, ">"),
        BOp::Ge => (K::Ge, ">="),
    }
}
