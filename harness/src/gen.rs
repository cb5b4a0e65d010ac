//! Random programs, as trees without locations.
use crate::engine::Src;
use crate::magic::magic;
use crate::tree::{BOp, ClassD, FunD, LOp, UOp, E, FK, S};

pub const Z: (u32, u32) = (0, 0);

#[derive(Clone, Copy)]
pub struct Cfg {
    /// Roughly the number of nodes.
    pub fuel: usize,
    pub max_depth: usize,
    /// How often (in 1000) to break a scoping rule where one could be broken.
    pub mischief: u64,
    /// Only names without any surprises.
    pub plain_names: bool,
    /// How many different plain names there are, if not the usual.
    pub pool: usize,
    /// Strings may hold anything.
    pub wild_strings: bool,
}

impl Cfg {
    pub fn new(fuel: usize) -> Cfg {
        Cfg {
            fuel,
            max_depth: 7,
            mischief: 0,
            plain_names: false,
            pool: 0,
            wild_strings: true,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Fn_ {
    No,
    Fun,
    Init,
    ClassInit,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Cl {
    No,
    Plain,
    Sub,
}

struct Scope {
    names: Vec<String>,
    starting: Option<String>,
}

pub struct Gen<'a> {
    pub src: &'a mut Src,
    cfg: Cfg,
    fuel: isize,
    depth: usize,
    scopes: Vec<Scope>,
    fun: Fn_,
    class: Cl,
    loops: usize,
    /// Whether bodies of loops may jump (they may not across functions).
    pub stray_jumps: bool,
    /// One of the lists is to be a long one.
    wide: bool,
}

const NAMES: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "x1"];
pub const ODD_NAMES: [&str; 30] = [
    "classy", "iff", "_", "_x", "é", "e\u{301}a", "变量", "Var", "thisOne",
    "superb", "nill", "orange", "and_", "printer", "T", "x_1_y", "ß", "жук",
    "whiles", "NIL", "longer_identifier_name_0123456789", "For", "__", "_1",
    "init", "nil\u{301}", "x\u{200d}", "clock", "self", "A",
];
const PROPS: [&str; 6] = ["p", "q", "len", "init", "m", "a"];

/// A name out of the ordinary, or one the code under test mentions.
pub fn odd_name(src: &mut Src) -> String {
    if src.chance(1, 3) {
        src.pick(&magic().words).clone()
    } else {
        (*src.pick(&ODD_NAMES)).to_owned()
    }
}

pub fn name_of(src: &mut Src, plain: bool) -> String {
    if !plain && src.chance(1, 8) {
        odd_name(src)
    } else {
        (*src.pick(&NAMES)).to_owned()
    }
}

pub fn number(src: &mut Src) -> u64 {
    let f: f64 = match src.weighted(&[5, 3, 2, 1, 1]) {
        0 => src.below(10) as f64,
        1 => src.below(100_000) as f64 / 100.0,
        2 => *src.pick(&[
            0.1,
            0.5,
            255.0,
            65536.0,
            1e21,
            9_007_199_254_740_993.0,
            1.0 / 3.0,
            5e-324,
            1.7976931348623157e308,
            123456.789,
        ]),
        3 if src.chance(1, 2) => {
            let n = *src.pick(&magic().numbers);
            (n as f64 + src.below(3) as f64 - 1.0).abs()
        }
        3 => src.below(u64::MAX) as f64,
        _ => {
            let b = src.below(0x7ff0_0000_0000_0000);
            f64::from_bits(b)
        }
    };
    f.to_bits()
}

const PIECES: [&str; 26] = [
    "a", "Z", " ", "0", "\n", "//", "\\", "\\n", "\\\\", "{",
    "}", "'", "é", "e\u{301}", "日本", "👩‍👩‍👧", "\t", "\r\n", "\r", "(", ";", "#",
    "$", "%", "\u{a0}", "if",
];

/// How many spaces where any number may stand: few, and now and then many.
pub fn width(src: &mut Src, low: usize, high: usize) -> usize {
    if src.chance(1, 40) {
        low + crate::big::size(src, 300)
    } else {
        src.range(low, high)
    }
}

/// What makes up text in the world's scripts, clusters of several scalars
/// and format characters among it.
const UNI: [&str; 64] = [
    "👨", "👩", "👩‍👩‍👧", "👨‍💻", "🇫🇷", "🇩", "🏳️‍🌈", "👍🏽", "1️⃣", "#️⃣", "☺", "☺\u{fe0f}", "❤️",
    "\u{200d}", "\u{200b}", "\u{200c}", "\u{200e}", "\u{200f}", "\u{202e}", "\u{2060}",
    "\u{feff}", "\u{ad}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{b}", "\u{c}",
    "\u{2028}", "\u{2029}", "\t", "\r", "\0", "\u{1b}", "\u{7f}", "한", "\u{1112}\u{1161}\u{11ab}",
    "\u{1100}", "क्ष", "कि", "\u{94d}", "กำ", "é", "e\u{301}", "e\u{301}\u{302}\u{323}", "\u{600}",
    "שלום", "العربية", "日本", "语", "ß", "ﬁ", "İ", "ǅ", "²", "٣", "½", "Ⅷ", "𝒳", "\u{e0001}",
    "\u{10ffff}", "\u{fffd}", "\u{e000}", "Ａ",
];

/// Some text of one line, of any script, that fuses with nothing beside it
/// and has no quote in it.
pub fn uni(src: &mut Src) -> String {
    let mut s = "x".to_owned();
    for _ in 0..src.range(1, 4) {
        match src.weighted(&[6, 1, 1, 1, 1]) {
            0 => s.push_str(src.pick(&UNI)),
            // By blocks: Latin to Arabic, the basic plane, symbols, all.
            k => {
                let (lo, hi): (u64, u64) =
                    [(0x80, 0x700), (0x700, 0x1_0000), (0x1_f000, 0x1_fb00), (0x1_0000, 0x11_0000)][k - 1];
                let c = char::from_u32((lo + src.below(hi - lo)) as u32);
                s.push(c.unwrap_or('x'));
            }
        }
        if src.chance(1, 4) {
            s.push_str(src.pick(&["a", " ", "1", "(", "+"]));
        }
    }
    s.push('x');
    s
}

pub fn string(src: &mut Src, wild: bool) -> String {
    let n = src.weighted(&[2, 3, 3, 2, 1, 1]);
    let mut s = String::new();
    for _ in 0..n {
        if wild && src.chance(1, 12) {
            let p = src.pick(&magic().pieces);
            s.extend(p.chars().filter(|c| c.is_ascii() && *c != '"'));
        } else if wild && src.chance(1, 8) {
            s.push_str(&uni(src));
        } else if wild && src.chance(1, 2) {
            s.push_str(src.pick(&PIECES));
        } else {
            s.push_str(src.pick(&["a", "bc", "Q", "x y", "1"]));
        }
    }
    s
}

fn level(e: &E) -> u8 {
    match e {
        E::Assign(..) | E::Set(..) | E::SetIndex(..) => 0,
        E::Logic(_, LOp::Or, _) => 1,
        E::Logic(_, LOp::And, _) => 2,
        E::Bin(_, BOp::Eq | BOp::Ne, _, _) => 3,
        E::Bin(_, BOp::Lt | BOp::Le | BOp::Gt | BOp::Ge, _, _) => 4,
        E::Bin(_, BOp::Plus | BOp::Minus, _, _) => 5,
        E::Bin(_, BOp::Mul | BOp::Div, _, _) => 6,
        E::Un(..) => 7,
        E::Call(..) | E::Get(..) | E::Index(..) => 8,
        _ => 9,
    }
}

/// Parenthesizes an operand that would not stand at this level.
pub fn at(min: u8, e: E) -> Box<E> {
    Box::new(if level(&e) < min {
        E::Group(Box::new(e))
    } else {
        e
    })
}

pub fn bin(op: BOp, x: E, y: E) -> E {
    let l = match op {
        BOp::Eq | BOp::Ne => 3,
        BOp::Lt | BOp::Le | BOp::Gt | BOp::Ge => 4,
        BOp::Plus | BOp::Minus => 5,
        BOp::Mul | BOp::Div => 6,
    };
    E::Bin(at(l, x), op, at(l + 1, y), Z)
}

pub fn logic(op: LOp, x: E, y: E) -> E {
    let l = match op {
        LOp::Or => 1,
        LOp::And => 2,
    };
    E::Logic(at(l, x), op, at(l + 1, y))
}

pub const BOPS: [BOp; 10] = [
    BOp::Plus,
    BOp::Minus,
    BOp::Mul,
    BOp::Div,
    BOp::Eq,
    BOp::Ne,
    BOp::Lt,
    BOp::Le,
    BOp::Gt,
    BOp::Ge,
];

pub fn var(n: &str) -> E {
    E::Var(n.to_owned(), None, Z)
}

pub fn num(n: u32) -> E {
    E::Num(f64::from(n).to_bits())
}

pub fn expr_stmt(e: E) -> S {
    // A statement cannot start with a map: it would read as a block.
    if starts_with_map(&e) {
        S::Expr(E::Group(Box::new(e)))
    } else {
        S::Expr(e)
    }
}

pub fn leftmost(e: &E) -> &E {
    match e {
        E::Logic(x, ..)
        | E::Bin(x, ..)
        | E::Call(x, ..)
        | E::Get(x, ..)
        | E::Index(x, ..)
        | E::Set(x, ..)
        | E::SetIndex(x, ..) => leftmost(x),
        _ => e,
    }
}

pub fn starts_with_map(e: &E) -> bool {
    matches!(leftmost(e), E::Map(_))
}

/// Whether an else after this statement would belong to it.
pub fn open_if(s: &S) -> bool {
    match s {
        S::If(_, _, None) => true,
        S::If(_, _, Some(e)) => open_if(e),
        S::While(_, b) | S::WhileInc(_, b, _) => open_if(b),
        // A for loop with an initializer.
        S::Block(v) => match v.as_slice() {
            [S::Var(..) | S::Expr(_), w @ (S::While(..) | S::WhileInc(..))] => {
                open_if(w)
            }
            _ => false,
        },
        _ => false,
    }
}

/// Builds an if, in a form in which its else is its own.
pub fn if_(c: E, t: S, e: Option<S>) -> S {
    let t = if e.is_some() && open_if(&t) {
        S::Block(vec![t])
    } else {
        t
    };
    S::If(c, Box::new(t), e.map(Box::new))
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src, cfg: Cfg) -> Gen<'a> {
        let wide = src.chance(1, 12);
        Gen {
            src,
            wide,
            fuel: cfg.fuel as isize,
            cfg,
            depth: 0,
            scopes: vec![Scope {
                names: Vec::new(),
                starting: None,
            }],
            fun: Fn_::No,
            class: Cl::No,
            loops: 0,
            stray_jumps: false,
        }
    }

    pub fn program(&mut self) -> Vec<S> {
        let n = self.count(&[1, 6, 6, 6, 4, 3, 2, 2, 1, 1]);
        self.stmts(n)
    }

    pub fn stmts(&mut self, n: usize) -> Vec<S> {
        (0..n)
            .map(|i| {
                // Only the first statement can be a map without braces.
                if i == 0 && self.fuel > 0 && self.src.chance(1, 40) {
                    self.fuel -= 1;
                    let mut m = self.map();
                    if m.is_empty() {
                        m.push(("k".to_owned(), E::Nil));
                    }
                    return S::Expr(E::Map(m));
                }
                self.stmt()
            })
            .collect()
    }

    /// How many members a list has.
    fn count(&mut self, ws: &[u32]) -> usize {
        let n = self.src.weighted(ws);
        if self.wide && self.fuel > 0 && self.src.chance(1, 4) {
            self.wide = false;
            return match self.src.chance(1, 3) {
                true => crate::big::size(self.src, 60),
                false => self.src.range(5, 40),
            };
        }
        n
    }

    pub fn refuel(&mut self, n: usize) {
        self.fuel = n as isize;
    }

    fn mischief(&mut self) -> bool {
        self.cfg.mischief > 0 && self.src.chance(self.cfg.mischief, 1000)
    }

    fn name(&mut self) -> String {
        if self.cfg.pool > 0 {
            let i = self.src.idx(self.cfg.pool);
            return NAMES[i].to_owned();
        }
        name_of(self.src, self.cfg.plain_names)
    }

    fn is_global(&self) -> bool {
        self.scopes.len() == 1
    }

    fn push(&mut self) {
        self.scopes.push(Scope {
            names: Vec::new(),
            starting: None,
        });
    }

    fn pop(&mut self) {
        self.scopes.pop();
    }

    /// A name to declare in the current scope.
    fn new_name(&mut self) -> String {
        let mut n = self.name();
        if !self.is_global() && !self.mischief() {
            let taken = &self.scopes.last().unwrap().names;
            let mut k = 0;
            let base = n.clone();
            while taken.contains(&n) {
                k += 1;
                n = format!("{base}{k}");
            }
        }
        n
    }

    fn declare(&mut self, n: &str) {
        let s = self.scopes.last_mut().unwrap();
        if !s.names.iter().any(|x| x == n) {
            s.names.push(n.to_owned());
        }
    }

    /// A name to use.
    fn used_name(&mut self) -> String {
        let mut n = if self.src.chance(2, 3) {
            let k = self.scopes.len();
            let d = self.src.idx(k);
            let names = &self.scopes[k - 1 - d].names;
            if names.is_empty() {
                self.name()
            } else {
                let len = names.len();
                let i = self.src.idx(len);
                self.scopes[k - 1 - d].names[len - 1 - i].clone()
            }
        } else {
            self.name()
        };
        let starting = self.scopes.last().unwrap().starting.clone();
        if starting.as_deref() == Some(&n) && !self.mischief() {
            n.push('0');
        }
        n
    }

    fn leaf(&mut self) -> E {
        match self.src.weighted(&[4, 5, 2, 2, 1]) {
            0 => E::Num(number(self.src)),
            1 => {
                let n = self.used_name();
                E::Var(n, None, Z)
            }
            2 => E::Str(string(self.src, self.cfg.wild_strings)),
            3 => E::Bool(self.src.chance(1, 2)),
            _ => E::Nil,
        }
    }

    pub fn expr(&mut self) -> E {
        self.fuel -= 1;
        if self.fuel <= 0 || self.depth >= self.cfg.max_depth {
            return self.leaf();
        }
        self.depth += 1;
        let e = self.expr_deep();
        self.depth -= 1;
        e
    }

    fn exprs(&mut self) -> Vec<E> {
        let n = self.count(&[3, 4, 3, 2, 1]);
        (0..n).map(|_| self.expr()).collect()
    }

    fn prop(&mut self) -> String {
        if self.src.chance(1, 6) {
            self.name()
        } else {
            if self.src.chance(1, 10) {
                odd_name(self.src)
            } else {
                (*self.src.pick(&PROPS)).to_owned()
            }
        }
    }

    fn expr_deep(&mut self) -> E {
        match self.src.weighted(&[
            30, 14, 6, 5, 10, 5, 5, 4, 4, 5, 3, 3, 3, 4, 3, 2,
        ]) {
            0 => self.leaf(),
            1 => {
                let op = *self.src.pick(&BOPS);
                let x = self.expr();
                let y = self.expr();
                bin(op, x, y)
            }
            2 => {
                let op = if self.src.chance(1, 2) {
                    LOp::Or
                } else {
                    LOp::And
                };
                let x = self.expr();
                let y = self.expr();
                logic(op, x, y)
            }
            3 => {
                let op = if self.src.chance(1, 2) {
                    UOp::Not
                } else {
                    UOp::Minus
                };
                let x = self.expr();
                E::Un(op, at(7, x), Z)
            }
            4 => {
                let c = self.expr();
                let a = self.exprs();
                E::Call(at(8, c), a, Z)
            }
            5 => {
                let o = self.expr();
                let p = self.prop();
                E::Get(at(8, o), p, Z)
            }
            6 => {
                let o = self.expr();
                let i = self.expr();
                E::Index(at(8, o), Box::new(i), Z)
            }
            7 => {
                let n = self.used_name();
                let v = self.expr();
                E::Assign(n, None, Box::new(v), Z)
            }
            8 => E::Group(Box::new(self.expr())),
            9 => E::Array(self.exprs()),
            10 => E::Map(self.map()),
            11 => self.fun_expr(),
            12 => {
                let o = self.expr();
                let p = self.prop();
                let v = self.expr();
                E::Set(at(8, o), p, Box::new(v), Z)
            }
            13 => {
                let o = self.expr();
                let i = self.expr();
                let v = self.expr();
                E::SetIndex(at(8, o), Box::new(i), Box::new(v), Z)
            }
            14 => {
                if self.class != Cl::No || self.mischief() {
                    E::Var("this".to_owned(), None, Z)
                } else {
                    self.leaf()
                }
            }
            _ => {
                if self.class == Cl::Sub || self.mischief() {
                    let p = self.prop();
                    E::Super(None, p, Z)
                } else {
                    self.leaf()
                }
            }
        }
    }

    pub fn map(&mut self) -> Vec<(String, E)> {
        let n = self.count(&[2, 3, 3, 2, 1]);
        let mut m: Vec<(String, E)> = Vec::new();
        for _ in 0..n {
            let mut k = match self.src.weighted(&[3, 2, 1]) {
                0 => self.name(),
                1 => string(self.src, self.cfg.wild_strings),
                _ => (*self.src.pick(&["if", "1", "", "this", "a b"])).to_owned(),
            };
            while m.iter().any(|x| x.0 == k) {
                k.push('k');
            }
            let v = self.expr();
            m.push((k, v));
        }
        m
    }

    fn fun_body(&mut self, kind: Fn_, fk: FK) -> FunD {
        let (of, ol) = (self.fun, self.loops);
        self.fun = kind;
        self.loops = 0;
        self.push();
        let n = self.count(&[3, 3, 2, 1, 1]);
        let mut params = Vec::new();
        for _ in 0..n {
            let n = self.new_name();
            self.declare(&n);
            params.push((n, Z));
        }
        let n = self.count(&[2, 5, 4, 2]);
        let body = self.stmts(n);
        self.pop();
        self.fun = of;
        self.loops = ol;
        FunD {
            params,
            body,
            kind: fk,
            loc: Z,
        }
    }

    fn fun_expr(&mut self) -> E {
        E::Fun(Box::new(self.fun_body(Fn_::Fun, FK::Plain)))
    }

    fn block(&mut self) -> S {
        self.push();
        let n = self.count(&[1, 5, 4, 2]);
        let b = self.stmts(n);
        self.pop();
        S::Block(b)
    }

    fn body(&mut self) -> S {
        if self.src.chance(1, 4) {
            // A statement on the line of its header.
            self.simple()
        } else {
            self.block()
        }
    }

    fn loop_body(&mut self) -> Box<S> {
        self.loops += 1;
        let b = self.body();
        self.loops -= 1;
        Box::new(b)
    }

    pub fn stmt(&mut self) -> S {
        self.fuel -= 1;
        if self.fuel <= 0 || self.depth >= self.cfg.max_depth {
            return self.simple_leaf();
        }
        self.depth += 1;
        let s = match self.src.weighted(&[14, 9, 5, 4, 3, 12]) {
            0 => self.simple(),
            1 => self.var_stmt(),
            2 => {
                let n = self.new_name();
                self.declare(&n);
                S::Fun(n, self.fun_body(Fn_::Fun, FK::Plain))
            }
            3 => self.class(),
            4 => self.block(),
            _ => self.compound(),
        };
        self.depth -= 1;
        s
    }

    fn var_stmt(&mut self) -> S {
        let n = self.new_name();
        let ready = self.is_global()
            && self.scopes[0].names.iter().any(|x| *x == n);
        let e = if self.src.chance(1, 6) {
            E::Nil
        } else {
            if !ready {
                self.scopes.last_mut().unwrap().starting = Some(n.clone());
            }
            let e = self.expr();
            self.scopes.last_mut().unwrap().starting = None;
            e
        };
        self.declare(&n);
        S::Var(n, None, e, Z)
    }

    fn simple_leaf(&mut self) -> S {
        let e = self.leaf();
        if self.src.chance(1, 2) {
            S::Print(e)
        } else {
            expr_stmt(e)
        }
    }

    /// A statement that may follow its header on the same line.
    fn simple(&mut self) -> S {
        let jump = self.loops > 0 || self.stray_jumps || self.mischief();
        match self.src.weighted(&[8, 5, 3, 2, 2]) {
            0 => {
                let e = self.expr();
                expr_stmt(e)
            }
            1 => S::Print(self.expr()),
            2 if self.fun != Fn_::No || self.mischief() => {
                let init = self.fun == Fn_::ClassInit
                    || self.fun == Fn_::Init && !self.mischief();
                let e = if init || self.src.chance(1, 4) {
                    E::Nil
                } else {
                    self.expr()
                };
                S::Return(e, Z)
            }
            3 if jump => {
                if self.src.chance(1, 2) {
                    S::Break(Z)
                } else {
                    S::Continue(Z)
                }
            }
            4 if self.fuel > 0 && self.depth < self.cfg.max_depth => {
                self.depth += 1;
                let s = self.compound();
                self.depth -= 1;
                s
            }
            _ => S::Print(self.leaf()),
        }
    }

    fn compound(&mut self) -> S {
        match self.src.weighted(&[4, 3, 4]) {
            0 => {
                let c = self.expr();
                let t = self.body();
                let e = match self.src.weighted(&[3, 3, 1]) {
                    0 => None,
                    1 => Some(self.body()),
                    _ => Some(self.compound_if()),
                };
                if_(c, t, e)
            }
            1 => {
                let c = self.expr();
                let b = self.loop_body();
                S::While(c, b)
            }
            _ => self.for_loop(),
        }
    }

    fn compound_if(&mut self) -> S {
        let c = self.expr();
        let t = self.body();
        let e = if self.src.chance(1, 2) {
            Some(self.body())
        } else {
            None
        };
        if_(c, t, e)
    }

    fn for_loop(&mut self) -> S {
        let init = self.src.weighted(&[2, 4, 2]);
        if init > 0 {
            self.push();
        }
        let init_stmt = match init {
            0 => None,
            1 => Some(self.var_stmt()),
            _ => Some(S::Expr(self.expr())),
        };
        let c = if self.src.chance(1, 4) {
            E::Bool(true)
        } else {
            self.expr()
        };
        let inc = if self.src.chance(1, 4) {
            None
        } else {
            Some(self.expr())
        };
        let b = self.loop_body();
        let w = match inc {
            None => S::While(c, b),
            Some(i) => S::WhileInc(c, b, Box::new(i)),
        };
        match init_stmt {
            None => w,
            Some(i) => {
                self.pop();
                S::Block(vec![i, w])
            }
        }
    }

    fn class(&mut self) -> S {
        let name = self.new_name();
        self.declare(&name);
        let oc = self.class;
        let sup = if self.src.chance(2, 5) {
            let mut n = self.used_name();
            if n == name && !self.mischief() {
                n.push_str("_s");
            }
            self.class = Cl::Sub;
            Some(Box::new(E::Var(n, None, Z)))
        } else {
            self.class = Cl::Plain;
            None
        };
        if sup.is_some() {
            self.push();
        }
        self.push();
        let n = self.count(&[2, 4, 3, 2]);
        let mut methods = Vec::new();
        for _ in 0..n {
            let mn = self.prop();
            let cm = self.src.chance(1, 5);
            let (kind, fk) = if cm && mn == "init" {
                // Whether these may return values is not specified.
                (Fn_::ClassInit, FK::ClassMethod)
            } else if cm {
                (Fn_::Fun, FK::ClassMethod)
            } else if mn == "init" {
                (Fn_::Init, FK::Init)
            } else {
                (Fn_::Fun, FK::Method)
            };
            let f = self.fun_body(kind, fk);
            methods.push((mn, f));
        }
        self.pop();
        if sup.is_some() {
            self.pop();
        }
        self.class = oc;
        S::Class(ClassD {
            name,
            sup,
            methods,
            loc: Z,
        })
    }
}

pub fn program(src: &mut Src, cfg: Cfg) -> Vec<S> {
    Gen::new(src, cfg).program()
}
