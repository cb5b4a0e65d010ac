//! Reference parser: precedence climbing over the reference scanner's tokens,
//! without error recovery.  It gives the tree, or where the source first stops
//! being a prefix of a valid program.
use crate::refscan::{scan, Tok, K};
use crate::tree::{BOp, ClassD, FunD, LOp, Loc, UOp, E, FK, S};

/// The places at which the first error may be reported (usually one).
#[derive(Clone, Debug, PartialEq)]
pub struct Bad {
    pub at: Vec<Loc>,
    pub why: &'static str,
}

impl Bad {
    /// A violation that only shows once a later part was read.
    fn or_at(mut self, l: Loc) -> Bad {
        self.at.push(l);
        self
    }
}

type R<T> = Result<T, Bad>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Start {
    File,
    Repl,
    Expr,
}

pub struct P<'a> {
    t: &'a [Tok],
    i: usize,
    loops: usize,
    repl: bool,
}

/// Prefix-operator, binary and postfix levels: (level, logical).
fn binop(k: K) -> Option<(u8, Result<BOp, LOp>)> {
    Some(match k {
        K::Or => (1, Err(LOp::Or)),
        K::And => (2, Err(LOp::And)),
        K::EqEq => (3, Ok(BOp::Eq)),
        K::BangEq => (3, Ok(BOp::Ne)),
        K::Lt => (4, Ok(BOp::Lt)),
        K::Le => (4, Ok(BOp::Le)),
        K::Gt => (4, Ok(BOp::Gt)),
        K::Ge => (4, Ok(BOp::Ge)),
        K::Plus => (5, Ok(BOp::Plus)),
        K::Minus => (5, Ok(BOp::Minus)),
        K::Star => (6, Ok(BOp::Mul)),
        K::Slash => (6, Ok(BOp::Div)),
        _ => return None,
    })
}

/// Tokens that start the first argument of a call without parentheses.
pub fn starts_bare_arg(k: K) -> bool {
    matches!(
        k,
        K::False
            | K::True
            | K::Nil
            | K::Num
            | K::Str
            | K::Ident
            | K::Fun
            | K::LParen
            | K::LBrace
            | K::Super
    )
}

fn starts_expr(k: K) -> bool {
    starts_bare_arg(k)
        || matches!(
            k,
            K::Bang | K::Minus | K::This | K::LParenTouch | K::LBracket
        )
}

pub fn parse_toks(t: &[Tok], start: Start) -> R<Vec<S>> {
    let mut p = P {
        t,
        i: 0,
        loops: 0,
        repl: start == Start::Repl,
    };
    let mut out = Vec::new();
    if start == Start::Expr {
        let e = p.expr()?;
        p.need(K::Eof, "end of expression")?;
        return Ok(vec![S::Expr(e)]);
    }
    while p.k() != K::Eof {
        out.push(p.decl()?);
    }
    Ok(out)
}

/// None if the source has lexical errors.
pub fn parse(src: &str, start: Start) -> Option<R<Vec<S>>> {
    let s = scan(src);
    if s.errs.is_empty() {
        Some(parse_toks(&s.toks, start))
    } else {
        None
    }
}

impl P<'_> {
    fn kn(&self, n: usize) -> K {
        self.t.get(self.i + n).map_or(K::Eof, |t| t.kind)
    }

    fn k(&self) -> K {
        self.kn(0)
    }

    fn here(&self) -> Loc {
        let t = &self.t[self.i];
        (t.line, t.col)
    }

    fn next(&mut self) -> Loc {
        let l = self.here();
        if self.k() != K::Eof {
            self.i += 1;
        }
        l
    }

    fn eat(&mut self, k: K) -> bool {
        let y = self.k() == k;
        if y {
            self.next();
        }
        y
    }

    fn bad<T>(&self, why: &'static str) -> R<T> {
        Err(Bad {
            at: vec![self.here()],
            why,
        })
    }

    fn need(&mut self, k: K, why: &'static str) -> R<Loc> {
        if self.k() == k {
            Ok(self.next())
        } else {
            self.bad(why)
        }
    }

    fn ident(&mut self, why: &'static str) -> R<(String, Loc)> {
        if self.k() == K::Ident {
            let n = self.t[self.i].text.clone();
            Ok((n, self.next()))
        } else {
            self.bad(why)
        }
    }

    fn lparen(&mut self) -> R<Loc> {
        match self.k() {
            K::LParen | K::LParenTouch => Ok(self.next()),
            _ => self.bad("("),
        }
    }

    // ------------------------------------------------------- statements

    fn decl(&mut self) -> R<S> {
        match self.k() {
            K::Class => self.class(),
            K::Fun if self.kn(1) == K::Ident => {
                self.next();
                let (n, l) = self.ident("function name")?;
                Ok(S::Fun(n, self.fun_rest(l, FK::Plain)?))
            }
            K::Var => {
                self.next();
                self.var(K::Term)
            }
            _ => self.stmt(),
        }
    }

    fn class(&mut self) -> R<S> {
        self.next();
        let (name, loc) = self.ident("class name")?;
        let sup = if self.eat(K::Lt) {
            let (n, l) = self.ident("superclass name")?;
            Some(Box::new(E::Var(n, None, l)))
        } else {
            None
        };
        let end = self.open()?;
        let mut methods = Vec::new();
        while self.k() != end && self.k() != K::Eof {
            let cm = self.eat(K::Class);
            let (n, l) = self.ident("method name")?;
            let kind = if cm {
                FK::ClassMethod
            } else if n == "init" {
                FK::Init
            } else {
                FK::Method
            };
            methods.push((n, self.fun_rest(l, kind)?));
        }
        self.need(end, "end of class")?;
        Ok(S::Class(ClassD {
            name,
            sup,
            methods,
            loc,
        }))
    }

    fn fun_rest(&mut self, loc: Loc, kind: FK) -> R<FunD> {
        self.lparen()?;
        let mut params = Vec::new();
        if self.k() != K::RParen {
            loop {
                if self.k() == K::Ident && params.len() == 255 {
                    return self.bad("256th parameter");
                }
                params.push(self.ident("parameter")?);
                if !self.eat(K::Comma) {
                    break;
                }
            }
        }
        self.need(K::RParen, ") after parameters")?;
        let outer = std::mem::take(&mut self.loops);
        let body = self.block();
        self.loops = outer;
        Ok(FunD {
            params,
            body: body?,
            kind,
            loc,
        })
    }

    /// The start of a block: its end token.
    fn open(&mut self) -> R<K> {
        match self.k() {
            K::LBrace => {
                self.next();
                Ok(K::RBrace)
            }
            K::Term => {
                self.next();
                self.need(K::Indent, "indented block")?;
                Ok(K::Outdent)
            }
            _ => self.bad("block"),
        }
    }

    fn block(&mut self) -> R<Vec<S>> {
        let end = self.open()?;
        self.block_rest(end)
    }

    fn block_rest(&mut self, end: K) -> R<Vec<S>> {
        let mut out = Vec::new();
        while self.k() != end && self.k() != K::Eof {
            out.push(self.decl()?);
        }
        self.need(end, "end of block")?;
        Ok(out)
    }

    fn body(&mut self) -> R<Box<S>> {
        Ok(Box::new(match self.k() {
            K::Term | K::LBrace => S::Block(self.block()?),
            _ => self.stmt()?,
        }))
    }

    fn var(&mut self, end: K) -> R<S> {
        let (n, l) = self.ident("variable name")?;
        let mut optional = false;
        let e = if self.eat(K::Eq) {
            self.eat(K::Term);
            optional = matches!(self.k(), K::Indent | K::LBrace);
            self.expr()?
        } else {
            E::Nil
        };
        if end == K::Term && optional {
            self.eat(K::Term);
        } else {
            self.need(end, "end of declaration")?;
        }
        Ok(S::Var(n, None, e, l))
    }

    fn stmt(&mut self) -> R<S> {
        let loc = self.here();
        match self.k() {
            k @ (K::Break | K::Continue) => {
                if self.loops == 0 {
                    return self.bad("outside of a loop");
                }
                self.next();
                self.need(K::Term, "end of statement")?;
                Ok(if k == K::Break {
                    S::Break(loc)
                } else {
                    S::Continue(loc)
                })
            }
            K::LBrace => {
                self.next();
                Ok(S::Block(self.block_rest(K::RBrace)?))
            }
            K::Print => {
                self.next();
                let e = self.expr()?;
                self.need(K::Term, "end of statement")?;
                Ok(S::Print(e))
            }
            K::Return => {
                self.next();
                let e = if self.k() == K::Term {
                    E::Nil
                } else {
                    self.expr()?
                };
                self.need(K::Term, "end of statement")?;
                Ok(S::Return(e, loc))
            }
            K::If => {
                self.next();
                self.lparen()?;
                let c = self.expr()?;
                self.need(K::RParen, ") after condition")?;
                let t = self.body()?;
                let e = if self.eat(K::Else) {
                    Some(self.body()?)
                } else {
                    None
                };
                Ok(S::If(c, t, e))
            }
            K::While => {
                self.next();
                self.lparen()?;
                let c = self.expr()?;
                self.need(K::RParen, ") after condition")?;
                Ok(S::While(c, self.loop_body()?))
            }
            K::For => self.for_loop(),
            _ => {
                let e = self.expr()?;
                if !(self.repl && self.k() == K::Eof) {
                    self.need(K::Term, "end of statement")?;
                }
                Ok(S::Expr(e))
            }
        }
    }

    fn loop_body(&mut self) -> R<Box<S>> {
        self.loops += 1;
        let b = self.body();
        self.loops -= 1;
        b
    }

    fn for_loop(&mut self) -> R<S> {
        self.next();
        self.lparen()?;
        let init = match self.k() {
            K::Semi => {
                self.next();
                None
            }
            K::Var => {
                self.next();
                Some(self.var(K::Semi)?)
            }
            _ => {
                let e = self.expr()?;
                self.need(K::Semi, "; after initializer")?;
                Some(S::Expr(e))
            }
        };
        let cond = if self.k() == K::Semi {
            E::Bool(true)
        } else {
            self.expr()?
        };
        self.need(K::Semi, "; after condition")?;
        let inc = if self.k() == K::RParen {
            None
        } else {
            Some(self.expr()?)
        };
        self.need(K::RParen, ") after increment")?;
        let body = self.loop_body()?;
        let w = match inc {
            None => S::While(cond, body),
            Some(i) => S::WhileInc(cond, body, Box::new(i)),
        };
        Ok(match init {
            None => w,
            Some(i) => S::Block(vec![i, w]),
        })
    }

    // ------------------------------------------------------ expressions

    fn expr(&mut self) -> R<E> {
        let left = if self.eat(K::Indent) {
            let e = self.binary(1)?;
            self.eat(K::Term);
            self.need(K::Outdent, "end of indented expression")?;
            return Ok(e);
        } else {
            self.binary(1)?
        };
        if self.k() != K::Eq {
            return Ok(left);
        }
        let l = self.next();
        let make: Box<dyn FnOnce(Box<E>) -> E> = match left {
            E::Get(o, n, _) => Box::new(move |v| E::Set(o, n, v, l)),
            E::Index(o, i, _) => Box::new(move |v| E::SetIndex(o, i, v, l)),
            E::Var(n, _, _) if n != "this" => {
                Box::new(move |v| E::Assign(n, None, v, l))
            }
            _ => {
                self.expr().map_err(|b| b.or_at(l))?;
                return Err(Bad {
                    at: vec![l],
                    why: "assignment target",
                });
            }
        };
        let v = self.expr()?;
        Ok(make(Box::new(v)))
    }

    fn binary(&mut self, min: u8) -> R<E> {
        let mut left = self.unary()?;
        while let Some((level, op)) = binop(self.k()) {
            if level < min {
                break;
            }
            let l = self.next();
            let right = Box::new(self.binary(level + 1)?);
            left = match op {
                Ok(b) => E::Bin(Box::new(left), b, right, l),
                Err(o) => E::Logic(Box::new(left), o, right),
            };
        }
        Ok(left)
    }

    fn unary(&mut self) -> R<E> {
        let op = match self.k() {
            K::Bang => UOp::Not,
            K::Minus => UOp::Minus,
            _ => return self.postfix(),
        };
        let l = self.next();
        Ok(E::Un(op, Box::new(self.unary()?), l))
    }

    fn postfix(&mut self) -> R<E> {
        let mut e = self.primary()?;
        loop {
            let k = self.k();
            let l = self.here();
            e = match k {
                K::Dot => {
                    self.next();
                    let (n, _) = self.ident("property name")?;
                    E::Get(Box::new(e), n, l)
                }
                K::LBracket => {
                    self.next();
                    let i = self.expr()?;
                    self.need(K::RBracket, "] after index")?;
                    E::Index(Box::new(e), Box::new(i), l)
                }
                K::LParenTouch => {
                    self.next();
                    let mut a = Vec::new();
                    if self.k() != K::RParen {
                        self.args(&mut a)?;
                    }
                    self.need(K::RParen, ") after arguments")?;
                    E::Call(Box::new(e), a, l)
                }
                _ if starts_bare_arg(k) => {
                    let mut a = Vec::new();
                    self.args(&mut a)?;
                    E::Call(Box::new(e), a, l)
                }
                _ => return Ok(e),
            };
        }
    }

    fn args(&mut self, a: &mut Vec<E>) -> R<()> {
        loop {
            if a.len() == 255 {
                return self.bad("256th argument");
            }
            a.push(self.expr()?);
            if !self.eat(K::Comma) {
                return Ok(());
            }
        }
    }

    fn primary(&mut self) -> R<E> {
        let t = &self.t[self.i];
        let loc = self.here();
        Ok(match t.kind {
            K::False | K::True => {
                self.next();
                E::Bool(t.kind == K::True)
            }
            K::Nil => {
                self.next();
                E::Nil
            }
            K::Num => {
                self.next();
                E::Num(t.num.unwrap())
            }
            K::Ident | K::This | K::Str if self.kn(1) == K::Colon => {
                E::Map(self.entries()?)
            }
            K::Str => {
                self.next();
                E::Str(t.string.clone().unwrap())
            }
            K::Ident | K::This => {
                self.next();
                E::Var(t.text.clone(), None, loc)
            }
            K::Super => {
                self.next();
                self.need(K::Dot, ". after super")?;
                let (n, _) = self.ident("superclass method name")?;
                E::Super(None, n, loc)
            }
            K::Fun => {
                self.next();
                if self.k() == K::Ident {
                    return self.bad("named function in an expression");
                }
                E::Fun(Box::new(self.fun_rest(loc, FK::Plain)?))
            }
            K::LParen | K::LParenTouch => {
                self.next();
                let e = self.expr()?;
                self.need(K::RParen, ")")?;
                E::Group(Box::new(e))
            }
            K::LBrace => {
                self.next();
                let m = self.entries()?;
                if self.k() == K::Term && self.kn(1) == K::RBrace {
                    self.next();
                }
                self.need(K::RBrace, "} after entries")?;
                E::Map(m)
            }
            K::LBracket => {
                self.next();
                let mut a = Vec::new();
                while self.k() != K::RBracket {
                    a.push(self.expr()?);
                    if !self.eat(K::Comma) {
                        break;
                    }
                }
                self.need(K::RBracket, "] after elements")?;
                E::Array(a)
            }
            K::Eof => {
                // At the end there is no offending token: the last one counts.
                let b: R<E> = self.bad("expression");
                let last = match self.i {
                    0 => (1, 1),
                    i => (self.t[i - 1].line, self.t[i - 1].col),
                };
                return b.map_err(|b| b.or_at(last));
            }
            _ => return self.bad("expression"),
        })
    }

    fn at_entry(&self, n: usize) -> bool {
        matches!(self.kn(n), K::Ident | K::Str) && self.kn(n + 1) == K::Colon
    }

    fn entries(&mut self) -> R<Vec<(String, E)>> {
        let mut m: Vec<(String, E)> = Vec::new();
        while self.at_entry(0) {
            let t = &self.t[self.i];
            let key = t.string.clone().unwrap_or_else(|| t.text.clone());
            let l = self.next();
            self.next();
            let dup = m.iter().any(|(k, _)| *k == key);
            let v = match self.expr() {
                Err(b) if dup => return Err(b.or_at(l)),
                v => v?,
            };
            if dup {
                return Err(Bad {
                    at: vec![l],
                    why: "duplicate key",
                });
            }
            m.push((key, v));
            let more = match self.k() {
                K::Comma => self.at_entry(1) || !starts_expr(self.kn(1)),
                K::Term => self.at_entry(1),
                _ => false,
            };
            if !more {
                break;
            }
            self.next();
        }
        Ok(m)
    }
}
