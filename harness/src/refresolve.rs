//! Reference resolver over the harness's trees: lexical scoping with scopes as
//! lists of names in the order of introduction.
use crate::tree::{ClassD, FunD, Loc, E, S};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum State {
    /// Only used so far (globals).
    Forward,
    /// Its initializer is being evaluated.
    Starting,
    Ready,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum InFun {
    No,
    Fun,
    Init,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum InClass {
    No,
    Plain,
    Sub,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Offence {
    pub at: Loc,
    pub token: String,
    pub kind: Kind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    TopReturn,
    InitValue,
    This,
    Super,
    Redeclared,
    OwnInit,
    SelfInherit,
    TooMany,
}

#[derive(Clone)]
pub struct Resolver {
    scopes: Vec<Vec<(String, State)>>,
    fun: InFun,
    class: InClass,
    /// Some scope came to hold exactly as many variables as there are slots,
    /// where acceptance is not specified.
    pub brim: bool,
    pub max_scope: usize,
    pub max_distance: u32,
}

type R = Result<(), Offence>;

impl Default for Resolver {
    fn default() -> Self {
        Resolver {
            scopes: vec![Vec::new()],
            fun: InFun::No,
            class: InClass::No,
            brim: false,
            max_scope: 0,
            max_distance: 0,
        }
    }
}

impl Resolver {
    /// Annotates the statements.  Errors leave no trace.
    pub fn resolve(&mut self, ss: &mut [S]) -> Result<(), Vec<Offence>> {
        let saved = self.scopes.clone();
        let mut errs = Vec::new();
        for s in ss {
            if let Err(e) = self.stmt(s) {
                self.scopes.truncate(1);
                self.fun = InFun::No;
                self.class = InClass::No;
                errs.push(e);
            }
        }
        if errs.is_empty() {
            Ok(())
        } else {
            self.scopes = saved;
            Err(errs)
        }
    }

    fn bad(at: Loc, token: &str, kind: Kind) -> R {
        Err(Offence {
            at,
            token: token.to_owned(),
            kind,
        })
    }

    fn grow(&mut self, scope: usize, name: &str, st: State, at: Loc) -> Result<u32, Offence> {
        let s = &mut self.scopes[scope];
        if s.len() >= 255 {
            self.brim = true;
        }
        if s.len() >= 256 {
            return Err(Offence {
                at,
                token: name.to_owned(),
                kind: Kind::TooMany,
            });
        }
        s.push((name.to_owned(), st));
        self.max_scope = self.max_scope.max(s.len());
        Ok(s.len() as u32 - 1)
    }

    /// Introduces a name in the innermost scope.
    fn introduce(&mut self, name: &str, at: Loc, st: State) -> Result<u32, Offence> {
        let top = self.scopes.len() - 1;
        let global = top == 0;
        match self.scopes[top].iter().position(|x| x.0 == name) {
            None => self.grow(top, name, st, at),
            Some(i) => {
                if self.scopes[top].len() >= 256 {
                    self.brim = true;
                }
                let old = &mut self.scopes[top][i].1;
                if *old == State::Forward {
                    *old = st;
                } else if !global {
                    return Err(Offence {
                        at,
                        token: name.to_owned(),
                        kind: Kind::Redeclared,
                    });
                }
                Ok(i as u32)
            }
        }
    }

    fn lookup(&mut self, name: &str, at: Loc) -> Result<(u32, u32), Offence> {
        for (d, s) in self.scopes.iter().rev().enumerate() {
            if let Some(i) = s.iter().position(|x| x.0 == name) {
                self.max_distance = self.max_distance.max(d as u32);
                return Ok((d as u32, i as u32));
            }
        }
        let i = self.grow(0, name, State::Forward, at)?;
        let d = self.scopes.len() as u32 - 1;
        self.max_distance = self.max_distance.max(d);
        Ok((d, i))
    }

    fn scoped(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.scopes.push(Vec::new());
        let r = f(self);
        self.scopes.pop();
        r
    }

    fn stmts(&mut self, ss: &mut [S]) -> R {
        for s in ss {
            self.stmt(s)?;
        }
        Ok(())
    }

    fn stmt(&mut self, s: &mut S) -> R {
        match s {
            S::Block(b) => self.scoped(|r| r.stmts(b)),
            S::Break(_) | S::Continue(_) => Ok(()),
            S::Class(c) => {
                let outer = self.class;
                self.class = if c.sup.is_some() {
                    InClass::Sub
                } else {
                    InClass::Plain
                };
                let r = self.class(c);
                self.class = outer;
                r
            }
            S::Expr(e) | S::Print(e) => self.expr(e),
            S::Fun(n, f) => {
                self.introduce(n, f.loc, State::Ready)?;
                self.fun(f, InFun::Fun)
            }
            S::If(c, t, e) => {
                self.expr(c)?;
                self.stmt(t)?;
                match e {
                    Some(e) => self.stmt(e),
                    None => Ok(()),
                }
            }
            S::Return(e, l) => match self.fun {
                InFun::No => Self::bad(*l, "return", Kind::TopReturn),
                InFun::Init if *e != E::Nil => {
                    Self::bad(*l, "return", Kind::InitValue)
                }
                _ => self.expr(e),
            },
            S::Var(n, slot, e, l) => {
                let i = self.introduce(n, *l, State::Starting)?;
                *slot = Some(i);
                let depth = self.scopes.len() - 1;
                let r = self.expr(e);
                self.scopes[depth][i as usize].1 = State::Ready;
                r
            }
            S::While(c, b) => {
                self.expr(c)?;
                self.stmt(b)
            }
            S::WhileInc(c, b, i) => {
                self.expr(c)?;
                self.stmt(b)?;
                self.expr(i)
            }
        }
    }

    fn class(&mut self, c: &mut ClassD) -> R {
        self.introduce(&c.name, c.loc, State::Ready)?;
        let loc = c.loc;
        let name = c.name.clone();
        let methods = &mut c.methods;
        let members = |r: &mut Self| {
            r.scoped(|r| {
                r.introduce("this", loc, State::Ready)?;
                for (n, f) in methods {
                    // Whether a class method named init is an initializer is not
                    // specified; it is now.
                    let k = if n == "init" {
                        InFun::Init
                    } else {
                        InFun::Fun
                    };
                    r.fun(f, k)?;
                }
                Ok(())
            })
        };
        match &mut c.sup {
            None => members(self),
            Some(e) => {
                if let E::Var(n, _, l) = &**e {
                    if *n == name {
                        return Self::bad(*l, n, Kind::SelfInherit);
                    }
                }
                self.expr(e)?;
                self.scoped(|r| {
                    r.introduce("super", loc, State::Ready)?;
                    members(r)
                })
            }
        }
    }

    fn fun(&mut self, f: &mut FunD, k: InFun) -> R {
        let outer = self.fun;
        self.fun = k;
        let r = self.scoped(|r| {
            for (n, l) in &f.params {
                r.introduce(n, *l, State::Ready)?;
            }
            r.stmts(&mut f.body)
        });
        self.fun = outer;
        r
    }

    fn expr(&mut self, e: &mut E) -> R {
        match e {
            E::Assign(n, a, v, l) => {
                self.expr(v)?;
                *a = Some(self.lookup(n, *l)?);
                Ok(())
            }
            E::Var(n, a, l) => {
                if n == "this" && self.class == InClass::No {
                    return Self::bad(*l, "this", Kind::This);
                }
                let top = self.scopes.last().unwrap();
                if top.iter().any(|x| x.0 == *n && x.1 == State::Starting) {
                    return Self::bad(*l, n, Kind::OwnInit);
                }
                *a = Some(self.lookup(n, *l)?);
                Ok(())
            }
            E::Super(a, _, l) => {
                if self.class != InClass::Sub {
                    return Self::bad(*l, "super", Kind::Super);
                }
                *a = Some(self.lookup("super", *l)?);
                Ok(())
            }
            E::Call(c, args, _) => {
                self.expr(c)?;
                args.iter_mut().try_for_each(|x| self.expr(x))
            }
            E::Bin(x, _, y, _) | E::Logic(x, _, y) | E::Index(x, y, _) => {
                self.expr(x)?;
                self.expr(y)
            }
            E::Fun(f) => self.fun(f, InFun::Fun),
            E::Get(x, _, _) | E::Group(x) | E::Un(_, x, _) => self.expr(x),
            E::Array(a) => a.iter_mut().try_for_each(|x| self.expr(x)),
            E::Map(m) => m.iter_mut().try_for_each(|(_, x)| self.expr(x)),
            E::Bool(_) | E::Num(_) | E::Nil | E::Str(_) => Ok(()),
            E::Set(o, _, v, _) => {
                self.expr(o)?;
                self.expr(v)
            }
            E::SetIndex(o, i, v, _) => {
                self.expr(o)?;
                self.expr(i)?;
                self.expr(v)
            }
        }
    }
}
