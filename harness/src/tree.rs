//! The harness's own picture of a syntax tree.  It is built from the library's
//! tree by `from_lib`, from generated programs by `render`, and from tokens by
//! `refparse`, so that trees of different origins can be compared.
use whitespace::ast as la;
use whitespace::environment::{SlotIndex, VarLoc};

pub type Loc = (u32, u32);
/// Where a use of a variable was resolved to: (scope distance, slot).
pub type Ann = Option<(u32, u32)>;

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Block(Vec<S>),
    Break(Loc),
    Class(ClassD),
    Continue(Loc),
    Expr(E),
    Fun(String, FunD),
    If(E, Box<S>, Option<Box<S>>),
    Print(E),
    Return(E, Loc),
    Var(String, Option<u32>, E, Loc),
    While(E, Box<S>),
    WhileInc(E, Box<S>, Box<E>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct ClassD {
    pub name: String,
    pub sup: Option<Box<E>>,
    pub methods: Vec<(String, FunD)>,
    pub loc: Loc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FK {
    Plain,
    Method,
    Init,
    ClassMethod,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FunD {
    pub params: Vec<(String, Loc)>,
    pub body: Vec<S>,
    pub kind: FK,
    pub loc: Loc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UOp {
    Minus,
    Not,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BOp {
    Plus,
    Minus,
    Mul,
    Div,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LOp {
    And,
    Or,
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Assign(String, Ann, Box<E>, Loc),
    Call(Box<E>, Vec<E>, Loc),
    Bin(Box<E>, BOp, Box<E>, Loc),
    Fun(Box<FunD>),
    Get(Box<E>, String, Loc),
    Index(Box<E>, Box<E>, Loc),
    Group(Box<E>),
    Array(Vec<E>),
    Bool(bool),
    Map(Vec<(String, E)>),
    /// The bits of the number, so that equality is exact.
    Num(u64),
    Nil,
    Str(String),
    Logic(Box<E>, LOp, Box<E>),
    Set(Box<E>, String, Box<E>, Loc),
    SetIndex(Box<E>, Box<E>, Box<E>, Loc),
    Super(Ann, String, Loc),
    Var(String, Ann, Loc),
    Un(UOp, Box<E>, Loc),
}

fn loc(l: &whitespace::source_loc::SourceLoc) -> Loc {
    (u32::from(l.line), u32::from(l.column))
}

/// VarLoc has no accessor for the distance, so find it by comparison.
fn ann(v: VarLoc, resolved: bool) -> Ann {
    if !resolved {
        return None;
    }
    let index = v.index();
    for d in 0..=u16::MAX {
        if VarLoc::new(d, index) == v {
            return Some((u32::from(d), u32::from(index)));
        }
    }
    Some((u32::MAX, u32::from(index)))
}

fn slot(s: SlotIndex, resolved: bool) -> Option<u32> {
    if resolved {
        Some(u32::from(s.index()))
    } else {
        None
    }
}

pub fn from_lib(stmts: &[la::Stmt], resolved: bool) -> Vec<S> {
    stmts.iter().map(|s| stmt(s, resolved)).collect()
}

fn stmt(s: &la::Stmt, r: bool) -> S {
    match s {
        la::Stmt::Block(b) => S::Block(from_lib(b, r)),
        la::Stmt::Break(l) => S::Break(loc(l)),
        la::Stmt::Class(c) => S::Class(ClassD {
            name: c.name.clone(),
            sup: c.superclass.as_ref().map(|e| Box::new(expr(e, r))),
            methods: c
                .methods
                .iter()
                .map(|m| (m.name.clone(), fun(&m.fun_def, r)))
                .collect(),
            loc: loc(&c.source_loc),
        }),
        la::Stmt::Continue(l) => S::Continue(loc(l)),
        la::Stmt::Expression(e) => S::Expr(expr(e, r)),
        la::Stmt::Fun(f) => S::Fun(f.name.clone(), fun(&f.fun_def, r)),
        la::Stmt::If(c, t, e) => S::If(
            expr(c, r),
            Box::new(stmt(t, r)),
            e.as_ref().map(|e| Box::new(stmt(e, r))),
        ),
        la::Stmt::Print(e) => S::Print(expr(e, r)),
        la::Stmt::Return(e, l) => S::Return(expr(e, r), loc(l)),
        la::Stmt::Var(n, sl, e, l) => {
            S::Var(n.clone(), slot(sl.get(), r), expr(e, r), loc(l))
        }
        la::Stmt::While(c, b) => S::While(expr(c, r), Box::new(stmt(b, r))),
        la::Stmt::WhileIncrement(c, b, i) => S::WhileInc(
            expr(c, r),
            Box::new(stmt(b, r)),
            Box::new(expr(i, r)),
        ),
    }
}

fn fun(f: &la::FunctionDefinition, r: bool) -> FunD {
    FunD {
        params: f
            .parameters
            .iter()
            .map(|p| (p.name.clone(), loc(&p.source_loc)))
            .collect(),
        body: from_lib(&f.body, r),
        kind: match f.fun_type {
            la::FunctionType::PlainFunction => FK::Plain,
            la::FunctionType::Method => FK::Method,
            la::FunctionType::Initializer => FK::Init,
            la::FunctionType::ClassMethod => FK::ClassMethod,
        },
        loc: loc(&f.source_loc),
    }
}

pub fn expr(e: &la::Expr, r: bool) -> E {
    let b = |e: &la::Expr| Box::new(expr(e, r));
    match e {
        la::Expr::Assign(n, v, e, l) => {
            E::Assign(n.clone(), ann(v.get(), r), b(e), loc(l))
        }
        la::Expr::Call(c, a, l) => E::Call(
            b(c),
            a.iter().map(|e| expr(e, r)).collect(),
            loc(l),
        ),
        la::Expr::Binary(x, op, y, l) => {
            use la::BinaryOperator as B;
            let op = match op {
                B::Plus => BOp::Plus,
                B::Minus => BOp::Minus,
                B::Multiply => BOp::Mul,
                B::Divide => BOp::Div,
                B::Equal => BOp::Eq,
                B::NotEqual => BOp::Ne,
                B::Less => BOp::Lt,
                B::LessEqual => BOp::Le,
                B::Greater => BOp::Gt,
                B::GreaterEqual => BOp::Ge,
            };
            E::Bin(b(x), op, b(y), loc(l))
        }
        la::Expr::Function(f) => E::Fun(Box::new(fun(f, r))),
        la::Expr::Get(o, n, l) => E::Get(b(o), n.clone(), loc(l)),
        la::Expr::GetIndex(o, i, l) => E::Index(b(o), b(i), loc(l)),
        la::Expr::Grouping(e) => E::Group(b(e)),
        la::Expr::LiteralArray(a) => {
            E::Array(a.iter().map(|e| expr(e, r)).collect())
        }
        la::Expr::LiteralBool(v) => E::Bool(*v),
        la::Expr::LiteralMap(m) => E::Map(
            m.iter().map(|(k, v)| (k.clone(), expr(v, r))).collect(),
        ),
        la::Expr::LiteralNumber(n) => E::Num(n.to_bits()),
        la::Expr::LiteralNil => E::Nil,
        la::Expr::LiteralString(s) => E::Str(s.clone()),
        la::Expr::Logical(x, op, y) => E::Logic(
            b(x),
            match op {
                la::LogicalOperator::And => LOp::And,
                la::LogicalOperator::Or => LOp::Or,
            },
            b(y),
        ),
        la::Expr::Set(o, n, v, l) => {
            E::Set(b(o), n.clone(), b(v), loc(l))
        }
        la::Expr::SetIndex(o, i, v, l) => {
            E::SetIndex(b(o), b(i), b(v), loc(l))
        }
        la::Expr::Super(v, n, l) => {
            E::Super(ann(v.get(), r), n.clone(), loc(l))
        }
        la::Expr::Variable(n, v, l) => {
            E::Var(n.clone(), ann(v.get(), r), loc(l))
        }
        la::Expr::Unary(op, e, l) => E::Un(
            match op {
                la::UnaryOperator::Minus => UOp::Minus,
                la::UnaryOperator::Not => UOp::Not,
            },
            b(e),
            loc(l),
        ),
    }
}

/// A mutable walk over everything in a tree that is not its shape.
pub trait Walk {
    fn loc(&mut self, _l: &mut Loc) {}
    fn ann(&mut self, _name: &str, _a: &mut Ann) {}
    fn slot(&mut self, _name: &str, _s: &mut Option<u32>) {}
    /// The name of a variable, parameter, function or class.
    fn var_name(&mut self, _n: &mut String) {}
    fn pre_stmt(&mut self, _s: &mut S) {}
    fn pre_expr(&mut self, _e: &mut E) {}
}

pub fn walk(ss: &mut [S], w: &mut dyn Walk) {
    for s in ss {
        walk_s(s, w);
    }
}

fn walk_fun(f: &mut FunD, w: &mut dyn Walk) {
    w.loc(&mut f.loc);
    for (n, l) in &mut f.params {
        w.var_name(n);
        w.loc(l);
    }
    walk(&mut f.body, w);
}

pub fn walk_s(s: &mut S, w: &mut dyn Walk) {
    w.pre_stmt(s);
    match s {
        S::Block(b) => walk(b, w),
        S::Break(l) | S::Continue(l) => w.loc(l),
        S::Class(c) => {
            w.var_name(&mut c.name);
            w.loc(&mut c.loc);
            if let Some(e) = &mut c.sup {
                walk_e(e, w);
            }
            for (_, f) in &mut c.methods {
                walk_fun(f, w);
            }
        }
        S::Expr(e) | S::Print(e) => walk_e(e, w),
        S::Fun(n, f) => {
            w.var_name(n);
            walk_fun(f, w);
        }
        S::If(c, t, e) => {
            walk_e(c, w);
            walk_s(t, w);
            if let Some(e) = e {
                walk_s(e, w);
            }
        }
        S::Return(e, l) => {
            w.loc(l);
            walk_e(e, w);
        }
        S::Var(n, sl, e, l) => {
            w.slot(n, sl);
            w.var_name(n);
            w.loc(l);
            walk_e(e, w);
        }
        S::While(c, b) => {
            walk_e(c, w);
            walk_s(b, w);
        }
        S::WhileInc(c, b, i) => {
            walk_e(c, w);
            walk_s(b, w);
            walk_e(i, w);
        }
    }
}

pub fn walk_e(e: &mut E, w: &mut dyn Walk) {
    w.pre_expr(e);
    match e {
        E::Assign(n, a, v, l) => {
            w.ann(n, a);
            w.var_name(n);
            w.loc(l);
            walk_e(v, w);
        }
        E::Call(c, a, l) => {
            walk_e(c, w);
            w.loc(l);
            for x in a {
                walk_e(x, w);
            }
        }
        E::Bin(x, _, y, l) => {
            walk_e(x, w);
            w.loc(l);
            walk_e(y, w);
        }
        E::Fun(f) => walk_fun(f, w),
        E::Get(o, _, l) => {
            walk_e(o, w);
            w.loc(l);
        }
        E::Index(o, i, l) => {
            walk_e(o, w);
            w.loc(l);
            walk_e(i, w);
        }
        E::Group(e) => walk_e(e, w),
        E::Array(a) => {
            for x in a {
                walk_e(x, w);
            }
        }
        E::Map(m) => {
            for (_, x) in m {
                walk_e(x, w);
            }
        }
        E::Bool(_) | E::Num(_) | E::Nil | E::Str(_) => (),
        E::Logic(x, _, y) => {
            walk_e(x, w);
            walk_e(y, w);
        }
        E::Set(o, _, v, l) => {
            walk_e(o, w);
            w.loc(l);
            walk_e(v, w);
        }
        E::SetIndex(o, i, v, l) => {
            walk_e(o, w);
            walk_e(i, w);
            w.loc(l);
            walk_e(v, w);
        }
        E::Super(a, _, l) => {
            w.ann("super", a);
            w.loc(l);
        }
        E::Var(n, a, l) => {
            w.ann(n, a);
            w.var_name(n);
            w.loc(l);
        }
        E::Un(_, x, l) => {
            w.loc(l);
            walk_e(x, w);
        }
    }
}

struct NoLocs;
impl Walk for NoLocs {
    fn loc(&mut self, l: &mut Loc) {
        *l = (0, 0);
    }
}

struct NoAnns;
impl Walk for NoAnns {
    fn ann(&mut self, _: &str, a: &mut Ann) {
        *a = None;
    }
    fn slot(&mut self, _: &str, s: &mut Option<u32>) {
        *s = None;
    }
}

struct NoGroups;
impl Walk for NoGroups {
    fn pre_expr(&mut self, e: &mut E) {
        while let E::Group(x) = e {
            *e = std::mem::replace(x, E::Nil);
        }
    }
}

struct Shift(u32);
impl Walk for Shift {
    fn loc(&mut self, l: &mut Loc) {
        l.0 += self.0;
    }
}

pub fn no_locs(mut t: Vec<S>) -> Vec<S> {
    walk(&mut t, &mut NoLocs);
    t
}

pub fn no_anns(mut t: Vec<S>) -> Vec<S> {
    walk(&mut t, &mut NoAnns);
    t
}

pub fn no_groups(mut t: Vec<S>) -> Vec<S> {
    walk(&mut t, &mut NoGroups);
    t
}

pub fn shift(mut t: Vec<S>, lines: u32) -> Vec<S> {
    walk(&mut t, &mut Shift(lines));
    t
}

pub fn map_locs(t: &mut [S], f: &mut dyn FnMut(Loc) -> Loc) {
    struct M<'a>(&'a mut dyn FnMut(Loc) -> Loc);
    impl Walk for M<'_> {
        fn loc(&mut self, l: &mut Loc) {
            *l = (self.0)(*l);
        }
    }
    walk(t, &mut M(f));
}

/// Counts of nodes, for classifying cases.
pub fn size(t: &[S]) -> usize {
    struct C(usize);
    impl Walk for C {
        fn pre_stmt(&mut self, _: &mut S) {
            self.0 += 1;
        }
        fn pre_expr(&mut self, _: &mut E) {
            self.0 += 1;
        }
    }
    let mut c = C(0);
    let mut t = t.to_vec();
    walk(&mut t, &mut c);
    c.0
}

/// Describes the first difference of two values by their debug texts.
pub fn diff<T: std::fmt::Debug>(what: &str, expected: &T, got: &T) -> String {
    let a = format!("{expected:#?}");
    let b = format!("{got:#?}");
    let (mut i, mut path) = (0, Vec::new());
    let (al, bl): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    while i < al.len() && i < bl.len() && al[i] == bl[i] {
        let ind = al[i].len() - al[i].trim_start().len();
        path.truncate(ind / 4);
        path.push(al[i].trim());
        i += 1;
    }
    let ctx = |l: &[&str]| -> String {
        l[i.min(l.len())..(i + 4).min(l.len())]
            .iter()
            .map(|s| s.trim())
            .collect::<Vec<_>>()
            .join(" ")
    };
    let tail: Vec<_> = path.iter().rev().take(6).rev().copied().collect();
    format!(
        "{what} differ under [{}]: expected [{}] got [{}]",
        tail.join(" > "),
        ctx(&al),
        ctx(&bl)
    )
}
