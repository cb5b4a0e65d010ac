//! C11 jumps, C12 resolution, C13 scoping errors, C14 slots, C23 for loops,
//! C24 annotation only.
use super::common::*;
use super::language::big_case;
use crate::big::{self, Big};
use crate::engine::{CaseResult, Ctx, Prop, Src, Sub};
use crate::gen::{self, expr_stmt, Cfg, Gen, Z};
use crate::refresolve::Kind;
use crate::render::{render, Choice, Style};
use crate::tree::{self, Ann, ClassD, FunD, Loc, E, FK, S};
use crate::{refresolve, sut};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "Programs with break and continue statements anywhere (in loops, ifs, blocks, functions, methods and function expressions nested in one another) are drawn as trees; a walk over the tree tells which jumps are astray. Without any the program has to be accepted, otherwise the first error has to be at the first of them. Non-trivial: at least one jump.",
            assumptions: &[],
            subs: vec![
                Sub { name: "nests", quick: 200_000, thorough: 8_000_000, run: c11_nests },
                Sub { name: "programs", quick: 100_000, thorough: 5_000_000, run: c11_programs },
                Sub { name: "depths", quick: 301 * DEPTH_KINDS, thorough: 401 * DEPTH_KINDS, run: c11_depths },
                Sub { name: "extremes", quick: 300, thorough: 10_000, run: c11_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C12",
            rule: "Scoping-valid programs, most of them over few names with many nested scopes, are resolved; every annotation has to be that of an independent resolver working on lists of scopes. Non-trivial: at least three uses of variables.",
            assumptions: &["where a scope holds exactly 256 variables nothing is compared"],
            subs: vec![
                Sub { name: "few names", quick: 200_000, thorough: 8_000_000, run: c12_few },
                Sub { name: "programs", quick: 80_000, thorough: 4_000_000, run: c12_programs },
                Sub { name: "binders", quick: 80_000, thorough: 4_000_000, run: c12_binders },
                Sub { name: "extremes", quick: 400, thorough: 20_000, run: c12_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C13",
            rule: "Programs in which every static rule is broken now and then (none, one or several offences, in any nesting) are resolved; errors have to be the offences an independent resolver finds, at the same places and in order. Single rules are also placed, by construction, in every context. Non-trivial: at least one offence, or an accepted program with over ten nodes.",
            assumptions: &[],
            subs: vec![
                Sub { name: "few names", quick: 200_000, thorough: 8_000_000, run: c13_few },
                Sub { name: "programs", quick: 80_000, thorough: 4_000_000, run: c13_programs },
                Sub { name: "planted", quick: 120_000, thorough: 5_000_000, run: c13_planted },
                Sub { name: "extremes", quick: 300, thorough: 10_000, run: c13_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C14",
            rule: "Scopes of every kind with 0 to 300 variables of every kind of declaration (all sizes enumerated) have to be accepted up to 255 variables, with slots counting up in order of introduction, and rejected from 257 on; slots in random programs have to be those of an independent resolver. Non-trivial: at least two variables in a scope.",
            assumptions: &["256 variables in a scope are not specified"],
            subs: vec![
                Sub { name: "sizes", quick: 301 * SIZE_KINDS, thorough: 301 * SIZE_KINDS * 8, run: c14_sizes },
                Sub { name: "programs", quick: 80_000, thorough: 4_000_000, run: c14_programs },
                Sub { name: "extremes", quick: 1_500, thorough: 60_000, run: c14_big },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C23",
            rule: "For loops with every combination of parts are written, in any context and layout; the tree has to be the while form that was drawn, and, if there is no increment, the tree of that while form's own text, also after resolving. Uses of the header's names in all parts and after the loop have to resolve as an independent resolver says. Non-trivial: at least one part is present.",
            assumptions: &[],
            subs: vec![
                Sub { name: "forms", quick: 150_000, thorough: 6_000_000, run: c23_forms },
                Sub { name: "scopes", quick: 120_000, thorough: 5_000_000, run: c23_scopes },
                Sub { name: "programs", quick: 60_000, thorough: 3_000_000, run: c23_programs },
            ],
            guided: true,
            known: vec![],
        },
        Prop {
            id: "C24",
            rule: "Programs, valid or with scoping errors, are resolved and compared with what was parsed, annotations aside; then all names are replaced by fresh ones (one by one consistently, or every binding by a name of its own), the layout kept token by token, and annotations and errors have to stay. Non-trivial: at least two names.",
            assumptions: &[],
            subs: vec![
                Sub { name: "only annotates", quick: 80_000, thorough: 4_000_000, run: c24_annotates },
                Sub { name: "renamed names", quick: 100_000, thorough: 5_000_000, run: c24_names },
                Sub { name: "renamed bindings", quick: 100_000, thorough: 5_000_000, run: c24_bindings },
                Sub { name: "extremes", quick: 200, thorough: 10_000, run: c24_big },
            ],
            guided: true,
            known: vec![],
        },
    ]
}

// -------------------------------------------------------------------- C11

/// The jumps of a program that no loop encloses.
struct Stray {
    in_loop: bool,
    jumps: usize,
    bad: Vec<Loc>,
}

fn stray(t: &[S]) -> Stray {
    let mut s = Stray {
        in_loop: false,
        jumps: 0,
        bad: Vec::new(),
    };
    s.stmts(t);
    s.bad.sort();
    s
}

impl Stray {
    fn stmts(&mut self, t: &[S]) {
        t.iter().for_each(|s| self.stmt(s));
    }

    fn within(&mut self, l: bool, f: impl FnOnce(&mut Self)) {
        let was = std::mem::replace(&mut self.in_loop, l);
        f(self);
        self.in_loop = was;
    }

    fn stmt(&mut self, s: &S) {
        match s {
            S::Block(b) => self.stmts(b),
            S::Break(l) | S::Continue(l) => {
                self.jumps += 1;
                if !self.in_loop {
                    self.bad.push(*l);
                }
            }
            S::Class(c) => {
                for (_, f) in &c.methods {
                    self.within(false, |x| x.stmts(&f.body));
                }
            }
            S::Expr(e) | S::Print(e) | S::Return(e, _) | S::Var(_, _, e, _) => {
                self.expr(e)
            }
            S::Fun(_, f) => self.within(false, |x| x.stmts(&f.body)),
            S::If(c, t, e) => {
                self.expr(c);
                self.stmt(t);
                if let Some(e) = e {
                    self.stmt(e);
                }
            }
            S::While(c, b) => {
                self.expr(c);
                self.within(true, |x| x.stmt(b));
            }
            S::WhileInc(c, b, i) => {
                self.expr(c);
                self.expr(i);
                self.within(true, |x| x.stmt(b));
            }
        }
    }

    fn expr(&mut self, e: &E) {
        match e {
            E::Fun(f) => self.within(false, |x| x.stmts(&f.body)),
            E::Call(c, a, _) => {
                self.expr(c);
                a.iter().for_each(|x| self.expr(x));
            }
            E::Array(a) => a.iter().for_each(|x| self.expr(x)),
            E::Map(m) => m.iter().for_each(|x| self.expr(&x.1)),
            E::Bin(x, _, y, _) | E::Logic(x, _, y) | E::Index(x, y, _) => {
                self.expr(x);
                self.expr(y);
            }
            E::Assign(_, _, x, _) | E::Get(x, ..) | E::Group(x) | E::Un(_, x, _) => {
                self.expr(x)
            }
            E::Set(x, _, y, _) => {
                self.expr(x);
                self.expr(y);
            }
            E::SetIndex(x, y, z, _) => {
                self.expr(x);
                self.expr(y);
                self.expr(z);
            }
            E::Bool(_) | E::Num(_) | E::Nil | E::Str(_) | E::Super(..) | E::Var(..) => (),
        }
    }
}

fn c11_check(src: &mut Src, ctx: &mut Ctx, p: &[S]) -> CaseResult {
    let st = Style::random(src);
    let r = render(src, p, &st);
    ctx.input("source", &r.text);
    let s = stray(&r.tree);
    ctx.case(&r.text, s.jumps > 0);
    match (s.bad.first(), sut::parse(&r.text)?) {
        (None, Ok(t)) => {
            if s.jumps > 0 {
                ctx.label("accepted with jumps");
            }
            if t != r.tree {
                return Err(tree::diff("trees", &r.tree, &t));
            }
            Ok(())
        }
        (Some(l), Err(c)) => {
            ctx.label("rejected");
            if c[0].loc != *l {
                return Err(format!("errors [{}]; expected the first at {l:?}", brief(&c)));
            }
            match &c[0].token {
                Some(t) if t != "break" && t != "continue" => {
                    Err(format!("the error quotes {t:?}"))
                }
                _ => Ok(()),
            }
        }
        (None, Err(c)) => Err(format!("rejected a program: {}", brief(&c))),
        (Some(l), Ok(_)) => Err(format!("accepted a jump at {l:?} outside of any loop")),
    }
}

fn c11_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let mut g = Gen::new(src, Cfg::new(f));
    g.stray_jumps = true;
    let p = g.program();
    c11_check(src, ctx, &p)
}

fn jump(src: &mut Src) -> S {
    if src.chance(1, 2) {
        S::Break(Z)
    } else {
        S::Continue(Z)
    }
}

fn fun_of(body: Vec<S>, params: &[&str], kind: FK) -> FunD {
    FunD {
        params: params.iter().map(|p| ((*p).to_owned(), Z)).collect(),
        body,
        kind,
        loc: Z,
    }
}

fn fun_expr(body: Vec<S>, params: &[&str]) -> E {
    E::Fun(Box::new(fun_of(body, params, FK::Plain)))
}

/// A body of a header: a block, or the statement itself where that can be.
fn body_of(src: &mut Src, mut b: Vec<S>) -> S {
    let plain = b.len() == 1
        && !matches!(b[0], S::Var(..) | S::Fun(..) | S::Class(_) | S::Block(_))
        && src.chance(1, 2);
    if plain {
        b.pop().unwrap()
    } else {
        S::Block(b)
    }
}

/// Nested constructs with jumps before, in and after each other.
fn nest(src: &mut Src, depth: usize) -> Vec<S> {
    let v = gen::var;
    let mut out = Vec::new();
    if src.chance(1, 6) {
        out.push(if src.chance(1, 3) { jump(src) } else { S::Print(v("a")) });
    }
    let b = |src: &mut Src| {
        if depth == 0 {
            vec![if src.chance(4, 5) { jump(src) } else { S::Print(v("b")) }]
        } else {
            nest(src, depth - 1)
        }
    };
    let inner = b(src);
    let s = match src.below(16) {
        0 | 1 => S::While(v("a"), Box::new(body_of(src, inner))),
        2 => S::While(E::Bool(true), Box::new(body_of(src, inner))),
        3 => {
            let w = S::WhileInc(v("i"), Box::new(body_of(src, inner)), Box::new(v("i")));
            S::Block(vec![S::Var("i".into(), None, E::Nil, Z), w])
        }
        4 => S::WhileInc(v("i"), Box::new(body_of(src, inner)), Box::new(v("i"))),
        5 | 6 => gen::if_(v("c"), body_of(src, inner), None),
        7 => {
            let t = S::Block(vec![S::Print(v("t"))]);
            let e = body_of(src, inner);
            gen::if_(v("c"), t, Some(e))
        }
        8 => S::Block(inner),
        9 => S::Fun("f".into(), fun_of(inner, &["x"], FK::Plain)),
        10 => S::Class(ClassD {
            name: "A".into(),
            sup: None,
            methods: vec![(
                "m".into(),
                fun_of(inner, &[], *src.pick(&[FK::Method, FK::ClassMethod])),
            )],
            loc: Z,
        }),
        11 => S::Var("v".into(), None, fun_expr(inner, &[]), Z),
        12 => expr_stmt(E::Call(
            Box::new(v("g")),
            vec![E::Nil, fun_expr(inner, &["x"])],
            Z,
        )),
        // In the parts of a header, which are no body.
        13 => {
            let e = E::Array(vec![fun_expr(inner, &[])]);
            let b = Box::new(S::Block(nest_leaf(src)));
            match src.below(3) {
                0 => S::While(e, b),
                1 => S::WhileInc(E::Bool(true), b, Box::new(e)),
                _ => S::Block(vec![S::Var("i".into(), None, e, Z), S::While(v("i"), b)]),
            }
        }
        14 => {
            let other = if depth > 0 { nest(src, depth - 1) } else { nest_leaf(src) };
            let t = S::Block(inner);
            let e = body_of(src, other);
            gen::if_(v("c"), t, Some(e))
        }
        _ => S::Print(E::Map(vec![("k".into(), fun_expr(inner, &[]))])),
    };
    out.push(s);
    if src.chance(1, 4) {
        out.push(if src.chance(1, 2) { jump(src) } else { S::Print(v("z")) });
    }
    out
}

fn nest_leaf(src: &mut Src) -> Vec<S> {
    vec![if src.chance(1, 2) {
        jump(src)
    } else {
        S::Print(gen::var("n"))
    }]
}

fn c11_nests(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = src.range(0, 7);
    let mut p = Vec::new();
    // Mostly within loops, so that many are accepted.
    for _ in 0..src.range(1, 3) {
        let mut b = nest(src, d);
        if src.chance(2, 3) {
            b = vec![S::While(gen::var("l"), Box::new(S::Block(b)))];
        }
        p.extend(b);
    }
    c11_check(src, ctx, &p)
}

const DEPTH_KINDS: u64 = 24;

/// Jumps below any number of loops, and behind them.
fn c11_depths(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = (src.index / DEPTH_KINDS) as usize % 401;
    let k = src.index % DEPTH_KINDS;
    let jump = ["break", "continue"][(k % 2) as usize];
    let head = ["while (a)", "for (;;)", "for (var i = 0; a; b)"][(k / 2 % 3) as usize];
    let lines = k / 6 % 2 == 0;
    let mut s = String::new();
    for i in 0..n {
        s.push_str(head);
        if lines {
            s.push('\n');
            s.push_str(&" ".repeat(i + 1));
        } else {
            s.push(' ');
        }
    }
    // Inside, or in a function inside, or only behind the loops.
    let inside = k < 12;
    let ok = inside && n > 0;
    if inside {
        s.push_str(jump);
        s.push('\n');
    } else if src.chance(1, 2) {
        s.push_str(&format!("c(fun () {{{jump}\n}})\n"));
    } else {
        s.push_str(&format!("c\n{jump}\n"));
    }
    if src.chance(1, 2) {
        s.push_str("print d\n");
    }
    ctx.input("source", &s);
    ctx.case(&s, n > 1);
    match sut::front(&s)? {
        Ok(_) if ok => Ok(()),
        Err(c) if ok => Err(format!("rejected below {n} loops: {}", brief(&c))),
        Ok(_) => Err("accepted a jump outside of loops".into()),
        Err(c) if c.len() != 1 => Err(format!("errors {}; expected one", brief(&c))),
        Err(_) => Ok(()),
    }
}

fn c11_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &[Big::NestLoops, Big::NestFuns, Big::NestBlocks], 400);
    big_case(ctx, k, &s);
    if let Some(toks) = lex_agree(&s)? {
        match parse_agree(&s, &toks, crate::refparse::Start::File)? {
            Ok(t) => {
                ctx.label("accepted");
                assert!(stray(&t).bad.is_empty());
            }
            Err(_) => ctx.label("rejected"),
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C12

fn few(src: &mut Src, mischief: u64) -> Vec<S> {
    let mut cfg = Cfg::new(*src.pick(&[15, 25, 40, 70, 120]));
    cfg.pool = src.range(1, 4);
    cfg.mischief = mischief;
    cfg.max_depth = *src.pick(&[4, 7, 10]);
    cfg.wild_strings = false;
    let mut g = Gen::new(src, cfg);
    let n = g.src.range(1, 6);
    g.stmts(n)
}

struct Uses(usize, u32, usize);

impl tree::Walk for Uses {
    fn ann(&mut self, _: &str, a: &mut Ann) {
        self.0 += 1;
        if let Some((d, _)) = a {
            self.1 = self.1.max(*d);
            if *d > 0 {
                self.2 += 1;
            }
        }
    }
}

fn uses(t: &[S]) -> Uses {
    let mut u = Uses(0, 0, 0);
    tree::walk(&mut t.to_vec(), &mut u);
    u
}

fn must_resolve(ctx: &mut Ctx, text: &str) -> CaseResult {
    ctx.input("source", text);
    match front_agree(text)? {
        Resolved::Ok(t) => {
            let u = uses(&t);
            ctx.case(text, u.0 > 2);
            if u.1 > 2 {
                ctx.label("with distances over two");
            }
            if u.2 > 0 {
                ctx.label("with uses of outer scopes");
            }
            Ok(())
        }
        Resolved::Scoping(o) => panic!("the drawn program has offences {o:?}"),
        Resolved::Syntax(b) => panic!("the drawn program is no program {b:?}"),
        Resolved::Lexical => panic!("the drawn program has lexical errors"),
        Resolved::Brim => Ok(()),
    }
}

fn c12_few(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = few(src, 0);
    let st = Style::random(src);
    let r = render(src, &p, &st);
    must_resolve(ctx, &r.text)
}

fn c12_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let (_, r) = program(src, ctx, f);
    must_resolve(ctx, &r.text)
}

/// A chain of nested scopes, each of which declares the name, or not, before
/// or after uses of it; the expected annotations come with the construction.
fn c12_binders(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    struct W<'a> {
        src: &'a mut Src,
        s: String,
        want: Vec<(u32, u32)>,
        /// Slots of x in the scopes from the outermost; what they hold.
        scopes: Vec<Vec<String>>,
        global_fun: usize,
    }
    impl W<'_> {
        fn pad(&self, ind: usize) -> String {
            "  ".repeat(ind)
        }
        fn find(&mut self, n: &str) -> (u32, u32) {
            for d in 0..self.scopes.len() {
                let s = &self.scopes[self.scopes.len() - 1 - d];
                if let Some(i) = s.iter().position(|y| y == n) {
                    return (d as u32, i as u32);
                }
            }
            self.scopes[0].push(n.to_owned());
            let d = self.scopes.len() as u32 - 1;
            (d, self.scopes[0].len() as u32 - 1)
        }
        fn use_(&mut self, ind: usize) {
            let n = *self.src.pick(&["x", "y"]);
            let p = self.pad(ind);
            let a = self.find(n);
            self.want.push(a);
            match self.src.below(3) {
                0 => self.s.push_str(&format!("{p}print {n}\n")),
                1 => self.s.push_str(&format!("{p}{n} = 1\n")),
                _ => {
                    // Evaluated before the assignment it is in.
                    self.s.push_str(&format!("{p}{n} = {n}\n"));
                    self.want.push(a);
                }
            }
        }
        fn declare(&mut self, n: &str) {
            self.scopes.last_mut().unwrap().push(n.to_owned());
        }
        fn decl(&mut self, ind: usize) {
            let n = *self.src.pick(&["x", "y", "z", "w"]);
            if self.scopes.last().unwrap().iter().any(|y| y == n) {
                return;
            }
            let p = self.pad(ind);
            self.declare(n);
            match self.src.below(4) {
                0 => self.s.push_str(&format!("{p}var {n} = 1\n")),
                1 => self.s.push_str(&format!("{p}var {n}\n")),
                2 => self.s.push_str(&format!("{p}fun {n}() {{ }}\\\n")),
                _ => self.s.push_str(&format!("{p}class {n} {{ }}\\\n")),
            }
        }
        fn some(&mut self, ind: usize) {
            for _ in 0..self.src.weighted(&[2, 3, 2, 1]) {
                if self.src.chance(1, 2) {
                    self.use_(ind);
                } else {
                    self.decl(ind);
                }
            }
        }
        fn level(&mut self, depth: usize, ind: usize) {
            self.some(ind);
            if depth > 0 {
                let p = self.pad(ind);
                match self.src.below(6) {
                    0 => {
                        // A condition lies outside of the body's scope.
                        let a = self.find("x");
                        self.want.push(a);
                        self.s.push_str(&format!("{p}if (x)\n"));
                        self.scopes.push(vec![]);
                        self.level(depth - 1, ind + 1);
                        self.scopes.pop();
                    }
                    1 => {
                        let n = format!("f{}", self.global_fun);
                        self.global_fun += 1;
                        self.declare(&n);
                        let q = *self.src.pick(&["", "x", "y", "q"]);
                        self.s.push_str(&format!("{p}fun {n}({q})\n"));
                        self.scopes.push(vec![]);
                        if !q.is_empty() {
                            self.declare(q);
                        }
                        self.level(depth - 1, ind + 1);
                        self.scopes.pop();
                    }
                    2 => {
                        // Two scopes: this, and the parameters.
                        let n = format!("C{}", self.global_fun);
                        self.global_fun += 1;
                        self.declare(&n);
                        self.s.push_str(&format!("{p}class {n}\n{p}  m(y)\n"));
                        self.scopes.push(vec!["this".into()]);
                        self.scopes.push(vec!["y".into()]);
                        self.level(depth - 1, ind + 2);
                        self.scopes.pop();
                        self.scopes.pop();
                    }
                    3 => {
                        // Three scopes with super.
                        let n = format!("D{}", self.global_fun);
                        self.global_fun += 1;
                        self.declare(&n);
                        let a = self.find("x");
                        self.want.push(a);
                        self.s.push_str(&format!("{p}class {n} < x\n{p}  m()\n"));
                        self.scopes.push(vec!["super".into()]);
                        self.scopes.push(vec!["this".into()]);
                        self.scopes.push(vec![]);
                        let q = self.pad(ind + 2);
                        self.s.push_str(&format!("{q}super.m(this)\n"));
                        self.want.push((2, 0));
                        self.want.push((1, 0));
                        self.level(depth - 1, ind + 2);
                        self.scopes.pop();
                        self.scopes.pop();
                        self.scopes.pop();
                    }
                    4 => {
                        // The header's scope, and the body's.
                        self.scopes.push(vec!["x".into()]);
                        self.want.push((0, 0));
                        self.s.push_str(&format!("{p}for (var x = 1; x; )\n"));
                        self.scopes.push(vec![]);
                        self.level(depth - 1, ind + 1);
                        self.scopes.pop();
                        self.scopes.pop();
                    }
                    _ => {
                        // An argument.
                        let a = self.find("y");
                        self.want.push(a);
                        self.s.push_str(&format!("{p}y(fun (x)\n"));
                        self.scopes.push(vec!["x".into()]);
                        self.level(depth - 1, ind + 1);
                        self.scopes.pop();
                        self.s.push_str(&format!("{p})\n"));
                    }
                }
                self.some(ind);
            } else {
                let p = self.pad(ind);
                let a = self.find("x");
                self.want.push(a);
                self.s.push_str(&format!("{p}print x\n"));
            }
        }
    }
    let mut w = W {
        src,
        s: String::new(),
        want: vec![],
        scopes: vec![vec![]],
        global_fun: 0,
    };
    let d = w.src.range(0, 9);
    w.level(d, 0);
    let (text, want) = (w.s, w.want);
    ctx.input("source", &text);
    ctx.case(&text, d > 0);
    let t = sut::front(&text)?
        .map_err(|c| format!("rejected a program: {}", brief(&c)))?;
    struct Got(Vec<(u32, u32)>);
    impl tree::Walk for Got {
        fn ann(&mut self, _: &str, a: &mut Ann) {
            self.0.push(a.unwrap_or((u32::MAX, u32::MAX)));
        }
    }
    let mut g = Got(vec![]);
    tree::walk(&mut t.clone(), &mut g);
    if g.0 != want {
        let i = g.0.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "use {i} is annotated {:?}; expected (distance, slot) {:?}",
            g.0.get(i),
            want.get(i)
        ));
    }
    Ok(())
}

fn c12_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let kinds = [Big::NestBlocks, Big::NestFuns, Big::NestLoops, Big::Vars, Big::Params];
    let (k, s) = big::big(src, &kinds, 300);
    big_case(ctx, k, &s);
    note_front(ctx, &s)
}

fn note_front(ctx: &mut Ctx, s: &str) -> CaseResult {
    match front_agree(s)? {
        Resolved::Ok(_) => ctx.label("accepted"),
        Resolved::Scoping(_) => ctx.label("scoping errors"),
        Resolved::Syntax(_) => ctx.label("syntax errors"),
        Resolved::Lexical => ctx.label("lexical errors"),
        Resolved::Brim => ctx.label("a scope at the brim"),
    }
    Ok(())
}

// -------------------------------------------------------------------- C13

fn note_offences(ctx: &mut Ctx, o: &[refresolve::Offence]) {
    for o in o {
        ctx.label(match o.kind {
            Kind::TopReturn => "return from top-level code",
            Kind::InitValue => "value returned from an initializer",
            Kind::This => "this outside of a class",
            Kind::Super => "super outside of a subclass",
            Kind::Redeclared => "redeclared",
            Kind::OwnInit => "read in its own initializer",
            Kind::SelfInherit => "inherits from itself",
            Kind::TooMany => "too many variables",
        });
    }
    if o.len() > 1 {
        ctx.label("with several offences");
    }
}

fn c13_check(ctx: &mut Ctx, text: &str) -> CaseResult {
    ctx.input("source", text);
    match front_agree(text)? {
        Resolved::Ok(t) => {
            ctx.case(text, tree::size(&t) > 10);
            ctx.label("accepted");
        }
        Resolved::Scoping(o) => {
            ctx.case(text, true);
            note_offences(ctx, &o);
            if let Err(c) = sut::front(text)? {
                errors_in_source(text, &c)?;
            }
        }
        _ => ctx.case(text, false),
    }
    Ok(())
}

fn c13_few(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = *src.pick(&[30, 150, 400, 1000]);
    let p = few(src, m);
    let st = Style::random(src);
    let r = render(src, &p, &st);
    c13_check(ctx, &r.text)
}

fn c13_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let mut cfg = Cfg::new(f);
    cfg.mischief = *src.pick(&[50, 200, 500]);
    let p = gen::program(src, cfg);
    let st = Style::random(src);
    let r = render(src, &p, &st);
    c13_check(ctx, &r.text)
}

/// A use or statement of every kind, in a chain of contexts; whether and where
/// it breaks a rule follows from the contexts.
fn c13_planted(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    #[derive(Clone, Copy, PartialEq)]
    enum In {
        No,
        Fun,
        Init,
    }
    let depth = src.range(0, 6);
    let mut fun = In::No;
    // 0: none, 1: a class, 2: a subclass.
    let mut class = 0;
    let mut local = false;
    let mut text = String::new();
    let mut ind = 0;
    let mut closers = Vec::new();
    for i in 0..depth {
        let p = "  ".repeat(ind);
        match src.below(12) {
            0 => text.push_str(&format!("{p}if (a)\n")),
            1 => text.push_str(&format!("{p}while (a)\n")),
            2 => text.push_str(&format!("{p}for (var i{i} = 1; i{i}; i{i})\n")),
            3 | 4 => {
                text.push_str(&format!("{p}fun f{i}(p{i})\n"));
                fun = In::Fun;
            }
            5 => {
                text.push_str(&format!("{p}g(fun (p{i})\n"));
                closers.push(ind);
                fun = In::Fun;
            }
            6 | 7 => {
                text.push_str(&format!("{p}class A{i}\n{p}  m(p{i})\n"));
                ind += 1;
                fun = In::Fun;
                class = 1;
            }
            8 => {
                text.push_str(&format!("{p}class B{i} < a\n{p}  m(p{i})\n"));
                ind += 1;
                fun = In::Fun;
                class = 2;
            }
            9 => {
                text.push_str(&format!("{p}class C{i}\n{p}  init(p{i})\n"));
                ind += 1;
                fun = In::Init;
                class = 1;
            }
            10 => {
                text.push_str(&format!("{p}class D{i} < a\n{p}  init()\n"));
                ind += 1;
                fun = In::Init;
                class = 2;
            }
            _ => {
                text.push_str(&format!("{p}class E{i} < a\n{p}  class k(p{i})\n"));
                ind += 1;
                fun = In::Fun;
                class = 2;
            }
        }
        ind += 1;
        local = true;
    }
    let p = "  ".repeat(ind);
    // The statement, and where (a text in it) it breaks a rule, if it does.
    let (s, bad): (String, Option<&str>) = match src.below(22) {
        0 => ("return\n".into(), (fun == In::No).then_some("return")),
        1 => ("return nil\n".into(), (fun == In::No).then_some("return")),
        2 => ("return a\n".into(), (fun != In::Fun).then_some("return")),
        3 => ("if (a) return 1\n".into(), (fun != In::Fun).then_some("return")),
        4 => ("print this\n".into(), (class == 0).then_some("this")),
        5 => ("f(a, [b, {k: this.x}])\n".into(), (class == 0).then_some("this")),
        6 => ("print super.x\n".into(), (class != 2).then_some("super")),
        7 => ("f(a + -super.x)\n".into(), (class != 2).then_some("super")),
        8 => (format!("var x\n{p}var x\n"), local.then_some("x\n")),
        9 => (format!("var x\n{p}fun x() {{ }}\n"), local.then_some("x()")),
        10 => (format!("class x {{ }}\\\n{p}class x {{ }}\n"), local.then_some("x { }\n")),
        11 => ("fun h(x, y, x) { }\n".into(), Some("x) {")),
        12 => ("f(fun (x) { var x = 1\nPAD})\n".into(), Some("x = 1")),
        13 => ("var x = x\n".into(), Some("x\n")),
        14 => ("var x = f(a, x.y)\n".into(), Some("x.y")),
        15 => ("var x = fun () { x\nPAD}\n".into(), None),
        16 => ("class X < X { }\n".into(), Some("X {")),
        17 => ("class X < Y { }\n".into(), None),
        18 => (format!("var x = 1\n{p}if (a)\n{p}  var x = 2\n"), None),
        19 => (format!("var x = 1\n{p}if (a)\n{p}  var x = x\n"), Some("x\n")),
        20 => (format!("var x = 1\n{p}var y = x\n{p}x = y\n"), None),
        _ => (format!("var x\n{p}var x = x\n"), local.then_some("x = x")),
    };
    // Nested braces end on a line of the same indentation.
    let s = s.replace("PAD", &p);
    let at = text.len() + p.len();
    text.push_str(&p);
    // Statements whose `}` ends a line need the line to go on.
    let s = if s.ends_with("}\n") {
        format!("{}\\\n{p}b\n", s.trim_end())
    } else {
        s
    };
    text.push_str(&s);
    for c in closers.iter().rev() {
        text.push_str(&format!("{})\n", "  ".repeat(*c)));
    }
    // A valid statement before and after, or an offence.
    let mut want: Vec<usize> = bad
        .iter()
        .map(|b| {
            let b = b.trim_end_matches('\n');
            let last = b == "x" || b == "x { }";
            at + if last { s.rfind(b) } else { s.find(b) }
                .unwrap_or_else(|| panic!("{b:?} in {s:?}"))
        })
        .collect();
    if src.chance(1, 3) {
        let pre = *src.pick(&["var k = 1\n", "return 1\n", "print this\n", "{ print k\n}\\\n"]);
        for w in &mut want {
            *w += pre.len();
        }
        text = format!("{pre}{text}");
        match pre {
            "return 1\n" => want.insert(0, 0),
            "print this\n" => want.insert(0, 6),
            _ => (),
        }
    }
    if src.chance(1, 3) {
        let n = text.len();
        let post = *src.pick(&["var k = 1\n", "return 1\n", "{ var j = j\n}\\\n"]);
        text.push_str(post);
        match post {
            "return 1\n" => want.push(n),
            "{ var j = j\n}\\\n" => want.push(n + 10),
            _ => (),
        }
    }
    ctx.input("source", &text);
    ctx.case(&text, true);
    ctx.label(match want.len() {
        0 => "accepted",
        1 => "one offence",
        _ => "several offences",
    });
    let places = crate::refscan::Places::new(&text);
    let want: Vec<Loc> = want.iter().map(|w| places.at(*w)).collect();
    let got = match sut::parse_raw(&text)? {
        Err(c) => return Err(format!("syntax errors: {}", brief(&c))),
        Ok(t) => match sut::resolve(t)? {
            Ok(_) => vec![],
            Err(c) => {
                errors_in_source(&text, &c)?;
                locs(&c)
            }
        },
    };
    if got != want {
        return Err(format!("scoping errors at {got:?}; expected {want:?}"));
    }
    Ok(())
}

fn c13_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let kinds = [Big::ScopeErrors, Big::NestBlocks, Big::NestFuns, Big::Params, Big::Vars];
    let (k, s) = big::big(src, &kinds, 200);
    big_case(ctx, k, &s);
    note_front(ctx, &s)
}

// -------------------------------------------------------------------- C14

const SIZE_KINDS: u64 = 9 * 6;

/// A scope of one kind with n variables of one kind of declaration.
fn c14_sizes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.index;
    let n = (i % 301) as usize;
    let kind = (i / 301) % 9;
    let decl = (i / 301 / 9) % 6;
    let v = |i: usize| format!("v{i}");
    // Head, indentation of the body, variables that are there already.
    let (head, pad, own): (&str, &str, usize) = match kind {
        0 | 1 => ("", "", 0),
        2 => ("if (c)\n", "  ", 0),
        3 => ("fun f()\n", "  ", 0),
        4 => ("fun f(p0, p1)\n", "  ", 2),
        5 => ("class A\n  m(p0)\n", "    ", 1),
        6 => ("for (var p0 = 0; p0; )\n", "  ", 0),
        7 => ("{\\\n", "", 0),
        _ => ("g(fun (p0)\n", "  ", 1),
    };
    let mut s = String::from(head);
    let last = n.saturating_sub(1);
    for i in 0..n {
        if kind == 1 {
            // All on one line, if possible.
            match if decl > 3 { src.range(2, 3) as u64 } else { decl } {
                0 => s.push_str(&format!("var {} = [\\\n]\n", v(i))),
                1 => s.push_str(&format!("var {} = fun () {{ }} \n", v(i))),
                2 => s.push_str(&format!("fun {}() {{ }} ", v(i))),
                _ => s.push_str(&format!("class {} {{ }} ", v(i))),
            }
            continue;
        }
        let d = if decl == 5 { src.below(5) } else { decl };
        match d {
            0 => s.push_str(&format!("{pad}var {}\n", v(i))),
            1 => s.push_str(&format!("{pad}var {} = {}\n", v(i), i)),
            2 => s.push_str(&format!("{pad}fun {}() {{ }}\\\n", v(i))),
            3 => s.push_str(&format!("{pad}class {} {{ }}\\\n", v(i))),
            // Only globals come to be by being used.
            _ if kind < 2 => s.push_str(&format!("{} = 1\n", v(i))),
            _ => s.push_str(&format!("{pad}var {} = {}\n", v(i), v(last))),
        }
    }
    // Some are used from within the scope and from deeper.
    let mut uses = Vec::new();
    if n > 0 {
        for k in 0..4 {
            let i = [0, last, src.idx(n), src.idx(n)][k];
            if k % 2 == 0 {
                s.push_str(&format!("{pad}print {}\n", v(i)));
                uses.push((0, i));
            } else {
                s.push_str(&format!("{pad}if (1)\n{pad}  print {}\n", v(i)));
                uses.push((1, i));
            }
        }
    } else {
        s.push_str(&format!("{pad}print 1\n"));
    }
    match kind {
        7 => s.push_str("}\\\n"),
        8 => s.push_str(")\n"),
        _ => (),
    }
    ctx.input("source", &s);
    ctx.case(&s, n > 1);
    // Reading the last variable before it is introduced reads a global, for
    // all but itself.
    let self_read = decl >= 4 && kind >= 2 && (decl == 4 && n > 0);
    let total = n + own;
    if self_read {
        // The last one reads itself: an offence.
        return match sut::front(&s)? {
            Ok(_) => Err("a variable may read itself in its initializer".into()),
            Err(_) => Ok(()),
        };
    }
    if decl == 5 && kind >= 2 && s.contains(&format!("var {} = {}\n", v(last), v(last))) {
        return Ok(());
    }
    match sut::front(&s)? {
        Ok(t) => {
            if total > 256 {
                return Err(format!("accepted a scope with {total} variables"));
            }
            struct G(Vec<(u32, u32)>, Vec<u32>);
            impl tree::Walk for G {
                fn ann(&mut self, n: &str, a: &mut Ann) {
                    if n.starts_with('v') {
                        self.0.push(a.unwrap_or((u32::MAX, u32::MAX)));
                    }
                }
                fn slot(&mut self, n: &str, s: &mut Option<u32>) {
                    if let Some(i) = n.strip_prefix('v') {
                        let i: u32 = i.parse().unwrap();
                        self.1.push(s.unwrap_or(u32::MAX).wrapping_sub(i));
                    }
                }
            }
            let mut g = G(vec![], vec![]);
            tree::walk(&mut t.clone(), &mut g);
            if let Some(x) = g.1.iter().find(|x| **x != own as u32) {
                return Err(format!(
                    "the slot of a declared variable is off by {}",
                    x.wrapping_sub(own as u32) as i32
                ));
            }
            let want: Vec<(u32, u32)> = uses
                .iter()
                .map(|(d, i)| (*d as u32, (*i + own) as u32))
                .collect();
            let got = &g.0[g.0.len() - want.len()..];
            if got != want {
                return Err(format!("uses have {got:?}; expected {want:?}"));
            }
            Ok(())
        }
        Err(c) => {
            if total <= 255 {
                return Err(format!(
                    "rejected a scope with {total} variables: {}",
                    brief(&c)
                ));
            }
            Ok(())
        }
    }
}

fn c14_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // Many declarations in few scopes.
    let mut cfg = Cfg::new(10);
    cfg.wild_strings = false;
    cfg.max_depth = *src.pick(&[2, 3, 5]);
    let n = src.range(2, 40);
    let mut g = Gen::new(src, cfg);
    let mut p = Vec::new();
    for _ in 0..n {
        g.refuel(8);
        p.push(g.stmt());
    }
    let p = match src.below(4) {
        0 => vec![S::Fun("f".into(), fun_of(unique(p), &["pp"], FK::Plain))],
        1 => vec![S::Block(unique(p))],
        _ => p,
    };
    let st = Style::random(src);
    let r = render(src, &p, &st);
    ctx.input("source", &r.text);
    match front_agree(&r.text)? {
        Resolved::Ok(t) => {
            ctx.case(&r.text, tree::size(&t) > 5);
            ctx.label("accepted");
        }
        Resolved::Scoping(_) => {
            ctx.case(&r.text, true);
            ctx.label("scoping errors");
        }
        _ => ctx.case(&r.text, false),
    }
    Ok(())
}

/// Gives the declarations of a list names of their own.
fn unique(p: Vec<S>) -> Vec<S> {
    let mut seen = std::collections::HashSet::new();
    p.into_iter()
        .enumerate()
        .map(|(i, s)| {
            let mut f = |n: String| {
                if seen.insert(n.clone()) {
                    n
                } else {
                    format!("{n}_{i}")
                }
            };
            match s {
                S::Var(n, a, e, l) => S::Var(f(n), a, e, l),
                S::Fun(n, d) => S::Fun(f(n), d),
                S::Class(mut c) => {
                    c.name = f(c.name);
                    S::Class(c)
                }
                s => s,
            }
        })
        .collect()
}

fn c14_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &[Big::Vars, Big::Vars, Big::Params], 100);
    big_case(ctx, k, &s);
    note_front(ctx, &s)
}

// -------------------------------------------------------------------- C23

/// A for loop's parts as texts, with the tree that is expected.
fn c23_forms(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = gen::var;
    let assign = |n: &str, e: E| E::Assign(n.into(), None, Box::new(e), Z);
    let inits: [(&str, Option<S>); 9] = [
        ("", None),
        ("var i = 0", Some(S::Var("i".into(), None, gen::num(0), Z))),
        ("var i", Some(S::Var("i".into(), None, E::Nil, Z))),
        ("i = 0", Some(S::Expr(assign("i", gen::num(0))))),
        ("f(i)", Some(S::Expr(E::Call(Box::new(v("f")), vec![v("i")], Z)))),
        (
            "i.p = 1",
            Some(S::Expr(E::Set(Box::new(v("i")), "p".into(), Box::new(gen::num(1)), Z))),
        ),
        ("\"s\"", Some(S::Expr(E::Str("s".into())))),
        (
            "var i = [a, b]",
            Some(S::Var("i".into(), None, E::Array(vec![v("a"), v("b")]), Z)),
        ),
        ("nil", Some(S::Expr(E::Nil))),
    ];
    let conds: [(&str, E); 6] = [
        ("", E::Bool(true)),
        ("true", E::Bool(true)),
        ("i", v("i")),
        ("i < 9", gen::bin(tree::BOp::Lt, v("i"), gen::num(9))),
        ("false", E::Bool(false)),
        ("f(i)", E::Call(Box::new(v("f")), vec![v("i")], Z)),
    ];
    let incs: [(&str, Option<E>); 5] = [
        ("", None),
        (
            "i = i + 1",
            Some(assign("i", gen::bin(tree::BOp::Plus, v("i"), gen::num(1)))),
        ),
        ("f(i)", Some(E::Call(Box::new(v("f")), vec![v("i")], Z))),
        ("i", Some(v("i"))),
        (
            "a[i] = i",
            Some(E::SetIndex(Box::new(v("a")), Box::new(v("i")), Box::new(v("i")), Z)),
        ),
    ];
    let (it, i) = src.pick(&inits).clone();
    let (ct, c) = src.pick(&conds).clone();
    let (nt, n) = src.pick(&incs).clone();
    // The body, as text after the header at some indentation, and as a tree.
    let deep = src.below(3) as usize;
    let pad = "  ".repeat(deep);
    let pr = S::Print(v("i"));
    let (bt, b): (String, S) = match src.below(7) {
        0 => (" print i\n".into(), pr.clone()),
        1 => (format!("\n{pad}  print i\n"), S::Block(vec![pr.clone()])),
        2 => (
            format!("\n{pad}   print i\n{pad}   i = 2\n"),
            S::Block(vec![pr.clone(), S::Expr(assign("i", gen::num(2)))]),
        ),
        3 => (format!(" {{ print i\n{pad}}}\\\n"), S::Block(vec![pr.clone()])),
        4 => (" { }\\\n".into(), S::Block(vec![])),
        5 => (" if (i) break\n".into(), S::If(v("i"), Box::new(S::Break(Z)), None)),
        _ => (
            " while (i) continue\n".into(),
            S::While(v("i"), Box::new(S::Continue(Z))),
        ),
    };
    let w = match &n {
        None => S::While(c.clone(), Box::new(b.clone())),
        Some(n) => S::WhileInc(c.clone(), Box::new(b.clone()), Box::new(n.clone())),
    };
    let want = match &i {
        None => w,
        Some(i) => S::Block(vec![i.clone(), w]),
    };
    let sp = |src: &mut Src| *src.pick(&["", " ", " ", "  "]);
    let header = format!(
        "for ({}{it}{};{}{ct}{};{}{nt}{})",
        sp(src), sp(src), sp(src), sp(src), sp(src), sp(src)
    );
    let mut outer = String::new();
    for d in 0..deep {
        outer.push_str(&"  ".repeat(d));
        outer.push_str(*src.pick(&["while (q)\n", "if (q)\n", "for (; q; )\n"]));
    }
    let text = format!("{outer}{pad}a\n{pad}{header}{bt}{pad}z\n");
    ctx.input("source", &text);
    ctx.case(&text, !(it.is_empty() && ct.is_empty() && nt.is_empty()));
    let mut t = tree::no_locs(must_parse(&text)?);
    for _ in 0..deep {
        t = match t.pop() {
            Some(S::While(_, b) | S::If(_, b, None)) => match *b {
                S::Block(b) => b,
                _ => return Err("the surrounding block is lost".into()),
            },
            _ => return Err("the surrounding statement is lost".into()),
        };
    }
    let all = vec![S::Expr(v("a")), want.clone(), S::Expr(v("z"))];
    if t != all {
        return Err(tree::diff("trees", &all, &t));
    }
    // The while form's own text, if it has one.
    if n.is_none() {
        let cond = if ct.is_empty() { "true" } else { ct };
        let (open, close) = if it.is_empty() {
            (String::new(), String::new())
        } else {
            (format!("{{ {it}\n{pad}"), format!("{pad}}}\\\n"))
        };
        let w = format!("{outer}{pad}a\n{pad}{open}while ({cond}){bt}{close}{pad}z\n");
        ctx.input("while form", &w);
        ctx.label("compared with the text of the while form");
        let x = tree::no_locs(must_parse(&w)?);
        let y = tree::no_locs(must_parse(&text)?);
        if x != y {
            return Err(tree::diff("for and while form", &x, &y));
        }
        let rx = sut::front(&w)?.map(tree::no_locs);
        let ry = sut::front(&text)?.map(tree::no_locs);
        match (rx, ry) {
            (Ok(x), Ok(y)) if x == y => (),
            (Ok(x), Ok(y)) => {
                return Err(tree::diff("resolved for and while form", &x, &y))
            }
            (x, y) => return Err(format!("while form: {x:?}; for form: {y:?}")),
        }
    }
    Ok(())
}

/// Uses of a name before, in every part of, and after loops that declare it.
fn c23_scopes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let e = |src: &mut Src| -> String {
        (*src.pick(&["x", "y", "x = y", "f(x, y)", "[x]", "fun () { return x\n }", "(fun (x) { print x + y\n })(1)", "1"])).to_owned()
    };
    fn stmt(src: &mut Src, e: &dyn Fn(&mut Src) -> String, ind: usize, depth: usize, out: &mut String) {
        let p = "  ".repeat(ind);
        match src.weighted(&[3, 2, 6, 1, 1]) {
            0 => {
                let x = *src.pick(&["print x", "y = x", "print y", "x = 1"]);
                out.push_str(&format!("{p}{x}\n"));
            }
            // May be a redeclaration.
            1 => {
                let x = *src.pick(&["var x = 1", "var y", "var x = y", "var y = fun () { return y }"]);
                let x = x.replace(" }", &format!("\n{p}}}"));
                if x.ends_with('}') {
                    out.push_str(&format!("{p}{x}\\\n{p}1\n"));
                } else {
                    out.push_str(&format!("{p}{x}\n"));
                }
            }
            2 if depth > 0 => {
                let init = match src.below(5) {
                    0 => String::new(),
                    1 => e(src),
                    2 => "var y".to_owned(),
                    _ => {
                        // Sometimes reads itself.
                        let v = e(src);
                        format!("var {} = {v}", src.pick(&["x", "y"]))
                    }
                };
                let c = if src.chance(1, 5) { String::new() } else { e(src) };
                let i = if src.chance(1, 4) { String::new() } else { e(src) };
                let fix = |s: String| s.replace("\n }", &format!("\n{p}}}"));
                out.push_str(&format!("{p}for ({}; {}; {})\n", fix(init), fix(c), fix(i)));
                for _ in 0..src.range(1, 3) {
                    stmt(src, e, ind + 1, depth - 1, out);
                }
            }
            3 if depth > 0 => {
                out.push_str(&format!("{p}fun g(x)\n"));
                for _ in 0..src.range(1, 3) {
                    stmt(src, e, ind + 1, depth - 1, out);
                }
            }
            4 if depth > 0 => {
                out.push_str(&format!("{p}if (x)\n"));
                for _ in 0..src.range(1, 3) {
                    stmt(src, e, ind + 1, depth - 1, out);
                }
            }
            _ => out.push_str(&format!("{p}print x\n")),
        }
    }
    let mut text = String::new();
    for _ in 0..src.range(1, 4) {
        stmt(src, &e, 0, 4, &mut text);
    }
    ctx.input("source", &text);
    let nt = text.contains("for (var");
    ctx.case(&text, nt);
    match front_agree(&text)? {
        Resolved::Ok(_) => ctx.label("accepted"),
        Resolved::Scoping(_) => ctx.label("scoping errors"),
        Resolved::Syntax(b) => panic!("not a program: {b:?}"),
        _ => panic!("lexical error"),
    }
    Ok(())
}

fn c23_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let p = gen::program(src, Cfg::new(f));
    let mut st = Style::random(src);
    st.fors = Choice::Always;
    let a = render(src, &p, &st);
    st.fors = Choice::Never;
    let b = render(src, &p, &st);
    ctx.input("with for", &a.text);
    ctx.input("with while where possible", &b.text);
    ctx.case(&a.text, a.used.fors > 0);
    if a.used.fors > b.used.fors {
        ctx.label("some loops written both ways");
    }
    let want = tree::no_locs(p);
    for (what, r) in [("with for", &a), ("with while", &b)] {
        let t = sut::parse(&r.text)?
            .map_err(|c| format!("{what}: rejected a program: {}", brief(&c)))?;
        let t = tree::no_locs(t);
        if t != want {
            return Err(tree::diff(what, &want, &t));
        }
    }
    let x = sut::front(&a.text)?.map(tree::no_locs);
    let y = sut::front(&b.text)?.map(tree::no_locs);
    match (x, y) {
        (Ok(x), Ok(y)) if x == y => Ok(()),
        (Ok(x), Ok(y)) => Err(tree::diff("resolved trees", &x, &y)),
        (x, y) => Err(format!("with for: {}; with while: {}", x.is_ok(), y.is_ok())),
    }
}

// -------------------------------------------------------------------- C24

fn drawn(src: &mut Src) -> Vec<S> {
    let m = *src.pick(&[0, 0, 50, 300]);
    if src.chance(1, 2) {
        few(src, m)
    } else {
        let f = fuel(src);
        let mut cfg = Cfg::new(f);
        cfg.mischief = m;
        gen::program(src, cfg)
    }
}

fn c24_annotates(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut p = drawn(src);
    if src.chance(1, 3) {
        // A map may only be the first statement.
        let more = few(src, 0);
        p.extend(more.into_iter().filter(|s| !matches!(s, S::Expr(E::Map(_)))));
    }
    let st = Style::random(src);
    let r = render(src, &p, &st);
    ctx.input("source", &r.text);
    only_annotates(ctx, &r.text)
}

fn only_annotates(ctx: &mut Ctx, text: &str) -> CaseResult {
    let Ok(parsed) = sut::parse(text)? else {
        ctx.case(text, false);
        return Ok(());
    };
    ctx.case(text, tree::size(&parsed) > 3);
    let Ok(t) = sut::front(text)? else {
        ctx.label("scoping errors");
        return Ok(());
    };
    ctx.label("accepted");
    let t = tree::no_anns(t);
    let parsed = tree::no_anns(parsed);
    if t != parsed {
        return Err(tree::diff("parsed and resolved trees", &parsed, &t));
    }
    Ok(())
}

/// Replaces every name by another, consistently.
struct ByName(Vec<String>, usize);

impl tree::Walk for ByName {
    fn var_name(&mut self, n: &mut String) {
        if n == "this" || n == "super" {
            return;
        }
        let i = match self.0.iter().position(|x| x == n) {
            Some(i) => i,
            None => {
                self.0.push(n.clone());
                self.0.len() - 1
            }
        };
        *n = fresh(i, self.1);
    }
}

const STYLES: usize = 16;

/// Different for every i, given the style.
fn fresh(i: usize, style: usize) -> String {
    const WORDS: [&str; 24] = [
        "self", "init", "clock", "len", "main", "length", "constructor", "undefined", "null",
        "__proto__", "toString", "arguments", "A", "T", "_", "__", "l", "O", "x", "i", "tmp",
        "function", "object", "é",
    ];
    match style {
        0 => format!("n{i}"),
        1 => format!("\u{e9}{i}_"),
        2 => format!("super{i}"),
        // Such that their order is reversed.
        3 => format!("z{}", 9999 - i),
        4 => format!("_{i}"),
        5 => "_".repeat(i + 1),
        6 => format!("N{i}"),
        7 => format!("{}{i}", "long".repeat(80)),
        8 => format!("this{i}"),
        9 => "x".repeat(i + 1),
        10 => format!("变量{i}"),
        11 => format!("e\u{301}{i}\u{301}"),
        12 => format!("K_{i}_"),
        // Words others might treat specially.
        _ => {
            let k = i * 7 + style;
            let w = WORDS[k % WORDS.len()];
            match i / WORDS.len() {
                0 => w.to_owned(),
                n => format!("{w}{n}"),
            }
        }
    }
}

/// Writes both programs with the same layout choices.
fn both(src: &mut Src, ctx: &mut Ctx, p: &[S], q: &[S]) -> Option<[crate::render::Rendered; 2]> {
    let st = Style::random(src);
    let from = src.log.len();
    let a = render(src, p, &st);
    let mut again = Src::replay(src.log[from..].to_vec(), src.index);
    let b = render(&mut again, q, &st);
    ctx.input("source", &a.text);
    ctx.input("renamed", &b.text);
    if a.toks.len() != b.toks.len() || again.log.len() != src.log.len() - from {
        // The layouts fell out differently.
        return None;
    }
    Some([a, b])
}

/// Errors by the number of the token they are at.
fn by_token(r: &crate::render::Rendered, c: &sut::Causes) -> Vec<Option<usize>> {
    let places = crate::refscan::Places::new(&r.text);
    c.iter()
        .map(|c| {
            let at = places.starts_at(c.loc)?;
            r.toks.iter().position(|t| t.0 == at)
        })
        .collect()
}

fn same_but_names(ctx: &mut Ctx, r: &[crate::render::Rendered; 2]) -> CaseResult {
    let a = sut::front(&r[0].text)?;
    let b = sut::front(&r[1].text)?;
    struct Blank;
    impl tree::Walk for Blank {
        fn var_name(&mut self, n: &mut String) {
            if n != "this" && n != "super" {
                n.clear();
            }
        }
        fn loc(&mut self, l: &mut Loc) {
            *l = Z;
        }
    }
    let blank = |mut t: Vec<S>| {
        tree::walk(&mut t, &mut Blank);
        t
    };
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ctx.label("accepted");
            let (a, b) = (blank(a), blank(b));
            if a != b {
                return Err(tree::diff("resolved trees", &a, &b));
            }
            Ok(())
        }
        (Err(a), Err(b)) => {
            ctx.label("rejected");
            let (x, y) = (by_token(&r[0], &a), by_token(&r[1], &b));
            if x != y || a.len() != b.len() {
                return Err(format!(
                    "before: [{}]; renamed: [{}] (tokens {x:?} and {y:?})",
                    brief(&a),
                    brief(&b)
                ));
            }
            Ok(())
        }
        (Ok(_), Err(c)) => Err(format!("rejected when renamed: {}", brief(&c))),
        (Err(c), Ok(_)) => Err(format!("accepted when renamed; before: {}", brief(&c))),
    }
}

fn c24_names(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = drawn(src);
    let mut q = p.clone();
    let mut w = ByName(vec![], src.idx(STYLES));
    tree::walk(&mut q, &mut w);
    let Some(r) = both(src, ctx, &p, &q) else {
        ctx.label("laid out differently");
        return Ok(());
    };
    ctx.case(&r[0].text, w.0.len() > 1);
    same_but_names(ctx, &r)
}

/// Gives every binding of a resolved program a name of its own.
struct Rebind {
    scopes: Vec<(usize, Vec<String>)>,
    next: usize,
    style: usize,
}

impl Rebind {
    fn name(&self, scope: usize, slot: usize) -> String {
        format!("{}_{slot}", fresh(scope, self.style))
    }

    fn enter(&mut self) {
        self.scopes.push((self.next, vec![]));
        self.next += 1;
    }

    fn special(&mut self, n: &str) {
        self.enter();
        self.scopes.last_mut().unwrap().1.push(n.into());
    }

    fn decl(&mut self, n: &mut String) {
        let s = self.scopes.last_mut().unwrap();
        let i = match s.1.iter().position(|x| x == n) {
            Some(i) => i,
            None => {
                s.1.push(n.clone());
                s.1.len() - 1
            }
        };
        let id = s.0;
        *n = self.name(id, i);
    }

    fn use_(&mut self, n: &mut String, a: &mut Ann) {
        if n == "this" || n == "super" {
            return;
        }
        let (d, i) = a.unwrap();
        let k = self.scopes.len() - 1 - d as usize;
        let s = &mut self.scopes[k];
        if s.1.len() == i as usize && k == 0 {
            // A global that is not declared yet.
            s.1.push(n.clone());
        }
        assert_eq!(s.1[i as usize], *n);
        let id = s.0;
        *n = self.name(id, i as usize);
    }

    fn fun(&mut self, f: &mut FunD) {
        self.enter();
        for (n, _) in &mut f.params {
            self.decl(n);
        }
        self.stmts(&mut f.body);
        self.scopes.pop();
    }

    fn stmts(&mut self, t: &mut [S]) {
        t.iter_mut().for_each(|s| self.stmt(s));
    }

    fn stmt(&mut self, s: &mut S) {
        match s {
            S::Block(b) => {
                self.enter();
                self.stmts(b);
                self.scopes.pop();
            }
            S::Break(_) | S::Continue(_) => (),
            S::Class(c) => {
                self.decl(&mut c.name);
                if let Some(e) = &mut c.sup {
                    self.expr(e);
                    self.special("super");
                }
                self.special("this");
                for (_, f) in &mut c.methods {
                    self.fun(f);
                }
                self.scopes.pop();
                if c.sup.is_some() {
                    self.scopes.pop();
                }
            }
            S::Expr(e) | S::Print(e) | S::Return(e, _) => self.expr(e),
            S::Fun(n, f) => {
                self.decl(n);
                self.fun(f);
            }
            S::If(c, t, e) => {
                self.expr(c);
                self.stmt(t);
                if let Some(e) = e {
                    self.stmt(e);
                }
            }
            S::Var(n, _, e, _) => {
                self.decl(n);
                self.expr(e);
            }
            S::While(c, b) => {
                self.expr(c);
                self.stmt(b);
            }
            S::WhileInc(c, b, i) => {
                self.expr(c);
                self.stmt(b);
                self.expr(i);
            }
        }
    }

    fn expr(&mut self, e: &mut E) {
        match e {
            E::Assign(n, a, v, _) => {
                self.expr(v);
                self.use_(n, a);
            }
            E::Var(n, a, _) => self.use_(n, a),
            E::Call(c, a, _) => {
                self.expr(c);
                a.iter_mut().for_each(|x| self.expr(x));
            }
            E::Bin(x, _, y, _) | E::Logic(x, _, y) | E::Index(x, y, _) => {
                self.expr(x);
                self.expr(y);
            }
            E::Fun(f) => self.fun(f),
            E::Get(x, _, _) | E::Group(x) | E::Un(_, x, _) => self.expr(x),
            E::Array(a) => a.iter_mut().for_each(|x| self.expr(x)),
            E::Map(m) => m.iter_mut().for_each(|(_, x)| self.expr(x)),
            E::Set(x, _, y, _) => {
                self.expr(x);
                self.expr(y);
            }
            E::SetIndex(x, y, z, _) => {
                self.expr(x);
                self.expr(y);
                self.expr(z);
            }
            E::Super(..) | E::Bool(_) | E::Num(_) | E::Nil | E::Str(_) => (),
        }
    }
}

fn c24_bindings(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = if src.chance(2, 3) {
        few(src, 0)
    } else {
        let f = fuel(src);
        gen::program(src, Cfg::new(f))
    };
    let mut q = p.clone();
    let mut rr = refresolve::Resolver::default();
    if let Err(o) = rr.resolve(&mut q) {
        panic!("the drawn program has offences {o:?}");
    }
    let mut w = Rebind {
        scopes: vec![],
        next: 0,
        style: src.idx(STYLES),
    };
    w.enter();
    w.stmts(&mut q);
    let q = tree::no_anns(q);
    let Some(r) = both(src, ctx, &p, &q) else {
        ctx.label("laid out differently");
        return Ok(());
    };
    ctx.case(&r[0].text, w.next > 2);
    same_but_names(ctx, &r)
}

fn c24_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (k, s) = big::big(src, &big::ALL, 150);
    big_case(ctx, k, &s);
    only_annotates(ctx, &s)
}
