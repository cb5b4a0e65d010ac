//! The code under test, with panics turned into failures.
use whitespace::ast as la;
use whitespace::error::ParseError;
use whitespace::resolver::Resolver;
use whitespace::scanner::Scanner;
use whitespace::token::TokenType as T;
use whitespace::{parser, resolver};

use crate::engine::guard;
use crate::refscan::{Tok, K};
use crate::tree::{self, Loc, E, S};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cause {
    pub loc: Loc,
    pub token: Option<String>,
    pub message: String,
}

pub type Causes = Vec<Cause>;

pub fn causes(e: &ParseError) -> Causes {
    e.causes
        .iter()
        .map(|c| Cause {
            loc: (
                u32::from(c.source_loc.line),
                u32::from(c.source_loc.column),
            ),
            token: c.token.clone(),
            message: c.message.clone(),
        })
        .collect()
}

/// Err: the code under test panicked or returned an error without a cause.
pub type Guarded<T> = Result<Result<T, Causes>, String>;

fn checked<T>(what: &str, r: Result<Result<T, ParseError>, String>) -> Guarded<T> {
    match r? {
        Ok(x) => Ok(Ok(x)),
        Err(e) => {
            let c = causes(&e);
            if c.is_empty() {
                return Err(format!("{what} returned an error without causes"));
            }
            Ok(Err(c))
        }
    }
}

pub fn kind(t: T) -> K {
    match t {
        T::Indent => K::Indent,
        T::Outdent => K::Outdent,
        T::Terminator => K::Term,
        T::LeftParen => K::LParen,
        T::LeftParenAbutting => K::LParenTouch,
        T::RightParen => K::RParen,
        T::LeftBrace => K::LBrace,
        T::RightBrace => K::RBrace,
        T::LeftBracket => K::LBracket,
        T::RightBracket => K::RBracket,
        T::Colon => K::Colon,
        T::Comma => K::Comma,
        T::Dot => K::Dot,
        T::Minus => K::Minus,
        T::Plus => K::Plus,
        T::Semicolon => K::Semi,
        T::Slash => K::Slash,
        T::Star => K::Star,
        T::Bang => K::Bang,
        T::BangEqual => K::BangEq,
        T::Equal => K::Eq,
        T::EqualEqual => K::EqEq,
        T::Greater => K::Gt,
        T::GreaterEqual => K::Ge,
        T::Less => K::Lt,
        T::LessEqual => K::Le,
        T::Identifier => K::Ident,
        T::String => K::Str,
        T::Number => K::Num,
        T::And => K::And,
        T::Break => K::Break,
        T::Class => K::Class,
        T::Continue => K::Continue,
        T::Else => K::Else,
        T::False => K::False,
        T::Fun => K::Fun,
        T::For => K::For,
        T::If => K::If,
        T::Nil => K::Nil,
        T::Or => K::Or,
        T::Print => K::Print,
        T::Return => K::Return,
        T::Super => K::Super,
        T::This => K::This,
        T::True => K::True,
        T::Var => K::Var,
        T::While => K::While,
        T::Eof => K::Eof,
    }
}

pub fn scan(src: &str) -> Guarded<Vec<Tok>> {
    let base = src.as_ptr() as usize;
    checked(
        "scanning",
        guard("scanning", || {
            let mut s = Scanner::new(src);
            s.scan_tokens().map(|ts| {
                ts.iter()
                    .map(|t| {
                        let p = t.lexeme.as_ptr() as usize;
                        // A lexeme is a part of the source.
                        let start = p.wrapping_sub(base);
                        Tok {
                            kind: kind(t.token_type),
                            start,
                            end: start.wrapping_add(t.lexeme.len()),
                            line: t.line,
                            col: u32::from(t.column),
                            text: t.lexeme.to_owned(),
                            string: t.string_literal.map(str::to_owned),
                            num: t.float_literal.map(f64::to_bits),
                        }
                    })
                    .collect()
            })
        }),
    )
}

pub fn parse_raw(src: &str) -> Guarded<Vec<la::Stmt>> {
    checked("parsing", guard("parsing", || parser::parse(src)))
}

pub fn parse_repl_raw(src: &str) -> Guarded<Vec<la::Stmt>> {
    checked("parse_repl_line", guard("parse_repl_line", || parser::parse_repl_line(src)))
}

pub fn parse_expr(src: &str) -> Guarded<E> {
    Ok(checked(
        "parse_expression",
        guard("parse_expression", || parser::parse_expression(src)),
    )?
    .map(|e| tree::expr(&e, false)))
}

pub fn parse(src: &str) -> Guarded<Vec<S>> {
    Ok(parse_raw(src)?.map(|s| tree::from_lib(&s, false)))
}

pub fn parse_repl(src: &str) -> Guarded<Vec<S>> {
    Ok(parse_repl_raw(src)?.map(|s| tree::from_lib(&s, false)))
}

pub fn resolve_raw(s: Vec<la::Stmt>) -> Guarded<Vec<la::Stmt>> {
    checked("resolving", guard("resolving", || resolver::resolve(s)))
        .map(|r| r.map(|c| c.statements))
}

pub fn resolve(s: Vec<la::Stmt>) -> Guarded<Vec<S>> {
    Ok(resolve_raw(s)?.map(|s| tree::from_lib(&s, true)))
}

/// Parsed and resolved.
pub fn front(src: &str) -> Guarded<Vec<S>> {
    match parse_raw(src)? {
        Err(c) => Ok(Err(c)),
        Ok(s) => resolve(s),
    }
}

pub fn resolve_with(r: &mut Resolver, s: Vec<la::Stmt>) -> Guarded<Vec<S>> {
    Ok(checked("resolving", guard("resolving", || r.resolve(s)))?
        .map(|c| tree::from_lib(&c.statements, true)))
}
