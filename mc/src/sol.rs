//! A small interpreter for the Solidity subset in which verifier contracts are written: structs,
//! libraries, fixed and dynamic memory arrays, loops, inline assembly. Memory is EVM memory (bytes,
//! allocated as the compiler does), so inline assembly sees the true layout. The typing rules that
//! decide whether such a contract compiles at all (implicit conversions, array literals, visibility,
//! mutability) are applied while executing.
use crate::big::{big, pow2, BigUint};
use num::bigint::{BigInt, Sign};
use num::{One, ToPrimitive, Zero};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Fault {
    /// execution reverts (or runs out of gas, or hits an invalid instruction)
    Revert(String),
    /// the compiler would reject the source
    Compile(String),
    /// valid or not, this interpreter cannot tell
    Unsupported(String),
    /// assembly return
    Halt(Vec<u8>),
}
type R<T> = Result<T, Fault>;
fn cerr<T>(s: impl Into<String>) -> R<T> {
    Err(Fault::Compile(s.into()))
}
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Fault::Unsupported(s.into()))
}
fn rev<T>(s: impl Into<String>) -> R<T> {
    Err(Fault::Revert(s.into()))
}

// ---------------------------------------------------------------- lexer
#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    Num(BigUint),
    Str(String),
    P(&'static str),
    End,
}
const PUNCT: &[&str] = &[
    ">>>=", "<<=", ">>=", "**", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "=>", "->", "<<", ">>",
    ":=", "(", ")", "{", "}", "[", "]", ";", ",", ".", "=", "<", ">", "+", "-", "*", "/", "%", "!", "?", ":", "&", "|", "^", "~",
];
fn lex(s: &str) -> R<Vec<Tok>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'o: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if s[i..].starts_with("/*") {
            match s[i + 2..].find("*/") {
                Some(k) => i += 2 + k + 2,
                None => return cerr("unterminated comment"),
            }
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push(Tok::Id(s[st..i].into()));
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let t: String = s[st..i].chars().filter(|c| *c != '_').collect();
            let v = if t.starts_with("0x") {
                BigUint::parse_bytes(t[2..].as_bytes(), 16)
            } else if let Some(k) = t.find(|c| c == 'e' || c == 'E') {
                match (BigUint::parse_bytes(t[..k].as_bytes(), 10), t[k + 1..].parse::<u32>()) {
                    (Some(m), Ok(e)) if e < 100 => Some(m * num::pow(big(10), e as usize)),
                    _ => None,
                }
            } else if t.len() > 1 && t.starts_with('0') {
                None
            } else {
                BigUint::parse_bytes(t.as_bytes(), 10)
            };
            match v {
                Some(v) => out.push(Tok::Num(v)),
                None => return cerr(format!("bad number {}", t)),
            }
        } else if c == b'"' || c == b'\'' {
            let st = i + 1;
            i += 1;
            while i < b.len() && b[i] != c {
                if b[i] == b'\n' {
                    return cerr("newline in string");
                }
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            if i >= b.len() {
                return cerr("unterminated string");
            }
            out.push(Tok::Str(s[st..i].into()));
            i += 1;
        } else {
            for p in PUNCT {
                if s[i..].starts_with(p) {
                    out.push(Tok::P(p));
                    i += p.len();
                    continue 'o;
                }
            }
            return cerr(format!("unexpected character {:?}", c as char));
        }
    }
    out.push(Tok::End);
    Ok(out)
}

// ---------------------------------------------------------------- syntax
#[derive(Debug, Clone)]
enum TyX {
    Uint(u32),
    Bool,
    Str,
    Path(Vec<String>),
    Arr(Box<TyX>, Option<Box<Expr>>),
}
#[derive(Debug, Clone)]
enum Expr {
    Lit(BigUint),
    Str(String),
    Bool(bool),
    Id(String),
    Ty(TyX),
    Mem(Box<Expr>, String),
    Index(Box<Expr>, Box<Expr>),
    Call(Box<Expr>, Vec<Expr>, Option<Vec<String>>),
    New(TyX, Vec<Expr>),
    Arr(Vec<Expr>),
    Tuple(Vec<Option<Expr>>),
    Un(&'static str, Box<Expr>),
    Step(bool, bool, Box<Expr>),
    Bin(&'static str, Box<Expr>, Box<Expr>),
    Cond(Box<Expr>, Box<Expr>, Box<Expr>),
    Assign(&'static str, Box<Expr>, Box<Expr>),
}
#[derive(Debug, Clone)]
enum Stmt {
    Decl(Vec<Option<(TyX, bool, String)>>, Option<Expr>),
    Expr(Expr),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>),
    For(Option<Box<Stmt>>, Option<Expr>, Option<Expr>, Box<Stmt>),
    While(Expr, Box<Stmt>),
    Do(Box<Stmt>, Expr),
    Return(Option<Expr>),
    Block(Vec<Stmt>, bool),
    Asm(Vec<Yul>),
    Break,
    Continue,
}
#[derive(Debug, Clone)]
enum Yx {
    Lit(BigUint),
    Id(String),
    Call(String, Vec<Yx>),
}
#[derive(Debug, Clone)]
enum Yul {
    Let(Vec<String>, Option<Yx>),
    Set(Vec<String>, Yx),
    Expr(Yx),
    If(Yx, Vec<Yul>),
    Switch(Yx, Vec<(BigUint, Vec<Yul>)>, Option<Vec<Yul>>),
    For(Vec<Yul>, Yx, Vec<Yul>, Vec<Yul>),
    Block(Vec<Yul>),
    Break,
    Continue,
    Leave,
}
#[derive(Debug, Clone)]
struct Param {
    ty: TyX,
    data: bool,
    name: String,
}
#[derive(Debug, Clone)]
struct Func {
    name: String,
    params: Vec<Param>,
    rets: Vec<Param>,
    vis: String,
    mutab: String,
    body: Option<Vec<Stmt>>,
}
#[derive(Debug, Clone, Default)]
struct Unit {
    kind: String,
    name: String,
    bases: Vec<String>,
    structs: HashMap<String, Vec<(TyX, String)>>,
    consts: HashMap<String, (TyX, Expr)>,
    funcs: Vec<Func>,
    using: Vec<(String, Option<TyX>)>,
}
#[derive(Debug, Clone)]
pub struct Source {
    units: Vec<Unit>,
    checked: bool,
}

struct Parser {
    t: Vec<Tok>,
    i: usize,
}
impl Parser {
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Tok::P(q) if *q == p)
    }
    fn isid(&self, p: &str) -> bool {
        matches!(self.peek(), Tok::Id(q) if q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p);
        if r {
            self.next();
        }
        r
    }
    fn eatid(&mut self, p: &str) -> bool {
        let r = self.isid(p);
        if r {
            self.next();
        }
        r
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            cerr(format!("expected {:?}, found {:?} (token {})", p, self.peek(), self.i))
        }
    }
    fn id(&mut self) -> R<String> {
        match self.next() {
            Tok::Id(s) => {
                const KW: &[&str] = &[
                    "if", "else", "for", "while", "do", "return", "function", "contract", "library", "struct", "memory", "storage", "calldata", "new", "true",
                    "false", "pragma", "returns", "constant", "public", "internal", "private", "external", "view", "pure", "break", "continue", "assembly",
                    "using", "delete", "is", "import", "mapping", "bool", "uint", "uint256", "string", "var", "switch", "case", "let", "default", "throw",
                ];
                if KW.contains(&s.as_str()) {
                    return cerr(format!("keyword {} where a name is needed", s));
                }
                Ok(s)
            }
            t => cerr(format!("expected a name, found {:?} (token {})", t, self.i)),
        }
    }
    fn elementary(s: &str) -> Option<R<TyX>> {
        if s == "bool" {
            return Some(Ok(TyX::Bool));
        }
        if s == "string" {
            return Some(Ok(TyX::Str));
        }
        if s == "uint" {
            return Some(Ok(TyX::Uint(256)));
        }
        if let Some(r) = s.strip_prefix("uint") {
            return r.parse::<u32>().ok().filter(|n| n % 8 == 0 && *n >= 8 && *n <= 256).map(|n| Ok(TyX::Uint(n)));
        }
        if s == "address" || s == "bytes" || s.starts_with("bytes") && s[5..].parse::<u32>().is_ok() || s == "int" || s.starts_with("int") && s[3..].parse::<u32>().is_ok() || s == "mapping" {
            return Some(unsup(format!("type {}", s)));
        }
        None
    }
    fn ty(&mut self) -> R<TyX> {
        let mut t = match self.peek().clone() {
            Tok::Id(s) => match Self::elementary(&s) {
                Some(e) => {
                    self.next();
                    e?
                }
                None => {
                    let mut p = vec![self.id()?];
                    while self.is(".") {
                        self.next();
                        p.push(self.id()?);
                    }
                    TyX::Path(p)
                }
            },
            t => return cerr(format!("expected a type, found {:?} (token {})", t, self.i)),
        };
        while self.is("[") {
            self.next();
            if self.eat("]") {
                t = TyX::Arr(Box::new(t), None);
            } else {
                let e = self.expr()?;
                self.want("]")?;
                t = TyX::Arr(Box::new(t), Some(Box::new(e)));
            }
        }
        Ok(t)
    }
    fn expr(&mut self) -> R<Expr> {
        let l = self.ternary()?;
        for op in ["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="].iter() {
            if self.is(op) {
                self.next();
                let r = self.expr()?;
                return Ok(Expr::Assign(&op[..op.len() - 1], Box::new(l), Box::new(r)));
            }
        }
        Ok(l)
    }
    fn ternary(&mut self) -> R<Expr> {
        let c = self.binary(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(Expr::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn binary(&mut self, lvl: usize) -> R<Expr> {
        const LV: &[&[&str]] =
            &[&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if lvl == LV.len() {
            return self.power();
        }
        let mut l = self.binary(lvl + 1)?;
        'o: loop {
            for op in LV[lvl] {
                if self.is(op) {
                    self.next();
                    let r = self.binary(lvl + 1)?;
                    l = Expr::Bin(op, Box::new(l), Box::new(r));
                    continue 'o;
                }
            }
            return Ok(l);
        }
    }
    fn power(&mut self) -> R<Expr> {
        let b = self.unary()?;
        if self.eat("**") {
            let e = self.power()?;
            return Ok(Expr::Bin("**", Box::new(b), Box::new(e)));
        }
        Ok(b)
    }
    fn unary(&mut self) -> R<Expr> {
        for op in ["!", "~", "-"].iter() {
            if self.is(op) {
                self.next();
                return Ok(Expr::Un(op, Box::new(self.unary()?)));
            }
        }
        for (op, up) in [("++", true), ("--", false)].iter() {
            if self.is(op) {
                self.next();
                return Ok(Expr::Step(*up, true, Box::new(self.unary()?)));
            }
        }
        if self.isid("delete") {
            return unsup("delete");
        }
        self.postfix()
    }
    fn args(&mut self) -> R<(Vec<Expr>, Option<Vec<String>>)> {
        self.want("(")?;
        if self.eat("{") {
            let (mut v, mut n) = (vec![], vec![]);
            while !self.is("}") {
                n.push(self.id()?);
                self.want(":")?;
                v.push(self.expr()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.want("}")?;
            self.want(")")?;
            return Ok((v, Some(n)));
        }
        let mut v = vec![];
        if !self.is(")") {
            loop {
                v.push(self.expr()?);
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.want(")")?;
        Ok((v, None))
    }
    fn postfix(&mut self) -> R<Expr> {
        let mut e = self.primary()?;
        loop {
            if self.eat(".") {
                let n = match self.next() {
                    Tok::Id(s) => s,
                    t => return cerr(format!("expected a member, found {:?}", t)),
                };
                e = Expr::Mem(Box::new(e), n);
            } else if self.is("[") {
                self.next();
                let i = self.expr()?;
                self.want("]")?;
                e = Expr::Index(Box::new(e), Box::new(i));
            } else if self.is("(") {
                let (a, n) = self.args()?;
                e = Expr::Call(Box::new(e), a, n);
            } else if self.eat("++") {
                e = Expr::Step(true, false, Box::new(e));
            } else if self.eat("--") {
                e = Expr::Step(false, false, Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
    fn primary(&mut self) -> R<Expr> {
        match self.peek().clone() {
            Tok::Num(n) => {
                self.next();
                Ok(Expr::Lit(n))
            }
            Tok::Str(s) => {
                self.next();
                Ok(Expr::Str(s))
            }
            Tok::P("(") => {
                self.next();
                let mut v = vec![];
                let mut commas = 0;
                loop {
                    if self.is(")") {
                        if commas > 0 {
                            v.push(None);
                        }
                        break;
                    }
                    if self.is(",") {
                        v.push(None);
                    } else {
                        v.push(Some(self.expr()?));
                    }
                    if !self.eat(",") {
                        break;
                    }
                    commas += 1;
                }
                self.want(")")?;
                if v.len() == 1 {
                    if let Some(Some(e)) = v.pop() {
                        return Ok(e);
                    }
                }
                Ok(Expr::Tuple(v))
            }
            Tok::P("[") => {
                self.next();
                let mut v = vec![];
                loop {
                    v.push(self.expr()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                self.want("]")?;
                Ok(Expr::Arr(v))
            }
            Tok::Id(s) => match s.as_str() {
                "true" => {
                    self.next();
                    Ok(Expr::Bool(true))
                }
                "false" => {
                    self.next();
                    Ok(Expr::Bool(false))
                }
                "new" => {
                    self.next();
                    let t = self.ty()?;
                    let (a, _) = self.args()?;
                    Ok(Expr::New(t, a))
                }
                "type" => unsup("type(...)"),
                _ => match Self::elementary(&s) {
                    Some(t) => {
                        self.next();
                        Ok(Expr::Ty(t?))
                    }
                    None => Ok(Expr::Id(self.id()?)),
                },
            },
            t => cerr(format!("unexpected {:?} in an expression (token {})", t, self.i)),
        }
    }
    fn location(&mut self) -> R<bool> {
        if self.eatid("memory") {
            return Ok(true);
        }
        if self.eatid("calldata") {
            return Ok(true);
        }
        if self.isid("storage") {
            return unsup("storage references");
        }
        Ok(false)
    }
    fn try_decl(&mut self) -> Option<(TyX, bool, String)> {
        let s = self.i;
        let r = (|| {
            let t = self.ty().ok()?;
            let l = self.location().ok()?;
            let n = self.id().ok()?;
            if self.is("=") || self.is(";") || self.is(",") || self.is(")") {
                Some((t, l, n))
            } else {
                None
            }
        })();
        if r.is_none() {
            self.i = s;
        }
        r
    }
    fn simple(&mut self) -> R<Stmt> {
        if let Some(d) = self.try_decl() {
            let e = if self.eat("=") { Some(self.expr()?) } else { None };
            return Ok(Stmt::Decl(vec![Some(d)], e));
        }
        if self.is("(") {
            let s = self.i;
            self.next();
            let mut v = vec![];
            let mut ok = true;
            let mut some = false;
            loop {
                if self.is(",") || self.is(")") {
                    v.push(None);
                } else if let Some(d) = self.try_decl() {
                    v.push(Some(d));
                    some = true;
                } else {
                    ok = false;
                    break;
                }
                if !self.eat(",") {
                    break;
                }
            }
            if ok && some && self.eat(")") && self.eat("=") {
                let e = self.expr()?;
                return Ok(Stmt::Decl(v, Some(e)));
            }
            self.i = s;
        }
        Ok(Stmt::Expr(self.expr()?))
    }
    fn block(&mut self) -> R<Vec<Stmt>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.is("}") {
            v.push(self.stmt()?);
        }
        self.next();
        Ok(v)
    }
    fn stmt(&mut self) -> R<Stmt> {
        if self.is("{") {
            return Ok(Stmt::Block(self.block()?, false));
        }
        if let Tok::Id(s) = self.peek().clone() {
            match s.as_str() {
                "unchecked" => {
                    self.next();
                    return Ok(Stmt::Block(self.block()?, true));
                }
                "if" => {
                    self.next();
                    self.want("(")?;
                    let c = self.expr()?;
                    self.want(")")?;
                    let a = self.stmt()?;
                    let b = if self.eatid("else") { Some(Box::new(self.stmt()?)) } else { None };
                    return Ok(Stmt::If(c, Box::new(a), b));
                }
                "for" => {
                    self.next();
                    self.want("(")?;
                    let i = if self.is(";") { None } else { Some(Box::new(self.simple()?)) };
                    self.want(";")?;
                    let c = if self.is(";") { None } else { Some(self.expr()?) };
                    self.want(";")?;
                    let p = if self.is(")") { None } else { Some(self.expr()?) };
                    self.want(")")?;
                    return Ok(Stmt::For(i, c, p, Box::new(self.stmt()?)));
                }
                "while" => {
                    self.next();
                    self.want("(")?;
                    let c = self.expr()?;
                    self.want(")")?;
                    return Ok(Stmt::While(c, Box::new(self.stmt()?)));
                }
                "do" => {
                    self.next();
                    let b = self.stmt()?;
                    if !self.eatid("while") {
                        return cerr("do without while");
                    }
                    self.want("(")?;
                    let c = self.expr()?;
                    self.want(")")?;
                    self.want(";")?;
                    return Ok(Stmt::Do(Box::new(b), c));
                }
                "return" => {
                    self.next();
                    let e = if self.is(";") { None } else { Some(self.expr()?) };
                    self.want(";")?;
                    return Ok(Stmt::Return(e));
                }
                "break" | "continue" => {
                    self.next();
                    self.want(";")?;
                    return Ok(if s == "break" { Stmt::Break } else { Stmt::Continue });
                }
                "assembly" => {
                    self.next();
                    if let Tok::Str(_) = self.peek() {
                        self.next();
                    }
                    return Ok(Stmt::Asm(self.yblock()?));
                }
                "emit" | "try" | "throw" | "_" => return unsup(s),
                _ => {}
            }
        }
        let s = self.simple()?;
        self.want(";")?;
        Ok(s)
    }
    fn yblock(&mut self) -> R<Vec<Yul>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.is("}") {
            v.push(self.yul()?);
        }
        self.next();
        Ok(v)
    }
    fn yid(&mut self) -> R<String> {
        match self.next() {
            Tok::Id(s) => {
                let mut s = s;
                while self.is(".") {
                    self.next();
                    if let Tok::Id(t) = self.next() {
                        s = format!("{}.{}", s, t);
                    }
                }
                Ok(s)
            }
            t => cerr(format!("expected a name in assembly, found {:?}", t)),
        }
    }
    fn yx(&mut self) -> R<Yx> {
        match self.peek().clone() {
            Tok::Num(n) => {
                self.next();
                if n >= pow2(256) {
                    return cerr("number too large in assembly");
                }
                Ok(Yx::Lit(n))
            }
            Tok::Id(s) if s == "true" || s == "false" => {
                self.next();
                Ok(Yx::Lit(big((s == "true") as u64)))
            }
            Tok::Id(_) => {
                let n = self.yid()?;
                if self.eat("(") {
                    let mut v = vec![];
                    if !self.is(")") {
                        loop {
                            v.push(self.yx()?);
                            if !self.eat(",") {
                                break;
                            }
                        }
                    }
                    self.want(")")?;
                    return Ok(Yx::Call(n, v));
                }
                Ok(Yx::Id(n))
            }
            Tok::Str(_) => unsup("string in assembly"),
            t => cerr(format!("unexpected {:?} in assembly", t)),
        }
    }
    fn yul(&mut self) -> R<Yul> {
        if self.is("{") {
            return Ok(Yul::Block(self.yblock()?));
        }
        if let Tok::Id(s) = self.peek().clone() {
            match s.as_str() {
                "let" => {
                    self.next();
                    let mut n = vec![self.yid()?];
                    while self.eat(",") {
                        n.push(self.yid()?);
                    }
                    let e = if self.eat(":=") { Some(self.yx()?) } else { None };
                    return Ok(Yul::Let(n, e));
                }
                "if" => {
                    self.next();
                    let c = self.yx()?;
                    return Ok(Yul::If(c, self.yblock()?));
                }
                "for" => {
                    self.next();
                    let i = self.yblock()?;
                    let c = self.yx()?;
                    let p = self.yblock()?;
                    return Ok(Yul::For(i, c, p, self.yblock()?));
                }
                "switch" => {
                    self.next();
                    let e = self.yx()?;
                    let mut v = vec![];
                    let mut d = None;
                    while self.eatid("case") {
                        match self.yx()? {
                            Yx::Lit(n) => v.push((n, self.yblock()?)),
                            _ => return cerr("case needs a literal"),
                        }
                    }
                    if self.eatid("default") {
                        d = Some(self.yblock()?);
                    }
                    if v.is_empty() && d.is_none() {
                        return cerr("switch without cases");
                    }
                    return Ok(Yul::Switch(e, v, d));
                }
                "break" => {
                    self.next();
                    return Ok(Yul::Break);
                }
                "continue" => {
                    self.next();
                    return Ok(Yul::Continue);
                }
                "leave" => {
                    self.next();
                    return Ok(Yul::Leave);
                }
                "function" => return unsup("assembly function"),
                _ => {}
            }
        }
        let e = self.yx()?;
        match e {
            Yx::Id(n) => {
                let mut v = vec![n];
                while self.eat(",") {
                    v.push(self.yid()?);
                }
                self.want(":=")?;
                Ok(Yul::Set(v, self.yx()?))
            }
            Yx::Call(..) => Ok(Yul::Expr(e)),
            _ => cerr("a literal is not a statement"),
        }
    }
    fn params(&mut self) -> R<Vec<Param>> {
        self.want("(")?;
        let mut v = vec![];
        if !self.is(")") {
            loop {
                let ty = self.ty()?;
                let data = self.location()?;
                let name = if self.is(",") || self.is(")") { String::new() } else { self.id()? };
                v.push(Param { ty, data, name });
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.want(")")?;
        Ok(v)
    }
    fn func(&mut self) -> R<Func> {
        let name = self.id()?;
        let params = self.params()?;
        let (mut vis, mut mutab, mut rets) = (String::new(), String::new(), vec![]);
        loop {
            if self.is("{") {
                return Ok(Func { name, params, rets, vis, mutab, body: Some(self.block()?) });
            }
            if self.eat(";") {
                return Ok(Func { name, params, rets, vis, mutab, body: None });
            }
            match self.next() {
                Tok::Id(s) => match s.as_str() {
                    "public" | "external" | "internal" | "private" => {
                        if !vis.is_empty() {
                            return cerr("two visibilities");
                        }
                        vis = s
                    }
                    "view" | "pure" | "payable" => {
                        if !mutab.is_empty() {
                            return cerr("two mutabilities");
                        }
                        mutab = s
                    }
                    "returns" => rets = self.params()?,
                    "virtual" | "override" => {}
                    _ => return unsup(format!("modifier {}", s)),
                },
                t => return cerr(format!("unexpected {:?} in a function header", t)),
            }
        }
    }
    fn structdef(&mut self) -> R<(String, Vec<(TyX, String)>)> {
        let n = self.id()?;
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            let t = self.ty()?;
            v.push((t, self.id()?));
            self.want(";")?;
        }
        if v.is_empty() {
            return cerr("empty struct");
        }
        Ok((n, v))
    }
    fn source(&mut self) -> R<Source> {
        let mut units: Vec<Unit> = vec![Unit { kind: "file".into(), ..Default::default() }];
        let mut checked = false;
        loop {
            match self.next() {
                Tok::End => break,
                Tok::Id(k) => match k.as_str() {
                    "pragma" => {
                        let mut txt = vec![];
                        while !self.is(";") {
                            match self.next() {
                                Tok::End => return cerr("unterminated pragma"),
                                t => txt.push(t),
                            }
                        }
                        self.next();
                        // ^ 0 . 8 . 0  (the lexer keeps the pieces apart)
                        let nums: Vec<u64> = txt
                            .iter()
                            .filter_map(|t| match t {
                                Tok::Num(n) => n.to_u64(),
                                _ => None,
                            })
                            .collect();
                        if txt.first() == Some(&Tok::Id("solidity".into())) && nums.len() >= 2 && nums[0] == 0 && nums[1] >= 8 {
                            checked = true;
                        }
                    }
                    "library" | "contract" => {
                        let mut u = Unit { kind: k.clone(), name: self.id()?, ..Default::default() };
                        if self.eatid("is") {
                            loop {
                                u.bases.push(self.id()?);
                                if !self.eat(",") {
                                    break;
                                }
                            }
                        }
                        self.want("{")?;
                        while !self.eat("}") {
                            if self.eatid("struct") {
                                let (n, v) = self.structdef()?;
                                if u.structs.insert(n, v).is_some() {
                                    return cerr("struct declared twice");
                                }
                            } else if self.eatid("function") {
                                let f = self.func()?;
                                if f.vis.is_empty() {
                                    return cerr(format!("no visibility for {}", f.name));
                                }
                                if f.body.is_none() {
                                    return unsup("abstract function");
                                }
                                u.funcs.push(f);
                            } else if self.eatid("using") {
                                let l = self.id()?;
                                if !self.eatid("for") {
                                    return cerr("using without for");
                                }
                                let t = if self.eat("*") { None } else { Some(self.ty()?) };
                                self.want(";")?;
                                u.using.push((l, t));
                            } else if self.eatid("event") {
                                while !self.eat(";") {
                                    if self.next() == Tok::End {
                                        return cerr("unterminated event");
                                    }
                                }
                            } else if self.isid("constructor") || self.isid("modifier") || self.isid("enum") || self.isid("receive") || self.isid("fallback") {
                                return unsup(format!("{:?}", self.peek()));
                            } else {
                                let t = self.ty()?;
                                let mut c = false;
                                while let Tok::Id(s) = self.peek().clone() {
                                    match s.as_str() {
                                        "constant" => c = true,
                                        "public" | "private" | "internal" => {}
                                        "immutable" => return unsup("immutable"),
                                        _ => break,
                                    }
                                    self.next();
                                }
                                let n = self.id()?;
                                if !c {
                                    return unsup("state variable");
                                }
                                self.want("=")?;
                                let e = self.expr()?;
                                self.want(";")?;
                                if u.consts.insert(n, (t, e)).is_some() {
                                    return cerr("constant declared twice");
                                }
                            }
                        }
                        if units.iter().any(|x| x.name == u.name) {
                            return cerr("unit declared twice");
                        }
                        units.push(u);
                    }
                    "struct" => {
                        let (n, v) = self.structdef()?;
                        units[0].structs.insert(n, v);
                    }
                    "interface" | "abstract" | "import" | "enum" | "function" => return unsup(k),
                    _ => return cerr(format!("unexpected {} at file level", k)),
                },
                t => return cerr(format!("unexpected {:?} at file level", t)),
            }
        }
        Ok(Source { units, checked })
    }
}
pub fn parse(s: &str) -> R<Source> {
    let mut p = Parser { t: lex(s)?, i: 0 };
    p.source()
}

// ---------------------------------------------------------------- execution
#[derive(Debug, Clone, PartialEq)]
enum Ty {
    Uint(u32),
    Bool,
    Str,
    Struct(usize, String),
    Arr(Box<Ty>, Option<usize>),
}
impl Ty {
    fn is_ref(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..))
    }
}
#[derive(Debug, Clone)]
enum Val {
    Lit(BigInt),
    U(u32, BigUint),
    B(bool),
    S,
    Ptr(Ty, usize),
    Ty(Ty),
    Unit(usize),
    Fn(usize, String, Option<Box<Val>>),
    Built(String),
    Tup(Vec<Val>),
}
struct Frame {
    unit: usize,
    scopes: Vec<HashMap<String, (Ty, Val)>>,
    rets: Vec<(Ty, String)>,
    unchecked: bool,
}
enum Flow {
    Next,
    Break,
    Continue,
    Return(Val),
}
/// answers a static call: address, gas, input -> output
pub type Call<'a> = dyn Fn(&BigUint, &BigUint, &[u8]) -> Option<Vec<u8>> + 'a;

pub struct Vm<'a> {
    src: &'a Source,
    call: &'a Call<'a>,
    mem: RefCell<Vec<u8>>,
    steps: Cell<u64>,
    pure_depth: Cell<u32>,
    retdata: RefCell<Vec<u8>>,
    depth: Cell<u32>,
    pub calls: Cell<u64>,
}
const MEM_MAX: usize = 4 << 20;
impl<'a> Vm<'a> {
    pub fn new(src: &'a Source, call: &'a Call<'a>) -> Self {
        let vm = Vm {
            src,
            call,
            mem: RefCell::new(vec![]),
            steps: Cell::new(0),
            pure_depth: Cell::new(0),
            retdata: RefCell::new(vec![]),
            depth: Cell::new(0),
            calls: Cell::new(0),
        };
        vm.put(0x40, &big(0x80)).unwrap();
        vm
    }
    fn step(&self) -> R<()> {
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > 2_000_000 {
            return rev("out of gas");
        }
        Ok(())
    }
    fn touch(&self, at: usize, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if at > MEM_MAX || n > MEM_MAX || at + n > MEM_MAX {
            return rev("out of gas (memory)");
        }
        let mut m = self.mem.borrow_mut();
        let e = (at + n + 31) / 32 * 32;
        if m.len() < e {
            m.resize(e, 0);
        }
        Ok(())
    }
    fn get(&self, at: usize) -> R<BigUint> {
        self.touch(at, 32)?;
        Ok(BigUint::from_bytes_be(&self.mem.borrow()[at..at + 32]))
    }
    fn put(&self, at: usize, v: &BigUint) -> R<()> {
        self.touch(at, 32)?;
        let b = v.to_bytes_be();
        let mut m = self.mem.borrow_mut();
        for x in &mut m[at..at + 32] {
            *x = 0;
        }
        m[at + 32 - b.len()..at + 32].copy_from_slice(&b);
        Ok(())
    }
    fn read(&self, at: &BigUint, n: &BigUint) -> R<Vec<u8>> {
        let n = n.to_usize().unwrap_or(usize::MAX);
        if n == 0 {
            return Ok(vec![]);
        }
        let at = at.to_usize().unwrap_or(usize::MAX);
        self.touch(at, n)?;
        Ok(self.mem.borrow()[at..at + n].to_vec())
    }
    fn alloc(&self, n: usize) -> R<usize> {
        let p = self.get(0x40)?.to_usize().unwrap_or(usize::MAX);
        self.touch(p, n)?;
        self.put(0x40, &big((p + n) as u64))?;
        for x in &mut self.mem.borrow_mut()[p..p + n] {
            *x = 0;
        }
        Ok(p)
    }
    fn fields(&self, u: usize, n: &str) -> R<Vec<(Ty, String)>> {
        self.src.units[u].structs[n].iter().map(|(t, m)| Ok((self.ty(u, t)?, m.clone()))).collect()
    }
    /// zero value of a type in memory
    fn zero(&self, t: &Ty) -> R<Val> {
        Ok(match t {
            Ty::Uint(b) => Val::U(*b, big(0)),
            Ty::Bool => Val::B(false),
            Ty::Str => Val::S,
            Ty::Struct(u, n) => {
                let f = self.fields(*u, n)?;
                let p = self.alloc(32 * f.len())?;
                for (i, (t, _)) in f.iter().enumerate() {
                    let v = self.zero(t)?;
                    self.store(p + 32 * i, &v)?;
                }
                Val::Ptr(t.clone(), p)
            }
            Ty::Arr(e, Some(n)) => {
                let p = self.alloc(32 * n)?;
                for i in 0..*n {
                    let v = self.zero(e)?;
                    self.store(p + 32 * i, &v)?;
                }
                Val::Ptr(t.clone(), p)
            }
            Ty::Arr(_, None) => Val::Ptr(t.clone(), 0x60),
        })
    }
    fn store(&self, at: usize, v: &Val) -> R<()> {
        let w = self.word(v)?;
        self.put(at, &w)
    }
    fn word(&self, v: &Val) -> R<BigUint> {
        Ok(match v {
            Val::U(_, x) => x.clone(),
            Val::B(b) => big(*b as u64),
            Val::Ptr(_, p) => big(*p as u64),
            Val::Lit(i) => match i.to_biguint() {
                Some(x) if x < pow2(256) => x,
                _ => return cerr("literal out of range"),
            },
            Val::S => return unsup("string in memory"),
            _ => return cerr("not a value"),
        })
    }
    fn load(&self, at: usize, t: &Ty) -> R<Val> {
        let w = self.get(at)?;
        self.from_word(t, w)
    }
    fn from_word(&self, t: &Ty, w: BigUint) -> R<Val> {
        Ok(match t {
            Ty::Uint(b) => Val::U(*b, w % pow2(*b as usize)),
            Ty::Bool => Val::B(!w.is_zero()),
            Ty::Str => return unsup("string in memory"),
            _ => Val::Ptr(t.clone(), w.to_usize().unwrap_or(usize::MAX)),
        })
    }
    fn unit(&self, n: &str) -> Option<usize> {
        self.src.units.iter().position(|u| u.name == n && u.kind != "file")
    }
    /// the unit, its bases, the file
    fn lookup(&self, u: usize) -> Vec<usize> {
        let mut v = vec![u];
        let mut i = 0;
        while i < v.len() {
            for b in self.src.units[v[i]].bases.iter() {
                if let Some(k) = self.unit(b) {
                    if !v.contains(&k) {
                        v.push(k);
                    }
                }
            }
            i += 1;
        }
        if !v.contains(&0) {
            v.push(0);
        }
        v
    }
    fn ty(&self, u: usize, t: &TyX) -> R<Ty> {
        Ok(match t {
            TyX::Uint(b) => Ty::Uint(*b),
            TyX::Bool => Ty::Bool,
            TyX::Str => Ty::Str,
            TyX::Arr(e, n) => {
                let e = self.ty(u, e)?;
                match n {
                    None => Ty::Arr(Box::new(e), None),
                    Some(x) => {
                        let mut f = Frame { unit: u, scopes: vec![], rets: vec![], unchecked: false };
                        let n = match self.eval(&mut f, x)? {
                            Val::Lit(i) => i.to_usize(),
                            Val::U(_, i) => i.to_usize(),
                            _ => None,
                        };
                        match n {
                            Some(0) => return cerr("array with zero length specified"),
                            Some(n) if n < 100000 => Ty::Arr(Box::new(e), Some(n)),
                            _ => return cerr("invalid array length"),
                        }
                    }
                }
            }
            TyX::Path(p) => match p.len() {
                1 => {
                    for k in self.lookup(u) {
                        if self.src.units[k].structs.contains_key(&p[0]) {
                            return Ok(Ty::Struct(k, p[0].clone()));
                        }
                    }
                    return cerr(format!("unknown type {}", p[0]));
                }
                2 => match self.unit(&p[0]) {
                    Some(k) => {
                        for k in self.lookup(k) {
                            if self.src.units[k].structs.contains_key(&p[1]) {
                                return Ok(Ty::Struct(k, p[1].clone()));
                            }
                        }
                        return cerr(format!("unknown type {}", p.join(".")));
                    }
                    None => return cerr(format!("unknown type {}", p.join("."))),
                },
                _ => return cerr("unknown type"),
            },
        })
    }
    fn mobile(&self, v: &Val) -> R<Ty> {
        Ok(match v {
            Val::U(b, _) => Ty::Uint(*b),
            Val::B(_) => Ty::Bool,
            Val::S => Ty::Str,
            Val::Ptr(t, _) => t.clone(),
            Val::Lit(i) => {
                if i.sign() == Sign::Minus {
                    return unsup("negative number");
                }
                let bits = ((i.bits().max(1) as u32) + 7) / 8 * 8;
                if bits > 256 {
                    return cerr("literal too large");
                }
                Ty::Uint(bits)
            }
            _ => return cerr("not a value"),
        })
    }
    fn convertible(&self, v: &Val, t: &Ty) -> bool {
        match (v, t) {
            (Val::Lit(i), Ty::Uint(b)) => i.sign() != Sign::Minus && i.bits() as u32 <= *b,
            (Val::U(a, _), Ty::Uint(b)) => a <= b,
            (Val::B(_), Ty::Bool) => true,
            (Val::S, Ty::Str) => true,
            (Val::Ptr(a, _), b) => a == b,
            _ => false,
        }
    }
    fn convert(&self, v: Val, t: &Ty) -> R<Val> {
        if !self.convertible(&v, t) {
            return cerr(format!("no implicit conversion of {:?} to {:?}", v, t));
        }
        Ok(match (v, t) {
            (Val::Lit(i), Ty::Uint(b)) => Val::U(*b, i.to_biguint().unwrap()),
            (Val::U(_, x), Ty::Uint(b)) => Val::U(*b, x),
            (v, _) => v,
        })
    }
    fn num(&self, v: Val) -> R<(u32, BigUint)> {
        match v {
            Val::U(b, x) => Ok((b, x)),
            Val::Lit(_) => match self.mobile(&v)? {
                Ty::Uint(b) => match v {
                    Val::Lit(i) => Ok((b, i.to_biguint().unwrap())),
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            },
            _ => cerr(format!("{:?} is not a number", v)),
        }
    }
    fn boolean(&self, v: Val) -> R<bool> {
        match v {
            Val::B(b) => Ok(b),
            v => cerr(format!("{:?} is not a boolean", v)),
        }
    }
    fn find_fn(&self, u: usize, n: &str) -> Option<usize> {
        self.lookup(u).into_iter().find(|k| self.src.units[*k].funcs.iter().any(|f| f.name == n))
    }
    fn local<'f>(&self, f: &'f Frame, n: &str) -> Option<&'f (Ty, Val)> {
        f.scopes.iter().rev().find_map(|s| s.get(n))
    }
    fn constant(&self, u: usize, n: &str) -> R<Option<Val>> {
        for k in self.lookup(u) {
            if let Some((t, e)) = self.src.units[k].consts.get(n) {
                let ty = self.ty(k, t)?;
                let mut f = Frame { unit: k, scopes: vec![], rets: vec![], unchecked: false };
                let v = self.eval(&mut f, e)?;
                return Ok(Some(self.convert(v, &ty)?));
            }
        }
        Ok(None)
    }
    fn ident(&self, f: &Frame, n: &str) -> R<Val> {
        if let Some((_, v)) = self.local(f, n) {
            return Ok(v.clone());
        }
        if let Some(v) = self.constant(f.unit, n)? {
            return Ok(v);
        }
        if let Some(k) = self.find_fn(f.unit, n) {
            return Ok(Val::Fn(k, n.into(), None));
        }
        for k in self.lookup(f.unit) {
            if self.src.units[k].structs.contains_key(n) {
                return Ok(Val::Ty(Ty::Struct(k, n.into())));
            }
        }
        if let Some(k) = self.unit(n) {
            return Ok(Val::Unit(k));
        }
        match n {
            "require" | "assert" | "revert" | "addmod" | "mulmod" | "gasleft" => Ok(Val::Built(n.into())),
            "this" | "msg" | "block" | "tx" | "abi" | "keccak256" | "sha256" | "now" | "super" => unsup(n),
            _ => cerr(format!("undeclared identifier {}", n)),
        }
    }
    fn elem(&self, v: &Val, i: Val) -> R<(usize, Ty)> {
        let (t, p) = match v {
            Val::Ptr(Ty::Arr(e, n), p) => ((**e).clone(), (*p, *n)),
            _ => return cerr(format!("{:?} cannot be indexed", v)),
        };
        let constant = matches!(i, Val::Lit(_));
        let (_, i) = self.num(i)?;
        let (base, len) = match p.1 {
            Some(n) => (p.0, big(n as u64)),
            None => (p.0 + 32, self.get(p.0)?),
        };
        if i >= len {
            if constant && p.1.is_some() {
                return cerr("constant index out of bounds");
            }
            return rev("index out of bounds");
        }
        Ok((base + 32 * i.to_usize().unwrap(), t))
    }
    fn member(&self, v: &Val, n: &str) -> R<Option<(usize, Ty)>> {
        if let Val::Ptr(Ty::Struct(u, s), p) = v {
            for (i, (t, m)) in self.fields(*u, s)?.into_iter().enumerate() {
                if m == n {
                    return Ok(Some((*p + 32 * i, t)));
                }
            }
        }
        Ok(None)
    }
    fn eval(&self, f: &mut Frame, e: &Expr) -> R<Val> {
        self.step()?;
        match e {
            Expr::Lit(n) => Ok(Val::Lit(BigInt::from(n.clone()))),
            Expr::Str(_) => Ok(Val::S),
            Expr::Bool(b) => Ok(Val::B(*b)),
            Expr::Id(n) => self.ident(f, n),
            Expr::Ty(t) => Ok(Val::Ty(self.ty(f.unit, t)?)),
            Expr::Mem(b, n) => {
                let v = self.eval(f, b)?;
                match &v {
                    Val::Unit(u) => {
                        if self.src.units[*u].kind != "library" && *u != f.unit && !self.lookup(f.unit).contains(u) {
                            // constants and structs of other contracts may be named, functions not
                            if self.find_fn(*u, n).is_some() {
                                return cerr("function of another contract");
                            }
                        }
                        if let Some(c) = self.constant(*u, n)? {
                            return Ok(c);
                        }
                        for k in self.lookup(*u) {
                            if self.src.units[k].structs.contains_key(n) {
                                return Ok(Val::Ty(Ty::Struct(k, n.clone())));
                            }
                        }
                        match self.find_fn(*u, n) {
                            Some(k) => Ok(Val::Fn(k, n.clone(), None)),
                            None => cerr(format!("no member {} in {}", n, self.src.units[*u].name)),
                        }
                    }
                    Val::Ptr(Ty::Arr(_, len), p) if n == "length" => Ok(match len {
                        Some(k) => Val::U(256, big(*k as u64)),
                        None => Val::U(256, self.get(*p)?),
                    }),
                    Val::Ptr(..) | Val::U(..) | Val::B(_) => {
                        if let Some((at, t)) = self.member(&v, n)? {
                            return self.load(at, &t);
                        }
                        for k in self.lookup(f.unit) {
                            for (l, t) in self.src.units[k].using.iter() {
                                let u = match self.unit(l) {
                                    Some(u) => u,
                                    None => return cerr(format!("unknown library {}", l)),
                                };
                                if let Some(t) = t {
                                    if !self.convertible(&v, &self.ty(k, t)?) {
                                        continue;
                                    }
                                }
                                if self.src.units[u].funcs.iter().any(|g| g.name == *n) {
                                    return Ok(Val::Fn(u, n.clone(), Some(Box::new(v))));
                                }
                            }
                        }
                        cerr(format!("no member {}", n))
                    }
                    _ => cerr(format!("no member {}", n)),
                }
            }
            Expr::Index(b, i) => {
                let v = self.eval(f, b)?;
                if let Val::Ty(t) = v {
                    // a type name such as uint256[2]
                    return match self.eval(f, i)? {
                        Val::Lit(n) => Ok(Val::Ty(Ty::Arr(Box::new(t), n.to_usize()))),
                        _ => cerr("array length"),
                    };
                }
                let i = self.eval(f, i)?;
                let (at, t) = self.elem(&v, i)?;
                self.load(at, &t)
            }
            Expr::Arr(v) => {
                let vals: Vec<Val> = v.iter().map(|x| self.eval(f, x)).collect::<R<_>>()?;
                let mut t = self.mobile(&vals[0])?;
                for x in &vals[1..] {
                    let m = self.mobile(x)?;
                    t = match (&t, &m) {
                        (Ty::Uint(a), Ty::Uint(b)) => Ty::Uint(*a.max(b)),
                        (a, b) if a == b => t,
                        _ => return cerr("array literal without a common type"),
                    };
                }
                let p = self.alloc(32 * vals.len())?;
                for (i, x) in vals.iter().enumerate() {
                    self.store(p + 32 * i, &self.convert(x.clone(), &t)?)?;
                }
                Ok(Val::Ptr(Ty::Arr(Box::new(t), Some(vals.len())), p))
            }
            Expr::New(t, a) => {
                let t = self.ty(f.unit, t)?;
                match (&t, a.len()) {
                    (Ty::Arr(e, None), 1) => {
                        let n = self.eval(f, &a[0])?;
                        let (_, n) = self.num(n)?;
                        let n = match n.to_usize() {
                            Some(n) if n < 100000 => n,
                            _ => return rev("out of gas (allocation)"),
                        };
                        let p = self.alloc(32 * (n + 1))?;
                        self.put(p, &big(n as u64))?;
                        for i in 0..n {
                            let z = self.zero(e)?;
                            self.store(p + 32 + 32 * i, &z)?;
                        }
                        Ok(Val::Ptr(t, p))
                    }
                    _ => cerr("new needs a dynamic array type"),
                }
            }
            Expr::Tuple(v) => {
                let mut o = vec![];
                for x in v {
                    match x {
                        Some(x) => o.push(self.eval(f, x)?),
                        None => return cerr("empty tuple component"),
                    }
                }
                Ok(Val::Tup(o))
            }
            Expr::Un(op, x) => {
                let v = self.eval(f, x)?;
                match *op {
                    "!" => Ok(Val::B(!self.boolean(v)?)),
                    "-" => match v {
                        Val::Lit(i) => Ok(Val::Lit(-i)),
                        Val::U(b, x) if !self.src.checked => Ok(Val::U(b, (pow2(b as usize) - x) % pow2(b as usize))),
                        _ => cerr("unary minus"),
                    },
                    _ => {
                        let (b, x) = self.num(v)?;
                        Ok(Val::U(b, pow2(b as usize) - big(1) - x))
                    }
                }
            }
            Expr::Step(up, pre, x) => {
                let old = self.eval(f, x)?;
                if !matches!(old, Val::U(..)) {
                    return cerr("++ on a non-number");
                }
                let new = self.bin(f, if *up { "+" } else { "-" }, old.clone(), Val::Lit(BigInt::one()))?;
                self.assign(f, x, new.clone())?;
                Ok(if *pre { new } else { old })
            }
            Expr::Bin(op, a, b) => {
                let l = self.eval(f, a)?;
                if *op == "&&" || *op == "||" {
                    let l = self.boolean(l)?;
                    if l == (*op == "||") {
                        return Ok(Val::B(l));
                    }
                    let r = self.eval(f, b)?;
                    return Ok(Val::B(self.boolean(r)?));
                }
                let r = self.eval(f, b)?;
                self.bin(f, op, l, r)
            }
            Expr::Cond(c, a, b) => {
                let c = self.eval(f, c)?;
                let v = if self.boolean(c)? { self.eval(f, a)? } else { self.eval(f, b)? };
                // literals take their mobile type
                if let Val::Lit(_) = v {
                    let t = self.mobile(&v)?;
                    return self.convert(v, &t);
                }
                Ok(v)
            }
            Expr::Assign(op, l, r) => {
                let mut v = self.eval(f, r)?;
                if !op.is_empty() {
                    let o = self.eval(f, l)?;
                    v = self.bin(f, op, o, v)?;
                }
                self.assign(f, l, v.clone())?;
                Ok(v)
            }
            Expr::Call(c, a, names) => {
                let c = self.eval(f, c)?;
                let mut args: Vec<Val> = a.iter().map(|x| self.eval(f, x)).collect::<R<_>>()?;
                match c {
                    Val::Ty(Ty::Struct(u, n)) => {
                        let fl = self.fields(u, &n)?;
                        if let Some(ns) = names {
                            args = order(&fl.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), ns, args)?;
                        }
                        if fl.len() != args.len() {
                            return cerr(format!("{} arguments for struct {}", args.len(), n));
                        }
                        let p = self.alloc(32 * fl.len())?;
                        for (i, ((t, _), v)) in fl.iter().zip(args).enumerate() {
                            self.store(p + 32 * i, &self.convert(v, t)?)?;
                        }
                        Ok(Val::Ptr(Ty::Struct(u, n), p))
                    }
                    Val::Ty(Ty::Uint(b)) if args.len() == 1 => match args.pop().unwrap() {
                        v @ Val::Lit(_) => self.convert(v, &Ty::Uint(b)),
                        Val::U(_, x) => Ok(Val::U(b, x % pow2(b as usize))),
                        _ => cerr("explicit conversion"),
                    },
                    Val::Ty(Ty::Bool) if args.len() == 1 => Ok(Val::B(self.boolean(args.pop().unwrap())?)),
                    Val::Built(n) => match (n.as_str(), args.len()) {
                        ("require", 1) | ("require", 2) | ("assert", 1) => {
                            if args.len() == 2 && !matches!(args[1], Val::S) {
                                return cerr("require message");
                            }
                            if self.boolean(args.remove(0))? {
                                Ok(Val::Tup(vec![]))
                            } else {
                                rev(n)
                            }
                        }
                        ("revert", 0) | ("revert", 1) => rev("revert"),
                        ("gasleft", 0) => {
                            self.impure()?;
                            Ok(Val::U(256, big(30_000_000)))
                        }
                        ("addmod", 3) | ("mulmod", 3) => {
                            let m = self.num(args.pop().unwrap())?.1;
                            let b = self.num(args.pop().unwrap())?.1;
                            let a = self.num(args.pop().unwrap())?.1;
                            if m.is_zero() {
                                return rev("modulus zero");
                            }
                            Ok(Val::U(256, if n == "addmod" { (a + b) % m } else { a * b % m }))
                        }
                        _ => cerr(format!("wrong arguments of {}", n)),
                    },
                    Val::Fn(u, n, me) => {
                        if let Some(m) = me {
                            args.insert(0, *m);
                        }
                        self.invoke(f.unit, u, &n, args, names.as_ref())
                    }
                    _ => cerr("not callable"),
                }
            }
        }
    }
    fn bin(&self, f: &Frame, op: &str, l: Val, r: Val) -> R<Val> {
        let checked = self.src.checked && !f.unchecked;
        if let (Val::Lit(a), Val::Lit(b)) = (&l, &r) {
            return Ok(match op {
                "+" => Val::Lit(a + b),
                "-" => Val::Lit(a - b),
                "*" => Val::Lit(a * b),
                "/" | "%" if b.is_zero() => return cerr("division by zero"),
                "/" => {
                    if !(a % b).is_zero() {
                        return unsup("fraction");
                    }
                    Val::Lit(a / b)
                }
                "%" => Val::Lit(a % b),
                "**" => match b.to_usize() {
                    Some(e) if e < 2000 => Val::Lit(num::pow(a.clone(), e)),
                    _ => return unsup("power"),
                },
                "<<" | ">>" => match b.to_usize() {
                    Some(e) if e < 2000 => Val::Lit(if op == "<<" { a << e } else { a >> e }),
                    _ => return unsup("shift"),
                },
                "==" => Val::B(a == b),
                "!=" => Val::B(a != b),
                "<" => Val::B(a < b),
                ">" => Val::B(a > b),
                "<=" => Val::B(a <= b),
                ">=" => Val::B(a >= b),
                "&" | "|" | "^" => {
                    let (x, y) = (self.num(l.clone())?.1, self.num(r.clone())?.1);
                    Val::Lit(BigInt::from(bits(op, &x, &y)))
                }
                _ => return cerr(op.to_string()),
            });
        }
        if let (Val::B(a), Val::B(b)) = (&l, &r) {
            return match op {
                "==" => Ok(Val::B(a == b)),
                "!=" => Ok(Val::B(a != b)),
                _ => cerr(format!("{} on booleans", op)),
            };
        }
        let (wa, a) = self.num(l)?;
        let (wb, b) = self.num(r)?;
        let w = if op == "<<" || op == ">>" || op == "**" { wa } else { wa.max(wb) };
        let m = pow2(w as usize);
        let wrap = |x: BigUint| -> R<Val> {
            if checked && x >= m {
                return rev("overflow");
            }
            Ok(Val::U(w, x % &m))
        };
        match op {
            "+" => wrap(a + b),
            "-" => {
                if a >= b {
                    Ok(Val::U(w, a - b))
                } else if checked {
                    rev("underflow")
                } else {
                    Ok(Val::U(w, a + &m - b))
                }
            }
            "*" => wrap(a * b),
            "/" | "%" if b.is_zero() => rev("division by zero"),
            "/" => Ok(Val::U(w, a / b)),
            "%" => Ok(Val::U(w, a % b)),
            "**" => {
                if checked {
                    return unsup("checked power");
                }
                Ok(Val::U(w, a.modpow(&b, &m)))
            }
            "<<" => Ok(Val::U(w, if b >= big(256) { big(0) } else { (a << b.to_usize().unwrap()) % &m })),
            ">>" => Ok(Val::U(w, if b >= big(256) { big(0) } else { a >> b.to_usize().unwrap() })),
            "&" | "|" | "^" => Ok(Val::U(w, bits(op, &a, &b))),
            "==" => Ok(Val::B(a == b)),
            "!=" => Ok(Val::B(a != b)),
            "<" => Ok(Val::B(a < b)),
            ">" => Ok(Val::B(a > b)),
            "<=" => Ok(Val::B(a <= b)),
            ">=" => Ok(Val::B(a >= b)),
            _ => cerr(op.to_string()),
        }
    }
    fn assign(&self, f: &mut Frame, l: &Expr, v: Val) -> R<()> {
        match l {
            Expr::Id(n) => {
                let t = match self.local(f, n) {
                    Some((t, _)) => t.clone(),
                    None => return cerr(format!("cannot assign to {}", n)),
                };
                let v = self.convert(v, &t)?;
                f.scopes.iter_mut().rev().find_map(|s| s.get_mut(n)).unwrap().1 = v;
                Ok(())
            }
            Expr::Mem(b, n) => {
                let o = self.eval(f, b)?;
                match self.member(&o, n)? {
                    Some((at, t)) => {
                        let v = self.convert(v, &t)?;
                        self.store(at, &v)
                    }
                    None => cerr(format!("cannot assign to member {}", n)),
                }
            }
            Expr::Index(b, i) => {
                let o = self.eval(f, b)?;
                let i = self.eval(f, i)?;
                let (at, t) = self.elem(&o, i)?;
                let v = self.convert(v, &t)?;
                self.store(at, &v)
            }
            Expr::Tuple(ls) => match v {
                Val::Tup(vs) if vs.len() == ls.len() => {
                    for (l, v) in ls.iter().zip(vs) {
                        if let Some(l) = l {
                            self.assign(f, l, v)?;
                        }
                    }
                    Ok(())
                }
                _ => cerr("tuple assignment"),
            },
            _ => cerr("not assignable"),
        }
    }
    fn impure(&self) -> R<()> {
        if self.pure_depth.get() > 0 {
            return cerr("a pure function reads the environment");
        }
        Ok(())
    }
    fn invoke(&self, from: usize, u: usize, n: &str, args: Vec<Val>, names: Option<&Vec<String>>) -> R<Val> {
        let all: Vec<&Func> = self.src.units[u].funcs.iter().filter(|g| g.name == n && g.params.len() == args.len()).collect();
        let mut pick = vec![];
        for g in &all {
            let a = match names {
                Some(ns) => order(&g.params.iter().map(|p| p.name.clone()).collect::<Vec<_>>(), ns, args.clone())?,
                None => args.clone(),
            };
            let ts: Vec<Ty> = g.params.iter().map(|p| self.ty(u, &p.ty)).collect::<R<_>>()?;
            if a.iter().zip(&ts).all(|(v, t)| self.convertible(v, t)) {
                pick.push((*g, a, ts));
            }
        }
        if pick.len() != 1 {
            return cerr(format!("{} matching declarations of {} for {:?}", pick.len(), n, args));
        }
        let (g, args, ts) = pick.pop().unwrap();
        if u != from {
            if g.vis == "private" {
                return cerr(format!("{} is private", n));
            }
            if self.src.units[u].kind != "library" && !self.lookup(from).contains(&u) {
                return cerr(format!("{} belongs to another contract", n));
            }
        } else if g.vis == "external" {
            return cerr(format!("{} is external", n));
        }
        if g.mutab != "pure" {
            self.impure()?;
        }
        let args = args.into_iter().zip(&ts).map(|(v, t)| self.convert(v, t)).collect::<R<Vec<_>>>()?;
        self.run(u, g, args)
    }
    fn run(&self, u: usize, g: &Func, args: Vec<Val>) -> R<Val> {
        self.depth.set(self.depth.get() + 1);
        if self.depth.get() > 60 {
            return rev("out of gas (recursion)");
        }
        let mut sc = HashMap::new();
        for (p, v) in g.params.iter().zip(args) {
            let t = self.ty(u, &p.ty)?;
            if t.is_ref() != p.data {
                return cerr("data location of a parameter");
            }
            if !p.name.is_empty() && sc.insert(p.name.clone(), (t, v)).is_some() {
                return cerr("parameter declared twice");
            }
        }
        let mut rets = vec![];
        for (i, p) in g.rets.iter().enumerate() {
            let t = self.ty(u, &p.ty)?;
            if t.is_ref() != p.data {
                return cerr("data location of a result");
            }
            let n = if p.name.is_empty() { format!("#{}", i) } else { p.name.clone() };
            let z = self.zero(&t)?;
            if sc.insert(n.clone(), (t.clone(), z)).is_some() {
                return cerr("result declared twice");
            }
            rets.push((t, n));
        }
        let mut f = Frame { unit: u, scopes: vec![sc], rets, unchecked: false };
        let pure_fn = g.mutab == "pure";
        if pure_fn {
            self.pure_depth.set(self.pure_depth.get() + 1);
        }
        f.scopes.push(HashMap::new());
        let mut out = None;
        for s in g.body.as_ref().unwrap() {
            match self.exec(&mut f, s)? {
                Flow::Return(v) => {
                    out = Some(v);
                    break;
                }
                Flow::Next => {}
                _ => return cerr("break outside a loop"),
            }
        }
        if pure_fn {
            self.pure_depth.set(self.pure_depth.get() - 1);
        }
        self.depth.set(self.depth.get() - 1);
        if let Some(v) = out {
            return Ok(v);
        }
        let mut vs: Vec<Val> = f.rets.iter().map(|(_, n)| self.local(&f, n).unwrap().1.clone()).collect();
        Ok(if vs.len() == 1 { vs.pop().unwrap() } else { Val::Tup(vs) })
    }
    fn declare(&self, f: &mut Frame, d: &(TyX, bool, String), v: Option<Val>) -> R<()> {
        let t = self.ty(f.unit, &d.0)?;
        if t.is_ref() != d.1 {
            return cerr(format!("data location of {}", d.2));
        }
        let v = match v {
            Some(v) => self.convert(v, &t)?,
            None => self.zero(&t)?,
        };
        let n = f.scopes.len();
        // the function scope holds the parameters, which a top-level local may not redeclare
        if f.scopes[n - 1].contains_key(&d.2) || n == 2 && f.scopes[0].contains_key(&d.2) {
            return cerr(format!("{} declared twice", d.2));
        }
        f.scopes[n - 1].insert(d.2.clone(), (t, v));
        Ok(())
    }
    fn scoped(&self, f: &mut Frame, b: &Stmt) -> R<Flow> {
        f.scopes.push(HashMap::new());
        let r = self.exec(f, b);
        f.scopes.pop();
        r
    }
    fn exec(&self, f: &mut Frame, s: &Stmt) -> R<Flow> {
        self.step()?;
        match s {
            Stmt::Decl(ds, e) => {
                let v = match e {
                    Some(e) => Some(self.eval(f, e)?),
                    None => None,
                };
                if ds.len() == 1 {
                    self.declare(f, ds[0].as_ref().unwrap(), v)?;
                } else {
                    match v {
                        Some(Val::Tup(vs)) if vs.len() == ds.len() => {
                            for (d, v) in ds.iter().zip(vs) {
                                if let Some(d) = d {
                                    self.declare(f, d, Some(v))?;
                                }
                            }
                        }
                        _ => return cerr("tuple declaration"),
                    }
                }
                Ok(Flow::Next)
            }
            Stmt::Expr(e) => {
                self.eval(f, e)?;
                Ok(Flow::Next)
            }
            Stmt::If(c, a, b) => {
                let c = self.eval(f, c)?;
                if self.boolean(c)? {
                    self.scoped(f, a)
                } else if let Some(b) = b {
                    self.scoped(f, b)
                } else {
                    Ok(Flow::Next)
                }
            }
            Stmt::For(i, c, p, b) => {
                f.scopes.push(HashMap::new());
                let r = (|| {
                    if let Some(i) = i {
                        self.exec(f, i)?;
                    }
                    loop {
                        self.step()?;
                        if let Some(c) = c {
                            let c = self.eval(f, c)?;
                            if !self.boolean(c)? {
                                return Ok(Flow::Next);
                            }
                        }
                        match self.scoped(f, b)? {
                            Flow::Break => return Ok(Flow::Next),
                            r @ Flow::Return(_) => return Ok(r),
                            _ => {}
                        }
                        if let Some(p) = p {
                            self.eval(f, p)?;
                        }
                    }
                })();
                f.scopes.pop();
                r
            }
            Stmt::While(c, b) => loop {
                self.step()?;
                let v = self.eval(f, c)?;
                if !self.boolean(v)? {
                    return Ok(Flow::Next);
                }
                match self.scoped(f, b)? {
                    Flow::Break => return Ok(Flow::Next),
                    r @ Flow::Return(_) => return Ok(r),
                    _ => {}
                }
            },
            Stmt::Do(b, c) => loop {
                self.step()?;
                match self.scoped(f, b)? {
                    Flow::Break => return Ok(Flow::Next),
                    r @ Flow::Return(_) => return Ok(r),
                    _ => {}
                }
                let v = self.eval(f, c)?;
                if !self.boolean(v)? {
                    return Ok(Flow::Next);
                }
            },
            Stmt::Return(e) => {
                let v = match e {
                    Some(e) => self.eval(f, e)?,
                    None => {
                        let mut vs: Vec<Val> = f.rets.iter().map(|(_, n)| self.local(f, n).unwrap().1.clone()).collect();
                        if vs.len() == 1 { vs.pop().unwrap() } else { Val::Tup(vs) }
                    }
                };
                let rets = f.rets.clone();
                Ok(Flow::Return(match (v, rets.len()) {
                    (Val::Tup(vs), n) if vs.len() == n && n != 1 => {
                        Val::Tup(vs.into_iter().zip(rets).map(|(v, (t, _))| self.convert(v, &t)).collect::<R<_>>()?)
                    }
                    (v, 1) => self.convert(v, &rets[0].0)?,
                    _ => return cerr("wrong number of results"),
                }))
            }
            Stmt::Block(v, un) => {
                let old = f.unchecked;
                f.unchecked |= *un;
                f.scopes.push(HashMap::new());
                let r = (|| {
                    for s in v {
                        match self.exec(f, s)? {
                            Flow::Next => {}
                            o => return Ok(o),
                        }
                    }
                    Ok(Flow::Next)
                })();
                f.scopes.pop();
                f.unchecked = old;
                r
            }
            Stmt::Break => Ok(Flow::Break),
            Stmt::Continue => Ok(Flow::Continue),
            Stmt::Asm(v) => {
                self.yrun(f, &mut vec![], v)?;
                Ok(Flow::Next)
            }
        }
    }
    fn yrun(&self, f: &mut Frame, ys: &mut Vec<HashMap<String, BigUint>>, v: &[Yul]) -> R<Flow> {
        ys.push(HashMap::new());
        for s in v {
            match self.ystmt(f, ys, s)? {
                Flow::Next => {}
                o => {
                    ys.pop();
                    return Ok(o);
                }
            }
        }
        ys.pop();
        Ok(Flow::Next)
    }
    fn one(&self, mut v: Vec<BigUint>) -> R<BigUint> {
        if v.len() != 1 {
            return cerr("assembly expression without a value");
        }
        Ok(v.pop().unwrap())
    }
    fn ystmt(&self, f: &mut Frame, ys: &mut Vec<HashMap<String, BigUint>>, s: &Yul) -> R<Flow> {
        self.step()?;
        match s {
            Yul::Let(n, e) => {
                let v = match e {
                    Some(e) => self.yeval(f, ys, e)?,
                    None => vec![big(0); n.len()],
                };
                if v.len() != n.len() {
                    return cerr("assembly let");
                }
                for (n, v) in n.iter().zip(v) {
                    ys.last_mut().unwrap().insert(n.clone(), v);
                }
            }
            Yul::Set(n, e) => {
                let v = self.yeval(f, ys, e)?;
                if v.len() != n.len() {
                    return cerr("assembly assignment");
                }
                for (n, v) in n.iter().zip(v) {
                    if let Some(x) = ys.iter_mut().rev().find_map(|m| m.get_mut(n)) {
                        *x = v;
                    } else {
                        let t = match self.local(f, n) {
                            Some((t, _)) => t.clone(),
                            None => return cerr(format!("undeclared {} in assembly", n)),
                        };
                        let val = self.from_word(&t, v)?;
                        f.scopes.iter_mut().rev().find_map(|m| m.get_mut(n)).unwrap().1 = val;
                    }
                }
            }
            Yul::Expr(e) => {
                if !self.yeval(f, ys, e)?.is_empty() {
                    return cerr("assembly expression leaves a value");
                }
            }
            Yul::If(c, b) => {
                let c = self.yeval(f, ys, c)?;
                if !self.one(c)?.is_zero() {
                    return self.yrun(f, ys, b);
                }
            }
            Yul::Switch(e, cs, d) => {
                let v = self.yeval(f, ys, e)?;
                let v = self.one(v)?;
                for (k, b) in cs {
                    if *k == v {
                        return self.yrun(f, ys, b);
                    }
                }
                if let Some(b) = d {
                    return self.yrun(f, ys, b);
                }
            }
            Yul::For(i, c, p, b) => {
                ys.push(HashMap::new());
                for s in i {
                    self.ystmt(f, ys, s)?;
                }
                loop {
                    self.step()?;
                    let v = self.yeval(f, ys, c)?;
                    if self.one(v)?.is_zero() {
                        break;
                    }
                    match self.yrun(f, ys, b)? {
                        Flow::Break => break,
                        Flow::Return(_) => return unsup("leave"),
                        _ => {}
                    }
                    self.yrun(f, ys, p)?;
                }
                ys.pop();
            }
            Yul::Block(b) => return self.yrun(f, ys, b),
            Yul::Break => return Ok(Flow::Break),
            Yul::Continue => return Ok(Flow::Continue),
            Yul::Leave => return unsup("leave"),
        }
        Ok(Flow::Next)
    }
    fn yeval(&self, f: &mut Frame, ys: &mut Vec<HashMap<String, BigUint>>, e: &Yx) -> R<Vec<BigUint>> {
        self.step()?;
        match e {
            Yx::Lit(n) => Ok(vec![n.clone()]),
            Yx::Id(n) => {
                if let Some(v) = ys.iter().rev().find_map(|m| m.get(n)) {
                    return Ok(vec![v.clone()]);
                }
                if let Some((_, v)) = self.local(f, n) {
                    return Ok(vec![self.word(v)?]);
                }
                if let Some(v) = self.constant(f.unit, n)? {
                    return Ok(vec![self.word(&v)?]);
                }
                if n.contains('.') {
                    return unsup(format!("{} in assembly", n));
                }
                cerr(format!("undeclared {} in assembly", n))
            }
            Yx::Call(n, a) => {
                // arguments are evaluated right to left
                let mut args = vec![];
                for x in a.iter().rev() {
                    let v = self.yeval(f, ys, x)?;
                    args.push(self.one(v)?);
                }
                args.reverse();
                self.op(n, args)
            }
        }
    }
    fn op(&self, n: &str, a: Vec<BigUint>) -> R<Vec<BigUint>> {
        let m = pow2(256);
        let arity = match n {
            "gas" | "returndatasize" | "invalid" | "stop" | "msize" => 0,
            "iszero" | "not" | "mload" | "pop" => 1,
            "add" | "sub" | "mul" | "div" | "mod" | "exp" | "lt" | "gt" | "eq" | "and" | "or" | "xor" | "shl" | "shr" | "byte" | "mstore" | "mstore8" | "revert" | "return" => 2,
            "addmod" | "mulmod" | "returndatacopy" => 3,
            "staticcall" => 6,
            "call" => 7,
            _ => return unsup(format!("assembly {}", n)),
        };
        if a.len() != arity {
            return cerr(format!("{} arguments of {}", a.len(), n));
        }
        let t = |b: bool| big(b as u64);
        Ok(vec![match n {
            "gas" => {
                self.impure()?;
                big(30_000_000)
            }
            "returndatasize" => big(self.retdata.borrow().len() as u64),
            "msize" => big(self.mem.borrow().len() as u64),
            "invalid" => return rev("invalid"),
            "stop" => return Err(Fault::Halt(vec![])),
            "iszero" => t(a[0].is_zero()),
            "not" => m - big(1) - &a[0],
            "pop" => return Ok(vec![]),
            "mload" => self.get(a[0].to_usize().unwrap_or(usize::MAX))?,
            "mstore" => {
                self.put(a[0].to_usize().unwrap_or(usize::MAX), &a[1])?;
                return Ok(vec![]);
            }
            "mstore8" => {
                let at = a[0].to_usize().unwrap_or(usize::MAX);
                self.touch(at, 1)?;
                self.mem.borrow_mut()[at] = (&a[1] % big(256)).to_u8().unwrap();
                return Ok(vec![]);
            }
            "add" => (&a[0] + &a[1]) % m,
            "sub" => (&a[0] + &m - &a[1]) % m,
            "mul" => &a[0] * &a[1] % m,
            "div" if a[1].is_zero() => big(0),
            "mod" if a[1].is_zero() => big(0),
            "div" => &a[0] / &a[1],
            "mod" => &a[0] % &a[1],
            "exp" => a[0].modpow(&a[1], &m),
            "addmod" | "mulmod" if a[2].is_zero() => big(0),
            "addmod" => (&a[0] + &a[1]) % &a[2],
            "mulmod" => &a[0] * &a[1] % &a[2],
            "lt" => t(a[0] < a[1]),
            "gt" => t(a[0] > a[1]),
            "eq" => t(a[0] == a[1]),
            "and" => bits("&", &a[0], &a[1]),
            "or" => bits("|", &a[0], &a[1]),
            "xor" => bits("^", &a[0], &a[1]),
            "shl" | "shr" if a[0] >= big(256) => big(0),
            "shl" => (&a[1] << a[0].to_usize().unwrap()) % m,
            "shr" => &a[1] >> a[0].to_usize().unwrap(),
            "byte" => {
                if a[0] >= big(32) {
                    big(0)
                } else {
                    (&a[1] >> (8 * (31 - a[0].to_usize().unwrap()))) % big(256)
                }
            }
            "revert" => return rev("assembly revert"),
            "return" => return Err(Fault::Halt(self.read(&a[0], &a[1])?)),
            "returndatacopy" => {
                let d = self.retdata.borrow().clone();
                let (o, n) = (a[1].to_usize().unwrap_or(usize::MAX), a[2].to_usize().unwrap_or(usize::MAX));
                if o > d.len() || n > d.len() - o {
                    return rev("returndatacopy out of bounds");
                }
                let at = a[0].to_usize().unwrap_or(usize::MAX);
                self.touch(at, n)?;
                if n > 0 {
                    self.mem.borrow_mut()[at..at + n].copy_from_slice(&d[o..o + n]);
                }
                return Ok(vec![]);
            }
            "staticcall" | "call" => {
                self.impure()?;
                let (g, to, k) = (&a[0], &a[1], if n == "call" { 3 } else { 2 });
                if n == "call" && !a[2].is_zero() {
                    return rev("value sent");
                }
                let input = self.read(&a[k], &a[k + 1])?;
                let on = a[k + 3].to_usize().unwrap_or(usize::MAX);
                let at = a[k + 2].to_usize().unwrap_or(usize::MAX);
                self.touch(if on == 0 { 0 } else { at }, on)?;
                self.calls.set(self.calls.get() + 1);
                match (self.call)(to, g, &input) {
                    None => {
                        self.retdata.borrow_mut().clear();
                        big(0)
                    }
                    Some(o) => {
                        let k = o.len().min(on);
                        if k > 0 {
                            self.mem.borrow_mut()[at..at + k].copy_from_slice(&o[..k]);
                        }
                        *self.retdata.borrow_mut() = o;
                        big(1)
                    }
                }
            }
            _ => unreachable!(),
        }])
    }
    /// Calls a public function of a contract with word arrays as arguments, expecting a boolean.
    pub fn external(&self, func: &str, args: &[Vec<BigUint>]) -> R<bool> {
        let mut hit = None;
        for (u, x) in self.src.units.iter().enumerate() {
            if x.kind == "contract" {
                for g in &x.funcs {
                    if g.name == func && (g.vis == "public" || g.vis == "external") {
                        if hit.is_some() {
                            return unsup("several entry points");
                        }
                        hit = Some((u, g));
                    }
                }
            }
        }
        let (u, g) = match hit {
            Some(h) => h,
            None => return cerr(format!("no public function {}", func)),
        };
        if g.params.len() != args.len() || g.rets.len() != 1 || !matches!(g.rets[0].ty, TyX::Bool) {
            return cerr(format!("signature of {}", func));
        }
        let mut vals = vec![];
        for (p, a) in g.params.iter().zip(args) {
            let t = self.ty(u, &p.ty)?;
            let (at, w) = match &t {
                Ty::Arr(e, Some(n)) if *n == a.len() => match **e {
                    Ty::Uint(w) => (self.alloc(32 * n)?, w),
                    _ => return cerr("argument type"),
                },
                Ty::Arr(e, None) => match **e {
                    Ty::Uint(w) => {
                        let p = self.alloc(32 * (a.len() + 1))?;
                        self.put(p, &big(a.len() as u64))?;
                        (p + 32, w)
                    }
                    _ => return cerr("argument type"),
                },
                _ => return cerr(format!("{} does not take {} words: {:?}", func, a.len(), t)),
            };
            for (i, x) in a.iter().enumerate() {
                if *x >= pow2(w as usize) {
                    return rev("calldata out of range of the type");
                }
                self.put(at + 32 * i, x)?;
            }
            let base = if let Ty::Arr(_, None) = t { at - 32 } else { at };
            vals.push(Val::Ptr(t, base));
        }
        match self.run(u, g, vals) {
            Ok(Val::B(b)) => Ok(b),
            Ok(_) => cerr("result type"),
            Err(Fault::Halt(d)) => {
                if d.len() < 32 {
                    return rev("short return data");
                }
                let w = BigUint::from_bytes_be(&d[..32]);
                if w > big(1) {
                    return rev("result is not a boolean");
                }
                Ok(w == big(1))
            }
            Err(e) => Err(e),
        }
    }
}
fn order(want: &[String], have: &[String], args: Vec<Val>) -> R<Vec<Val>> {
    let mut out = vec![];
    for w in want {
        match have.iter().position(|h| h == w) {
            Some(i) => out.push(args[i].clone()),
            None => return cerr(format!("missing named argument {}", w)),
        }
    }
    if out.len() != args.len() {
        return cerr("extra named arguments");
    }
    Ok(out)
}
fn bits(op: &str, a: &BigUint, b: &BigUint) -> BigUint {
    match op {
        "&" => a & b,
        "|" => a | b,
        _ => a ^ b,
    }
}
