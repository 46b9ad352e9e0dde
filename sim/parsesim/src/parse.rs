//! Simulated parses: damaged, cut, stalled and failing character streams.
use crate::ast::{self, Piece, Style, S};
use crate::rules;
use crate::model::{self, Model, Res as MRes, Val};
use crate::tree::{Loc, Walk, M};
use easter::stmt::{Module, Script};
use esprit::error::Error;
use esprit::Program;
use joker::token::{Token, TokenData};
use joker::track::{Posn, Span};
use serde::{Deserialize, Serialize};
use simcore::coop::Coop;
use simcore::panics::{self, Caught};
use simcore::rng::{Fold, Rng};
use std::cell::{Cell, RefCell};
use std::fmt::Write;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Source {
    Prog {
        prog: Vec<S>,
        style: Style,
        /// May break the rules of the language.
        #[serde(default, skip_serializing_if = "std::ops::Not::not")]
        wild: bool,
    },
    Text(String),
    /// open × n, middle, close × m
    Deep { open: String, n: u32, mid: String, close: String, m: u32 },
    /// A well-formed program that is long and not deep: head, item × n, tail.
    Long { head: String, item: String, n: u32, tail: String },
}

/// What a long program is made of; the last flag says that strict code may hold it.
const LONG: &[(&str, &str, &str, bool)] = &[
    ("", "a;", "", true),
    ("", "a\n", "", true),
    ("", "f(a, b);\n", "", true),
    ("", "a.b[c] = d(e, /f/);\n", "", true),
    ("", "{}\n", "", true),
    ("", ";", "", true),
    ("", "\"use x\";\n", "a;", true),
    ("", "'use strict'\n", "a;", true),
    ("", "x = {a: [b]};", "", true),
    ("", "a = b ? c : d;", "", true),
    ("", "if (a) b; else c;\n", "", true),
    ("", "l: for (;;) { continue l; }\n", "", true),
    ("", "for (a in b) c;", "", true),
    ("", "for (var a = 0, b; a < b; a++) c += a;\n", "", true),
    ("", "try {} catch (e) {}\n", "", true),
    ("", "switch (a) {}\n", "", true),
    ("", "do ; while (a)\n", "", true),
    ("", "while (a) { break; }\n", "", true),
    ("", "function f() {}\n", "", true),
    ("", "function f(a, b) { return a + b }\n", "", true),
    ("", "var a = function () {};", "", true),
    ("", "with (a) b;\n", "", false),
    ("", "yield;\n", "", false),
    ("", "var static = let\n", "", false),
    ("", "await;\n", "", false),
    ("f(", "a, ", "a);", true),
    ("f(", "...a, ", "a);", true),
    ("new f(", "a,", "a);", true),
    ("[", "a,", "];", true),
    ("[", ",", "];", true),
    ("[", "...a,", "];", true),
    ("[", "{a: b},", "] = c;", true),
    ("({", "a: b, ", "});", true),
    ("({", "1: b, ", "} = c);", true),
    ("({", "get a() {}, ", "});", true),
    ("({", "a() {}, ", "});", true),
    ("({", "a, ", "});", true),
    ("x = (a", ", b", ");", true),
    ("for (a", ", b", ";;) c;", true),
    ("var a", ", b = c", ";", true),
    ("let a", ", b", ";", true),
    ("const a = 1", ", b = 2", ";", true),
    ("switch (a) {", "case b: c; ", "}", true),
    ("switch (a) { default:", "b;", "}", true),
    ("function f(a", ", b", ") {}", false),
    ("a: {", "break a;", "}", true),
    ("for (;;) {", "continue\n", "}", true),
    ("function f() {", "return\n", "}", true),
    ("function f() { 'use strict';", "var a;", "}", true),
    ("try {", "a;", "} finally { }", true),
    ("if (a) {", "b;", "} else c;", true),
    ("/*", "* ", "*/", true),
    ("", "// x\n", "", true),
    ("a", "\n", ";", true),
    ("'", "\\n", "';", true),
    ("/", "[/]", "/;", true),
    ("a", "b", "", true),
];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    // Tokens lost, repeated or garbled on the way.
    Lose { at: usize },
    Dup { at: usize },
    Swap { at: usize, with: usize },
    Move { at: usize, to: usize },
    Replace { at: usize, text: String },
    Insert { at: usize, text: String },
    Tail { text: String },
    // Runs of tokens.
    LoseR { at: usize, len: usize },
    CopyR { at: usize, len: usize, to: usize },
    MoveR { at: usize, len: usize, to: usize },
    // The layout.
    /// A semicolon lost, and what stands in its place.
    SemiLost { at: usize, gap: u8 },
    /// A line broken before a token.
    Break { at: usize, gap: u8 },
    // Characters lost, repeated or garbled.
    Flip { at: usize, c: char },
    Drop { at: usize },
    DupC { at: usize },
    SwapC { at: usize },
    InsC { at: usize, c: char },
    // The program before it is written down.
    /// A construct put where it may not belong (a kind, a place, details).
    Rule { what: u8, at: usize, arg: u32 },
    // The source itself.
    /// Says it has ended at this character, and means it.
    Eof { at: usize },
    /// Says it has ended n times, and would then go on.
    Stall { at: usize, n: usize },
    /// Unwinds instead of handing over this character.
    Panic { at: usize },
    /// Unwinds if polled again after its end.
    PanicAfterEnd,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Actor {
    /// script, strict, module, program
    pub entry: u8,
    /// What is then asked of a program: nothing, script, strict, module.
    pub then: u8,
    pub source: Source,
    pub faults: Vec<Fault>,
}

pub struct Plan {
    /// What is delivered before the (first) end.
    pub text: Vec<char>,
    /// What a stalled source would go on with.
    pub resume: Vec<char>,
    pub stall: usize,
    pub panic: Option<usize>,
    pub panic_after_end: bool,
    /// A well-formed program of the supported grammar, delivered intact.
    pub intact: bool,
    /// What becomes of semicolons and line breaks lost and added.
    pub expect: Expect,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// It means the same program, some semicolons having been inserted.
    Same(Vec<bool>),
    /// A semicolon is missed.
    Reject(String),
    /// It means what this text means.
    Like(Vec<char>, &'static str),
    Unjudged,
}

/// What the rules of semicolon insertion say about lost semicolons and broken lines.
pub fn expect(ps: &[Piece], st: Style) -> Expect {
    let semis = || ps.iter().filter(|p| matches!(p.semi, 1 | 2 | 5 | 6)).map(|p| p.gone.is_none()).collect();
    let mut odd: Vec<Expect> = vec![];
    let like = |f: &dyn Fn(&mut Vec<Piece>), why| {
        let mut v = ps.to_vec();
        f(&mut v);
        Expect::Like(ast::spell(&v, st).chars().collect(), why)
    };
    for i in 0..ps.len() {
        let p = &ps[i];
        let last = ps[..i].last();
        let next = ps.get(i + 1);
        if let Some(g) = p.gone {
            if last.map_or(true, |l| l.gone.is_some()) || next.map_or(false, |n| n.gone.is_some() || n.text == ";") {
                return Expect::Unjudged;
            }
            let last = &last.unwrap().text[..];
            let place = format!("{:?} after {:?}", next.map_or("the end", |n| &n.text), last);
            let newline = ast::breaks(g) || next.map_or(false, |n| n.brk.is_some());
            match (p.semi, next.map(|n| &n.text[..])) {
                (3, n) => {
                    if last == "of" || n == Some("of") {
                        return Expect::Unjudged;
                    }
                    odd.push(Expect::Reject(format!("a semicolon of a for header is missing ({})", place)));
                }
                (4, None) | (4, Some("}")) if matches!(last, ")" | "else") => odd.push(Expect::Reject(format!("a statement is missing ({})", place))),
                (4, _) => return Expect::Unjudged,
                (1 | 2 | 5 | 6, None) | (1 | 2 | 5 | 6, Some("}")) | (2, _) => {}
                (5 | 6, _) if newline => {}
                (6, _) => return Expect::Unjudged,
                (5, Some("of")) => return Expect::Unjudged,
                (5, _) => odd.push(Expect::Reject(format!("no semicolon and no line break ({})", place))),
                (1, Some(n)) => {
                    let stop = ast::asi_ok(n) || n.starts_with('.') && n.len() > 1 && n != "..." || matches!(last, "++" | "--") && matches!(n, "(" | "[");
                    match (stop, newline) {
                        (true, true) => {}
                        (true, false) if matches!(n, "++" | "--") || last == "async" => return Expect::Unjudged,
                        (true, false) => odd.push(Expect::Reject(format!("no semicolon and no line break ({})", place))),
                        (false, true) => odd.push(like(
                            &|v| {
                                v[i].gone = Some(0);
                                v[i + 1].brk = None;
                            },
                            "the expression goes on in the next line",
                        )),
                        (false, false) => return Expect::Unjudged,
                    }
                }
                _ => return Expect::Unjudged,
            }
        } else if let (Some(_), Some(l)) = (p.brk, last) {
            if l.gone.is_some() || !p.nonl {
                continue;
            }
            match &l.text[..] {
                "throw" => odd.push(Expect::Reject("a line break follows throw".into())),
                "return" | "break" | "continue" => odd.push(like(
                    &|v| v[i].brk = Some(ast::WRITTEN),
                    "a semicolon is inserted at the line break",
                )),
                _ if matches!(&p.text[..], "++" | "--") => match next {
                    // A line break in a for header does not end its part.
                    Some(n) if n.gone.is_some() && n.semi == 1 => odd.push(like(
                        &|v| v[i].brk = Some(ast::WRITTEN),
                        "a semicolon is inserted at the line break",
                    )),
                    _ => odd.push(Expect::Reject(format!("a line break comes before {:?}", p.text))),
                },
                _ => return Expect::Unjudged,
            }
        }
    }
    match odd.len() {
        0 => Expect::Same(semis()),
        1 => odd.pop().unwrap(),
        _ => Expect::Unjudged,
    }
}

impl Actor {
    /// The program as it is written down, and how many constructs were put elsewhere.
    pub fn program(&self) -> Option<(Vec<S>, usize)> {
        let mut p = match &self.source {
            Source::Prog { prog, .. } => prog.clone(),
            _ => return None,
        };
        let mut n = 0;
        for f in &self.faults {
            if let Fault::Rule { what, at, arg } = f {
                n += rules::plant(&mut p, *what, *at, *arg) as usize;
            }
        }
        Some((p, n))
    }
    /// Is the text just what the program says?
    pub fn to_the_letter(&self) -> bool {
        self.faults.iter().all(|f| matches!(f, Fault::Rule { .. } | Fault::Panic { .. } | Fault::PanicAfterEnd))
    }
    pub fn long(&self) -> bool {
        matches!(self.source, Source::Long { .. })
    }
    pub fn strict(&self) -> bool {
        matches!((self.entry, self.then), (1, _) | (2, _) | (3, 2) | (3, 3))
    }
    pub fn plan(&self) -> Plan {
        let mut damaged = false;
        let mut expected = Expect::Unjudged;
        let mut text: Vec<char> = match &self.source {
            Source::Prog { prog, style, wild } => {
                damaged |= wild;
                let changed = if self.faults.iter().any(|f| matches!(f, Fault::Rule { .. })) { self.program() } else { None };
                damaged |= changed.is_some();
                let mut ps = ast::pieces(changed.as_ref().map_or(prog, |c| &c.0), *style);
                for f in &self.faults {
                    damaged |= apply_piece(f, &mut ps);
                }
                ast::drop_semis(&mut ps, *style);
                if !damaged {
                    for f in &self.faults {
                        apply_layout(f, &mut ps);
                    }
                    expected = expect(&ps, *style);
                }
                ast::spell(&ps, *style).chars().collect()
            }
            Source::Text(s) => {
                damaged = true;
                s.chars().collect()
            }
            Source::Long { head, item, n, tail } => {
                expected = Expect::Same(vec![]);
                format!("{}{}{}", head, item.repeat(*n as usize), tail).chars().collect()
            }
            Source::Deep { open, n, mid, close, m } => {
                damaged = true;
                format!("{}{}{}", open.repeat(*n as usize), mid, close.repeat(*m as usize)).chars().collect()
            }
        };
        for f in &self.faults {
            damaged |= match f {
                Fault::Flip { at, c } if *at < text.len() => {
                    let same = text[*at] == *c;
                    text[*at] = *c;
                    !same
                }
                Fault::Drop { at } if *at < text.len() => {
                    text.remove(*at);
                    true
                }
                Fault::DupC { at } if *at < text.len() => {
                    let c = text[*at];
                    text.insert(*at, c);
                    true
                }
                Fault::SwapC { at } if *at + 1 < text.len() => {
                    text.swap(*at, *at + 1);
                    true
                }
                Fault::InsC { at, c } if *at <= text.len() => {
                    text.insert(*at, *c);
                    true
                }
                Fault::Tail { text: t } => {
                    text.extend(t.chars());
                    true
                }
                _ => false,
            };
        }
        let mut p = Plan { text, resume: vec![], stall: 0, panic: None, panic_after_end: false, intact: false, expect: Expect::Unjudged };
        for f in &self.faults {
            match f {
                Fault::Eof { at } if *at < p.text.len() => {
                    p.text.truncate(*at);
                    p.resume.clear();
                    p.stall = 0;
                    damaged = true;
                }
                Fault::Stall { at, n } if *at <= p.text.len() => {
                    damaged |= *at < p.text.len();
                    p.resume = p.text.split_off(*at);
                    p.resume.extend(" ; late1 ) } late2".chars());
                    p.stall = *n;
                }
                _ => {}
            }
        }
        for f in &self.faults {
            match f {
                Fault::Panic { at } if *at <= p.text.len() => p.panic = Some(*at),
                Fault::PanicAfterEnd => p.panic_after_end = true,
                _ => {}
            }
        }
        if !damaged {
            p.intact = matches!(expected, Expect::Same(_));
            p.expect = expected;
        }
        p
    }
}

fn apply_piece(f: &Fault, ps: &mut Vec<Piece>) -> bool {
    let n = ps.len();
    let plain = Piece::new;
    match f {
        Fault::Lose { at } if *at < n => {
            ps.remove(*at);
        }
        Fault::Dup { at } if *at < n => {
            let p = ps[*at].clone();
            ps.insert(*at, p);
        }
        Fault::Swap { at, with } if *at < n && *with < n && ps[*at].text != ps[*with].text => ps.swap(*at, *with),
        Fault::Move { at, to } if *at < n && *to < n && at != to => {
            let p = ps.remove(*at);
            ps.insert(*to, p);
        }
        Fault::Replace { at, text } if *at < n && ps[*at].text != *text => ps[*at] = plain(text),
        Fault::Insert { at, text } if *at <= n => ps.insert(*at, plain(text)),
        Fault::LoseR { at, len } if *len > 0 && at + len <= n => {
            ps.drain(*at..at + len);
        }
        Fault::CopyR { at, len, to } if *len > 0 && at + len <= n && *to <= n => {
            let run = ps[*at..at + len].to_vec();
            ps.splice(*to..*to, run);
        }
        Fault::MoveR { at, len, to } if *len > 0 && at + len <= n && to + len <= n && at != to => {
            let run: Vec<Piece> = ps.drain(*at..at + len).collect();
            ps.splice(*to..*to, run);
        }
        _ => return false,
    }
    true
}

fn apply_layout(f: &Fault, ps: &mut [Piece]) {
    match f {
        Fault::SemiLost { at, gap } if *at < ps.len() && ps[*at].semi > 0 => ps[*at].gone = Some(gap % ast::WRITTEN),
        Fault::Break { at, gap } if *at < ps.len() && *at > 0 => ps[*at].brk = Some((gap % ast::WRITTEN).max(2)),
        _ => {}
    }
}

// ---------------------------------------------------------------- running

pub enum Tree {
    Script(Script),
    Module(Module),
    Program(Program),
}
impl Tree {
    pub fn copy(&self) -> Tree {
        match self {
            Tree::Script(s) => Tree::Script(s.clone()),
            Tree::Module(m) => Tree::Module(m.clone()),
            Tree::Program(p) => Tree::Program(p.clone()),
        }
    }
    pub fn same(&self, o: &Tree) -> bool {
        match (self, o) {
            (Tree::Script(a), Tree::Script(b)) => a == b,
            (Tree::Module(a), Tree::Module(b)) => a == b,
            (Tree::Program(Program::Ambiguous(_, a)), Tree::Program(Program::Ambiguous(_, b))) => a == b,
            (Tree::Program(Program::Module(a)), Tree::Program(Program::Module(b))) => a == b,
            _ => false,
        }
    }
}
/// The tree without its locations.
pub fn bare(t: &Tree) -> Tree {
    use joker::track::Untrack;
    match t {
        Tree::Script(s) => {
            let mut s = s.clone();
            s.untrack();
            Tree::Script(s)
        }
        Tree::Module(m) => {
            let mut m = m.clone();
            m.untrack();
            Tree::Module(m)
        }
        Tree::Program(p) => {
            let mut p = p.clone();
            p.untrack();
            Tree::Program(p)
        }
    }
}
/// A location in a tree that should have none.
pub fn located(t: &Tree) -> Option<String> {
    let w = walk_in_full(t);
    if let Some(s) = w.spans.iter().flatten().next() {
        return Some(format!("an extent {:?} is left", s));
    }
    w.locs.iter().zip(&w.out).find(|(l, _)| !matches!(l, Loc::Any | Loc::At(None) | Loc::From(None) | Loc::To(None))).map(|(l, m)| format!("{:?} still has its place {:?}", m, l))
}

pub enum Res {
    Ok(Tree),
    Err(Error),
    Injected(u64),
    Foreign(String),
}
impl Res {
    pub fn digest(&self) -> u64 {
        struct H(Fold);
        impl Write for H {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0.str(s);
                Ok(())
            }
        }
        let mut h = H(Fold::new());
        let _ = match self {
            Res::Ok(Tree::Script(s)) => write!(h, "S{:?}", s),
            Res::Ok(Tree::Module(m)) => write!(h, "M{:?}", m),
            Res::Ok(Tree::Program(p)) => write!(h, "P{:?}", p),
            Res::Err(e) => write!(h, "E{:?}", e),
            Res::Injected(n) => write!(h, "I{}", n),
            Res::Foreign(m) => write!(h, "F{}", m),
        };
        h.0 .0
    }
    pub fn same(&self, o: &Res) -> bool {
        (match (self, o) {
            (Res::Ok(Tree::Script(a)), Res::Ok(Tree::Script(b))) => a == b,
            (Res::Ok(Tree::Module(a)), Res::Ok(Tree::Module(b))) => a == b,
            (Res::Ok(Tree::Program(a)), Res::Ok(Tree::Program(b))) => a == b,
            (Res::Err(a), Res::Err(b)) => a == b,
            (Res::Injected(a), Res::Injected(b)) => a == b,
            (Res::Foreign(a), Res::Foreign(b)) => a == b,
            _ => false,
        }) && self.digest() == o.digest()
    }
    pub fn show(&self) -> String {
        let s = match self {
            Res::Ok(_) => "accepted".to_string(),
            Res::Err(e) => format!("rejected: {:?}", e),
            Res::Injected(n) => format!("unwound with the source's failure {}", n),
            Res::Foreign(m) => format!("panicked: {}", m),
        };
        if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "…" } else { s }
    }
    pub fn kind(&self) -> u64 {
        match self {
            Res::Ok(_) => 1,
            Res::Injected(_) => 2,
            Res::Foreign(_) => 3,
            Res::Err(e) => {
                let s = format!("{:?}", e);
                let head: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
                let mut f = Fold::new();
                f.str(&head);
                if let Some(t) = blamed(e) {
                    f.str(&model::show(t).chars().take_while(|c| c.is_alphanumeric()).collect::<String>());
                }
                f.0
            }
        }
    }
}
pub struct Ship<T>(pub T);
unsafe impl<T> Send for Ship<T> {}

pub enum Hook {
    None,
    Call(Rc<dyn Fn()>),
    Coop(Arc<Coop>, usize),
}

pub struct SrcState {
    text: Vec<char>,
    resume: Vec<char>,
    stall: Cell<usize>,
    panic: Cell<Option<usize>>,
    panic_after_end: bool,
    id: u64,
    at: Cell<usize>,
    pub pulled: Cell<usize>,
    pub polls: Cell<u64>,
    pub ended: Cell<bool>,
    pub late: Cell<u64>,
    pub fired: Cell<bool>,
    hook: Hook,
}
pub struct Src(Rc<SrcState>);
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let s = &*self.0;
        s.polls.set(s.polls.get() + 1);
        match &s.hook {
            Hook::None => {}
            Hook::Call(f) => f(),
            Hook::Coop(c, me) => c.yield_now(*me),
        }
        if s.ended.get() {
            s.late.set(s.late.get() + 1);
            if s.panic_after_end {
                panics::inject(s.id + 1);
            }
            if s.late.get() < s.stall.get() as u64 || s.stall.get() == 0 {
                return None;
            }
            let k = s.late.get() as usize - s.stall.get();
            return s.resume.get(k).copied();
        }
        let i = s.at.get();
        if s.panic.get() == Some(i) {
            s.panic.set(None);
            s.fired.set(true);
            panics::inject(s.id);
        }
        if i < s.text.len() {
            s.at.set(i + 1);
            s.pulled.set(i + 1);
            Some(s.text[i])
        } else {
            s.ended.set(true);
            None
        }
    }
}

pub struct Done {
    pub res: Res,
    pub pulled: usize,
    pub polls: u64,
    pub ended: bool,
    pub late: u64,
    pub fired: bool,
}

pub fn then(p: Program, k: u8) -> Result<Tree, Error> {
    Ok(match k {
        0 => Tree::Program(p),
        1 => Tree::Script(p.script()?),
        2 => Tree::Script(p.strict()?),
        _ => Tree::Module(p.module()?),
    })
}

#[allow(deprecated)]
fn words(e: &Error) -> (String, String, Option<String>) {
    use std::error::Error as E;
    (e.to_string(), e.description().to_string(), e.cause().map(|c| c.to_string()))
}

/// Does an error say something, and pass on what it rests on?
fn unspoken(e: &Error) -> Option<String> {
    let (shown, told, cause) = words(e);
    if shown.is_empty() || told.is_empty() {
        return Some(format!("{:?} has nothing to say", e));
    }
    let rests = match *e {
        Error::LexError(ref l) => Some(l.to_string()),
        Error::InvalidLHS(_, ref c) => Some(c.to_string()),
        _ => None,
    };
    if rests != cause {
        return Some(format!("{:?} rests on {:?} but gives {:?} as its cause", e, rests, cause));
    }
    thread_local!(static ALL: Vec<(String, [String; 2])> = every_error().iter().map(|e| (kind_of(e), model::words_of(e))).collect());
    let (k, w) = (kind_of(e), model::words_of(e));
    ALL.with(|all| {
        let other = all.iter().find(|x| x.0 != k && (x.1[0] == w[0] || x.1[1] == w[1]))?;
        Some(format!("{:?} says of itself what {} does: {:?}", e, other.0, w))
    })
}

fn kind_of(e: &Error) -> String {
    match *e {
        Error::LexError(ref l) => format!("LexError {}", model::kind_of(l)),
        Error::InvalidLHS(_, ref c) => format!("InvalidLHS {:?}", c).split('(').next().unwrap_or("").to_string(),
        ref e => format!("{:?}", e).split('(').next().unwrap_or("").to_string(),
    }
}

/// One error of every kind a parse can end in.
fn every_error() -> Vec<Error> {
    use easter::cover;
    use easter::id::Id;
    use joker::word::{Atom, Name};
    let here = || Span { start: Posn::origin(), end: Posn::origin() };
    let token = || Token { location: here(), newline: false, value: TokenData::Semi };
    let id = || Id { location: None, name: Name::Atom(Atom::Eval) };
    let mut v = vec![
        Error::UnexpectedToken(token()),
        Error::FailedASI(token()),
        Error::TopLevelReturn(here()),
        Error::IllegalBreak(token()),
        Error::IllegalContinue(token()),
        Error::InvalidLabel(id()),
        Error::InvalidLabelType(id()),
        Error::ContextualKeyword(here(), Atom::Eval),
        Error::IllegalStrictBinding(here(), Atom::Eval),
        Error::ForOfLetExpr(here()),
        Error::DuplicateDefault(token()),
        Error::StrictWith(token()),
        Error::ThrowArgument(token()),
        Error::OrphanTry(token()),
        Error::InvalidLHS(None, cover::Error::InvalidAssignTarget(None)),
        Error::InvalidLHS(None, cover::Error::InvalidPropPatt(None)),
        Error::UnsupportedFeature("x"),
    ];
    v.extend(model::every_error().into_iter().map(Error::LexError));
    v
}

pub fn guard(f: impl FnOnce() -> Result<Tree, Error>) -> Res {
    // Whatever goes wrong can be put into words.
    let told = || f().map_err(|e| {
        let _ = (words(&e), format!("{:?}", e));
        e
    });
    match panics::catch(told) {
        Ok(Ok(t)) => Res::Ok(t),
        Ok(Err(e)) => Res::Err(e),
        Err(Caught::Injected(s)) => Res::Injected(s.0),
        Err(Caught::Foreign(m)) => Res::Foreign(m),
    }
}

pub fn stream(a: &Actor, plan: &Plan, id: u64, panic: bool, hook: Hook) -> Done {
    let st = Rc::new(SrcState {
        text: plan.text.clone(),
        resume: plan.resume.clone(),
        stall: Cell::new(plan.stall),
        panic: Cell::new(if panic { plan.panic } else { None }),
        panic_after_end: plan.panic_after_end,
        id: id * 16 + 1,
        at: Cell::new(0),
        pulled: Cell::new(0),
        polls: Cell::new(0),
        ended: Cell::new(false),
        late: Cell::new(0),
        fired: Cell::new(false),
        hook,
    });
    let src = Src(st.clone());
    let res = guard(move || {
        Ok(match a.entry {
            0 => Tree::Script(esprit::sim::script(src)?),
            1 => Tree::Script(esprit::sim::strict(src)?),
            2 => Tree::Module(esprit::sim::module(src)?),
            _ => return then(esprit::sim::program(src)?, a.then),
        })
    });
    Done { res, pulled: st.pulled.get(), polls: st.polls.get(), ended: st.ended.get(), late: st.late.get(), fired: st.fired.get() }
}

/// The public entry points, on the text that was delivered.
pub fn from_string(a: &Actor, text: &[char]) -> Res {
    let s: String = text.iter().collect();
    guard(move || {
        Ok(match a.entry {
            0 => Tree::Script(esprit::script(&s)?),
            1 => Tree::Script(esprit::strict(&s)?),
            2 => Tree::Module(esprit::module(&s)?),
            _ => return then(esprit::program(&s)?, a.then),
        })
    })
}

// ---------------------------------------------------------------- judging

pub enum Verdict {
    Yes,
    No(String),
    Unknown,
}

/// May a program end with this token?
fn dangling(v: &Val, before: Option<&Val>) -> bool {
    if let Some(Val::Punc(".")) = before {
        return false;
    }
    match v {
        Val::Punc(p) => !matches!(*p, "}" | ")" | "]" | ";" | "++" | "--"),
        Val::Reserved(w) => !matches!(&w[..], "this" | "null" | "true" | "false" | "break" | "continue" | "debugger"),
        _ => false,
    }
}

/// What the text says about an accepted tree.
pub struct Account {
    /// Are the tokens of the tree, in its order, those of the text?
    pub tokens: Verdict,
    /// The first token of the tree that is not where the tree says.
    pub misplaced: Option<String>,
    pub placed: u64,
}

/// Reads the text alongside the full account of a tree. A slash is read as
/// what the tree has there.
pub fn account(text: &[char], w: &Walk) -> Account {
    let mut a = Account { tokens: Verdict::Yes, misplaced: None, placed: 0 };
    let at = model::positions(text);
    let mut m = Model::new(text);
    let (mut mi, mut open, mut last): (usize, Vec<&'static str>, [Option<Val>; 2]) = (0, vec![], [None, None]);
    // A comma that may be one before a closing bracket.
    let mut comma: Option<usize> = None;
    let has = |mi: usize| w.out.get(mi).map_or("nothing more".to_string(), |w| format!("{:?}", w));
    macro_rules! no {
        ($($x:tt)*) => {{
            a.tokens = Verdict::No(format!($($x)*));
            return a;
        }};
    }
    loop {
        let (p0, l0) = (m.pos, m.line_start);
        let mut t = match m.next(true) {
            MRes::Tok(t) => t,
            MRes::Err(e) => no!("the text has a lexical error after offset {}: {}", p0, e),
            MRes::Gray => {
                a.tokens = Verdict::Unknown;
                return a;
            }
        };
        if let Some(c) = comma.take() {
            if !matches!(t.val, Val::Punc(")") | Val::Punc("]") | Val::Punc("}")) {
                if w.out.get(mi) != Some(&M::P(",")) {
                    no!("the text has a comma at offset {} where the tree has {}", c, has(mi));
                }
                mi += 1;
            }
        }
        if matches!(t.val, Val::Punc("/") | Val::Punc("/=")) && matches!(w.out.get(mi), Some(M::R(..))) {
            m.pos = p0;
            m.line_start = l0;
            t = match m.next(false) {
                MRes::Tok(t) => t,
                MRes::Err(e) => no!("the text has a lexical error after offset {}: {}", p0, e),
                MRes::Gray => {
                    a.tokens = Verdict::Unknown;
                    return a;
                }
            };
        }
        let mark = match &t.val {
            Val::Eof => {
                if let Some(o) = open.last() {
                    no!("{:?} is never closed", o);
                }
                if mi < w.out.len() {
                    no!("the tree holds {:?}, which the text does not", w.out[mi]);
                }
                if let [b, Some(l)] = &last {
                    if dangling(l, b.as_ref()) {
                        no!("the text ends with {:?}", l);
                    }
                }
                return a;
            }
            Val::Punc(p) => {
                match *p {
                    "(" | "[" | "{" => open.push(*p),
                    ")" | "]" | "}" => {
                        let o = open.pop();
                        if !matches!((o, *p), (Some("("), ")") | (Some("["), "]") | (Some("{"), "}")) {
                            no!("the {:?} at offset {} closes {:?}", p, t.start, o);
                        }
                    }
                    "," => comma = Some(t.start),
                    _ => {}
                }
                if matches!(*p, "(" | ")" | ",") { None } else { Some(M::P(*p)) }
            }
            Val::Reserved(x) | Val::Ident(x, _) => Some(M::W(x.clone())),
            Val::Num(Some(v)) => Some(M::N(v.to_bits())),
            Val::Str(Some(s)) => Some(M::S(s.clone())),
            Val::RegExp(p, f) => Some(M::R(p.clone(), f.clone())),
            // Values that are not judged.
            Val::Num(None) if matches!(w.out.get(mi), Some(M::N(_))) => w.out.get(mi).cloned(),
            Val::Str(None) if matches!(w.out.get(mi), Some(M::S(_))) => w.out.get(mi).cloned(),
            Val::Num(None) | Val::Str(None) => no!("the text has a literal at offset {} where the tree has {}", t.start, has(mi)),
        };
        if let Some(k) = mark {
            if w.out.get(mi) != Some(&k) {
                no!("the text has {:?} at offset {} where the tree has {}", k, t.start, has(mi));
            }
            let (from, to) = match w.locs[mi] {
                Loc::Any => (None, None),
                Loc::At(s) => (Some(s.map(|s| s.start)), Some(s.map(|s| s.end))),
                Loc::From(p) => (Some(p), None),
                Loc::To(p) => (None, Some(p)),
            };
            for (said, real, what) in [(from, t.start, "begins"), (to, t.end, "ends")] {
                let wrong = match said {
                    None => continue,
                    Some(None) => Some(format!("the tree does not say where {:?} (offset {}) {}", k, t.start, what)),
                    Some(Some(p)) if p.offset as usize != real => Some(format!("{:?} {} at offset {}, the tree says {}", k, what, real, p.offset)),
                    Some(Some(p)) => model::line_col(p, &at, real, &format!("where {:?} {}", k, what)),
                };
                a.placed += 1;
                a.misplaced = a.misplaced.take().or(wrong);
            }
            mi += 1;
        }
        last = [last[1].take(), Some(t.val)];
    }
}

/// An extent in a tree that is no part of the text.
pub fn stray(text: &[char], w: &Walk) -> Option<String> {
    let at = model::positions(text);
    for s in w.spans.iter().flatten() {
        for (p, what) in [(s.start, "start"), (s.end, "end")] {
            if let Some(m) = place(p, &at, what) {
                return Some(format!("extent {:?}: {}", s, m));
            }
        }
    }
    None
}

/// The tokens up to the first lexical error, if the text has no slash whose
/// reading depends on the grammar.
pub struct Toks {
    pub toks: Vec<model::MTok>,
    pub error: Option<&'static str>,
}
pub fn tokens(text: &[char]) -> Option<Toks> {
    let mut m = Model::new(text);
    let mut v = vec![];
    loop {
        match m.next(true) {
            MRes::Tok(t) => {
                if matches!(t.val, Val::Punc("/") | Val::Punc("/=")) {
                    return None;
                }
                let end = t.val == Val::Eof;
                v.push(t);
                if end {
                    return Some(Toks { toks: v, error: None });
                }
            }
            MRes::Err(e) => return Some(Toks { toks: v, error: Some(e) }),
            MRes::Gray => return None,
        }
    }
}

pub fn blamed(e: &Error) -> Option<&Token> {
    match *e {
        Error::UnexpectedToken(ref t)
        | Error::FailedASI(ref t)
        | Error::IllegalBreak(ref t)
        | Error::IllegalContinue(ref t)
        | Error::DuplicateDefault(ref t)
        | Error::StrictWith(ref t)
        | Error::ThrowArgument(ref t)
        | Error::OrphanTry(ref t) => Some(t),
        _ => None,
    }
}
fn blamed_span(e: &Error) -> Option<Span> {
    match *e {
        Error::TopLevelReturn(s) | Error::ContextualKeyword(s, _) | Error::IllegalStrictBinding(s, _) | Error::ForOfLetExpr(s) => Some(s),
        Error::InvalidLabel(ref i) | Error::InvalidLabelType(ref i) => i.location,
        Error::InvalidLHS(s, _) => s,
        _ => None,
    }
}

fn place(p: Posn, at: &[(u32, u32)], what: &str) -> Option<String> {
    let i = p.offset as usize;
    if i >= at.len() {
        return Some(format!("the {} of what is blamed is at offset {}, beyond the {} characters delivered", what, i, at.len() - 1));
    }
    model::line_col(p, at, i, what)
}

/// Furthest character needed to scan `n` more tokens from here, under any goals.
fn reach(text: &[char], pos: usize, n: u32) -> usize {
    if n == 0 {
        return pos;
    }
    let mut far = 0;
    for goal in [true, false] {
        let mut m = Model::new(text);
        m.pos = pos;
        m.line_start = Some(false);
        far = far.max(match m.next(goal) {
            MRes::Tok(t) => reach(text, t.end, n - 1),
            _ => text.len(),
        });
    }
    far
}

/// What is wrong with the blame in an error.
pub fn judge_error(a: &Actor, e: &Error, d: &Done, text: &[char]) -> Option<(&'static str, String)> {
    if let Some(m) = unspoken(e) {
        return Some(("blame", m));
    }
    let at = model::positions(text);
    let toks = tokens(text);
    if let Some(t) = blamed(e) {
        let sp = t.location;
        let (s, en) = (sp.start.offset as usize, sp.end.offset as usize);
        for (p, w) in [(sp.start, "start"), (sp.end, "end")] {
            if let Some(m) = place(p, &at, w) {
                return Some(("blame", format!("{:?}: {}", e, m)));
            }
        }
        if let TokenData::EOF = t.value {
            if s != text.len() || en != text.len() || !d.ended {
                return Some(("blame", format!("end of input is blamed at {}..{}, but {} characters were delivered", s, en, text.len())));
            }
            return None;
        }
        if s >= en {
            return Some(("blame", format!("the blamed token {} is empty ({}..{})", model::show(t), s, en)));
        }
        let mut judged = false;
        let mut why = String::new();
        let mut right = false;
        let mut gray = false;
        for goal in [true, false] {
            let mut m = Model::new(text);
            m.pos = s;
            m.line_start = Some(false);
            match m.next(goal) {
                MRes::Tok(mut k) => {
                    judged = true;
                    k.newline = None;
                    match model::compare(t, &k, text, &at, 0) {
                        None => right = true,
                        Some((_, m)) => why = m,
                    }
                }
                MRes::Err(x) => why = format!("the text there is a lexical error: {}", x),
                MRes::Gray => gray = true,
            }
        }
        if !right && !gray {
            return Some(("blame", format!("the blamed token {} at {}..{} is not in the text: {}", model::show(t), s, en, why)));
        }
        if let (Some(k), true) = (&toks, judged) {
            if !k.toks.iter().any(|k| k.start == s && k.end == en) {
                return Some(("blame", format!("the blamed token {} at {}..{} is part of another token", model::show(t), s, en)));
            }
        }
        // The checks of a program of unknown goal are put off.
        if a.entry != 3 || !matches!(*e, Error::StrictWith(_)) {
            let far = reach(text, en, 2) + 4;
            if d.pulled > far {
                return Some(("overread", format!("the token at {}..{} is blamed after reading {} characters, {} at most are two tokens beyond it", s, en, d.pulled, far)));
            }
        }
        return None;
    }
    if let Some(sp) = blamed_span(e) {
        for (p, w) in [(sp.start, "start"), (sp.end, "end")] {
            if let Some(m) = place(p, &at, w) {
                return Some(("blame", format!("{:?}: {}", e, m)));
            }
        }
        // Extents of whole statements and expressions are the tree's business, not the error's.
        if matches!(*e, Error::TopLevelReturn(_) | Error::InvalidLHS(..)) {
            return None;
        }
        if sp.start.offset >= sp.end.offset {
            return Some(("blame", format!("{:?} blames nothing", e)));
        }
        let spelled: String = text[sp.start.offset as usize..sp.end.offset as usize].iter().collect();
        if let Error::InvalidLabel(ref i) | Error::InvalidLabelType(ref i) = *e {
            let mut m = Model::new(text);
            m.pos = sp.start.offset as usize;
            m.line_start = Some(false);
            match m.next(true) {
                MRes::Tok(k) => {
                    let ok = k.end == sp.end.offset as usize && matches!(k.val, Val::Ident(ref w, _) if w == i.name.as_ref());
                    if !ok {
                        return Some(("blame", format!("the blamed label {:?} is spelled {:?}", i.name, spelled)));
                    }
                }
                MRes::Err(x) => return Some(("blame", format!("the blamed label {:?} is spelled {:?}: {}", i.name, spelled, x))),
                MRes::Gray => {}
            }
        }
        if let Some(k) = &toks {
            let starts = k.toks.iter().any(|k| k.start == sp.start.offset as usize);
            let ends = k.toks.iter().any(|k| k.end == sp.end.offset as usize);
            if !starts || !ends {
                return Some(("blame", format!("{:?} does not begin and end with tokens of the text ({:?})", e, spelled)));
            }
        }
        return None;
    }
    if let Error::LexError(ref l) = *e {
        if let Some(k) = &toks {
            if k.error.is_none() {
                return Some(("blame", format!("{:?} is reported, but the text has no lexical error", l)));
            }
        }
    }
    None
}

fn walked(t: &Tree, mut w: Walk) -> Walk {
    match t {
        Tree::Script(s) => w.script(s),
        Tree::Module(m) => w.module(m),
        Tree::Program(Program::Ambiguous(_, s)) => w.script(s),
        Tree::Program(Program::Module(m)) => w.module(m),
    }
    w
}
/// The names and literals of a tree.
pub fn walk(t: &Tree) -> Walk {
    walked(t, Walk::default())
}
/// Everything a tree accounts for.
pub fn walk_in_full(t: &Tree) -> Walk {
    walked(t, Walk::in_full())
}

// ------------------------------------------------------------- generation

const BITS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "(", ")", "{", "}", ";", ",", ".", "...", ":", "?", "=", "+=", "/", "/=", "+", "-", "*", "%", "++", "--", "!", "~", "<", ">", "<=", "==",
    "===", "<<", ">>>", "&&", "||", "|", "in", "instanceof", "of", "let", "const", "var", "function", "if", "else", "for", "while", "do", "switch",
    "case", "default", "break", "continue", "return", "throw", "try", "catch", "finally", "with", "new", "delete", "typeof", "void", "this", "null",
    "true", "get", "set", "target", "debugger", "class", "import", "export", "super", "yield", "eval", "arguments", "static", "await", "x1", "y2", "lost",
    "0", "1.5", "0x1F", "08", "\"s\"", "'use strict'", "\"use module\"", "/re/g", "/a[/]b/", "x1 = 1", "x1 : ", "\n", "\r\n", "/* \n */", "// c\n", "<!-- c\n", "-->", "\\u0061b",
    "\\u{62}", "\"\\u{1F600}\"", "'\\\n'",
];
const STRICT_WORDS: usize = 12;
/// What strict code or a module forbids.
const STRICTLY: &[&str] = &[
    "eval", "arguments", "let", "static", "yield", "await", "interface", "package", "implements", "private", "public", "protected", "with (w1) w2;", "var eval;",
    "function await(await) { }", "\"use strict\";", "function arguments(eval) { with (yield) await; }", "await = 1;", "({ eval, await });", "({ set s1(eval) { } });", "try { } catch (eval) { }",
    "function f1() { \"use strict\"; with (w3); }", "let: for (;;) break let;", "await: while (1) continue await;", "(function static() { });", "for (var eval in public);", "eval++;", "l\\u0065t = 1;",
    "import", "export", "\"use module\";", "let await = 2;", "const arguments = 3;",
];
const CHARS: &[char] = &[
    '(', ')', '[', ']', '{', '}', ';', ',', '.', '"', '\'', '/', '\\', '*', '\n', '\r', '\u{2028}', '\u{2029}', ' ', '\0', '\u{b}', '\u{7f}', '\u{a0}', '\u{feff}',
    '\u{fffd}', '\u{10ffff}', '0', '9', 'a', 'e', 'x', 'u', '_', '$', '#', '@', '`', '=', '+', '-', '<', '!', '>', '&', '|', '?', ':', '\u{e9}', '\u{200c}', '\u{1F600}',
];
const NESTS: &[(&str, &str, &str)] = &[
    ("(", "a", ")"),
    ("[", "a", "]"),
    ("[...", "a", "]"),
    ("({a:", "b", "})"),
    ("{", "a", "}"),
    ("if(a)", ";", ""),
    ("if(a){}else ", ";", ""),
    ("while(a)", ";", ""),
    ("for(;;)", ";", ""),
    ("for(a in b)", ";", ""),
    ("do ", ";", " while(a);"),
    ("try{", "a", "}finally{}"),
    ("switch(a){default:", "b", "}"),
    ("a?", "b", ":c"),
    ("a=", "b", ""),
    ("a+=", "b", ""),
    ("(function(){", "a", "})"),
    ("function f(){", "a", "}"),
    ("({get a(){", "b", "}})"),
    ("({a(){", "b", "}})"),
    ("-", "a", ""),
    ("- -", "a", ""),
    ("typeof ", "a", ""),
    ("!", "a", ""),
    ("++", "a", ""),
    ("new ", "a", ""),
    ("new (", "a", ")"),
    ("f(", "a", ")"),
    ("a[", "b", "]"),
    ("a.", "b", ""),
    ("a,", "b", ""),
    ("a+", "b", ""),
    ("a+b*", "c", ""),
    ("a||b&&", "c", ""),
    ("a", "", "()"),
    ("a", "", "++"),
    ("var a=", "b", ""),
    ("[a,{b:", "c", "}]=d"),
    ("/", "a", "/"),
    ("\"", "a", ""),
    ("'\\", "a", "'"),
    ("a:", "b", ""),
    ("case ", "a", ":"),
    ("}", "a", "{"),
    ("with(a)", "b", ""),
    ("a\n", "b", "\n++"),
    ("/*", "a", "*/"),
    ("let ", "a", ""),
    ("return ", "a", ""),
    ("\"a\";", "b", ""),
    ("\"use strict\"\n", "b", ""),
];

fn style(r: &mut Rng) -> Style {
    if r.pct(15) {
        return ast::PLAIN;
    }
    let z = |r: &mut Rng, m: usize| if r.pct(50) { 0 } else { r.below(m) as u8 };
    Style { seed: r.u64() | 1, newline: z(r, 40), comment: z(r, 30), tight: z(r, 101), asi: z(r, 101) }
}

pub fn gen_source(r: &mut Rng, strict: bool, soup: usize, wild: usize) -> Source {
    if r.pct(soup) {
        if r.pct(35) {
            let (o, m, c) = *r.pick(NESTS);
            let n = match r.below(4) {
                0 => r.below(6),
                1 => r.below(40),
                2 => r.below(150),
                _ => r.below(300),
            } as u32;
            let k = match r.below(4) {
                0 => 0,
                1 => n.saturating_sub(1),
                2 => r.below(n as usize + 2) as u32,
                _ => n,
            };
            return Source::Deep { open: o.into(), n, mid: m.into(), close: c.into(), m: k };
        }
        let n = r.geometric(12, 60);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(*r.pick(BITS));
            if r.pct(70) {
                s.push_str(*r.pick(&[" ", " ", " ", "\n"]));
            }
        }
        return Source::Text(s);
    }
    let budget = match r.below(4) {
        0 => 4,
        1 => 12,
        2 => 30,
        _ => 80,
    };
    let (sl, pa, su) = (r.pct(40), r.pct(50), r.pct(60));
    let b = 1 + r.below(budget) as i32;
    let mut g = ast::Gen::new(r, strict, sl, pa, su, b);
    g.wild = g.r.pct(wild);
    let wild = g.wild;
    let prog = g.program();
    Source::Prog { prog, style: style(r), wild }
}

/// Tokens from here to the end of the next bracketed group or statement.
fn phrase(ps: &[Piece], at: usize) -> usize {
    let mut depth = 0;
    for (k, p) in ps[at..].iter().enumerate() {
        match &p.text[..] {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" if depth == 0 => return k.max(1),
            ")" if depth == 1 && matches!(ps.get(at + k + 1).map(|p| &p.text[..]), Some("{")) => depth = 0,
            ")" | "]" | "}" => {
                depth -= 1;
                if depth == 0 {
                    return k + 1;
                }
            }
            ";" | "," if depth == 0 => return k + 1,
            _ => {}
        }
    }
    ps.len() - at
}

pub const SWEEP_RULES: u8 = 200;
/// A long program, often cut off or damaged somewhere.
pub fn gen_long(r: &mut Rng) -> Actor {
    let entry = r.below(4) as u8;
    let mut a = Actor { entry, then: if entry == 3 { r.below(4) as u8 } else { 0 }, source: Source::Text(String::new()), faults: vec![] };
    let strict = a.strict();
    let fit: Vec<_> = LONG.iter().filter(|l| l.3 || !strict).collect();
    let (head, item, tail, _) = **r.pick(&fit);
    let most = 200_000 / item.len();
    let n = match r.below(4) {
        0 => r.range(100, 2000.min(most)),
        1 => r.range(1000, 10_000.min(most)),
        _ => r.range(most / 4, most),
    };
    a.source = Source::Long { head: head.into(), item: item.into(), n: n as u32, tail: tail.into() };
    let len = head.len() + item.len() * n + tail.len();
    match r.below(10) {
        0..=4 => {}
        5 => a.faults.push(Fault::Eof { at: r.below(len) }),
        6 => a.faults.push(Fault::Flip { at: r.below(len), c: *r.pick(CHARS) }),
        7 => a.faults.push(Fault::Drop { at: r.below(len) }),
        8 => a.faults.push(Fault::Tail { text: r.pick(BITS).to_string() }),
        _ => a.faults.push(Fault::Panic { at: r.below(len) }),
    }
    a
}

/// The same fault at every place of one source.
pub fn sweep(a: &Actor, kind: u8) -> Vec<Actor> {
    const MAX: usize = 300;
    if let (true, Some((p, _))) = (kind >= SWEEP_RULES, a.program()) {
        let what = (kind - SWEEP_RULES) % rules::KINDS;
        let n = rules::places(&p, what);
        let seed = size(a) as u32;
        return (0..n)
            .step_by(n / MAX + 1)
            .map(|at| {
                let mut b = a.clone();
                b.faults.push(Fault::Rule { what, at, arg: seed + (at as u32) * (seed % 5) });
                b
            })
            .collect();
    }
    let ps = match &a.source {
        Source::Prog { prog, style, .. } => ast::pieces(prog, *style),
        _ => vec![],
    };
    let (np, nc) = (ps.len(), a.plan().text.len());
    let bit = |k: usize| BITS[k % BITS.len()].to_string();
    let fs: Vec<Fault> = match kind % 15 {
        0 => (0..np).map(|at| Fault::Lose { at }).collect(),
        1 => (0..np).map(|at| Fault::Dup { at }).collect(),
        2 => (0..np).map(|at| Fault::Swap { at, with: at + 1 }).collect(),
        3 => (0..np).map(|at| Fault::LoseR { at, len: phrase(&ps, at) }).collect(),
        4 | 5 => (0..np)
            .map(|at| {
                let len = phrase(&ps, at);
                Fault::CopyR { at, len, to: at + len }
            })
            .collect(),
        6 => (0..=np).map(|at| Fault::Insert { at, text: bit(kind as usize + at * 7) }).collect(),
        7 => (0..np).map(|at| Fault::Replace { at, text: bit(kind as usize * 3 + at * 5) }).collect(),
        8 => (0..nc).map(|at| Fault::Drop { at }).collect(),
        9 => (0..nc).map(|at| Fault::Flip { at, c: CHARS[(kind as usize + at * 3) % CHARS.len()] }).collect(),
        10 => (0..nc).map(|at| Fault::Eof { at }).collect(),
        11 => (0..np).filter(|&k| ps[k].semi > 0).map(|at| Fault::SemiLost { at, gap: kind }).collect(),
        12 => (0..np).filter(|&k| ps[k].semi > 0).map(|at| Fault::SemiLost { at, gap: kind & 1 }).collect(),
        13 => (1..np).map(|at| Fault::Break { at, gap: kind }).collect(),
        _ => (0..=nc).map(|at| Fault::Panic { at }).collect(),
    };
    let step = fs.len() / MAX + 1;
    fs.into_iter()
        .step_by(step)
        .map(|f| {
            let mut b = a.clone();
            b.faults.push(f);
            b
        })
        .collect()
}

fn gen_faults(r: &mut Rng, prop: &str, src: &Source) -> Vec<Fault> {
    let mut v = vec![];
    let (text, ps): (Vec<char>, Vec<Piece>) = match src {
        Source::Prog { prog, style, .. } => {
            let ps = ast::pieces(prog, *style);
            (ast::render(&ps, *style).chars().collect(), ps)
        }
        Source::Text(t) => (t.chars().collect(), vec![]),
        Source::Long { head, item, n, tail } => (vec!['x'; head.len() + item.len() * *n as usize + tail.len()], vec![]),
        Source::Deep { open, n, mid, close, m } => (vec!['x'; open.len() * *n as usize + mid.len() + close.len() * *m as usize], vec![]),
    };
    let (n, np) = (text.len(), ps.len());
    let (intact, piece, chr, cut) = match prop {
        "C11" => (20, 60, 15, 30),
        "C13" => (3, 60, 30, 30),
        "C12" => (30, 40, 20, 20),
        "C16" => (30, 50, 20, 15),
        "C17" => (50, 25, 15, 15),
        "C18" => (80, 40, 20, 20),
        "C19" => (100, 0, 0, 0),
        "C22" => (30, 60, 25, 4),
        "C25" => (6, 85, 25, 4),
        "C23" => (25, 40, 30, 30),
        _ => (8, 30, 60, 45),
    };
    if !r.pct(intact) {
        if np > 0 && r.pct(piece) {
            for _ in 0..1 + r.below(2) {
                let at = r.below(np);
                v.push(match r.below(12) {
                    8..=11 => {
                        let len = if r.pct(70) { phrase(&ps, at) } else { 1 + r.geometric(3, 12) }.min(np - at);
                        match r.below(5) {
                            0 => Fault::LoseR { at, len },
                            1..=2 => Fault::CopyR { at, len, to: at + len },
                            3 => Fault::CopyR { at, len, to: r.below(np + 1) },
                            _ => Fault::MoveR { at, len, to: r.below(np - len + 1) },
                        }
                    }
                    0 | 1 => Fault::Lose { at },
                    2 => Fault::Dup { at },
                    3 => Fault::Swap { at, with: r.below(np) },
                    4 => Fault::Move { at, to: r.below(np) },
                    5 => Fault::Replace { at, text: r.pick(BITS).to_string() },
                    6 => Fault::Insert { at, text: r.pick(BITS).to_string() },
                    _ => Fault::Insert { at: np, text: r.pick(BITS).to_string() },
                });
            }
        }
        if r.pct(chr) {
            for _ in 0..1 + r.below(3) {
                let at = r.below(n + 1);
                let c = *r.pick(CHARS);
                v.push(match r.below(6) {
                    0 | 1 => Fault::Flip { at, c },
                    2 => Fault::Drop { at },
                    3 => Fault::DupC { at },
                    4 => Fault::SwapC { at },
                    _ => Fault::InsC { at, c },
                });
            }
        }
        if r.pct(10) {
            v.push(Fault::Tail { text: format!("\n{}", r.pick(BITS)) });
        }
        if r.pct(cut) {
            let at = r.below(n + 1);
            v.push(if r.pct(60) { Fault::Eof { at } } else { Fault::Stall { at, n: 1 + r.below(3) } });
        }
    }
    let (pp, pe) = match prop {
        "C10" => (35, 30),
        "C12" => (12, 15),
        "C17" => (6, 10),
        "C18" => (4, 10),
        "C19" => (0, 5),
        "C22" | "C25" => (3, 5),
        "C23" => (40, 20),
        _ => (0, 15),
    };
    if r.pct(pp) {
        v.push(Fault::Panic { at: r.below(n + 2) });
    }
    if r.pct(pe) {
        v.push(Fault::PanicAfterEnd);
    }
    v
}

/// Semicolons lost and lines broken, as far as the rules say what becomes of them.
fn gen_layout(r: &mut Rng, a: &mut Actor) {
    let mut ps = match &a.source {
        Source::Prog { prog, style, .. } => ast::pieces(prog, *style),
        _ => return,
    };
    if ps.is_empty() {
        return;
    }
    let semis: Vec<usize> = (0..ps.len()).filter(|&k| ps[k].semi > 0).collect();
    let tight: Vec<usize> = (0..ps.len()).filter(|&k| ps[k].nonl).collect();
    for _ in 0..1 + r.geometric(3, 20) {
        let gap = if r.pct(35) { r.below(2) } else { 2 + r.below(ast::WRITTEN as usize - 2) } as u8;
        let f = match r.below(10) {
            0..=6 if !semis.is_empty() => Fault::SemiLost { at: *r.pick(&semis), gap },
            7 if !tight.is_empty() => Fault::Break { at: *r.pick(&tight), gap },
            _ => Fault::Break { at: r.below(ps.len()), gap },
        };
        let was = ps.clone();
        apply_layout(&f, &mut ps);
        if expect(&ps, ast::PLAIN) == Expect::Unjudged {
            ps = was;
        } else {
            a.faults.push(f);
        }
    }
}

/// Tokens of all sorts.
const TOKENS: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ";", ",", ":", "?", ".", "...", "=", "+=", "+", "-", "*", "/", "++", "--", "!", "<", "&&", "in", "of", "instanceof", "new", "delete", "typeof", "this", "null",
    "var", "let", "const", "function", "function*", "if", "else", "for", "while", "do", "switch", "case", "default", "try", "catch", "finally", "throw", "return", "break", "continue", "with", "debugger",
    "get", "set", "static", "yield", "target", "x1", "1", "'s'", "/re/", "\n", "\n", "=>", "class", "void", "async", "eval",
];

/// One thing wrong with the order of the tokens, or perhaps not.
fn gen_slip(r: &mut Rng, a: &mut Actor) {
    let ps = match &a.source {
        Source::Prog { prog, style, .. } => ast::pieces(prog, *style),
        _ => return,
    };
    let n = ps.len();
    if n == 0 {
        return;
    }
    let at = r.below(n);
    let token = |r: &mut Rng| if r.pct(60) { r.pick(TOKENS).to_string() } else { ps[r.below(n)].text.clone() };
    let f = match r.below(12) {
        0..=1 => Fault::Lose { at },
        2..=4 => Fault::Insert { at: r.below(n + 1), text: token(r) },
        5..=7 => Fault::Replace { at, text: token(r) },
        8 => Fault::Swap { at, with: (at + 1) % n },
        9 => Fault::LoseR { at, len: phrase(&ps, at) },
        10 => Fault::CopyR { at, len: phrase(&ps, at), to: r.below(n + 1) },
        _ => Fault::MoveR { at, len: phrase(&ps, at), to: r.below(n) },
    };
    a.faults.push(f);
}

/// Tokens that can often stand for each other.
const KIN: &[&[&str]] = &[
    &["==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "+", "-", "*", "%", "/", "<<", ">>", ">>>", "&", "|", "^", "&&", "||", ","],
    &["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="],
    &["++", "--"],
    &["!", "~", "+", "-", "typeof", "void", "delete", "new"],
    &["true", "false", "null", "this", "x1", "0", "'s'", "/re/g", "/re/", "/r/g"],
    &["var", "let", "const"],
    &["break", "continue"],
    &["get", "set"],
    &["while", "if", "with"],
    &["in", "of"],
    &["eval", "arguments", "async", "x1", "y2", "let", "yield", "of"],
    &["function", "function*"],
];

/// A name, number or string that is nearly the same.
fn nearly(r: &mut Rng, t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    match c[0] {
        // Spelled another way, most of the time.
        '/' => {
            let k = t.rfind('/').unwrap() + 1;
            let (p, f) = (&t[..k], &t[k..]);
            let back: String = f.chars().rev().collect();
            match r.below(8) {
                0 => format!("{}{}", p, &f[..f.len().saturating_sub(1)]),
                1 => format!("{}{}{}", p, f, r.pick(&["g", "i", "m", "y"])),
                2 => format!("/{}", &t[2..]),
                3 => format!("/x{}", &t[1..]),
                _ => format!("{}{}", p, back),
            }
        }
        '0'..='9' if r.pct(25) => match t.parse::<u32>() {
            Ok(v) if !(t.len() > 1 && c[0] == '0') => match r.below(6) {
                0 => format!("0x{:x}", v),
                1 => format!("0B{:b}", v),
                2 => format!("0o{:o}", v),
                3 => format!("{}e0", v),
                4 => format!("{}.", v),
                _ => format!("{}0E-1", v),
            },
            _ => t.to_string(),
        },
        '"' | '\'' if c.len() > 2 && r.pct(25) => {
            // One of its characters as an escape; another one keeps the sequence from being read on.
            let at = 1 + r.below(c.len() - 2);
            if c.contains(&'\\') || !c[at].is_ascii_alphanumeric() {
                return t.to_string();
            }
            let (a, b): (String, String) = (c[..at].iter().collect(), c[at + 1..].iter().collect());
            match r.below(3) {
                0 => format!("{}\\x{:02x}{}", a, c[at] as u32, b),
                1 => format!("{}\\u{{{:X}}}{}", a, c[at] as u32, b),
                _ => format!("{}\\u{:04x}{}", a, c[at] as u32, b),
            }
        }
        '0'..='9' => match r.below(9) {
            6..=8 => match t.find(|c: char| !c.is_ascii_digit()) {
                None => format!("{}.{}", t, r.pick(&["0", "5", "01", "0001", "0000001", "000000000000001"])),
                Some(k) if t[k..].starts_with('.') => format!("{}{}", t, r.pick(&["0", "1", "0001", "0000001"])),
                _ => format!("0{}", t),
            },
            0 => r.pick(&["16777216", "16777217", "9007199254740992", "9007199254740993", "9007199254740994", "0.1", "0.1000000001", "0.10000000000000001", "1e308", "1e309", "1e400", "5e-324", "2e-324", "0", "0x10", "16"]).to_string(),
            1 => format!("{}0", t),
            2 => format!("{}1", t),
            3 => format!("1{}", t),
            4 => format!("1{}", &t[1..]),
            _ => format!("12345678901{}", t),
        },
        '"' | '\'' if c.len() > 1 => {
            let at = if r.pct(50) { c.len() - 1 } else { 1 + r.below(c.len() - 1) };
            let (a, b): (String, String) = (c[..at].iter().collect(), c[at..].iter().collect());
            match r.below(3) {
                0 => format!("{}{}", c[0], &b),
                _ => format!("{}{}{}", a, r.pick(&[" ", "\\0", "a", "A", "1", "\u{e9}", "\u{1F600}", "\\t", "\\x41", "\\\n"]), b),
            }
        }
        _ => match r.below(4) {
            0 => t.to_uppercase(),
            1 => format!("{}{}", t, r.pick(&["0", "1", "_", "$", "a", "\u{e9}"])),
            2 => format!("{}{}", r.pick(&["_", "$", "a", "\u{e9}"]), t),
            _ => t.to_lowercase(),
        },
    }
}

/// Tokens garbled into others like them.
fn gen_kin(r: &mut Rng, a: &mut Actor) {
    let ps = match &a.source {
        Source::Prog { prog, style, .. } => ast::pieces(prog, *style),
        _ => return,
    };
    if ps.is_empty() {
        return;
    }
    for _ in 0..1 + r.geometric(2, 4) {
        let from = r.below(ps.len());
        let sort = |c: char| if c.is_alphabetic() { 1 } else if c.is_numeric() { 2 } else if c == '"' || c == '\'' { 3 } else if c == '/' { 4 } else { 0 };
        let sort = |t: &str| if matches!(t, "/" | "/=") { 0 } else { t.chars().next().map_or(0, sort) };
        for at in (from..ps.len()).chain(0..from) {
            let t = &ps[at].text;
            let sets: Vec<&&[&str]> = KIN.iter().filter(|k| k.contains(&t.as_str())).collect();
            let text = if !sets.is_empty() {
                let k = r.below(sets.len());
                r.pick(sets[k]).to_string()
            } else if r.pct(if sort(t) == 4 { 70 } else { 30 }) && sort(t) > 0 {
                nearly(r, t)
            } else if r.pct(40) && sort(t) > 0 {
                // Another of its sort from this program.
                let c = sort(t);
                let like: Vec<&String> = ps.iter().map(|p| &p.text).filter(|u| sort(u) == c).collect();
                like[r.below(like.len())].clone()
            } else {
                continue;
            };
            a.faults.push(Fault::Replace { at, text });
            break;
        }
    }
}

/// A program and what is put elsewhere in it.
fn gen_rules(r: &mut Rng, a: &mut Actor) {
    let strict = a.strict();
    a.source = if r.pct(30) {
        let (sl, b) = (r.pct(20), 1 + r.below(6) as i32);
        let st = style(r);
        let mut g = ast::Gen::new(r, strict, sl, false, false, b);
        let n = 1 + g.r.below(3);
        let mut prog: Vec<S> = (0..n).map(|_| g.tangle(0, &mut vec![])).collect();
        prog.extend(g.program());
        Source::Prog { prog, style: st, wild: true }
    } else {
        gen_source(r, strict, 0, 0)
    };
    if let Source::Prog { wild, .. } = &mut a.source {
        *wild = true;
    }
    let mut p = match a.program() {
        Some(p) => p.0,
        None => return,
    };
    // Many at once make it likely that one is an offence; often none may be.
    let n = match r.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        _ => 1 + r.geometric(2, 10),
    };
    let kind = r.below(rules::KINDS as usize) as u8;
    let same = r.pct(30);
    for _ in 0..n {
        let what = if same { kind } else { *r.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 10, 10, 11, 11, 12, 12, 12, 12, 13, 14, 15, 16, 16]) };
        let k = rules::places(&p, what);
        if k > 0 {
            let f = (r.below(k), r.u64() as u32 % 100_000);
            rules::plant(&mut p, what, f.0, f.1);
            a.faults.push(Fault::Rule { what, at: f.0, arg: f.1 });
        }
    }
    if r.pct(4) {
        a.faults.push(Fault::Panic { at: r.below(200) });
    }
    if r.pct(10) {
        a.faults.push(Fault::PanicAfterEnd);
    }
}

/// Names changed for what strict code or a module forbids, or statements of that put between two.
fn gen_strictly(r: &mut Rng, a: &mut Actor) {
    let n = match &a.source {
        Source::Prog { prog, style, .. } => ast::pieces(prog, *style),
        _ => return,
    };
    for _ in 0..1 + r.below(3) {
        let at = r.below(n.len() + 1);
        let text = r.pick(STRICTLY).to_string();
        let name = |k: usize| n.get(k).map_or(false, |p| p.text.chars().all(|c| c.is_alphanumeric()));
        let near = (at..n.len()).find(|&k| name(k));
        a.faults.push(match near {
            Some(at) if r.pct(70) => Fault::Replace { at, text: r.pick(&STRICTLY[..STRICT_WORDS]).to_string() },
            _ => Fault::Insert { at, text },
        });
    }
}

pub fn gen_actor(r: &mut Rng, prop: &str) -> Actor {
    let entry = r.below(4) as u8;
    let th = if entry == 3 { r.below(4) as u8 } else { 0 };
    let mut a = Actor { entry, then: th, source: Source::Text(String::new()), faults: vec![] };
    if prop == "C21" {
        gen_rules(r, &mut a);
        return a;
    }
    let (soup, wild) = match prop {
        "C10" => (30, 40),
        "C13" => (20, 40),
        "C12" => (10, 35),
        "C16" => (5, 30),
        "C17" => (8, 30),
        "C18" | "C19" | "C22" => (0, 0),
        "C25" => (10, 15),
        _ => (10, 25),
    };
    if prop == "C17" {
        a.entry = 3;
        a.then = 0;
    }
    let strict = a.strict() || prop == "C17" && r.pct(30);
    a.source = gen_source(r, strict, soup, wild);
    if prop == "C25" && r.pct(70) && matches!(a.source, Source::Prog { .. }) {
        match r.below(11) {
            0 => {}
            1 => gen_layout(r, &mut a),
            2..=3 => gen_kin(r, &mut a),
            4 => {
                // What turns out to be a module in the end.
                a.entry = 3;
                a.then = r.below(4) as u8;
                if r.pct(70) {
                    gen_strictly(r, &mut a);
                }
                a.faults.push(Fault::Tail { text: format!("\n{} x1;", r.pick(&["import", "export"])) });
            }
            _ => {
                for _ in 0..1 + r.geometric(2, 3) {
                    gen_slip(r, &mut a);
                }
            }
        }
        return a;
    }
    a.faults = gen_faults(r, prop, &a.source);
    if prop == "C19" {
        gen_layout(r, &mut a);
    }
    if prop == "C22" && r.pct(75) || prop == "C25" && r.pct(40) {
        gen_kin(r, &mut a);
    }
    if prop == "C17" && r.pct(60) {
        gen_strictly(r, &mut a);
    }
    a
}

// -------------------------------------------------------------- shrinking

pub fn smaller(a: &Actor) -> Vec<Actor> {
    let mut v = vec![];
    for i in 0..a.faults.len() {
        let mut b = a.clone();
        b.faults.remove(i);
        v.push(b);
    }
    if a.then != 0 {
        v.push(Actor { then: 0, ..a.clone() });
    }
    if a.entry != 0 {
        v.push(Actor { entry: 0, then: 0, ..a.clone() });
    }
    match &a.source {
        Source::Prog { prog, style, wild } => {
            let wild = *wild;
            if *style != ast::PLAIN {
                v.push(Actor { source: Source::Prog { prog: prog.clone(), style: ast::PLAIN, wild }, ..a.clone() });
                for f in [|s: &mut Style| s.comment = 0, |s: &mut Style| s.newline = 0, |s: &mut Style| s.tight = 0, |s: &mut Style| s.asi = 0] {
                    let mut s = *style;
                    f(&mut s);
                    if s != *style {
                        v.push(Actor { source: Source::Prog { prog: prog.clone(), style: s, wild }, ..a.clone() });
                    }
                }
            }
            // What was put elsewhere as part of the program.
            let ruled = a.faults.iter().any(|f| matches!(f, Fault::Rule { .. }));
            if let (true, Some((q, _))) = (ruled, a.program()) {
                let mut b = a.clone();
                b.source = Source::Prog { prog: q, style: *style, wild: true };
                b.faults.retain(|f| !matches!(f, Fault::Rule { .. }));
                v.push(b);
            }
            // The damaged text as it stands.
            let p = a.plan();
            if !p.intact {
                let mut b = a.clone();
                b.source = Source::Text(p.text.iter().collect());
                b.faults.retain(|f| matches!(f, Fault::Panic { .. } | Fault::PanicAfterEnd));
                v.push(b);
            }
            for q in ast::smaller(prog) {
                if wild || ast::legal(&q, a.strict()) {
                    v.push(Actor { source: Source::Prog { prog: q, style: *style, wild }, ..a.clone() });
                }
            }
            for i in 0..a.faults.len() {
                if let Fault::SemiLost { gap, .. } | Fault::Break { gap, .. } = &a.faults[i] {
                    if *gap > 2 {
                        let mut b = a.clone();
                        if let Fault::SemiLost { gap, .. } | Fault::Break { gap, .. } = &mut b.faults[i] {
                            *gap = 2;
                        }
                        v.push(b);
                    }
                }
                for k in [1, 2, 4, 16, 64] {
                    let mut b = a.clone();
                    let moved = match &mut b.faults[i] {
                        Fault::Lose { at } | Fault::Dup { at } | Fault::Replace { at, .. } | Fault::Insert { at, .. } | Fault::Swap { at, .. } | Fault::Move { at, .. }
                        | Fault::Flip { at, .. } | Fault::Drop { at } | Fault::DupC { at } | Fault::SwapC { at } | Fault::InsC { at, .. } | Fault::Eof { at }
                        | Fault::Stall { at, .. } | Fault::Panic { at } | Fault::LoseR { at, .. } | Fault::CopyR { at, .. } | Fault::MoveR { at, .. } | Fault::SemiLost { at, .. } | Fault::Break { at, .. } | Fault::Rule { at, .. } => at.checked_sub(k).map(|x| *at = x).is_some(),
                        _ => false,
                    };
                    if moved {
                        v.push(b);
                    }
                }
            }
        }
        Source::Text(t) => {
            let cs: Vec<char> = t.chars().collect();
            let n = cs.len();
            let mut k = n;
            while k > 0 {
                for at in (0..n).step_by(k) {
                    let mut d = cs.clone();
                    d.drain(at..(at + k).min(n));
                    let mut b = a.clone();
                    b.source = Source::Text(d.into_iter().collect());
                    for f in b.faults.iter_mut() {
                        if let Fault::Panic { at: p } = f {
                            if *p > at {
                                *p -= k.min(*p - at);
                            }
                        }
                    }
                    v.push(b);
                }
                k /= 2;
            }
            for i in 0..n {
                if cs[i].is_alphanumeric() && cs[i] != 'a' {
                    let mut d = cs.clone();
                    d[i] = 'a';
                    v.push(Actor { source: Source::Text(d.into_iter().collect()), ..a.clone() });
                }
            }
        }
        Source::Long { head, item, n, tail } => {
            for n2 in [0, n / 2, n - n / 4, n - n / 16, n.saturating_sub(1)] {
                if n2 != *n {
                    v.push(Actor { source: Source::Long { head: head.clone(), item: item.clone(), n: n2, tail: tail.clone() }, ..a.clone() });
                }
            }
            let p = a.plan();
            if p.text.len() < 200 {
                let mut b = a.clone();
                b.source = Source::Text(p.text.iter().collect());
                b.faults.retain(|f| matches!(f, Fault::Panic { .. } | Fault::PanicAfterEnd));
                v.push(b);
            }
        }
        Source::Deep { open, n, mid, close, m } => {
            let p = a.plan();
            let mut b = a.clone();
            b.source = Source::Text(p.text.iter().collect());
            b.faults.retain(|f| matches!(f, Fault::Panic { .. } | Fault::PanicAfterEnd));
            if p.text.len() < 200 {
                v.push(b);
            }
            for (n2, m2) in [(0, *m), (*n, 0), (n / 2, m / 2), (n / 2, *m), (*n, m / 2), (n.saturating_sub(1), m.saturating_sub(1)), (n.saturating_sub(1), *m), (*n, m.saturating_sub(1))] {
                if (n2, m2) != (*n, *m) {
                    let mut b = a.clone();
                    b.source = Source::Deep { open: open.clone(), n: n2, mid: mid.clone(), close: close.clone(), m: m2 };
                    v.push(b);
                }
            }
        }
    }
    v
}

pub fn size(a: &Actor) -> usize {
    let s = match &a.source {
        Source::Prog { prog, style, wild } => *wild as usize + ast::size(prog) + if *style == ast::PLAIN { 0 } else { 8 + (style.comment > 0) as usize + (style.newline > 0) as usize + (style.tight > 0) as usize + (style.asi > 0) as usize },
        Source::Text(t) => t.chars().map(|c| if c == 'a' { 3 } else { 4 }).sum::<usize>(),
        Source::Deep { n, m, .. } => 4 + (*n + *m) as usize,
        Source::Long { head, item, n, tail } => 4 + head.len() + tail.len() + item.len() * *n as usize,
    };
    let f: usize = a
        .faults
        .iter()
        .map(|f| {
            20 + match f {
                Fault::Lose { at } | Fault::Dup { at } | Fault::Flip { at, .. } | Fault::Drop { at } | Fault::DupC { at } | Fault::SwapC { at } | Fault::InsC { at, .. }
                | Fault::Eof { at } | Fault::Panic { at } => at / 4,
                Fault::Rule { at, .. } => 400 + at,
                Fault::SemiLost { at, gap } | Fault::Break { at, gap } => at / 4 + (*gap != 2) as usize,
                _ => 0,
            }
        })
        .sum();
    s + f + a.entry as usize + a.then as usize
}

thread_local!(pub static CUR: RefCell<u64> = RefCell::new(0));
