//! Simulated ESTree loads (C14): JSON documents of generated programs arrive
//! through readers that deliver in pieces, are interrupted, fail, are cut, or
//! garble bytes; or documents lose or garble parts of their nodes.
use crate::ast::{self, A, E, F, H, K, L, P, S};
use crate::parse::{self, Tree};
use crate::tree::M;
use easter::stmt::Script;
use estree::{ESTreeScript, IntoScript};
use joker::track::Untrack;
use json08::Value;
use serde::{Deserialize, Serialize};
use simcore::driver::Outcome;
use simcore::panics::{self, Caught};
use simcore::rng::{Fold, Rng};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::io::{self, BufReader, Read};
use std::rc::Rc;
use unjson::ty::Object;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum EFault {
    /// A field the loader builds the tree from goes missing.
    Lose { at: usize },
    /// A field or list element it builds the tree from turns into something else.
    Garble { at: usize, how: u8 },
    /// List elements lost, repeated or reordered.
    Elem { at: usize, how: u8 },
    /// A node turns up where another one was.
    Graft { at: usize, from: usize },
    /// A name or literal turns into another one.
    Rename { at: usize, how: u8 },
    /// Bytes garbled, lost or repeated.
    Flip { at: usize, b: u8 },
    Drop { at: usize },
    Dup { at: usize },
    /// Text after the document.
    Tail { text: String },
    /// The stream ends here.
    Cut { at: usize },
    /// The stream fails here.
    Io { at: usize },
    /// Reads are interrupted (and may be retried) here, n times.
    Eintr { at: usize, n: usize },
    /// The reader unwinds here.
    Panic { at: usize },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Load {
    pub prog: Vec<S>,
    /// Key order, spacing, spelling and extra fields; 0 is plain.
    pub style: u64,
    pub faults: Vec<EFault>,
    /// Sizes of successive reads, repeated.
    pub reads: Vec<usize>,
    /// A buffer in front of the reader.
    pub buf: usize,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct EstSc {
    pub hash_seed: u64,
    pub loads: Vec<Load>,
    /// When a read of one load runs another load first.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub sched: Vec<u8>,
}

// ---------------------------------------------------------------- documents

/// What tree a node stands for, which decides what other tags are wrong there.
#[derive(Clone, Copy, PartialEq)]
enum Cat {
    Expr,
    Stmt,
    Ident,
    Head,
    Key,
}
#[derive(Clone, Copy, PartialEq)]
enum Req {
    /// Not looked at by a loader.
    Extra,
    Node { null: bool },
    /// Any object will do.
    AnyNode,
    Nodes { hole: bool },
    Text,
    Tag(Cat),
    Word,
    Bool,
    BoolOpt,
    Lit { key: bool },
    Regex { need: bool },
}
#[derive(Clone)]
enum J {
    O(Vec<(&'static str, Req, J)>),
    A(Vec<J>),
    S(String),
    N(f64),
    B(bool),
    Null,
}

fn s(x: &str) -> J {
    J::S(x.to_string())
}
fn node(tag: &str, cat: Cat, mut fields: Vec<(&'static str, Req, J)>) -> J {
    fields.insert(0, ("type", Req::Tag(cat), s(tag)));
    J::O(fields)
}
fn loose(tag: &str, mut fields: Vec<(&'static str, Req, J)>) -> J {
    fields.insert(0, ("type", Req::Extra, s(tag)));
    J::O(fields)
}
const NODE: Req = Req::Node { null: false };
const OPT: Req = Req::Node { null: true };
const LIST: Req = Req::Nodes { hole: false };

fn ident(name: String, cat: Cat) -> J {
    node("Identifier", cat, vec![("name", Req::Text, J::S(name))])
}
fn id(n: u32, cat: Cat) -> J {
    ident(ast::id(n).1, cat)
}
fn opt<T>(x: &Option<T>, f: impl Fn(&T) -> J) -> J {
    x.as_ref().map_or(J::Null, f)
}
fn list<T>(x: &[T], f: impl Fn(&T) -> J) -> J {
    J::A(x.iter().map(f).collect())
}
fn literal(v: J, cat: Cat) -> J {
    node("Literal", cat, vec![("value", Req::Lit { key: cat == Cat::Key }, v)])
}
fn block(v: &[S]) -> J {
    node("BlockStatement", Cat::Stmt, vec![("body", LIST, list(v, stmt))])
}
/// A function's body: its tag is not looked at.
fn body(v: &[S]) -> J {
    loose("BlockStatement", vec![("body", LIST, list(v, stmt))])
}
fn fun_fields(f: &F) -> Vec<(&'static str, Req, J)> {
    let mut ps: Vec<J> = f.params.iter().map(|p| id(*p, Cat::Ident)).collect();
    if let Some(r) = f.rest {
        ps.push(node("RestElement", Cat::Ident, vec![("argument", NODE, id(r, Cat::Ident))]));
    }
    vec![
        ("generator", Req::BoolOpt, J::B(f.gen)),
        ("params", LIST, J::A(ps)),
        ("body", NODE, body(&f.body)),
        ("expression", Req::Extra, J::B(false)),
    ]
}
fn declarator(n: u32, e: &Option<E>, init: Req) -> J {
    loose("VariableDeclarator", vec![("id", NODE, id(n, Cat::Ident)), ("init", init, opt(e, expr))])
}
fn decl(k: u8, ds: &[(u32, Option<E>)], cat: Cat) -> J {
    let init = if k == 2 { NODE } else { OPT };
    node(
        "VariableDeclaration",
        cat,
        vec![("declarations", LIST, list(ds, |d| declarator(d.0, &d.1, init))), ("kind", Req::Word, s(["var", "let", "const"][k as usize % 3]))],
    )
}
fn left(l: &L, of: bool) -> J {
    let one = |k: u8, d: J| {
        node("VariableDeclaration", Cat::Head, vec![("declarations", LIST, J::A(vec![d])), ("kind", Req::Word, s(["var", "let", "const"][k as usize % 3]))])
    };
    match l {
        // A const head carries no initialiser, and for-of's is not looked at.
        L::Decl(k, n) => one(*k, declarator(*n, &None, if of { Req::Extra } else { OPT })),
        L::VarInit(n, e) => one(0, declarator(*n, &Some(e.clone()), OPT)),
        L::E(e) => expr(e),
    }
}
/// Would an `else` after this statement attach to something inside it?
fn open_if(s: &S) -> bool {
    match s {
        S::If(_, _, None) => true,
        S::If(_, _, Some(b)) => open_if(b),
        S::Label(_, b) | S::With(_, b) | S::While(_, b) | S::For(_, _, _, b) | S::ForIn(_, _, b) | S::ForOf(_, _, b) => open_if(b),
        _ => false,
    }
}

fn stmt(x: &S) -> J {
    let n = |t: &str, f| node(t, Cat::Stmt, f);
    match x {
        S::Raw(_) | S::Empty => n("EmptyStatement", vec![]),
        S::Block(v) => block(v),
        S::Decl(k, ds) => decl(*k, ds, Cat::Stmt),
        S::Expr(e) => n("ExpressionStatement", vec![("expression", NODE, expr(e))]),
        S::If(e, a, b) => {
            let cons = if b.is_some() && open_if(a) { block(&[(**a).clone()]) } else { stmt(a) };
            n("IfStatement", vec![("test", NODE, expr(e)), ("consequent", NODE, cons), ("alternate", OPT, opt(b, |b| stmt(b)))])
        }
        S::Label(l, b) => n("LabeledStatement", vec![("label", NODE, id(*l, Cat::Ident)), ("body", NODE, stmt(b))]),
        S::Break(l) => n("BreakStatement", vec![("label", OPT, opt(l, |l| id(*l, Cat::Ident)))]),
        S::Cont(l) => n("ContinueStatement", vec![("label", OPT, opt(l, |l| id(*l, Cat::Ident)))]),
        S::With(e, b) => n("WithStatement", vec![("object", NODE, expr(e)), ("body", NODE, stmt(b))]),
        S::Switch(e, cs) => n(
            "SwitchStatement",
            vec![
                ("discriminant", NODE, expr(e)),
                ("cases", LIST, list(cs, |c| loose("SwitchCase", vec![("test", OPT, opt(&c.0, expr)), ("consequent", LIST, list(&c.1, stmt))]))),
            ],
        ),
        S::Ret(e) => n("ReturnStatement", vec![("argument", OPT, opt(e, expr))]),
        S::Throw(e) => n("ThrowStatement", vec![("argument", NODE, expr(e))]),
        S::Try(b, c, f) => n(
            "TryStatement",
            vec![
                ("block", NODE, block(b)),
                ("handler", OPT, opt(c, |c| loose("CatchClause", vec![("param", NODE, id(c.0, Cat::Ident)), ("body", NODE, block(&c.1))]))),
                ("finalizer", OPT, opt(f, |f| block(f))),
            ],
        ),
        S::While(e, b) => n("WhileStatement", vec![("test", NODE, expr(e)), ("body", NODE, stmt(b))]),
        S::Do(b, e) => n("DoWhileStatement", vec![("body", NODE, stmt(b)), ("test", NODE, expr(e))]),
        S::For(h, t, u, b) => n(
            "ForStatement",
            vec![
                ("init", OPT, opt(h, |h| match h {
                    H::Decl(k, ds) => decl(*k, ds, Cat::Head),
                    H::E(e) => expr(e),
                })),
                ("test", OPT, opt(t, expr)),
                ("update", OPT, opt(u, expr)),
                ("body", NODE, stmt(b)),
            ],
        ),
        S::ForIn(l, e, b) => n("ForInStatement", vec![("left", NODE, left(l, false)), ("right", NODE, expr(e)), ("body", NODE, stmt(b))]),
        S::ForOf(l, e, b) => n("ForOfStatement", vec![("left", NODE, left(l, true)), ("right", NODE, expr(e)), ("body", NODE, stmt(b))]),
        S::Debugger => n("DebuggerStatement", vec![]),
        S::Fun(f) => {
            let mut v = vec![("id", NODE, id(f.id.unwrap_or(0), Cat::Ident))];
            v.extend(fun_fields(f));
            n("FunctionDeclaration", v)
        }
    }
}
fn key(k: &K) -> J {
    match k {
        K::Id(n) => id(*n, Cat::Key),
        K::Word(w) => ident(w.clone(), Cat::Key),
        K::Str(n) => literal(J::S(ast::string(*n).1), Cat::Key),
        K::Num(n) => literal(J::N(ast::num(*n).1), Cat::Key),
    }
}
fn prop(p: &P) -> J {
    let mk = |k: J, need: Req, v: J, kind: &str, method: (Req, bool), short: (Req, bool)| {
        loose(
            "Property",
            vec![
                ("key", NODE, k),
                ("value", need, v),
                ("kind", Req::Word, s(kind)),
                ("method", method.0, J::B(method.1)),
                ("shorthand", short.0, J::B(short.1)),
                ("computed", Req::Extra, J::B(false)),
            ],
        )
    };
    let b = |x: bool| (Req::Bool, x);
    let not = (Req::Extra, false);
    match p {
        P::Init(k, e) => mk(key(k), NODE, expr(e), "init", b(false), b(false)),
        P::Short(n) => mk(id(*n, Cat::Ident), Req::AnyNode, id(*n, Cat::Ident).unread(), "init", b(false), b(true)),
        P::Method(k, f) => mk(key(k), NODE, loose("FunctionExpression", with_id(fun_fields(f))), "init", b(true), not),
        P::Get(k, v) => mk(
            key(k),
            NODE,
            loose("FunctionExpression", with_id(vec![("params", Req::Extra, J::A(vec![])), ("generator", Req::Extra, J::B(false)), ("body", NODE, body(v))])),
            "get",
            not,
            not,
        ),
        P::Set(k, n, v) => {
            let f = F { id: None, params: vec![*n], rest: None, gen: false, body: v.clone() };
            mk(key(k), NODE, loose("FunctionExpression", with_id(fun_fields(&f))), "set", not, not)
        }
    }
}
fn with_id(mut v: Vec<(&'static str, Req, J)>) -> Vec<(&'static str, Req, J)> {
    v.push(("id", Req::Extra, J::Null));
    v
}
impl J {
    fn unread(self) -> J {
        match self {
            J::O(v) => J::O(v.into_iter().map(|(k, _, j)| (k, Req::Extra, j.unread())).collect()),
            J::A(v) => J::A(v.into_iter().map(|j| j.unread()).collect()),
            j => j,
        }
    }
}
fn arg(a: &A) -> J {
    match a {
        A::E(e) => expr(e),
        A::Spread(e) => node("SpreadElement", Cat::Expr, vec![("argument", NODE, expr(e))]),
    }
}
fn expr(e: &E) -> J {
    let n = |t: &str, f| node(t, Cat::Expr, f);
    match e {
        E::Raw(_) => n("ThisExpression", vec![]),
        E::Id(x) => id(*x, Cat::Expr),
        E::Name(w) => ident(w.clone(), Cat::Expr),
        E::Num(x) => literal(J::N(ast::num(*x).1), Cat::Expr),
        E::Str(x) => literal(J::S(ast::string(*x).1), Cat::Expr),
        E::Re(x) => {
            let (_, p, f) = ast::regexp(*x);
            let obj = x % 2 == 0;
            let v = if obj { J::O(vec![]) } else { J::Null };
            n(
                "Literal",
                vec![
                    ("value", Req::Lit { key: false }, v),
                    ("regex", Req::Regex { need: obj }, J::O(vec![("pattern", Req::Text, J::S(p)), ("flags", Req::Text, s(f))])),
                ],
            )
        }
        E::Lit(k) => match k % 4 {
            0 => n("ThisExpression", vec![]),
            1 => literal(J::Null, Cat::Expr),
            k => literal(J::B(k == 2), Cat::Expr),
        },
        E::Arr(v) => n("ArrayExpression", vec![("elements", Req::Nodes { hole: true }, list(v, |a| opt(a, arg)))]),
        E::Obj(v) => n("ObjectExpression", vec![("properties", LIST, list(v, prop))]),
        E::Fun(f) => {
            let mut v = vec![("id", OPT, opt(&f.id, |i| id(*i, Cat::Ident)))];
            v.extend(fun_fields(f));
            n("FunctionExpression", v)
        }
        E::Seq(v) => n("SequenceExpression", vec![("expressions", LIST, list(v, expr))]),
        E::Un(op, a) => n("UnaryExpression", vec![("operator", Req::Word, s(ast::UNOPS[*op as usize % ast::UNOPS.len()])), ("argument", NODE, expr(a)), ("prefix", Req::Extra, J::B(true))]),
        E::Upd { prefix, inc, arg } => {
            n("UpdateExpression", vec![("operator", Req::Word, s(if *inc { "++" } else { "--" })), ("argument", NODE, expr(arg)), ("prefix", Req::Bool, J::B(*prefix))])
        }
        E::Bin(op, a, b) => {
            let o = ast::BINOPS[*op as usize % ast::BINOPS.len()].0;
            let t = if o == "||" || o == "&&" { "LogicalExpression" } else { "BinaryExpression" };
            n(t, vec![("operator", Req::Word, s(o)), ("left", NODE, expr(a)), ("right", NODE, expr(b))])
        }
        E::Asg(op, a, b) => n("AssignmentExpression", vec![("operator", Req::Word, s(ast::ASSOPS[*op as usize % ast::ASSOPS.len()])), ("left", NODE, expr(a)), ("right", NODE, expr(b))]),
        E::Cond(a, b, c) => n("ConditionalExpression", vec![("test", NODE, expr(a)), ("consequent", NODE, expr(b)), ("alternate", NODE, expr(c))]),
        E::Call(c, v) => n("CallExpression", vec![("callee", NODE, expr(c)), ("arguments", LIST, list(v, arg))]),
        E::New(c, v) => n("NewExpression", vec![("callee", NODE, expr(c)), ("arguments", LIST, list(v.as_ref().map_or(&[][..], |v| &v[..]), arg))]),
        E::Dot(o, k) => {
            let name = match k {
                K::Id(n) => ast::id(*n).1,
                K::Word(w) => w.clone(),
                _ => String::new(),
            };
            n("MemberExpression", vec![("object", NODE, expr(o)), ("computed", Req::Bool, J::B(false)), ("property", NODE, ident(name, Cat::Ident))])
        }
        E::Brk(o, i) => n("MemberExpression", vec![("object", NODE, expr(o)), ("computed", Req::Bool, J::B(true)), ("property", NODE, expr(i))]),
        E::Par(e) => expr(e),
        E::Target => n("MetaProperty", vec![("meta", NODE, ident("new".into(), Cat::Ident)), ("property", NODE, ident("target".into(), Cat::Ident))]),
    }
}
fn document(prog: &[S]) -> J {
    loose("Program", vec![("body", LIST, list(prog, stmt)), ("sourceType", Req::Extra, s("script"))])
}

// ------------------------------------------------------------------ damage

const UNKNOWN: &[&str] = &["", "Junk", "identifier", "Expression", "ArrowFunctionExpression", "ClassDeclaration", "TemplateLiteral", "\u{0}"];

/// What this part cannot be; none of these leaves a document that means anything.
fn wrong(req: Req, how: u8) -> Option<J> {
    let h = how as usize;
    let junk = |v: &[J]| Some(v[h % v.len()].clone());
    let (nul, yes, three, text, arr, obj) = (J::Null, J::B(true), J::N(3.0), s("junk"), J::A(vec![]), J::O(vec![]));
    match req {
        Req::Extra => None,
        Req::Node { null: false } => junk(&[nul, yes, three, text, arr, obj]),
        Req::Node { null: true } => junk(&[yes, three, text, arr, obj]),
        Req::AnyNode => junk(&[nul, yes, three, text, arr]),
        Req::Nodes { .. } => junk(&[nul, yes, three, text, obj]),
        Req::Text => junk(&[nul, yes, three, arr, obj]),
        Req::Word => junk(&[nul, yes, three, arr, obj, s("junk"), s(""), s("=>")]),
        Req::Bool => junk(&[nul, three, text, arr, obj]),
        Req::BoolOpt => junk(&[three, text, arr, obj]),
        Req::Lit { key: false } => junk(&[arr]),
        Req::Lit { key: true } => junk(&[arr, nul, yes, obj]),
        Req::Regex { .. } => junk(&[nul, yes, three, text, arr, obj]),
        Req::Tag(cat) => {
            let other: &[&str] = match cat {
                Cat::Expr => &["EmptyStatement", "BlockStatement", "RestElement", "VariableDeclaratio", "Property"],
                Cat::Stmt => &["Identifier", "Literal", "ThisExpression", "SwitchCase", "SpreadElement"],
                Cat::Ident => &["Literal", "ThisExpression", "EmptyStatement", "MemberExpression"],
                Cat::Head => &["EmptyStatement", "SwitchCase", "BlockStatement"],
                Cat::Key => &[],
            };
            let n = 5 + UNKNOWN.len() + other.len();
            Some(match h % n {
                0 => nul,
                1 => yes,
                2 => three,
                3 => arr,
                4 => obj,
                k if k - 5 < UNKNOWN.len() => s(UNKNOWN[k - 5]),
                k => s(other[k - 5 - UNKNOWN.len()]),
            })
        }
    }
}

/// Remove the at-th part a tree is built from; says whether nothing can be loaded then.
fn lose(j: &mut J, at: &mut usize) -> Option<bool> {
    match j {
        J::O(v) => {
            for i in 0..v.len() {
                if v[i].1 != Req::Extra {
                    if *at == 0 {
                        let must = !matches!(v[i].1, Req::Regex { need: false });
                        v.remove(i);
                        return Some(must);
                    }
                    *at -= 1;
                }
                if let Some(m) = lose(&mut v[i].2, at) {
                    return Some(m);
                }
            }
            None
        }
        J::A(v) => v.iter_mut().find_map(|j| lose(j, at)),
        _ => None,
    }
}
fn garble(j: &mut J, at: &mut usize, how: u8) -> Option<bool> {
    match j {
        J::O(v) => {
            for (_, req, j) in v.iter_mut() {
                if *req != Req::Extra {
                    if *at == 0 {
                        return match wrong(*req, how) {
                            Some(w) => {
                                *j = w;
                                Some(true)
                            }
                            None => Some(false),
                        };
                    }
                    *at -= 1;
                }
                if let (Req::Nodes { hole }, J::A(v)) = (*req, &mut *j) {
                    for e in v.iter_mut() {
                        if *at == 0 {
                            *e = wrong(Req::Node { null: hole }, how).unwrap();
                            return Some(true);
                        }
                        *at -= 1;
                        if let Some(m) = garble(e, at, how) {
                            return Some(m);
                        }
                    }
                } else if let Some(m) = garble(j, at, how) {
                    return Some(m);
                }
            }
            None
        }
        J::A(v) => v.iter_mut().find_map(|j| garble(j, at, how)),
        _ => None,
    }
}
/// Calls f on every list of nodes, in order, until it answers.
fn each_list(j: &mut J, f: &mut dyn FnMut(&mut Vec<J>) -> Option<bool>) -> Option<bool> {
    match j {
        J::O(v) => {
            for (_, req, j) in v.iter_mut() {
                if let (Req::Nodes { .. }, J::A(a)) = (*req, &mut *j) {
                    if let Some(r) = f(a) {
                        return Some(r);
                    }
                }
                if let Some(r) = each_list(j, f) {
                    return Some(r);
                }
            }
            None
        }
        J::A(v) => v.iter_mut().find_map(|j| each_list(j, f)),
        _ => None,
    }
}
/// The list holding the at-th element (or, for an empty list, place) loses, repeats or moves it.
fn elem(j: &mut J, at: usize, how: u8) -> Option<bool> {
    let mut n = at;
    let other = how as usize / 8;
    each_list(j, &mut |v| {
        let len = v.len().max(1);
        if n >= len {
            n -= len;
            return None;
        }
        if v.is_empty() {
            return Some(false);
        }
        let to = other % v.len();
        match how % 4 {
            0 => {
                v.remove(n);
            }
            1 => {
                let x = v[n].clone();
                v.insert(n, x);
            }
            2 => {
                let x = v[n].clone();
                v.insert(to, x);
            }
            _ => v.swap(n, to),
        }
        Some(false)
    })
}
/// Whole expressions and statements, in order.
fn grafts<'a>(j: &'a J, out: &mut Vec<&'a J>) {
    match j {
        J::O(v) => {
            if v.iter().any(|(k, r, _)| *k == "type" && matches!(r, Req::Tag(Cat::Expr | Cat::Stmt))) {
                out.push(j);
            }
            v.iter().for_each(|x| grafts(&x.2, out));
        }
        J::A(v) => v.iter().for_each(|x| grafts(x, out)),
        _ => {}
    }
}
fn graft(j: &mut J, at: &mut usize, new: &J) -> bool {
    match j {
        J::O(v) => {
            if v.iter().any(|(k, r, _)| *k == "type" && matches!(r, Req::Tag(Cat::Expr | Cat::Stmt))) {
                if *at == 0 {
                    *j = new.clone();
                    return true;
                }
                *at -= 1;
            }
            if let J::O(v) = j {
                return v.iter_mut().any(|x| graft(&mut x.2, at, new));
            }
            false
        }
        J::A(v) => v.iter_mut().any(|x| graft(x, at, new)),
        _ => false,
    }
}
/// The at-th name or literal. Is it a literal, and changed for another?
fn rename(j: &mut J, at: &mut usize, how: u8) -> Option<bool> {
    match j {
        J::O(v) => {
            let re = v.iter().any(|x| matches!(x.1, Req::Regex { .. }));
            for (_, r, x) in v.iter_mut() {
                if (matches!(r, Req::Text) || matches!(r, Req::Lit { .. }) && !re) && !matches!(x, J::O(_) | J::A(_)) {
                    if *at == 0 {
                        *x = match (*r, how % 6) {
                            (Req::Text, h) => s(["other", "junk name", "", "\u{e9}", "new", "target"][h as usize]),
                            (Req::Lit { .. }, 0 | 1) => s("other"),
                            (_, 2) => s(""),
                            (_, h) => J::N([0.0, 7.5, 1e300, -1.0, -0.25, 4294967296.0, -2147483649.0, -1e300, 9007199254740991.0][(how / 6) as usize % 3 + 3 * (h as usize % 3)]),
                        };
                        return Some(!matches!(r, Req::Text));
                    }
                    *at -= 1;
                }
                if let Some(lit) = rename(x, at, how) {
                    return Some(lit);
                }
            }
            None
        }
        J::A(v) => v.iter_mut().find_map(|x| rename(x, at, how)),
        _ => None,
    }
}
/// The names and literals a tree of this document has to hold, in order.
fn contents(j: &J, out: &mut Vec<M>) {
    fn word(w: &str, out: &mut Vec<M>) {
        if !crate::tree::silent(w) {
            out.push(M::W(w.to_string()));
        }
    }
    match j {
        J::O(v) => {
            let re = v.iter().find(|x| matches!(x.1, Req::Regex { .. }));
            if let Some((_, _, J::O(f))) = re {
                let get = |k: &str| f.iter().find_map(|x| if let (true, J::S(s)) = (x.0 == k, &x.2) { Some(s.clone()) } else { None }).unwrap_or_default();
                // The tree keeps a set of flags.
                let mut flags: Vec<char> = get("flags").chars().collect();
                flags.sort();
                out.push(M::R(get("pattern"), flags.into_iter().collect()));
                return;
            }
            for (_, r, x) in v {
                match (r, x) {
                    (Req::Text, J::S(s)) => word(s, out),
                    (Req::Lit { .. }, J::S(s)) => out.push(M::S(s.clone())),
                    (Req::Lit { .. }, J::N(n)) => out.push(M::N(n.to_bits())),
                    (Req::Lit { .. }, J::B(b)) => word(if *b { "true" } else { "false" }, out),
                    (Req::Lit { .. }, J::Null) => word("null", out),
                    (Req::Tag(_), J::S(s)) if s == "ThisExpression" => word("this", out),
                    (Req::Tag(_), J::S(s)) if s == "DebuggerStatement" => word("debugger", out),
                    (Req::Extra, _) => {}
                    _ => contents(x, out),
                }
            }
        }
        J::A(v) => v.iter().for_each(|x| contents(x, out)),
        _ => {}
    }
}
fn slots(j: &J) -> usize {
    match j {
        J::O(v) => v.iter().map(|(_, r, j)| (*r != Req::Extra) as usize + slots(j)).sum(),
        J::A(v) => v.iter().map(slots).sum(),
        _ => 0,
    }
}

// ------------------------------------------------------------------ spelling

struct Pen {
    out: String,
    r: Rng,
    plain: bool,
    spaced: usize,
    extra: usize,
}
impl Pen {
    fn ws(&mut self) {
        if !self.plain && self.r.pct(self.spaced) {
            let w = *self.r.pick(&[" ", "\n", "\t", "\r\n", "  "]);
            self.out.push_str(w);
        }
    }
    fn text(&mut self, t: &str) {
        self.out.push('"');
        for c in t.chars() {
            match c {
                '"' | '\\' => {
                    self.out.push('\\');
                    self.out.push(c);
                }
                '\n' => self.out.push_str("\\n"),
                c if (c as u32) < 32 => self.out.push_str(&format!("\\u{:04x}", c as u32)),
                c if !self.plain && (c > '~' || c == '/') && self.r.pct(50) || !self.plain && self.r.pct(2) => {
                    let mut b = [0; 2];
                    for u in c.encode_utf16(&mut b) {
                        self.out.push_str(&format!("\\u{:04X}", u));
                    }
                }
                c => self.out.push(c),
            }
        }
        self.out.push('"');
    }
    fn number(&mut self, v: f64) {
        let int = v.fract() == 0.0 && v.abs() < 1e15;
        let k = if self.plain { 0 } else { self.r.below(3) };
        let t = match k {
            0 | 1 if int => format!("{}", v as i64),
            2 if int && v as i64 % 100 == 0 => format!("{}e2", v as i64 / 100),
            2 if int => format!("{}.0", v as i64),
            _ => format!("{}", v),
        };
        self.out.push_str(&t);
    }
    fn extras(&mut self) -> Vec<(&'static str, J)> {
        let mut v: Vec<(&'static str, J)> = vec![];
        if !self.plain && self.r.pct(self.extra) {
            let n = self.r.below(9999) as f64;
            let pos = |l: f64| J::O(vec![("line", Req::Extra, J::N(l)), ("column", Req::Extra, J::N(7.0))]);
            for _ in 0..self.r.range(1, 3) {
                v.push(match self.r.below(7) {
                    0 => ("start", J::N(n)),
                    1 => ("end", J::N(n)),
                    2 => ("range", J::A(vec![J::N(n), J::N(n + 1.0)])),
                    3 => ("loc", J::O(vec![("start", Req::Extra, pos(n)), ("end", Req::Extra, pos(n)), ("source", Req::Extra, J::Null)])),
                    4 => ("raw", s("'raw'")),
                    5 => ("trailingComments", J::A(vec![J::O(vec![("type", Req::Extra, s("Line")), ("value", Req::Extra, s("c"))])])),
                    _ => ("typeAnnotation", J::Null),
                });
            }
            v.sort_by_key(|x| x.0);
            v.dedup_by_key(|x| x.0);
        }
        v
    }
    fn put(&mut self, j: &J) {
        self.ws();
        match j {
            J::Null => self.out.push_str("null"),
            J::B(b) => self.out.push_str(if *b { "true" } else { "false" }),
            J::N(v) => self.number(*v),
            J::S(t) => self.text(t),
            J::A(v) => {
                self.out.push('[');
                for (i, j) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.put(j);
                }
                self.ws();
                self.out.push(']');
            }
            J::O(v) => {
                let tagged = v.iter().any(|f| f.0 == "type");
                let ex = if tagged { self.extras() } else { vec![] };
                // A flag that may be missing is as good as null where it is false.
                let off = |f: &(&'static str, Req, J)| f.1 == Req::BoolOpt && matches!(f.2, J::B(false));
                let nul = if self.plain { false } else { self.r.pct(15) };
                let mut fs: Vec<(&str, &J)> = v.iter().map(|f| (f.0, if nul && off(f) { &J::Null } else { &f.2 })).collect();
                fs.extend(ex.iter().map(|f| (f.0, &f.1)));
                if !self.plain {
                    for i in (1..fs.len()).rev() {
                        let k = self.r.below(i + 1);
                        fs.swap(i, k);
                    }
                }
                self.out.push('{');
                for (i, (k, j)) in fs.into_iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.ws();
                    self.text(k);
                    self.ws();
                    self.out.push(':');
                    self.put(j);
                }
                self.ws();
                self.out.push('}');
            }
        }
        self.ws();
    }
}
fn spell(j: &J, style: u64) -> String {
    let mut r = Rng::new(style);
    let (spaced, extra) = (r.below(40), if r.pct(50) { r.below(60) } else { 0 });
    let mut p = Pen { out: String::new(), r, plain: style == 0, spaced, extra };
    p.put(j);
    p.out
}

// ------------------------------------------------------------------ the plan

struct Plan {
    bytes: Vec<u8>,
    /// The stream fails at this offset.
    io: Option<usize>,
    panic: Option<usize>,
    eintr: Vec<(usize, usize)>,
    /// The document is that of a whole program.
    clean: bool,
    /// Nothing can be loaded from it.
    must_fail: bool,
    /// The bytes are those of a document, whatever it is worth; a tree loaded from it holds this.
    holds: Option<Vec<M>>,
    /// It is that of a whole program but for the value of one literal.
    other: bool,
}
impl Load {
    fn plan(&self) -> Plan {
        let mut doc = document(&self.prog);
        let (mut clean, mut must_fail, mut other) = (true, false, false);
        let mut spoilt = 0;
        let grafted = self.faults.iter().any(|f| matches!(f, EFault::Graft { .. }));
        for f in &self.faults {
            let hit = match f {
                EFault::Lose { at } => lose(&mut doc, &mut at.clone()),
                EFault::Garble { at, how } => garble(&mut doc, &mut at.clone(), *how),
                EFault::Elem { at, how } => elem(&mut doc, *at, *how),
                EFault::Graft { at, from } => {
                    let new = {
                        let mut all = vec![];
                        grafts(&doc, &mut all);
                        all.get(*from).map(|j| (*j).clone())
                    };
                    new.and_then(|n| if graft(&mut doc, &mut at.clone(), &n) { Some(false) } else { None })
                }
                EFault::Rename { at, how } => match rename(&mut doc, &mut at.clone(), *how) {
                    Some(lit) => {
                        other = lit;
                        Some(false)
                    }
                    None => None,
                },
                _ => None,
            };
            // What is wrong for a node depends on where it was.
            let hit = if grafted && matches!(f, EFault::Garble { .. }) { hit.and(Some(false)) } else { hit };
            spoilt += hit.is_some() as u32;
            match hit {
                Some(true) => {
                    must_fail = true;
                    clean = false;
                }
                Some(false) => clean = false,
                None => {}
            }
        }
        let mut bytes = spell(&doc, self.style).into_bytes();
        let mut holds = vec![];
        contents(&doc, &mut holds);
        let mut garbled = false;
        for f in &self.faults {
            match f {
                EFault::Flip { at, b } if *at < bytes.len() => {
                    garbled |= bytes[*at] != *b;
                    bytes[*at] = *b;
                }
                EFault::Drop { at } if *at < bytes.len() => {
                    bytes.remove(*at);
                    garbled = true;
                }
                EFault::Dup { at } if *at < bytes.len() => {
                    let b = bytes[*at];
                    bytes.insert(*at, b);
                    garbled = true;
                }
                _ => {}
            }
        }
        if garbled {
            clean = false;
            must_fail = false;
        }
        for f in &self.faults {
            match f {
                EFault::Tail { text } => {
                    bytes.extend_from_slice(text.as_bytes());
                    if !text.trim_matches(|c| " \t\r\n".contains(c)).is_empty() {
                        clean = false;
                        must_fail |= !garbled;
                    }
                }
                EFault::Cut { at } if *at < bytes.len() => {
                    let last = bytes.iter().rposition(|b| !b" \t\r\n".contains(b)).unwrap_or(0);
                    if *at <= last {
                        clean = false;
                        // Cut inside the junk behind a document, what arrived may be a whole one.
                        must_fail |= !garbled && !self.faults.iter().any(|f| matches!(f, EFault::Tail { .. }));
                    }
                    bytes.truncate(*at);
                    if self.faults.iter().any(|f| matches!(f, EFault::Tail { .. })) {
                        clean = false;
                        must_fail = false;
                    }
                }
                _ => {}
            }
        }
        let mut p = Plan { bytes, io: None, panic: None, eintr: vec![], clean, must_fail, holds: Some(holds), other: other && !clean && !must_fail && spoilt == 1 };
        if grafted && self.faults.iter().any(|f| matches!(f, EFault::Garble { .. })) || self.faults.iter().any(|f| matches!(f, EFault::Flip { .. } | EFault::Drop { .. } | EFault::Dup { .. } | EFault::Tail { .. } | EFault::Cut { .. })) {
            p.holds = None;
            p.other = false;
        }
        for f in &self.faults {
            match f {
                EFault::Io { at } if *at <= p.bytes.len() => p.io = Some(*at),
                EFault::Panic { at } if *at <= p.bytes.len() => p.panic = Some(*at),
                EFault::Eintr { at, n } if *at <= p.bytes.len() => p.eintr.push((*at, *n)),
                _ => {}
            }
        }
        p
    }
}

#[derive(Default)]
struct Seen {
    reads: Cell<u64>,
    eintr: Cell<u64>,
    io: Cell<u64>,
    panic: Cell<bool>,
    short: Cell<u64>,
}
struct Faulty {
    bytes: Rc<Vec<u8>>,
    at: usize,
    io: Option<usize>,
    panic: Option<usize>,
    eintr: Vec<(usize, usize)>,
    reads: Vec<usize>,
    id: u64,
    seen: Rc<Seen>,
    hook: Option<Rc<dyn Fn()>>,
}
impl Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(h) = &self.hook {
            h();
        }
        let k = self.seen.reads.get();
        self.seen.reads.set(k + 1);
        for e in self.eintr.iter_mut() {
            if e.0 == self.at && e.1 > 0 {
                e.1 -= 1;
                self.seen.eintr.set(self.seen.eintr.get() + 1);
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
        }
        if self.panic == Some(self.at) {
            self.seen.panic.set(true);
            panics::inject(self.id);
        }
        if self.io == Some(self.at) {
            self.seen.io.set(self.seen.io.get() + 1);
            return Err(io::Error::new(io::ErrorKind::Other, "the disk failed"));
        }
        let want = if self.reads.is_empty() { buf.len() } else { self.reads[k as usize % self.reads.len()].max(1) };
        let mut stop = self.bytes.len();
        for s in self.io.iter().chain(self.panic.iter()).chain(self.eintr.iter().filter(|e| e.1 > 0).map(|e| &e.0)) {
            if *s > self.at {
                stop = stop.min(*s);
            }
        }
        let n = want.min(buf.len()).min(stop - self.at);
        if n < buf.len() && n > 0 {
            self.seen.short.set(self.seen.short.get() + 1);
        }
        buf[..n].copy_from_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

// ------------------------------------------------------------------ running

pub enum ERes {
    Ok(Script),
    Err(String),
    Injected(u64),
    Foreign(String),
}
impl ERes {
    fn show(&self) -> String {
        let t = match self {
            ERes::Ok(s) => format!("loaded {:?}", s),
            ERes::Err(e) => format!("error: {}", e),
            ERes::Injected(n) => format!("unwound with the reader's failure {}", n),
            ERes::Foreign(m) => format!("panicked: {}", m),
        };
        if t.chars().count() > 300 { t.chars().take(300).collect::<String>() + "…" } else { t }
    }
    fn kind(&self) -> u64 {
        match self {
            ERes::Ok(_) => 1,
            ERes::Injected(_) => 2,
            ERes::Foreign(_) => 3,
            ERes::Err(e) => {
                let mut f = Fold::new();
                f.str(&e.chars().filter(|c| !c.is_ascii_digit()).take(40).collect::<String>());
                f.0
            }
        }
    }
    fn same(&self, o: &ERes) -> bool {
        match (self, o) {
            (ERes::Ok(a), ERes::Ok(b)) => a == b,
            (ERes::Err(_), ERes::Err(_)) => true,
            (ERes::Injected(a), ERes::Injected(b)) => a == b,
            _ => false,
        }
    }
}
fn guard(f: impl FnOnce() -> Result<Script, String>) -> ERes {
    match panics::catch(f) {
        Ok(Ok(t)) => ERes::Ok(t),
        Ok(Err(e)) => ERes::Err(e),
        Err(Caught::Injected(s)) => ERes::Injected(s.0),
        Err(Caught::Foreign(m)) => ERes::Foreign(m),
    }
}
fn into_script(o: Object) -> Result<Script, String> {
    o.into_script().map_err(|e| e.to_string())
}

struct EDone {
    res: ERes,
    /// What ESTreeScript's own Deserialize says of an equal stream.
    public: Option<Result<(), String>>,
    seen: Rc<Seen>,
}
fn reader(l: &Load, p: &Plan, bytes: &Rc<Vec<u8>>, id: u64, seen: &Rc<Seen>, hook: Option<Rc<dyn Fn()>>) -> Box<dyn Read> {
    let f = Faulty { bytes: bytes.clone(), at: 0, io: p.io, panic: p.panic, eintr: p.eintr.clone(), reads: l.reads.clone(), id, seen: seen.clone(), hook };
    if l.buf > 0 { Box::new(BufReader::with_capacity(l.buf, f)) } else { Box::new(f) }
}
fn load(l: &Load, p: &Plan, id: u64, hook: Option<Rc<dyn Fn()>>) -> EDone {
    let bytes = Rc::new(p.bytes.clone());
    let seen = Rc::new(Seen::default());
    let res = {
        let rd = reader(l, p, &bytes, id, &seen, hook);
        guard(move || {
            let o: Object = json08::from_reader(rd).map_err(|e| format!("stream: {}", e))?;
            into_script(o)
        })
    };
    let public = match panics::catch(|| json08::from_reader::<_, ESTreeScript>(reader(l, p, &bytes, id, &Rc::new(Seen::default()), None)).map(|_| ()).map_err(|e| e.to_string())) {
        Ok(r) => Some(r),
        Err(Caught::Injected(_)) => None,
        Err(Caught::Foreign(m)) => Some(Err(format!("PANIC {}", m))),
    };
    EDone { res, public, seen }
}

struct Nest {
    loads: Vec<Load>,
    plans: Vec<Plan>,
    sched: Vec<u8>,
    pos: Cell<usize>,
    next: Cell<usize>,
    done: RefCell<Vec<Option<EDone>>>,
    nested: Cell<u64>,
    order: RefCell<Fold>,
}
fn run_nested(c: Rc<Nest>, i: usize) {
    let hook: Option<Rc<dyn Fn()>> = if c.sched.is_empty() {
        None
    } else {
        let c = c.clone();
        Some(Rc::new(move || {
            let k = c.pos.get();
            c.pos.set(k + 1);
            let j = c.next.get();
            if c.sched.get(k).map_or(false, |&b| b >= 200) && j < c.loads.len() {
                c.next.set(j + 1);
                c.nested.set(c.nested.get() + 1);
                c.order.borrow_mut().add((i as u64) << 40 | (j as u64) << 32 | k as u64);
                run_nested(c.clone(), j);
            }
        }))
    };
    let d = load(&c.loads[i], &c.plans[i], i as u64 + 1, hook);
    c.done.borrow_mut()[i] = Some(d);
}

fn normal(prog: &[S]) -> String {
    ast::text(prog, ast::PLAIN)
}

/// Every name and literal in the tree stands somewhere in the document.
fn invented(t: &Script, doc: &Object) -> Option<String> {
    fn gather(v: &Value, st: &mut HashSet<String>, nums: &mut HashSet<u64>) {
        match v {
            Value::String(s) => {
                st.insert(s.clone());
            }
            Value::I64(n) => {
                nums.insert((*n as f64).to_bits());
            }
            Value::U64(n) => {
                nums.insert((*n as f64).to_bits());
            }
            Value::F64(n) => {
                nums.insert(n.to_bits());
            }
            Value::Array(a) => a.iter().for_each(|v| gather(v, st, nums)),
            Value::Object(o) => o.values().for_each(|v| gather(v, st, nums)),
            _ => {}
        }
    }
    let (mut st, mut nums) = (HashSet::new(), HashSet::new());
    for v in doc.values() {
        gather(v, &mut st, &mut nums);
    }
    let w = parse::walk(&Tree::Script(t.clone()));
    for m in &w.out {
        let ok = match m {
            M::P(_) => true,
            M::W(s) if matches!(&s[..], "null" | "true" | "false" | "this" | "new" | "target") => true,
            M::W(s) | M::S(s) => st.contains(s),
            M::N(b) => nums.contains(b),
            M::R(p, f) => {
                let sorted = |s: &str| {
                    let mut c: Vec<char> = s.chars().collect();
                    c.sort();
                    c
                };
                st.contains(p) && (st.contains(f) || st.iter().any(|x| x.len() == f.len() && sorted(x) == sorted(f)))
            }
        };
        if !ok {
            return Some(format!("{:?} is in the tree but not in the document", m));
        }
    }
    None
}

fn fault_name(f: &EFault) -> &'static str {
    match f {
        EFault::Lose { .. } => "fault:node part lost",
        EFault::Garble { .. } | EFault::Rename { .. } => "fault:node part garbled",
        EFault::Elem { .. } => "fault:list elements lost, repeated or reordered",
        EFault::Graft { .. } => "fault:node in another's place",
        EFault::Flip { .. } => "fault:byte garbled",
        EFault::Drop { .. } => "fault:byte lost",
        EFault::Dup { .. } => "fault:byte repeated",
        EFault::Tail { .. } => "fault:text after the document",
        EFault::Cut { .. } => "fault:stream cut",
        EFault::Io { .. } => "fault:I/O error armed",
        EFault::Eintr { .. } => "fault:interruption armed",
        EFault::Panic { .. } => "fault:reader failure armed",
    }
}

fn all(sc: &EstSc) -> Rc<Nest> {
    let n = sc.loads.len();
    let nest = Rc::new(Nest {
        loads: sc.loads.clone(),
        plans: sc.loads.iter().map(|l| l.plan()).collect(),
        sched: sc.sched.clone(),
        pos: Cell::new(0),
        next: Cell::new(0),
        done: RefCell::new((0..n).map(|_| None).collect()),
        nested: Cell::new(0),
        order: RefCell::new(Fold::new()),
    });
    while nest.next.get() < n {
        let j = nest.next.get();
        nest.next.set(j + 1);
        run_nested(nest.clone(), j);
    }
    nest
}

/// Every load of a scenario, and nothing kept of it.
pub fn settle(sc: &EstSc) {
    all(sc).done.borrow_mut().clear();
}

pub fn exec(prop: &str, sc: &EstSc, mut trace: Option<&mut Vec<String>>) -> Outcome {
    let mut out = Outcome::default();
    let (mut inter, mut log) = (Fold::new(), Fold::new());
    let nest = all(sc);
    out.count("loads run from inside another's reader", nest.nested.get());
    inter.add(nest.order.borrow().0);
    let done: Vec<EDone> = nest.done.borrow_mut().drain(..).map(|d| d.unwrap()).collect();
    let mut bad: Vec<(&'static str, String)> = vec![];
    for (i, d) in done.iter().enumerate() {
        let (l, p) = (&sc.loads[i], &nest.plans[i]);
        if let Some(t) = trace.as_mut() {
            let doc = String::from_utf8_lossy(&p.bytes).into_owned();
            t.push(format!("load {}: program {:?}", i, normal(&l.prog)));
            t.push(format!("load {}: document {}{}", i, doc.chars().take(1500).collect::<String>(), if doc.chars().count() > 1500 { "…" } else { "" }));
            t.push(format!("load {}: faults {:?}, reads {:?}, buffer {}, {}", i, l.faults, l.reads, l.buf, d.res.show()));
        }
        for f in &l.faults {
            out.count(fault_name(f), 1);
        }
        let sn = &d.seen;
        out.steps += sn.reads.get();
        out.count("reads", sn.reads.get());
        out.count("fault:short read", sn.short.get());
        out.count("fault:interrupted read", sn.eintr.get());
        out.count("fault:I/O error", sn.io.get());
        if sn.panic.get() {
            out.count("fault:reader failed", 1);
        }
        let k = d.res.kind();
        for x in [k, sn.reads.get(), sn.eintr.get(), sn.io.get()] {
            log.add(x);
            inter.add(x);
        }
        if let ERes::Ok(s) = &d.res {
            let mut f = Fold::new();
            f.str(&format!("{:?}", s));
            log.add(f.0);
        }
        let mut h = Fold::new();
        for b in p.bytes.iter() {
            h.add(*b as u64);
        }
        inter.add(h.0);
        let mut st = Fold::new();
        st.add(k);
        st.add(p.clean as u64 * 4 + p.must_fail as u64 * 2 + p.io.is_some() as u64);
        st.add(p.bytes.len().min(4000) as u64 / 200);
        out.states.push(st.0);
        out.nontrivial |= p.bytes.len() > 60;

        match &d.res {
            ERes::Foreign(m) => bad.push(("panic", format!("load {}: {}", i, m))),
            ERes::Injected(_) if sn.panic.get() => out.count("loads ended by the reader's failure", 1),
            ERes::Injected(x) => bad.push(("est-chunk", format!("load {} surfaced failure {}, which its reader did not raise", i, x))),
            r => {
                if sn.panic.get() {
                    bad.push(("est-lost", format!("load {} swallowed the reader's failure: {}", i, r.show())));
                }
                if let ERes::Ok(s) = r {
                    out.count("documents loaded", 1);
                    if sn.io.get() > 0 {
                        bad.push(("est-lost", format!("load {} succeeded although its stream failed", i)));
                    }
                    if p.must_fail {
                        bad.push(("est-lost", format!("load {} of a damaged document succeeded: {}", i, r.show())));
                    }
                    if let Some(h) = &p.holds {
                        out.count("loaded trees accounted for", 1);
                        let mut w = parse::walk(&Tree::Script(s.clone())).out;
                        for m in &mut w {
                            if let M::R(_, f) = m {
                                let mut c: Vec<char> = f.chars().collect();
                                c.sort();
                                *f = c.into_iter().collect();
                            }
                        }
                        if w != *h {
                            let k = w.iter().zip(h).take_while(|(a, b)| a == b).count();
                            bad.push(("est-lost", format!("load {}: the document has {:?} where the tree has {:?}", i, h.get(k), w.get(k))));
                        }
                    }
                    if let Ok(o) = json08::from_slice::<Object>(&p.bytes) {
                        if let Some(m) = invented(s, &o) {
                            bad.push(("est-tree", format!("load {}: {}", i, m)));
                        }
                    }
                } else {
                    out.count("documents refused", 1);
                }
            }
        }
        match (&d.public, &d.res) {
            (Some(Err(m)), _) if m.starts_with("PANIC ") => bad.push(("panic", format!("load {} as ESTreeScript: {}", i, &m[6..]))),
            (Some(Ok(())), ERes::Err(e)) => bad.push(("est-chunk", format!("load {}: ESTreeScript accepts what the loader refuses: {}", i, e))),
            (Some(Err(e)), ERes::Ok(_)) => bad.push(("est-chunk", format!("load {}: ESTreeScript refuses what the loader accepts: {}", i, e))),
            _ => {}
        }
        // The same bytes in one piece.
        if p.io.is_none() && p.panic.is_none() {
            let b = &p.bytes;
            let whole = guard(|| {
                let o: Object = json08::from_slice(b).map_err(|e| format!("stream: {}", e))?;
                into_script(o)
            });
            out.count("loads compared with the bytes in one piece", 1);
            if !whole.same(&d.res) {
                bad.push(("est-chunk", format!("load {} from its reader: {}; from the same bytes in one piece: {}", i, d.res.show(), whole.show())));
            }
            if p.other {
                // A literal of another value is as good, where the document it is in is good.
                let doc = spell(&document(&l.prog), 0).into_bytes();
                let good = guard(|| into_script(json08::from_slice(&doc).map_err(|e| format!("stream: {}", e))?));
                if let (ERes::Ok(_), ERes::Err(e)) = (good, &d.res) {
                    bad.push(("est-tree", format!("load {}: a document that differs from a good one in the value of a literal was refused: {}", i, e)));
                }
                out.count("literals changed for others of their own", 1);
            }
            if p.clean {
                let text = normal(&l.prog);
                match guard(|| esprit::script(&text).map_err(|e| format!("{:?}", e))) {
                    ERes::Ok(mut t) => {
                        t.untrack();
                        match &d.res {
                            ERes::Ok(s) => {
                                out.count("loaded trees compared with the parser's", 1);
                                if *s != t {
                                    bad.push(("est-tree", format!("load {} of {:?} gave {:?}; the parser gives {:?}", i, text, s, t)));
                                }
                            }
                            ERes::Err(e) => bad.push(("est-tree", format!("load {}: the document of {:?} was refused: {}", i, text, e))),
                            _ => {}
                        }
                    }
                    o => {
                        out.count("programs the parser refused", 1);
                        if let ERes::Foreign(m) = o {
                            bad.push(("panic", format!("the parser on {:?}: {}", text, m)));
                        }
                    }
                }
            }
        }
    }
    let rel = crate::info::info(prop).map_or(&[][..], |i| i.classes);
    let at = bad.iter().position(|b| rel.contains(&b.0)).unwrap_or(0);
    if let Some((c, m)) = bad.into_iter().nth(at) {
        out.fail(c, m);
    }
    out.log = log.0;
    out.interleaving = inter.0;
    out
}

// ---------------------------------------------------------------- generation

/// ESTree always gives `new` an argument list.
fn fix_expr(e: &mut E) {
    match e {
        E::Arr(v) => v.iter_mut().flatten().for_each(fix_arg),
        E::Obj(v) => v.iter_mut().for_each(|p| match p {
            P::Init(_, e) => fix_expr(e),
            P::Get(_, b) | P::Set(_, _, b) => fix(b),
            P::Method(_, f) => fix(&mut f.body),
            P::Short(_) => {}
        }),
        E::Fun(f) => fix(&mut f.body),
        E::Seq(v) => v.iter_mut().for_each(fix_expr),
        E::Un(_, a) | E::Upd { arg: a, .. } | E::Dot(a, _) => fix_expr(a),
        E::Bin(_, a, b) | E::Asg(_, a, b) | E::Brk(a, b) => {
            fix_expr(a);
            fix_expr(b);
        }
        E::Cond(a, b, c) => {
            fix_expr(a);
            fix_expr(b);
            fix_expr(c);
        }
        E::Call(c, v) => {
            fix_expr(c);
            v.iter_mut().for_each(fix_arg);
        }
        E::New(c, v) => {
            fix_expr(c);
            v.get_or_insert_with(Vec::new).iter_mut().for_each(fix_arg);
        }
        _ => {}
    }
}
fn fix_arg(a: &mut A) {
    match a {
        A::E(e) | A::Spread(e) => fix_expr(e),
    }
}
fn fix_decls(d: &mut [(u32, Option<E>)]) {
    d.iter_mut().for_each(|d| d.1.iter_mut().for_each(fix_expr));
}
fn fix(v: &mut [S]) {
    for s in v {
        fix_stmt(s);
    }
}
fn fix_stmt(s: &mut S) {
    match s {
        S::Block(b) => fix(b),
        S::Decl(_, d) => fix_decls(d),
        S::Expr(e) | S::Throw(e) => fix_expr(e),
        S::Ret(e) => e.iter_mut().for_each(fix_expr),
        S::If(e, a, b) => {
            fix_expr(e);
            fix_stmt(a);
            b.iter_mut().for_each(|b| fix_stmt(b));
        }
        S::Label(_, b) => fix_stmt(b),
        S::With(e, b) | S::While(e, b) | S::Do(b, e) => {
            fix_expr(e);
            fix_stmt(b);
        }
        S::Switch(e, cs) => {
            fix_expr(e);
            for (t, b) in cs {
                t.iter_mut().for_each(fix_expr);
                fix(b);
            }
        }
        S::Try(b, c, f) => {
            fix(b);
            c.iter_mut().for_each(|c| fix(&mut c.1));
            f.iter_mut().for_each(|f| fix(f));
        }
        S::For(h, t, u, b) => {
            match h {
                Some(H::Decl(_, d)) => fix_decls(d),
                Some(H::E(e)) => fix_expr(e),
                None => {}
            }
            t.iter_mut().for_each(fix_expr);
            u.iter_mut().for_each(fix_expr);
            fix_stmt(b);
        }
        S::ForIn(l, e, b) | S::ForOf(l, e, b) => {
            match l {
                L::VarInit(_, e) | L::E(e) => fix_expr(e),
                L::Decl(..) => {}
            }
            fix_expr(e);
            fix_stmt(b);
        }
        S::Fun(f) => fix(&mut f.body),
        S::Empty | S::Break(_) | S::Cont(_) | S::Debugger | S::Raw(_) => {}
    }
}

fn gen_load(r: &mut Rng) -> Load {
    let budget = *r.pick(&[3, 8, 25, 70]);
    let (sl, pa, su) = (r.pct(40), r.pct(30), r.pct(60));
    let b = 1 + r.below(budget) as i32;
    let mut prog = ast::Gen::new(r, false, sl, pa, su, b).program();
    fix(&mut prog);
    let style = if r.pct(20) { 0 } else { r.u64() | 1 };
    let doc = document(&prog);
    let (k, len) = (slots(&doc), spell(&doc, style).len());
    let mut v = vec![];
    match r.below(30) {
        20..=23 => v.push(EFault::Elem { at: r.below(k), how: r.below(256) as u8 }),
        24..=26 => v.push(EFault::Graft { at: r.below(k), from: r.below(k) }),
        27..=29 => v.push(EFault::Rename { at: r.below(k), how: r.below(256) as u8 }),
        0..=4 => {}
        5..=8 => v.push(EFault::Lose { at: r.below(k) }),
        9..=13 => v.push(EFault::Garble { at: r.below(k + k / 3), how: r.below(256) as u8 }),
        14..=15 => {
            for _ in 0..1 + r.below(3) {
                let at = r.below(len);
                v.push(match r.below(4) {
                    0 => EFault::Drop { at },
                    1 => EFault::Dup { at },
                    2 => EFault::Flip { at, b: r.below(256) as u8 },
                    _ => EFault::Flip { at, b: *r.pick(b"\"{}[]:,0123456789-eEtfn\\ \n") },
                });
            }
        }
        16 => v.push(EFault::Tail { text: r.pick(&["}", "x", ",", "{}", "null", "\"", "\u{e9}", "  ]", "\n", " "]).to_string() }),
        17..=18 => v.push(EFault::Cut { at: r.below(len) }),
        _ => v.push(EFault::Io { at: r.below(len + 1) }),
    }
    if r.pct(5) {
        v.insert(0, match r.below(3) {
            0 => EFault::Elem { at: r.below(k), how: r.below(256) as u8 },
            1 => EFault::Graft { at: r.below(k), from: r.below(k) },
            _ => EFault::Rename { at: r.below(k), how: r.below(256) as u8 },
        });
    }
    if r.pct(30) {
        for _ in 0..1 + r.below(4) {
            v.push(EFault::Eintr { at: r.below(len + 1), n: 1 + r.below(3) });
        }
    }
    if r.pct(4) {
        v.push(EFault::Panic { at: r.below(len + 1) });
    }
    let reads = match r.below(4) {
        0 => vec![],
        1 => vec![1],
        2 => vec![r.range(1, 64)],
        _ => (0..r.range(2, 8)).map(|_| *r.pick(&[1, 1, 2, 3, 7, 16, 100, 4096])).collect(),
    };
    let buf = *r.pick(&[0, 0, 1, 2, 7, 64, 8192]);
    Load { prog, style, faults: v, reads, buf }
}

pub fn generate(r: &mut Rng) -> EstSc {
    let n = if r.pct(70) { 1 } else { r.range(2, 4) };
    let loads = (0..n).map(|_| gen_load(r)).collect();
    let sched = if n == 1 || r.pct(30) { vec![] } else { (0..r.range(1, 300)).map(|_| if r.pct(5) { 255 } else { 0 }).collect() };
    EstSc { hash_seed: r.u64(), loads, sched }
}

pub fn shrink(sc: &EstSc) -> Vec<EstSc> {
    let mut v = vec![];
    if sc.loads.len() > 1 {
        for l in &sc.loads {
            v.push(EstSc { loads: vec![l.clone()], sched: vec![], hash_seed: sc.hash_seed });
        }
        for i in 0..sc.loads.len() {
            let mut n = sc.clone();
            n.loads.remove(i);
            v.push(n);
        }
    }
    if !sc.sched.is_empty() {
        v.push(EstSc { sched: vec![], ..sc.clone() });
        v.push(EstSc { sched: sc.sched[..sc.sched.len() / 2].to_vec(), ..sc.clone() });
        for i in 0..sc.sched.len().min(40) {
            let mut n = sc.clone();
            n.sched.remove(i);
            v.push(n);
        }
    }
    for i in 0..sc.loads.len() {
        let l = &sc.loads[i];
        let mut push = |x: Load| {
            let mut n = sc.clone();
            n.loads[i] = x;
            v.push(n);
        };
        for k in 0..l.faults.len() {
            let mut x = l.clone();
            x.faults.remove(k);
            push(x);
        }
        if !l.reads.is_empty() {
            push(Load { reads: vec![], ..l.clone() });
            push(Load { reads: vec![1], ..l.clone() });
        }
        if l.buf != 0 {
            push(Load { buf: 0, ..l.clone() });
        }
        if l.style != 0 {
            push(Load { style: 0, ..l.clone() });
        }
        for mut p in ast::smaller(&l.prog) {
            if !ast::legal(&p, false) {
                continue;
            }
            fix(&mut p);
            push(Load { prog: p.clone(), ..l.clone() });
            // The damage moves with what is left.
            for k in 0..l.faults.len() {
                for d in [1usize, 2, 3, 5, 8, 13, 30] {
                    let mut x = Load { prog: p.clone(), ..l.clone() };
                    if let EFault::Lose { at } | EFault::Garble { at, .. } | EFault::Elem { at, .. } | EFault::Graft { at, .. } | EFault::Rename { at, .. } = &mut x.faults[k] {
                        if *at >= d {
                            *at -= d;
                            push(x);
                        }
                    }
                }
            }
        }
        for k in 0..l.faults.len() {
            for d in [1usize, 2, 4, 16, 64] {
                let mut x = l.clone();
                let at = match &mut x.faults[k] {
                    EFault::Lose { at } | EFault::Garble { at, .. } | EFault::Elem { at, .. } | EFault::Graft { at, .. } | EFault::Rename { at, .. } | EFault::Flip { at, .. } | EFault::Drop { at } | EFault::Dup { at } | EFault::Cut { at }
                    | EFault::Io { at } | EFault::Eintr { at, .. } | EFault::Panic { at } => at,
                    EFault::Tail { .. } => continue,
                };
                if *at >= d {
                    *at -= d;
                    push(x);
                }
            }
        }
    }
    v
}

pub fn size(sc: &EstSc) -> usize {
    sc.loads
        .iter()
        .map(|l| {
            60 + ast::size(&l.prog)
                + (l.style != 0) as usize * 10
                + l.reads.len()
                + (l.reads.len() > 1) as usize
                + (l.buf != 0) as usize
                + l.faults
                    .iter()
                    .map(|f| {
                        20 + match f {
                            EFault::Lose { at } | EFault::Garble { at, .. } | EFault::Elem { at, .. } | EFault::Graft { at, .. } | EFault::Rename { at, .. } | EFault::Flip { at, .. } | EFault::Drop { at } | EFault::Dup { at } | EFault::Cut { at }
                            | EFault::Io { at } | EFault::Eintr { at, .. } | EFault::Panic { at } => at / 4,
                            EFault::Tail { .. } => 0,
                        }
                    })
                    .sum::<usize>()
        })
        .sum::<usize>()
        + sc.sched.iter().map(|&b| 1 + (b > 199) as usize).sum::<usize>()
}

