//! What may stand where: programs with constructs put out of place, and what
//! the rules of the language say about them.
use crate::ast::{strict_word, A, E, F, H, K, L, P, S, STRICT_NAMES, SWORD, USE};

pub enum Spot<'a> {
    /// A program or function body.
    Body(&'a mut Vec<S>),
    Stmt(&'a mut S),
    Name(&'a mut u32),
    /// A label, or the name a jump goes to.
    Label(&'a mut u32),
    Target(&'a mut E),
    Expr(&'a mut E),
    Cases(&'a mut Vec<(Option<E>, Vec<S>)>),
    Key(&'a mut K),
}
type V<'v> = &'v mut dyn FnMut(Spot);

pub fn each(prog: &mut Vec<S>, v: V) {
    v(Spot::Body(prog));
    list(prog, v);
}
fn list(b: &mut Vec<S>, v: V) {
    for s in b {
        stmt(s, v);
    }
}
fn fun(f: &mut F, v: V) {
    if let Some(n) = &mut f.id {
        v(Spot::Name(n));
    }
    for p in &mut f.params {
        v(Spot::Name(p));
    }
    if let Some(n) = &mut f.rest {
        v(Spot::Name(n));
    }
    each(&mut f.body, v);
}
fn decls(ds: &mut Vec<(u32, Option<E>)>, v: V) {
    for (n, e) in ds {
        v(Spot::Name(n));
        if let Some(e) = e {
            expr(e, v);
        }
    }
}
fn stmt(s: &mut S, v: V) {
    v(Spot::Stmt(s));
    match s {
        S::Empty | S::Debugger | S::Raw(_) => {}
        S::Block(b) => list(b, v),
        S::Decl(_, ds) => decls(ds, v),
        S::Expr(e) | S::Throw(e) => expr(e, v),
        S::If(e, a, b) => {
            expr(e, v);
            stmt(a, v);
            if let Some(b) = b {
                stmt(b, v);
            }
        }
        S::Label(l, b) => {
            v(Spot::Label(l));
            stmt(b, v);
        }
        S::Break(l) | S::Cont(l) => {
            if let Some(l) = l {
                v(Spot::Label(l));
            }
        }
        S::With(e, b) | S::While(e, b) | S::Do(b, e) => {
            expr(e, v);
            stmt(b, v);
        }
        S::Switch(e, cs) => {
            expr(e, v);
            v(Spot::Cases(cs));
            for (t, b) in cs {
                if let Some(t) = t {
                    expr(t, v);
                }
                list(b, v);
            }
        }
        S::Ret(e) => {
            if let Some(e) = e {
                expr(e, v);
            }
        }
        S::Try(b, c, f) => {
            list(b, v);
            if let Some((n, c)) = c {
                v(Spot::Name(n));
                list(c, v);
            }
            if let Some(f) = f {
                list(f, v);
            }
        }
        S::For(h, t, u, b) => {
            match h {
                Some(H::Decl(_, ds)) => decls(ds, v),
                Some(H::E(e)) => expr(e, v),
                None => {}
            }
            for e in [t, u] {
                if let Some(e) = e {
                    expr(e, v);
                }
            }
            stmt(b, v);
        }
        S::ForIn(l, e, b) | S::ForOf(l, e, b) => {
            match l {
                L::Decl(_, n) => v(Spot::Name(n)),
                L::VarInit(n, e) => {
                    v(Spot::Name(n));
                    expr(e, v);
                }
                L::E(t) => target(t, v),
            }
            expr(e, v);
            stmt(b, v);
        }
        S::Fun(f) => fun(f, v),
    }
}
fn target(e: &mut E, v: V) {
    v(Spot::Target(e));
    match e {
        E::Arr(a) => {
            for a in a.iter_mut().flatten() {
                match a {
                    A::E(e) | A::Spread(e) => target(e, v),
                }
            }
        }
        E::Obj(ps) => {
            for p in ps {
                match p {
                    P::Init(k, e) => {
                        v(Spot::Key(k));
                        target(e, v);
                    }
                    p => prop(p, v),
                }
            }
        }
        e => expr(e, v),
    }
}
fn prop(p: &mut P, v: V) {
    match p {
        P::Init(k, e) => {
            v(Spot::Key(k));
            expr(e, v);
        }
        P::Get(k, b) => {
            v(Spot::Key(k));
            each(b, v);
        }
        P::Set(k, n, b) => {
            v(Spot::Key(k));
            v(Spot::Name(n));
            each(b, v);
        }
        P::Method(k, f) => {
            v(Spot::Key(k));
            fun(f, v);
        }
        P::Short(n) => v(Spot::Name(n)),
    }
}
fn arg(a: &mut A, v: V) {
    match a {
        A::E(e) | A::Spread(e) => expr(e, v),
    }
}
fn expr(e: &mut E, v: V) {
    v(Spot::Expr(e));
    match e {
        E::Id(n) => v(Spot::Name(n)),
        E::Name(_) | E::Num(_) | E::Str(_) | E::Re(_) | E::Lit(_) | E::Target | E::Raw(_) => {}
        E::Arr(a) => {
            for a in a.iter_mut().flatten() {
                arg(a, v);
            }
        }
        E::Obj(ps) => {
            for p in ps {
                prop(p, v);
            }
        }
        E::Fun(f) => fun(f, v),
        E::Seq(es) => {
            for e in es {
                expr(e, v);
            }
        }
        E::Un(_, a) | E::Par(a) => expr(a, v),
        E::Upd { arg, .. } => target(arg, v),
        E::Bin(_, a, b) | E::Brk(a, b) => {
            expr(a, v);
            expr(b, v);
        }
        E::Asg(_, a, b) => {
            target(a, v);
            expr(b, v);
        }
        E::Cond(a, b, c) => {
            expr(a, v);
            expr(b, v);
            expr(c, v);
        }
        E::Call(c, a) => {
            expr(c, v);
            for a in a {
                arg(a, v);
            }
        }
        E::New(c, a) => {
            expr(c, v);
            for a in a.iter_mut().flatten() {
                arg(a, v);
            }
        }
        E::Dot(o, k) => {
            expr(o, v);
            v(Spot::Key(k));
        }
    }
}

// ------------------------------------------------------------------ faults

pub const KINDS: u8 = 17;
/// What is put out of place (by kind), for the reports.
pub fn kind_name(what: u8) -> &'static str {
    match what % KINDS {
        0..=4 => "fault:jump put elsewhere",
        5 => "fault:with put around",
        6 => "fault:loop, switch, label or function taken away",
        7 => "fault:function put around",
        8..=10 => "fault:loop, switch or label put around",
        11 => "fault:directive put in",
        12 => "fault:name changed for a strict word",
        13 => "fault:default repeated",
        14 => "fault:target changed for a value",
        15 => "fault:key changed for a strict word",
        _ => "fault:label changed",
    }
}

fn takes(what: u8, s: &Spot) -> bool {
    match (what % KINDS, s) {
        (0..=5 | 7..=10, Spot::Stmt(_)) => true,
        (6, Spot::Stmt(s)) => matches!(**s, S::Label(..) | S::While(..) | S::Do(..) | S::For(..) | S::ForIn(..) | S::ForOf(..) | S::Switch(..) | S::Fun(_)),
        (11, Spot::Body(_)) => true,
        (12, Spot::Name(_) | Spot::Label(_)) => true,
        (13, Spot::Cases(_)) => true,
        (14, Spot::Target(_)) => true,
        (15, Spot::Key(_)) => true,
        (16, Spot::Label(_)) => true,
        _ => false,
    }
}

/// In how many places could it be?
pub fn places(prog: &[S], what: u8) -> usize {
    let mut n = 0;
    each(&mut prog.to_vec(), &mut |s| n += takes(what, &s) as usize);
    n
}

pub fn label(arg: u32) -> u32 {
    90 + arg % 6
}
fn culprit(arg: u32, was: E) -> E {
    let b = Box::new;
    let id = |n: u32| E::Id(500 + n % 7);
    match arg % 16 {
        0 => E::Call(b(id(arg)), vec![]),
        1 => E::Call(b(was), vec![]),
        2 => E::New(b(id(arg)), Some(vec![A::E(id(arg + 1))])),
        3 => E::New(b(id(arg)), None),
        4 => E::Num(7),
        5 => E::Str(8),
        6 => E::Lit((arg / 16 % 4) as u8),
        7 => E::Par(b(E::Bin(18, b(was), b(id(arg))))),
        8 => E::Par(b(E::Seq(vec![id(arg), was]))),
        9 => E::Par(b(E::Asg(0, b(id(arg)), b(id(arg + 1))))),
        10 => E::Par(b(E::Un((arg / 16 % 7) as u8, b(was)))),
        11 => E::Fun(Box::new(F { id: None, params: vec![], rest: None, gen: false, body: vec![] })),
        12 => E::Arr(vec![Some(A::E(E::Call(b(id(arg)), vec![])))]),
        13 => E::Obj(vec![P::Get(K::Id(9), vec![])]),
        14 => E::Arr(vec![Some(A::Spread(was)), Some(A::E(id(arg)))]),
        _ => E::Par(b(was)),
    }
}

fn boxed(s: S) -> Box<S> {
    Box::new(match s {
        S::Decl(k, _) if k > 0 => S::Block(vec![s]),
        S::Fun(_) => S::Block(vec![s]),
        s => s,
    })
}

fn put(what: u8, a: u32, s: Spot) {
    let id = E::Id(400 + a % 9);
    match (what % KINDS, s) {
        (w @ 0..=4, Spot::Stmt(s)) => {
            let jump = match w {
                0 => S::Break(None),
                1 => S::Cont(None),
                2 => S::Break(Some(label(a / 4))),
                3 => S::Cont(Some(label(a / 4))),
                _ => S::Ret(if a & 2 == 0 { None } else { Some(id) }),
            };
            let was = std::mem::replace(s, S::Empty);
            *s = match a % 3 {
                0 => S::Block(vec![jump, was]),
                1 => S::Block(vec![was, jump]),
                _ => jump,
            };
        }
        (5, Spot::Stmt(s)) => *s = S::With(id, boxed(std::mem::replace(s, S::Empty))),
        (6, Spot::Stmt(s)) => {
            let was = std::mem::replace(s, S::Empty);
            *s = match was {
                S::Label(_, b) | S::While(_, b) | S::Do(b, _) | S::For(_, _, _, b) | S::ForIn(_, _, b) | S::ForOf(_, _, b) => *b,
                S::Switch(_, cs) => S::Block(cs.into_iter().flat_map(|c| c.1).collect()),
                S::Fun(f) => S::Block(f.body),
                s => s,
            };
        }
        (7, Spot::Stmt(s)) => {
            let body = vec![std::mem::replace(s, S::Empty)];
            let f = |body| F { id: None, params: vec![], rest: None, gen: a & 64 != 0, body };
            *s = S::Expr(match a % 5 {
                0 => E::Obj(vec![P::Get(K::Id(9), body)]),
                1 => E::Obj(vec![P::Set(K::Id(9), 8, body)]),
                2 => E::Obj(vec![P::Method(K::Id(9), f(body))]),
                _ => E::Fun(Box::new(f(body))),
            });
        }
        (8, Spot::Stmt(s)) => {
            let b = boxed(std::mem::replace(s, S::Empty));
            *s = match a % 5 {
                0 => S::While(id, b),
                1 => S::Do(b, id),
                2 => S::For(None, None, None, b),
                3 => S::ForIn(L::Decl((a / 8 % 3) as u8, 411), id, b),
                _ => S::ForOf(L::E(E::Id(412)), id, b),
            };
        }
        (9, Spot::Stmt(s)) => {
            let b = std::mem::replace(s, S::Empty);
            *s = S::Switch(id, vec![(if a & 1 == 0 { None } else { Some(E::Id(413)) }, vec![b])]);
        }
        (10, Spot::Stmt(s)) => *s = S::Label(label(a), boxed(std::mem::replace(s, S::Empty))),
        (11, Spot::Body(b)) => {
            let at = (a as usize / 16).min(b.len()) * (a & 8 != 0) as usize;
            b.insert(at, S::Expr(E::Str(USE + if a & 4 == 0 { a % 2 } else { a % 16 })));
        }
        (12, Spot::Name(n) | Spot::Label(n)) => *n = SWORD + a % (2 * STRICT_NAMES.len() as u32),
        (13, Spot::Cases(cs)) => {
            let at = a as usize % (cs.len() + 1);
            cs.insert(at, (None, vec![]));
        }
        (14, Spot::Target(e)) => {
            let was = std::mem::replace(e, E::Target);
            *e = culprit(a, was);
        }
        (15, Spot::Key(k)) => *k = K::Word(STRICT_NAMES[a as usize % STRICT_NAMES.len()].to_string()),
        (16, Spot::Label(l)) => *l = label(a),
        _ => {}
    }
}

/// Puts it there. Was there such a place?
pub fn plant(prog: &mut Vec<S>, what: u8, at: usize, arg: u32) -> bool {
    let mut n = 0;
    let mut done = false;
    each(prog, &mut |s| {
        if takes(what, &s) {
            if n == at && !done {
                done = true;
                put(what, arg, s);
            }
            n += 1;
        }
    });
    done
}

// ------------------------------------------------------------------- rules

#[derive(Clone, Debug, PartialEq)]
pub struct Off {
    pub kind: &'static str,
    pub name: String,
}

/// What is out of place in the program; none if the rules (or the supported
/// part of them) do not settle it.
pub fn offences(prog: &[S], strict: bool, module: bool) -> Option<Vec<Off>> {
    let mut j = Judge { strict, module, gen: false, function: false, iteration: false, switch: false, labels: vec![], bad: vec![], vague: false };
    j.body(prog);
    if j.vague { None } else { Some(j.bad) }
}

struct Judge {
    strict: bool,
    module: bool,
    gen: bool,
    function: bool,
    iteration: bool,
    switch: bool,
    labels: Vec<(u32, bool)>,
    bad: Vec<Off>,
    vague: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Use {
    Var,
    Lexical,
    Ref,
    Target,
    Label,
}

/// Does it begin with a directive that makes it strict?
pub fn made_strict(body: &[S]) -> bool {
    body.iter().map_while(|s| match s {
        S::Expr(E::Str(n)) if *n < USE || crate::ast::use_name(*n).1 => Some(*n),
        _ => None,
    })
    .any(|n| n >= USE && (n - USE) % 16 < 2)
}
fn plain(e: &E) -> bool {
    match e {
        E::Id(_) | E::Name(_) | E::Dot(..) | E::Brk(..) => true,
        E::Par(e) => plain(e),
        _ => false,
    }
}
fn looping(s: &S) -> bool {
    match s {
        S::Label(_, b) => looping(b),
        s => matches!(s, S::While(..) | S::Do(..) | S::For(..) | S::ForIn(..) | S::ForOf(..)),
    }
}

impl Judge {
    fn off(&mut self, kind: &'static str, name: &str) {
        self.bad.push(Off { kind, name: name.to_string() });
    }
    fn unless(&mut self, ok: bool) {
        self.vague |= !ok;
    }
    fn name(&mut self, n: u32, u: Use) {
        let w = match strict_word(n) {
            Some(w) => w,
            None => return,
        };
        match w {
            "eval" | "arguments" => {
                if self.strict {
                    match u {
                        Use::Var | Use::Lexical => self.off("binding", w),
                        Use::Target => self.vague = true,
                        _ => {}
                    }
                }
            }
            "await" => {
                if self.module {
                    self.off("keyword", w);
                }
            }
            // Elsewhere it may begin a declaration.
            "let" if !matches!(u, Use::Var | Use::Label) => self.vague = true,
            _ if self.strict => self.off("keyword", w),
            "let" => {}
            "yield" => self.unless(!self.gen),
            _ => {}
        }
    }
    fn body(&mut self, b: &[S]) {
        if made_strict(b) {
            self.strict = true;
        }
        self.list(b);
    }
    fn list(&mut self, b: &[S]) {
        for s in b {
            self.stmt(s, true);
        }
    }
    fn inner(&mut self, f: impl FnOnce(&mut Self)) {
        let mut j = Judge { strict: self.strict, module: self.module, gen: false, function: true, iteration: false, switch: false, labels: vec![], bad: vec![], vague: false };
        f(&mut j);
        self.bad.append(&mut j.bad);
        self.vague |= j.vague;
    }
    fn code(&mut self, names: &[u32], gen: bool, body: &[S]) {
        for n in names {
            self.name(*n, Use::Var);
            // A directive counts for the parameters before it, too.
            if made_strict(body) && !self.strict || gen {
                self.unless(strict_word(*n).is_none());
            }
        }
        self.inner(|j| {
            j.gen = gen;
            j.body(body)
        });
    }
    fn fun(&mut self, f: &F) {
        let names: Vec<u32> = f.id.iter().chain(&f.params).chain(&f.rest).copied().collect();
        self.code(&names, f.gen, &f.body);
    }
    fn decls(&mut self, k: u8, ds: &[(u32, Option<E>)]) {
        self.unless(!ds.is_empty());
        for (n, e) in ds {
            self.name(*n, if k == 0 { Use::Var } else { Use::Lexical });
            match e {
                Some(e) => self.expr(e),
                None => self.unless(k != 2),
            }
        }
    }
    fn looped(&mut self, s: &S) {
        let i = std::mem::replace(&mut self.iteration, true);
        self.stmt(s, false);
        self.iteration = i;
    }
    fn stmt(&mut self, s: &S, decl: bool) {
        match s {
            S::Raw(_) => self.vague = true,
            S::Empty | S::Debugger => {}
            S::Block(v) => self.list(v),
            S::Decl(k, ds) => {
                self.unless(decl || *k == 0);
                self.decls(*k, ds);
            }
            S::Expr(e) | S::Throw(e) => self.expr(e),
            S::If(e, a, b) => {
                self.expr(e);
                self.stmt(a, false);
                if let Some(b) = b {
                    self.stmt(b, false);
                }
            }
            S::Label(l, b) => {
                self.name(*l, Use::Label);
                let same = crate::ast::id(*l).1;
                self.unless(!self.labels.iter().any(|x| crate::ast::id(x.0).1 == same));
                self.labels.push((*l, looping(b)));
                self.stmt(b, false);
                self.labels.pop();
            }
            S::Break(None) => {
                if !self.iteration && !self.switch {
                    self.off("break", "");
                }
            }
            S::Cont(None) => {
                if !self.iteration {
                    self.off("continue", "");
                }
            }
            S::Break(Some(l)) | S::Cont(Some(l)) => {
                self.name(*l, Use::Label);
                let n = crate::ast::id(*l).1;
                match self.labels.iter().find(|x| crate::ast::id(x.0).1 == n) {
                    None => self.off("label", &n),
                    Some((_, false)) if matches!(s, S::Cont(_)) => self.off("label type", &n),
                    _ => {}
                }
            }
            S::With(e, b) => {
                if self.strict {
                    self.off("with", "");
                }
                self.expr(e);
                self.stmt(b, false);
            }
            S::Switch(e, cs) => {
                self.expr(e);
                let s = std::mem::replace(&mut self.switch, true);
                for (t, b) in cs {
                    if let Some(t) = t {
                        self.expr(t);
                    }
                    self.list(b);
                }
                self.switch = s;
                if cs.iter().filter(|c| c.0.is_none()).count() > 1 {
                    self.off("default", "");
                }
            }
            S::Ret(e) => {
                if !self.function {
                    self.off("return", "");
                }
                if let Some(e) = e {
                    self.expr(e);
                }
            }
            S::Try(b, c, f) => {
                self.unless(c.is_some() || f.is_some());
                self.list(b);
                if let Some((n, c)) = c {
                    self.name(*n, Use::Var);
                    self.list(c);
                }
                if let Some(f) = f {
                    self.list(f);
                }
            }
            S::While(e, b) | S::Do(b, e) => {
                self.expr(e);
                self.looped(b);
            }
            S::For(h, t, u, b) => {
                match h {
                    Some(H::Decl(k, ds)) => self.decls(*k, ds),
                    Some(H::E(e)) => self.expr(e),
                    None => {}
                }
                for e in t.iter().chain(u) {
                    self.expr(e);
                }
                self.looped(b);
            }
            S::ForIn(l, e, b) | S::ForOf(l, e, b) => {
                match l {
                    L::Decl(k, n) => self.name(*n, if *k == 0 { Use::Var } else { Use::Lexical }),
                    L::VarInit(n, i) => {
                        self.unless(matches!(s, S::ForIn(..)) && !self.strict);
                        self.name(*n, Use::Var);
                        self.expr(i);
                    }
                    L::E(t) => self.target(t, true),
                }
                self.expr(e);
                self.looped(b);
            }
            S::Fun(f) => {
                self.unless(decl && f.id.is_some());
                self.fun(f);
            }
        }
    }
    fn arg(&mut self, a: &A) {
        match a {
            A::E(e) | A::Spread(e) => self.expr(e),
        }
    }
    fn prop(&mut self, p: &P) {
        match p {
            P::Init(_, e) => self.expr(e),
            P::Get(_, b) => self.code(&[], false, b),
            P::Set(_, n, b) => self.code(&[*n], false, b),
            P::Method(_, f) => self.fun(f),
            P::Short(n) => self.name(*n, Use::Ref),
        }
    }
    fn target(&mut self, e: &E, patterns: bool) {
        match e {
            E::Id(n) => self.name(*n, Use::Target),
            E::Arr(v) if patterns => {
                for (i, a) in v.iter().enumerate() {
                    match a {
                        None => {}
                        Some(A::E(e)) => self.target(e, true),
                        Some(A::Spread(e)) => {
                            if i + 1 < v.len() {
                                self.off("target", "");
                            }
                            self.target(e, true);
                        }
                    }
                }
            }
            E::Obj(v) if patterns => {
                for p in v {
                    match p {
                        P::Init(_, e) => self.target(e, true),
                        P::Short(n) => self.name(*n, Use::Target),
                        p => {
                            self.off("target", "");
                            self.prop(p);
                        }
                    }
                }
            }
            E::Par(i) if plain(i) => self.target(i, false),
            // With parentheses it is not a pattern, without it has a default.
            E::Par(i) if matches!(**i, E::Arr(_) | E::Obj(_) | E::Par(_)) => self.vague = true,
            E::Asg(..) => self.vague = true,
            e => {
                if !plain(e) {
                    self.off("target", "");
                }
                self.expr(e);
            }
        }
    }
    fn expr(&mut self, e: &E) {
        match e {
            E::Id(n) => self.name(*n, Use::Ref),
            E::Name(_) | E::Num(_) | E::Str(_) | E::Re(_) | E::Lit(_) => {}
            E::Raw(_) => self.vague = true,
            E::Target => self.unless(self.function),
            E::Arr(v) => v.iter().flatten().for_each(|a| self.arg(a)),
            E::Obj(v) => v.iter().for_each(|p| self.prop(p)),
            E::Fun(f) => self.fun(f),
            E::Seq(v) => {
                self.unless(v.len() > 1);
                v.iter().for_each(|e| self.expr(e));
            }
            E::Un(op, a) => {
                // A bare name may not be deleted in strict code; that is not looked at.
                self.unless(!(self.strict && *op == 6 && matches!(**a, E::Id(_) | E::Name(_) | E::Par(_))));
                self.expr(a);
            }
            E::Par(a) => self.expr(a),
            E::Upd { arg, .. } => self.target(arg, false),
            E::Bin(_, a, b) | E::Brk(a, b) => {
                self.expr(a);
                self.expr(b);
            }
            E::Asg(op, t, v) => {
                self.target(t, *op == 0);
                self.expr(v);
            }
            E::Cond(a, b, c) => {
                self.expr(a);
                self.expr(b);
                self.expr(c);
            }
            E::Call(c, v) => {
                self.expr(c);
                v.iter().for_each(|a| self.arg(a));
            }
            E::New(c, v) => {
                self.expr(c);
                v.iter().flatten().for_each(|a| self.arg(a));
            }
            E::Dot(o, k) => {
                self.unless(matches!(k, K::Id(_) | K::Word(_)));
                self.expr(o);
            }
        }
    }
}

/// What the parser says is out of place.
pub fn blamed(e: &esprit::error::Error) -> Option<Off> {
    use esprit::error::Error as X;
    let off = |kind, name: String| Some(Off { kind, name });
    match e {
        X::IllegalBreak(_) => off("break", String::new()),
        X::IllegalContinue(_) => off("continue", String::new()),
        X::TopLevelReturn(_) => off("return", String::new()),
        X::DuplicateDefault(_) => off("default", String::new()),
        X::StrictWith(_) => off("with", String::new()),
        X::InvalidLHS(..) => off("target", String::new()),
        X::InvalidLabel(i) => off("label", i.name.clone().into_string()),
        X::InvalidLabelType(i) => off("label type", i.name.clone().into_string()),
        X::ContextualKeyword(_, a) => off("keyword", a.name().to_string()),
        X::IllegalStrictBinding(_, a) => off("binding", a.name().to_string()),
        _ => None,
    }
}
