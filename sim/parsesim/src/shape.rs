//! How a program is put together: what belongs to what, locations, layout and
//! the spelling of literals left out. Written twice: for the generator's own
//! syntax tree, which is the reference, and for the library's.
use crate::ast::{self, A, E, F, H, K, L, P, S};
use crate::parse::Tree;
use crate::tree::{assop, binop, unop};
use easter::decl::{ConstDtor, Decl, Dtor};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt};
use easter::punc::{LogopTag, Semi};
use easter::stmt::{Block, Dir, ForHead, ForInHead, ForOfHead, ModItem, Script, Stmt, StmtListItem};
use esprit::Program;
use joker::token::{NumberLiteral, RegExpLiteral, StringLiteral};

/// Brackets around a list of words and lists.
#[derive(Default)]
struct Pen(String);
impl Pen {
    fn w(&mut self, w: &str) {
        if !self.0.is_empty() && !self.0.ends_with('(') {
            self.0.push(' ');
        }
        self.0.push_str(w);
    }
    fn open(&mut self, w: &str) {
        self.w("(");
        self.w(w);
    }
    fn close(&mut self) {
        self.0.push(')');
    }
    fn none(&mut self) {
        self.w("-");
    }
    fn id(&mut self, w: &str) {
        self.w("i:");
        self.0.push_str(w);
    }
    fn string(&mut self, s: &str) {
        self.w(&format!("{:?}", s));
    }
    fn num(&mut self, v: f64) {
        self.w(&format!("n:{:x}", v.to_bits()));
    }
    fn regexp(&mut self, p: &str, f: &str) {
        let mut f: Vec<char> = f.chars().collect();
        f.sort();
        self.w(&format!("/{:?}/{}", p, f.into_iter().collect::<String>()));
    }
}

// ------------------------------------------------------------ the reference

pub fn of_program(v: &[S]) -> String {
    let mut m = Model(Pen::default());
    m.body(v);
    (m.0).0
}

struct Model(Pen);
impl Model {
    fn body(&mut self, v: &[S]) {
        self.0.open("body");
        let n = v.iter().take_while(|s| matches!(s, S::Expr(E::Str(_)))).count();
        for s in &v[..n] {
            if let S::Expr(E::Str(x)) = s {
                self.0.open("dir");
                self.0.string(&ast::string(*x).1);
                self.0.close();
            }
        }
        self.list(&v[n..]);
        self.0.close();
    }
    fn list(&mut self, v: &[S]) {
        for s in v {
            self.stmt(s);
        }
    }
    fn block(&mut self, v: &[S]) {
        self.0.open("block");
        self.list(v);
        self.0.close();
    }
    fn id(&mut self, n: u32) {
        self.0.id(&ast::id(n).1);
    }
    fn bind(&mut self, n: u32) {
        self.id(n)
    }
    fn opt(&mut self, e: &Option<E>) {
        match e {
            Some(e) => self.expr(e),
            None => self.0.none(),
        }
    }
    fn decls(&mut self, k: u8, ds: &[(u32, Option<E>)]) {
        self.0.open(["var", "let", "const"][k as usize % 3]);
        for (n, e) in ds {
            self.0.open("d");
            self.bind(*n);
            self.opt(e);
            self.0.close();
        }
        self.0.close();
    }
    fn stmt(&mut self, s: &S) {
        match s {
            S::Raw(_) => self.0.w("raw"),
            S::Empty => self.0.w("empty"),
            S::Debugger => self.0.w("debugger"),
            S::Block(v) => self.block(v),
            S::Decl(k, ds) => self.decls(*k, ds),
            S::Expr(e) => {
                self.0.open("expr");
                self.expr(e);
                self.0.close();
            }
            S::If(e, a, b) => {
                self.0.open("if");
                self.expr(e);
                if b.is_some() && ast::open_if(a) {
                    self.block(std::slice::from_ref(a));
                } else {
                    self.stmt(a);
                }
                match b {
                    Some(b) => self.stmt(b),
                    None => self.0.none(),
                }
                self.0.close();
            }
            S::Label(l, b) => {
                self.0.open("label");
                self.id(*l);
                self.stmt(b);
                self.0.close();
            }
            S::Break(l) | S::Cont(l) => {
                self.0.open(if matches!(s, S::Break(_)) { "break" } else { "continue" });
                match l {
                    Some(l) => self.id(*l),
                    None => self.0.none(),
                }
                self.0.close();
            }
            S::With(e, b) | S::While(e, b) => {
                self.0.open(if matches!(s, S::With(..)) { "with" } else { "while" });
                self.expr(e);
                self.stmt(b);
                self.0.close();
            }
            S::Do(b, e) => {
                self.0.open("do");
                self.stmt(b);
                self.expr(e);
                self.0.close();
            }
            S::Switch(e, cs) => {
                self.0.open("switch");
                self.expr(e);
                for (t, b) in cs {
                    self.0.open("case");
                    self.opt(t);
                    self.list(b);
                    self.0.close();
                }
                self.0.close();
            }
            S::Ret(e) => {
                self.0.open("return");
                self.opt(e);
                self.0.close();
            }
            S::Throw(e) => {
                self.0.open("throw");
                self.expr(e);
                self.0.close();
            }
            S::Try(b, c, f) => {
                self.0.open("try");
                self.block(b);
                match c {
                    Some((p, b)) => {
                        self.bind(*p);
                        self.block(b);
                    }
                    None => self.0.none(),
                }
                match f {
                    Some(f) => self.block(f),
                    None => self.0.none(),
                }
                self.0.close();
            }
            S::For(h, t, u, b) => {
                self.0.open("for");
                match h {
                    Some(H::Decl(k, ds)) => self.decls(*k, ds),
                    Some(H::E(e)) => self.expr(e),
                    None => self.0.none(),
                }
                self.opt(t);
                self.opt(u);
                self.stmt(b);
                self.0.close();
            }
            S::ForIn(l, e, b) | S::ForOf(l, e, b) => {
                self.0.open(if matches!(s, S::ForIn(..)) { "for-in" } else { "for-of" });
                match l {
                    L::Decl(k, n) => {
                        self.0.w(["var", "let", "const"][*k as usize % 3]);
                        self.bind(*n);
                    }
                    L::VarInit(n, e) => {
                        self.0.w("init");
                        self.id(*n);
                        self.expr(e);
                    }
                    L::E(e) => self.pattern(e),
                }
                self.expr(e);
                self.stmt(b);
                self.0.close();
            }
            S::Fun(f) => {
                self.0.open("function");
                self.id(f.id.unwrap_or(0));
                self.fun(f);
                self.0.close();
            }
        }
    }
    fn fun(&mut self, f: &F) {
        if f.gen {
            self.0.w("*");
        }
        self.0.open("params");
        for p in &f.params {
            self.bind(*p);
        }
        if let Some(r) = f.rest {
            self.0.open("rest");
            self.bind(r);
            self.0.close();
        }
        self.0.close();
        self.body(&f.body);
    }
    fn key(&mut self, k: &K) {
        match k {
            K::Id(n) => self.id(*n),
            K::Word(w) => self.0.id(w),
            K::Str(n) => self.0.string(&ast::string(*n).1),
            K::Num(n) => self.0.num(ast::num(*n).1),
        }
    }
    /// What an assignment, a loop or a declaration assigns to.
    fn pattern(&mut self, e: &E) {
        match e {
            E::Arr(v) => {
                self.0.open("[]");
                for a in v {
                    match a {
                        None => self.0.none(),
                        Some(A::E(e)) => self.pattern(e),
                        Some(A::Spread(e)) => {
                            self.0.open("rest");
                            self.pattern(e);
                            self.0.close();
                        }
                    }
                }
                self.0.close();
            }
            E::Obj(v) => {
                self.0.open("{}");
                for p in v {
                    match p {
                        P::Init(k, e) => {
                            self.0.open(":");
                            self.key(k);
                            self.pattern(e);
                            self.0.close();
                        }
                        P::Short(n) => self.id(*n),
                        _ => self.0.w("?"),
                    }
                }
                self.0.close();
            }
            e => self.expr(e),
        }
    }
    fn args(&mut self, v: &[A]) {
        for a in v {
            match a {
                A::E(e) => self.expr(e),
                A::Spread(e) => {
                    self.0.open("...");
                    self.expr(e);
                    self.0.close();
                }
            }
        }
    }
    fn expr(&mut self, e: &E) {
        match e {
            E::Id(n) => return self.id(*n),
            E::Name(w) => return self.0.id(w),
            E::Num(n) => return self.0.num(ast::num(*n).1),
            E::Str(n) => return self.0.string(&ast::string(*n).1),
            E::Re(n) => {
                let (_, p, f) = ast::regexp(*n);
                return self.0.regexp(&p, f);
            }
            E::Lit(k) => return self.0.w(["this", "null", "true", "false"][*k as usize % 4]),
            E::Target => return self.0.w("new.target"),
            E::Par(e) => return self.expr(e),
            E::Raw(_) => return self.0.w("raw"),
            _ => {}
        }
        match e {
            E::Arr(v) => {
                self.0.open("array");
                for a in v {
                    match a {
                        Some(a) => self.args(std::slice::from_ref(a)),
                        None => self.0.none(),
                    }
                }
            }
            E::Obj(v) => {
                self.0.open("object");
                for p in v {
                    match p {
                        P::Init(k, e) => {
                            self.0.open(":");
                            self.key(k);
                            self.expr(e);
                        }
                        P::Get(k, b) => {
                            self.0.open("get");
                            self.key(k);
                            self.body(b);
                        }
                        P::Set(k, n, b) => {
                            self.0.open("set");
                            self.key(k);
                            self.bind(*n);
                            self.body(b);
                        }
                        P::Method(k, f) => {
                            self.0.open("method");
                            self.key(k);
                            self.fun(f);
                        }
                        P::Short(n) => {
                            self.id(*n);
                            continue;
                        }
                    }
                    self.0.close();
                }
            }
            E::Fun(f) => {
                self.0.open("function");
                match f.id {
                    Some(n) => self.id(n),
                    None => self.0.none(),
                }
                self.fun(f);
            }
            E::Seq(v) => {
                self.0.open(",");
                for e in v {
                    self.expr(e);
                }
            }
            E::Un(o, a) => {
                self.0.open(ast::UNOPS[*o as usize % ast::UNOPS.len()]);
                self.expr(a);
            }
            E::Upd { prefix, inc, arg } => {
                self.0.open(match (prefix, inc) {
                    (true, true) => "++_",
                    (true, false) => "--_",
                    (false, true) => "_++",
                    (false, false) => "_--",
                });
                self.expr(arg);
            }
            E::Bin(o, a, b) => {
                self.0.open(ast::BINOPS[*o as usize % ast::BINOPS.len()].0);
                self.expr(a);
                self.expr(b);
            }
            E::Asg(o, t, v) => {
                self.0.open(ast::ASSOPS[*o as usize % ast::ASSOPS.len()]);
                self.pattern(t);
                self.expr(v);
            }
            E::Cond(a, b, c) => {
                self.0.open("?:");
                self.expr(a);
                self.expr(b);
                self.expr(c);
            }
            E::Call(c, v) => {
                self.0.open("call");
                self.expr(c);
                self.args(v);
            }
            E::New(c, v) => {
                self.0.open(if v.is_some() { "new" } else { "new-" });
                self.expr(c);
                self.args(v.as_ref().map_or(&[], |v| &v[..]));
            }
            E::Dot(o, k) => {
                self.0.open(".");
                self.expr(o);
                self.key(k);
            }
            E::Brk(o, i) => {
                self.0.open("@");
                self.expr(o);
                self.expr(i);
            }
            _ => unreachable!(),
        }
        self.0.close();
    }
}

// ---------------------------------------------------------- the library's

/// The shape of a tree, and which of its semicolons were written, in order.
pub fn of_tree(t: &Tree) -> (String, Vec<bool>) {
    let mut s = Shape { p: Pen::default(), semis: vec![] };
    match t {
        Tree::Script(b) | Tree::Program(Program::Ambiguous(_, b)) => s.body(b),
        Tree::Module(m) | Tree::Program(Program::Module(m)) => {
            s.p.open("body");
            s.dirs(&m.dirs);
            for i in &m.items {
                match *i {
                    ModItem::StmtListItem(ref i) => s.item(i),
                    _ => s.p.w("module-item"),
                }
            }
            s.p.close();
        }
    }
    (s.p.0, s.semis)
}

struct Shape {
    p: Pen,
    semis: Vec<bool>,
}
impl Shape {
    fn body(&mut self, b: &Script) {
        self.p.open("body");
        self.dirs(&b.dirs);
        self.items(&b.items);
        self.p.close();
    }
    fn dirs(&mut self, v: &[Dir]) {
        for d in v {
            self.p.open("dir");
            self.string(&d.string);
            self.semi(&d.semi);
            self.p.close();
        }
    }
    fn items(&mut self, v: &[StmtListItem]) {
        for i in v {
            self.item(i);
        }
    }
    fn item(&mut self, i: &StmtListItem) {
        match *i {
            StmtListItem::Stmt(ref s) => self.stmt(s),
            StmtListItem::Decl(Decl::Fun(ref f)) => {
                self.p.open("function");
                self.id(&f.id);
                self.fun(f);
                self.p.close();
            }
            StmtListItem::Decl(Decl::Let(_, ref d, ref s)) => {
                self.dtors("let", d);
                self.semi(s);
            }
            StmtListItem::Decl(Decl::Const(_, ref d, ref s)) => {
                self.consts(d);
                self.semi(s);
            }
        }
    }
    fn semi(&mut self, s: &Semi) {
        self.semis.push(matches!(*s, Semi::Explicit(_)));
    }
    fn id(&mut self, i: &Id) {
        self.p.id(i.name.as_ref());
    }
    fn string(&mut self, s: &StringLiteral) {
        self.p.string(&s.value);
    }
    fn num(&mut self, n: &NumberLiteral) {
        self.p.num(n.value);
    }
    fn regexp(&mut self, r: &RegExpLiteral) {
        self.p.regexp(&r.pattern, &r.flags.iter().collect::<String>());
    }
    fn opt(&mut self, e: &Option<Expr>) {
        match *e {
            Some(ref e) => self.expr(e),
            None => self.p.none(),
        }
    }
    fn block(&mut self, b: &Block) {
        self.p.open("block");
        self.items(&b.items);
        self.p.close();
    }
    fn dtors(&mut self, k: &str, v: &[Dtor]) {
        self.p.open(k);
        for d in v {
            self.p.open("d");
            match *d {
                Dtor::Simple(_, ref i, ref e) => {
                    self.id(i);
                    self.opt(e);
                }
                Dtor::Compound(_, ref c, ref e) => {
                    self.compound(c, &mut |s, i| s.id(i));
                    self.expr(e);
                }
            }
            self.p.close();
        }
        self.p.close();
    }
    fn consts(&mut self, v: &[ConstDtor]) {
        self.p.open("const");
        for d in v {
            self.p.open("d");
            self.bind(&d.patt);
            self.expr(&d.value);
            self.p.close();
        }
        self.p.close();
    }
    fn bind(&mut self, p: &Patt<Id>) {
        self.patt(p, &mut |s, i| s.id(i));
    }
    fn patt<T>(&mut self, p: &Patt<T>, f: &mut dyn FnMut(&mut Shape, &T)) {
        match *p {
            Patt::Simple(ref x) => f(self, x),
            Patt::Compound(ref c) => self.compound(c, f),
        }
    }
    fn compound<T>(&mut self, c: &CompoundPatt<T>, f: &mut dyn FnMut(&mut Shape, &T)) {
        match *c {
            CompoundPatt::Arr(_, ref v, ref rest) => {
                self.p.open("[]");
                for p in v {
                    match *p {
                        Some(ref p) => self.patt(p, f),
                        None => self.p.none(),
                    }
                }
                if let Some(ref r) = *rest {
                    self.p.open("rest");
                    self.patt(&r.patt, f);
                    self.p.close();
                }
                self.p.close();
            }
            CompoundPatt::Obj(_, ref v) => {
                self.p.open("{}");
                for p in v {
                    match *p {
                        PropPatt::Regular(_, ref k, ref p) => {
                            self.p.open(":");
                            self.key(k);
                            self.patt(p, f);
                            self.p.close();
                        }
                        PropPatt::Shorthand(ref i) => self.id(i),
                    }
                }
                self.p.close();
            }
        }
    }
    fn target(&mut self, t: &AssignTarget) {
        match *t {
            AssignTarget::Id(ref i) => self.id(i),
            AssignTarget::Dot(_, ref o, ref k) => {
                self.p.open(".");
                self.expr(o);
                self.p.id(&k.value);
                self.p.close();
            }
            AssignTarget::Brack(_, ref o, ref i) => {
                self.p.open("@");
                self.expr(o);
                self.expr(i);
                self.p.close();
            }
        }
    }
    fn params(&mut self, p: &Params) {
        self.p.open("params");
        for p in &p.list {
            self.bind(p);
        }
        if let Some(ref r) = p.rest {
            self.p.open("rest");
            self.bind(&r.patt);
            self.p.close();
        }
        self.p.close();
    }
    fn fun<T>(&mut self, f: &Fun<T>) {
        if f.generator {
            self.p.w("*");
        }
        self.params(&f.params);
        self.body(&f.body);
    }
    fn stmt(&mut self, s: &Stmt) {
        match *s {
            Stmt::Empty(_) => self.p.w("empty"),
            Stmt::Block(ref b) => self.block(b),
            Stmt::Debugger(_, ref s) => {
                self.p.w("debugger");
                self.semi(s);
            }
            Stmt::Var(_, ref d, ref s) => {
                self.dtors("var", d);
                self.semi(s);
            }
            Stmt::Expr(_, ref e, ref s) => {
                self.p.open("expr");
                self.expr(e);
                self.semi(s);
                self.p.close();
            }
            Stmt::If(_, ref e, ref a, ref b) => {
                self.p.open("if");
                self.expr(e);
                self.stmt(a);
                match *b {
                    Some(ref b) => self.stmt(b),
                    None => self.p.none(),
                }
                self.p.close();
            }
            Stmt::Label(_, ref i, ref b) => {
                self.p.open("label");
                self.id(i);
                self.stmt(b);
                self.p.close();
            }
            Stmt::Break(_, ref i, ref s) => self.jump("break", i, s),
            Stmt::Cont(_, ref i, ref s) => self.jump("continue", i, s),
            Stmt::With(_, ref e, ref b) => self.headed("with", e, b),
            Stmt::While(_, ref e, ref b) => self.headed("while", e, b),
            Stmt::DoWhile(_, ref b, ref e, ref s) => {
                self.p.open("do");
                self.stmt(b);
                self.expr(e);
                self.semi(s);
                self.p.close();
            }
            Stmt::Switch(_, ref e, ref cs) => {
                self.p.open("switch");
                self.expr(e);
                for c in cs {
                    self.p.open("case");
                    self.opt(&c.test);
                    self.items(&c.body);
                    self.p.close();
                }
                self.p.close();
            }
            Stmt::Return(_, ref e, ref s) => {
                self.p.open("return");
                self.opt(e);
                self.semi(s);
                self.p.close();
            }
            Stmt::Throw(_, ref e, ref s) => {
                self.p.open("throw");
                self.expr(e);
                self.semi(s);
                self.p.close();
            }
            Stmt::Try(_, ref b, ref c, ref f) => {
                self.p.open("try");
                self.block(b);
                match *c {
                    Some(ref c) => {
                        self.bind(&c.param);
                        self.block(&c.body);
                    }
                    None => self.p.none(),
                }
                match *f {
                    Some(ref f) => self.block(f),
                    None => self.p.none(),
                }
                self.p.close();
            }
            Stmt::For(_, ref h, ref t, ref u, ref b) => {
                self.p.open("for");
                match h.as_ref().map(|h| &**h) {
                    None => self.p.none(),
                    Some(&ForHead::Var(_, ref d)) => self.dtors("var", d),
                    Some(&ForHead::Let(_, ref d)) => self.dtors("let", d),
                    Some(&ForHead::Const(_, ref d)) => self.consts(d),
                    Some(&ForHead::Expr(_, ref e)) => self.expr(e),
                }
                self.opt(t);
                self.opt(u);
                self.stmt(b);
                self.p.close();
            }
            Stmt::ForIn(_, ref h, ref e, ref b) => {
                self.p.open("for-in");
                match **h {
                    ForInHead::VarInit(_, ref i, ref e) => {
                        self.p.w("init");
                        self.id(i);
                        self.expr(e);
                    }
                    ForInHead::Var(_, ref p) => self.left("var", p),
                    ForInHead::Let(_, ref p) => self.left("let", p),
                    ForInHead::Const(_, ref p) => self.left("const", p),
                    ForInHead::Patt(ref p) => self.patt(p, &mut |s, t| s.target(t)),
                }
                self.expr(e);
                self.stmt(b);
                self.p.close();
            }
            Stmt::ForOf(_, ref h, ref e, ref b) => {
                self.p.open("for-of");
                match **h {
                    ForOfHead::Var(_, ref p) => self.left("var", p),
                    ForOfHead::Let(_, ref p) => self.left("let", p),
                    ForOfHead::Const(_, ref p) => self.left("const", p),
                    ForOfHead::Patt(ref p) => self.patt(p, &mut |s, t| s.target(t)),
                }
                self.expr(e);
                self.stmt(b);
                self.p.close();
            }
        }
    }
    fn left(&mut self, k: &str, p: &Patt<Id>) {
        self.p.w(k);
        self.bind(p);
    }
    fn jump(&mut self, k: &str, i: &Option<Id>, s: &Semi) {
        self.p.open(k);
        match *i {
            Some(ref i) => self.id(i),
            None => self.p.none(),
        }
        self.semi(s);
        self.p.close();
    }
    fn headed(&mut self, k: &str, e: &Expr, b: &Stmt) {
        self.p.open(k);
        self.expr(e);
        self.stmt(b);
        self.p.close();
    }
    fn key(&mut self, k: &PropKey) {
        match *k {
            PropKey::Id(_, ref s) => self.p.id(s),
            PropKey::String(_, ref s) => self.string(s),
            PropKey::Number(_, ref n) => self.num(n),
        }
    }
    fn arg(&mut self, i: &ExprListItem) {
        match *i {
            ExprListItem::Expr(ref e) => self.expr(e),
            ExprListItem::Spread(_, ref e) => {
                self.p.open("...");
                self.expr(e);
                self.p.close();
            }
        }
    }
    fn two(&mut self, o: &str, a: &Expr, b: &Expr) {
        self.p.open(o);
        self.expr(a);
        self.expr(b);
    }
    fn upd(&mut self, o: &str, t: &AssignTarget) {
        self.p.open(o);
        self.target(t);
    }
    fn expr(&mut self, e: &Expr) {
        match *e {
            Expr::This(_) => return self.p.w("this"),
            Expr::Null(_) => return self.p.w("null"),
            Expr::True(_) => return self.p.w("true"),
            Expr::False(_) => return self.p.w("false"),
            Expr::NewTarget(_) => return self.p.w("new.target"),
            Expr::Id(ref i) => return self.id(i),
            Expr::Number(_, ref n) => return self.num(n),
            Expr::String(_, ref s) => return self.string(s),
            Expr::RegExp(_, ref r) => return self.regexp(r),
            Expr::Arr(_, ref v) => {
                self.p.open("array");
                for a in v {
                    match *a {
                        Some(ref a) => self.arg(a),
                        None => self.p.none(),
                    }
                }
            }
            Expr::Obj(_, ref v) => {
                self.p.open("object");
                for p in v {
                    match *p {
                        Prop::Shorthand(ref i) => {
                            self.id(i);
                            continue;
                        }
                        Prop::Method(ref f) => {
                            self.p.open("method");
                            self.key(&f.id);
                            self.fun(f);
                        }
                        Prop::Regular(_, ref k, PropVal::Init(ref e)) => {
                            self.p.open(":");
                            self.key(k);
                            self.expr(e);
                        }
                        Prop::Regular(_, ref k, PropVal::Get(_, ref b)) => {
                            self.p.open("get");
                            self.key(k);
                            self.body(b);
                        }
                        Prop::Regular(_, ref k, PropVal::Set(_, ref p, ref b)) => {
                            self.p.open("set");
                            self.key(k);
                            self.bind(p);
                            self.body(b);
                        }
                    }
                    self.p.close();
                }
            }
            Expr::Fun(ref f) => {
                self.p.open("function");
                match f.id {
                    Some(ref i) => self.id(i),
                    None => self.p.none(),
                }
                self.fun(f);
            }
            Expr::Seq(_, ref v) => {
                self.p.open(",");
                for e in v {
                    self.expr(e);
                }
            }
            Expr::Unop(_, ref o, ref a) => {
                self.p.open(unop(&o.tag));
                self.expr(a);
            }
            Expr::Binop(_, ref o, ref a, ref b) => self.two(binop(&o.tag), a, b),
            Expr::Logop(_, ref o, ref a, ref b) => self.two(
                match o.tag {
                    LogopTag::Or => "||",
                    LogopTag::And => "&&",
                },
                a,
                b,
            ),
            Expr::PreInc(_, ref t) => self.upd("++_", t),
            Expr::PreDec(_, ref t) => self.upd("--_", t),
            Expr::PostInc(_, ref t) => self.upd("_++", t),
            Expr::PostDec(_, ref t) => self.upd("_--", t),
            Expr::Assign(_, ref p, ref e) => {
                self.p.open("=");
                self.patt(p, &mut |s, t| s.target(t));
                self.expr(e);
            }
            Expr::BinAssign(_, ref o, ref t, ref e) => {
                self.p.open(assop(&o.tag));
                self.target(t);
                self.expr(e);
            }
            Expr::Cond(_, ref a, ref b, ref c) => {
                self.two("?:", a, b);
                self.expr(c);
            }
            Expr::Call(_, ref c, ref v) => {
                self.p.open("call");
                self.expr(c);
                for a in v {
                    self.arg(a);
                }
            }
            Expr::New(_, ref c, ref v) => {
                self.p.open(if v.is_some() { "new" } else { "new-" });
                self.expr(c);
                for a in v.iter().flatten() {
                    self.arg(a);
                }
            }
            Expr::Dot(_, ref o, ref k) => {
                self.p.open(".");
                self.expr(o);
                self.p.id(&k.value);
            }
            Expr::Brack(_, ref o, ref i) => self.two("@", o, i),
        }
        self.p.close();
    }
}

/// Where two shapes part.
pub fn differ(want: &str, got: &str) -> Option<String> {
    if want == got {
        return None;
    }
    let at = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let from = (0..=at.saturating_sub(60).min(s.len())).rev().find(|&k| s.is_char_boundary(k)).unwrap_or(0);
        s[from..].chars().take(160).collect::<String>()
    };
    Some(format!("it should read …{}… but reads …{}…", cut(want), cut(got)))
}
